package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"time"
)

func main() {
	id := flag.String("id", "", "property")
	tier := flag.String("tier", "quick", "quick or thorough")
	seed := flag.Uint64("seed", 1, "seed")
	worker := flag.String("worker", "", "worker binary")
	race := flag.String("race", "", "race-detector worker binary")
	scratch := flag.String("scratch", "", "scratch directory")
	evidence := flag.String("evidence", "", "evidence directory")
	replay := flag.String("replay", "", "replay a violation file")
	mine := flag.Bool("mine", false, "mine special inputs")
	needRace := flag.Bool("need-race", false, "print whether the check needs the race build")
	mkForge := flag.String("forge", "", "write the overlay of the standard library into this directory")
	mkPause := flag.String("pause", "", "write the overlay with points to wait at, of the packages listed on standard input, into this directory")
	mkHints := flag.Bool("literals", false, "print the constants of the packages listed on standard input")
	hintFile := flag.String("hints", "", "constants that steer the workload")
	budget := flag.Int("budget", 600, "seconds after which a thorough run starts no further round")
	known := flag.String("known", "", "known-findings file")
	flag.Parse()
	start := time.Now()
	if *mkForge != "" {
		if err := forge(os.Getenv("GOROOT"), *mkForge); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		return
	}
	if *mkPause != "" {
		b, err := io.ReadAll(os.Stdin)
		if err == nil {
			err = pauses(string(b), *mkPause)
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		return
	}
	if *mkHints {
		b, err := io.ReadAll(os.Stdin)
		if err == nil {
			b, err = literals(string(b))
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		os.Stdout.Write(b)
		return
	}
	if err := loadLists(); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	if *mine {
		doMine()
		return
	}
	if err := loadSpecial(); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	ck, ok := checks[*id]
	if !ok && *replay == "" {
		fmt.Fprintln(os.Stderr, "unknown property", *id)
		os.Exit(2)
	}
	if *needRace {
		fmt.Println(ck.race)
		return
	}
	if err := selfTest(); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	loadHints(*hintFile, *seed)
	c := newCtx(*id, *tier, *seed)
	c.Worker, c.Race, c.Scratch = *worker, *race, *scratch
	if *replay != "" {
		doReplay(c, *replay)
		return
	}
	rounds := 1
	ck.run(c)
	if c.Tier == "thorough" { // again and again with fresh random choices
		for ; time.Since(start) < time.Duration(*budget)*time.Second && !c.Stopped(); rounds++ {
			ck.run(c)
		}
	}
	c.extra["rounds"] = rounds
	c.extra["constants_in_the_source_that_steer_the_workload"] = map[string]int{"numbers": len(hints.ints), "texts": len(hints.Strings), "scalars": len(hints.scalars)}

	findings := loadKnown(*known)
	var news []Violation
	for _, v := range c.viol {
		if k := findings.match(v); k != "" {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.ID, k)
		} else {
			news = append(news, v)
		}
	}
	cov := map[string]any{
		"evaluations": c.evals, "distinct_nontrivial": len(c.distinct), "rule": ck.rule, "samples": c.samples,
		"breakdown": c.counts, "worker_processes": c.processes, "worker_deaths": c.deaths,
	}
	for k, v := range c.extra {
		cov[k] = v
	}
	if len(c.incon) > 0 {
		cov["inconclusive"] = c.incon
	}
	ev := map[string]any{
		"property": c.ID, "tier": c.Tier, "seed": int(c.Seed), "level": ck.level, "coverage": cov,
		"assumptions": append([]string{
			"the monitor's reference implementation (checked against published vectors at start-up) is right",
			"Go's math/big, SHA-2, HMAC and, for C17, the race detector are right",
		}, c.assume...),
		"wall_s": time.Since(start).Seconds(), "violations": len(news),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	if *evidence != "" {
		os.MkdirAll(*evidence, 0o755)
		if err := os.WriteFile(filepath.Join(*evidence, c.ID+".json"), append(b, '\n'), 0o644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
	}
	fmt.Printf("%s %s seed=%d: %d evaluations, %d distinct non-trivial, %d processes, %.1f s\n", c.ID, c.Tier, c.Seed, c.evals, len(c.distinct), c.processes, time.Since(start).Seconds())
	if len(news) > 0 {
		for i, v := range news {
			p := filepath.Join(*evidence, "replay", fmt.Sprintf("%s-%d.json", c.ID, i))
			os.MkdirAll(filepath.Dir(p), 0o755)
			b, _ := json.MarshalIndent(v, "", " ")
			os.WriteFile(p, b, 0o644)
			fmt.Printf("  %s\n", clip(v.What, 1500))
			fmt.Printf("VIOLATION property=%s replay=%s\n", c.ID, p)
		}
		os.RemoveAll(c.Scratch)
		os.Exit(1)
	}
	if c.evals == 0 || len(c.distinct) == 0 {
		fmt.Fprintln(os.Stderr, "inconclusive: nothing was observed")
		os.Exit(2)
	}
}

// doReplay runs the history and the scenario of a violation again and prints what happens.
func doReplay(c *Ctx, path string) {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	var v Violation
	if err := json.Unmarshal(b, &v); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	fmt.Println(v.Property, v.What)
	if v.Job != nil {
		for i := 0; i < 3; i++ {
			r := c.runConc(v.Job, c.Race != "")
			fmt.Printf("run %d: %d races, death %q\n", i, len(r.races), r.death)
			for _, x := range r.races {
				fmt.Println(x)
				break
			}
			if r.out != nil {
				fmt.Printf("%d mismatches, mutated %v\n", len(r.out.Mismatches), r.out.Mutated)
			}
		}
		return
	}
	if v.Scenario == nil {
		return
	}
	for _, hist := range [][]int{nil, {1}} {
		part := append([]int{}, hist...)
		scs := v.History
		if part == nil || len(part) == 0 {
			scs = nil
			fmt.Println("--- scenario alone")
		} else {
			fmt.Printf("--- after %d scenarios of history\n", len(scs))
		}
		scs = append(scs[:len(scs):len(scs)], *v.Scenario)
		last := v.Scenario.ID
		_, evs, d, err := c.session(scs, func(sc *(scenarioAlias), evs []evAlias, _ int) {
			if sc.ID == last {
				for i := range evs {
					_, _, _, bad := judge(&sc.Ops[i], &evs[i], nil)
					b, _ := json.Marshal(evs[i])
					fmt.Printf("%d %s: %s\n   oracle: %q\n", i, sc.Ops[i].K, b, bad)
				}
			}
		}, 90*time.Second)
		if err != nil {
			fmt.Println("error:", err)
		}
		if d != nil {
			fmt.Printf("died at operation %d after %d events: %s\n", d.I, len(evs), d)
		}
	}
}

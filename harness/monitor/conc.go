package main

import (
	"fmt"
	"math/big"
	"math/rand/v2"
	"os"
	"path/filepath"
	"strings"
	"sync"

	. "aaverif/proto"
)

// concTable builds shared keys (literals, so that building them calls nothing)
// and a table of calls on them and on texts, successful and failing.
func concTable(r *rand.Rand) (prelude []Op, slots int, byKind map[string][]Op) {
	byKind = map[string][]Op{}
	add := func(o Op) { byKind[o.K] = append(byKind[o.K], o) }
	n1 := new(big.Int).Sub(fn, one)
	ks := []*big.Int{one, two, big.NewInt(3), n1, new(big.Int).Sub(fn, two), genScalar(r), randScalar(r), randScalar(r), new(big.Int).Rsh(randScalar(r), 12), new(big.Int).Rsh(fn, 1)}
	if sp := specialScalars(); len(sp) > 0 {
		ks = append(ks, sp[r.IntN(len(sp))], sp[r.IntN(len(sp))])
	}
	var priv, pub []int
	for i, k := range ks {
		nt := []*Net{main_, main_, test_}[i%3]
		np, _ := netOf(nt)
		slots++
		prelude = append(prelude, mkPriv(k, nt, slots))
		priv = append(priv, slots)
		p := mulG(k)
		slots++
		prelude = append(prelude, mkPub(p, nt, slots))
		pub = append(pub, slots)
		slots++
		prelude = append(prelude, mkPub(p.neg(), nt, slots))
		pub = append(pub, slots)

		add(Op{K: "privFromHex", S: []byte(mixCase(r, hex64(k))), Net: nt, Out: 1})
		add(Op{K: "privFromHex", S: []byte(mutateText(r, hex64(k), "0123456789abcdefg")), Net: nt, Out: 1})
		for _, cp := range []bool{true, false} {
			w := refWIF(k, np, cp)
			add(Op{K: "privFromWIF", S: []byte(w), Net: nt, Out: 1})
			add(Op{K: "privFromWIF", S: []byte(w), Net: []*Net{test_, main_}[i%2], Out: 1})
			add(Op{K: "checkWIF", S: []byte(w)})
			add(Op{K: "checkWIF", S: []byte(mutateText(r, w, b58))})
			add(Op{K: "pubFromHex", S: []byte(refFormat(p, cp)), Net: nt, Out: 1})
			add(Op{K: "pubFromHex", S: []byte(refFormat(p.neg(), cp)), Net: nt, Out: 1})
			add(Op{K: "pubFromHex", S: []byte(mutateText(r, refFormat(p, cp), "0123456789abcdef")), Net: nt, Out: 1})
		}
		x := new(big.Int).SetBytes(randBytes(r, 31))
		add(Op{K: "pubFromHex", S: []byte(fmt.Sprintf("02%064x", x)), Net: nt, Out: 1})
		add(Op{K: "pubFromHex", S: []byte(fmt.Sprintf("03%064x", x)), Net: nt, Out: 1})
	}
	for _, s := range []string{"", "1", "zz", "04", "11111", "0OIl"} {
		for _, k := range []string{"privFromHex", "privFromWIF", "checkWIF", "pubFromHex"} {
			add(Op{K: k, S: []byte(s), Net: main_, Out: 1})
		}
	}
	for _, a := range priv {
		add(Op{K: "getPub", A: a, Out: 1})
		for j := 0; j < 4; j++ {
			b := priv[r.IntN(len(priv))]
			add(Op{K: "addPriv", A: a, B: b, Out: 1})
			add(Op{K: "mulPriv", A: a, B: b, Out: 1})
		}
	}
	for _, s := range []string{"0", hexs(fn), "nil"} { // refused derivations
		slots++
		prelude = append(prelude, Op{K: "mkPriv", X: s, Net: main_, Out: slots})
		add(Op{K: "getPub", A: slots, Out: 1})
	}
	for i, a := range pub {
		for _, f := range []bool{true, false} {
			add(Op{K: "format", A: a, F: f})
			add(Op{K: "address", A: a, F: f})
		}
		add(Op{K: "addPub", A: a, B: a, Out: 1})
		add(Op{K: "addPub", A: a, B: pub[i^1], Out: 1})
		for j := 0; j < 3; j++ {
			add(Op{K: "addPub", A: a, B: pub[r.IntN(len(pub))], F: j%2 == 0, Out: 1})
		}
	}
	for _, nt := range []*Net{main_, test_, litNet("b0", "30")} {
		add(Op{K: "genPriv", Net: nt, Out: 1})
	}
	lists := append(append([]string{}, ListNames...), "custom:2048", "rev", "swap:1:2")
	for i, l := range lists {
		n := mnemonicLens[i%5]
		add(Op{K: "newMnemonic", N: n, List: l})
		add(Op{K: "newMnemonic", N: mnemonicLens[(i+1)%5], List: l})
		ph := refEncode(genEntropy(r, n), l)
		pass := genPass(r)
		add(Op{K: "newSeed", S: []byte(ph), S2: []byte(pass), List: l})
		add(Op{K: "newSeed", S: []byte(ph), S2: []byte(pass + "x"), List: l})
		iv := invalidPhrases(r, ph, l, false)
		add(Op{K: "newSeed", S: []byte(iv[r.IntN(len(iv))]), List: l})
		add(Op{K: "newSeed", S: []byte(ph), List: lists[r.IntN(len(lists))]})
	}
	for _, b := range branches(r, 2) { // every way a call can end
		if o := b.call; o.K != "genPriv" && (o.K != "newMnemonic" || o.N != 12 && o.N != 15) {
			for _, m := range b.mk {
				m.Out += slots
				prelude = append(prelude, m)
			}
			if o.A > 0 {
				o.A += slots
			}
			if o.B > 0 {
				o.B += slots
			}
			slots += len(b.mk)
			add(o)
		}
	}
	add(Op{K: "newMnemonic", N: 13, List: "English"})
	add(Op{K: "newMnemonic", N: 12, List: "custom:11"})
	add(Op{K: "newSeed", S: []byte("a b c"), List: "English"})
	return
}

var opKinds = []string{"privFromHex", "privFromWIF", "checkWIF", "genPriv", "addPriv", "mulPriv", "getPub", "pubFromHex", "format", "address", "addPub", "newMnemonic", "newSeed"}

type concRun struct {
	job   *ConcJob
	race  bool
	label string
	cost  int // estimated milliseconds, for ordering only
}

func c17(c *Ctx) {
	r := c.R
	tables := 2
	if c.Tier == "thorough" {
		tables = 12
	}
	var runs []concRun
	for t := 0; t < tables && !c.Stopped(); t++ {
		prelude, slots, byKind := concTable(r)
		var all []Op
		for _, k := range opKinds {
			all = append(all, byKind[k]...)
		}
		expect, ok := c.expected(prelude, slots, all)
		if !ok {
			return
		}
		exp := map[string][]Ev{}
		pos := 0
		for _, k := range opKinds {
			exp[k] = expect[pos : pos+len(byKind[k])]
			pos += len(byKind[k])
		}
		sel := func(kinds []string, max int, filter func(Op) bool) ([]Op, []Ev) {
			var ops []Op
			var evs []Ev
			for _, k := range kinds {
				for i, o := range byKind[k] {
					if filter == nil || filter(o) {
						ops, evs = append(ops, o), append(evs, exp[k][i])
					}
				}
			}
			if max > 0 && len(ops) > max {
				r.Shuffle(len(ops), func(i, j int) { ops[i], ops[j] = ops[j], ops[i]; evs[i], evs[j] = evs[j], evs[i] })
				ops, evs = ops[:max], evs[:max]
			}
			return ops, evs
		}
		slow := map[string]bool{"getPub": true, "newSeed": true}
		job := func(label string, race bool, kinds []string, max int, filter func(Op) bool, g, rounds, per, procs int) {
			ops, evs := sel(kinds, max, filter)
			if len(ops) == 0 {
				return
			}
			runs = append(runs, concRun{race: race, label: label, job: &ConcJob{Prelude: prelude, Slots: slots, Table: ops, Expect: evs, G: g, Rounds: rounds, PerG: per, Procs: procs,
				Seed: r.Uint64(), Yield: r.IntN(2) == 0, Same: r.IntN(3) == 0, Overlap: !race, Jitter: r.IntN(2) == 0}})
		}
		// the very first calls of the process, all goroutines in the same function
		for _, k := range opKinds {
			per := 12
			if slow[k] {
				per = 3
			}
			job("cold same function", true, []string{k}, 0, nil, 8, 1, per, 8)
			job("cold one call", true, []string{k}, 1, nil, 6, 1, 2, 4)
			job("cold few calls", true, []string{k}, 3, nil, 8, 1, per/2+1, 2+r.IntN(7))
			// two functions against each other
			k2 := opKinds[r.IntN(len(opKinds))]
			job("cold two functions", true, []string{k, k2}, 24, nil, 8, 1, per, 8)
		}
		for _, l := range append(append([]string{}, ListNames...), "custom:2048") {
			job("cold word list", true, []string{"newMnemonic", "newSeed"}, 0, func(o Op) bool { return o.List == l }, 8, 1, 3, 8)
		}
		for i := 0; i < 10; i++ {
			job("cold mixed", true, opKinds, 40, nil, 8, 1, 10, 1+r.IntN(8))
		}
		// long mixed runs
		var fast []string
		for _, k := range opKinds {
			if !slow[k] {
				fast = append(fast, k)
			}
		}
		for i := 0; i < 3; i++ {
			job("hot mixed", true, opKinds, 0, nil, 8+8*i, 2, 40, 8)
			job("hot fast mixed", true, fast, 0, nil, 16, 2, 250, 8)
			job("plain mixed", false, opKinds, 0, nil, 16+16*i, 2, 60, 2+3*i)
			job("plain fast mixed", false, fast, 0, nil, 32, 3, 1500, 8)
		}
		for _, k := range opKinds {
			per := 3000
			if slow[k] {
				per = 60
			}
			job("plain same function", false, []string{k}, 0, nil, 16, 2, per, 8)
		}
		// very many goroutines
		job("cold crowd", true, opKinds, 0, nil, 400, 1, 2, 8)
		job("plain crowd", false, opKinds, 0, nil, 1500, 1, 3, 8)
		for _, k := range opKinds {
			job("plain crowd, same function", false, []string{k}, 0, nil, 1200, 1, map[bool]int{true: 1, false: 6}[slow[k]], 2+r.IntN(7))
		}
		for i, g := range hintNumbers(65, 3000) { // as many as the numbers in the source
			if i%3 == 2 && t == 0 {
				job("plain crowd, hinted size", false, opKinds, 0, nil, g, 1, 2, 8)
				job("plain crowd, hinted size", false, fast, 0, nil, g, 1, 6, 8)
			}
		}
		// a point to wait at before every statement
		if c.pausing() {
			wait := func(weight, kind int, label string, kinds []string, max int, filter func(Op) bool, g, per, procs int) {
				n := len(runs)
				job(label, false, kinds, max, filter, g, 1, per, procs)
				if len(runs) > n {
					x := runs[n].job
					x.Pause = fmt.Sprintf("%d,%d,%d", weight, kind, r.Uint32())
				}
			}
			for _, k := range opKinds {
				per := 60
				if slow[k] {
					per = 12
				}
				k2 := opKinds[r.IntN(len(opKinds))]
				wait(1000, 0, "paused same function", []string{k}, 0, nil, 8, per, 1+r.IntN(8))
				wait(60, 2, "paused same function", []string{k}, 0, nil, 16, per, 8)
				wait(300, 1, "paused few calls", []string{k}, 3, nil, 16, per, 2+r.IntN(7))
				wait(100, 2, "paused one call", []string{k}, 1, nil, 8, per/2, 8)
				wait(60, 2, "paused two functions", []string{k, k2}, 0, nil, 12, per, 8)
			}
			for _, l := range append(append([]string{}, ListNames...), "custom:2048") {
				wait(40, 2, "paused word list", []string{"newMnemonic", "newSeed"}, 0, func(o Op) bool { return o.List == l }, 8, 12, 8)
			}
			for i := 0; i < 8; i++ {
				wait([]int{1000, 100, 30, 300}[i%4], i%3, "paused mixed", opKinds, []int{0, 40, 8}[i%3], nil, 8<<(i%3), 30, 1+i)
			}
			for i := 0; i < 3; i++ {
				ks := [][]string{{"genPriv"}, {"newMnemonic"}, {"genPriv", "newMnemonic"}}[i%3]
				wait(100, 2, "paused generation", ks, 0, nil, 16, 60, 8)
				x := runs[len(runs)-1].job
				x.Jitter, x.Record = true, true
				wait(100, 2, "paused generation, failing source", ks, 0, nil, 16, 60, 8)
				runs[len(runs)-1].job.Broken = true
			}
		}
		// generation from a slow source; what each call got is known
		for i := 0; i < 6; i++ {
			ks := [][]string{{"genPriv"}, {"newMnemonic"}, {"genPriv", "newMnemonic"}}[i%3]
			job("plain generation", false, ks, 0, nil, []int{4, 16, 32}[i%3], 2, 200, 2+r.IntN(7))
			x := runs[len(runs)-1].job
			x.Jitter, x.Record = true, true
			// and from a source that fails now and then
			job("cold generation, failing source", true, ks, 0, nil, 8, 1, 12, 8)
			runs[len(runs)-1].job.Broken = true
			job("plain generation, failing source", false, ks, 0, nil, 16, 2, 200, 8)
			runs[len(runs)-1].job.Broken = true
		}
	}
	calls := map[string]int{}
	jobs := map[string]int{}
	overlap := map[string]int{}
	races := 0
	var alone []Scenario
	var want []string
	var mu sync.Mutex
	sem := make(chan struct{}, 6)
	var wg sync.WaitGroup
	for i := range runs {
		if c.Stopped() {
			break
		}
		wg.Add(1)
		sem <- struct{}{}
		go func(x concRun) {
			defer wg.Done()
			defer func() { <-sem }()
			if c.Stopped() {
				return
			}
			res := c.runConc(x.job, x.race)
			if res.hang { // confirm
				again := false
				for k := 0; k < 2 && !again; k++ {
					r2 := c.runConc(x.job, x.race)
					again = r2.hang
				}
				if !again {
					c.mu.Lock()
					c.incon = append(c.incon, x.label+": a job did not finish in time once, fine when repeated")
					c.mu.Unlock()
					return
				}
			}
			mu.Lock()
			defer mu.Unlock()
			jobs[x.label]++
			kinds := map[string]bool{}
			for _, o := range x.job.Table {
				kinds[o.K] = true
			}
			mode := "plain"
			if x.race {
				mode = "race detector"
			}
			if x.job.Pause != "" {
				mode = "paused"
			}
			c.Judged("job "+mode+": "+x.label, fmt.Sprintf("%d goroutines x %d rounds x %d calls, GOMAXPROCS %d, yield %v, same order %v, %d functions, seed %d", x.job.G, x.job.Rounds, x.job.PerG, x.job.Procs, x.job.Yield, x.job.Same, len(kinds), x.job.Seed), true)
			fail := func(what string, detail any) {
				c.Violate(Violation{What: x.label + ": " + what, Job: x.job, Detail: detail})
			}
			if len(res.races) > 0 {
				races += len(res.races)
				fail("data race between concurrent calls: "+clip(res.races[0], 1200), res.races[:1])
				c.mu.Lock()
				c.stop = c.stop || len(c.viol) >= 2
				c.mu.Unlock()
				return
			}
			if res.out == nil && x.job.Broken && strings.Contains(res.stderr, noRandomText) {
				// without random bytes crypto/rand.Read ends the process, alone too
				c.Count("jobs_ended_by_crypto_rand_for_lack_of_random_bytes", 1)
				return
			}
			if res.out == nil {
				fail("the process ended or hung under concurrent calls: "+res.death+" "+clip(res.stderr, 800), nil)
				c.mu.Lock()
				c.stop = true
				c.mu.Unlock()
				return
			}
			for k, n := range res.out.Calls {
				calls[mode+" "+k] += n
				c.mu.Lock()
				c.evals += n
				c.mu.Unlock()
			}
			for k, n := range res.out.Overlap {
				overlap[k] += n
				c.mu.Lock()
				h := uint64(14695981039346656037)
				for _, b := range []byte("overlap " + k) {
					h = (h ^ uint64(b)) * 1099511628211
				}
				c.distinct[h] = struct{}{}
				c.mu.Unlock()
			}
			if len(res.out.Mismatches) > 0 {
				m := res.out.Mismatches[0]
				op := x.job.Table[m.Idx]
				fail(fmt.Sprintf("%s returned %s under concurrency, alone it returns %s", op.K, clip(outcomeOf(&m.Got)+" "+m.Got.Panic, 500), clip(outcomeOf(&x.job.Expect[m.Idx]), 400)), m)
				return
			}
			if len(res.out.Mutated) > 0 {
				fail("a shared argument changed: "+res.out.Mutated[0], nil)
				return
			}
			seen := map[string]bool{}
			for _, m := range res.out.Random {
				op := x.job.Table[m.Idx]
				if _, _, _, bad := judge(&op, &m.Got, nil); bad != "" {
					fail(op.K+" under concurrency: "+bad, m)
					return
				}
				s := op.K + op.List + secretOf(&m.Got)
				if seen[s] {
					fail("two concurrent calls of "+op.K+" gave the same secret", m)
					return
				}
				seen[s] = true
				if n := len(m.Got.Taken); n >= 16 && m.Got.Panic == "" {
					op.Ent, op.Seed, op.Out = m.Got.Taken, 1, 0
					alone = append(alone, Scenario{Ops: []Op{op}})
					want = append(want, secretOf(&m.Got))
				}
			}
		}(runs[i])
	}
	wg.Wait()
	// the same random bytes, alone
	for i := range alone {
		alone[i].Tag = fmt.Sprint(i)
	}
	if !c.Stopped() {
		c.Run(alone, func(sc *Scenario, evs []Ev, d *Death, hist []Scenario) {
			var i int
			fmt.Sscan(sc.Tag, &i)
			o := &sc.Ops[0]
			c.Judged("same bytes alone", fmt.Sprintf("%s %d %x", o.K, o.N, o.Ent), true)
			if d != nil {
				c.bad(sc, 0, nil, hist, "generation alone: "+d.String())
			} else if evs[0].Read == len(o.Ent) && secretOf(&evs[0]) != want[i] {
				c.bad(sc, 0, evs, hist, fmt.Sprintf("%s gave %q under concurrency, alone the same random bytes give %q", o.K, want[i], secretOf(&evs[0])))
			}
		})
	}
	c.extra["points_to_wait_at"] = "not built"
	if b, err := os.ReadFile(filepath.Join(filepath.Dir(c.Worker), "pause", "sites")); err == nil && c.pausing() {
		c.extra["points_to_wait_at"] = string(b)
	}
	c.extra["generations_repeated_alone"] = len(alone)
	c.extra["calls"] = calls
	c.extra["jobs"] = jobs
	c.extra["race_reports"] = races
	c.extra["overlapping_pairs_seen"] = len(overlap)
	c.extra["overlaps"] = overlap
}

// pausing: the worker with points to wait at was built.
func (c *Ctx) pausing() bool {
	_, err := os.Stat(c.Worker + "-pause")
	return err == nil
}

// expected runs every table entry alone, one after the other.
func (c *Ctx) expected(prelude []Op, slots int, table []Op) ([]Ev, bool) {
	const chunks = 8
	scs := make([]Scenario, chunks)
	idx := make([][]int, chunks)
	for i := range scs {
		scs[i] = Scenario{Tag: fmt.Sprint(i), Ops: append([]Op{}, prelude...)}
	}
	for i, o := range table {
		if o.Out > 0 {
			o.Out = slots + 1
		}
		if o.K == "genPriv" || o.K == "newMnemonic" {
			// result is random; only the error is compared
		}
		k := i % chunks
		scs[k].Ops = append(scs[k].Ops, o)
		idx[k] = append(idx[k], i)
	}
	out := make([]Ev, len(table))
	ok := true
	var mu sync.Mutex
	c.Run(scs, func(sc *Scenario, evs []Ev, d *Death, hist []Scenario) {
		mu.Lock()
		defer mu.Unlock()
		if d != nil {
			ok = false
			c.Judged("alone", sc.Tag, true)
			c.bad(sc, d.I, evs, hist, "the call ends the process even when run alone: "+d.String())
			return
		}
		var k int
		fmt.Sscan(sc.Tag, &k)
		for j, i := range idx[k] {
			e := evs[len(prelude)+j]
			out[i] = Ev{R: e.R, Err: e.Err, Panic: strings.SplitN(e.Panic, "\n", 2)[0]}
		}
	})
	return out, ok
}

func init() {
	reg("C17", c17, "jobs of 6 to 64 goroutines over 13 functions on shared keys and lists with succeeding and failing arguments, from a cold start and in long runs, with varying GOMAXPROCS, yields and orders, under the race detector and (for throughput and overlap measurement) without; non-trivial: each job and each pair of functions seen in flight together")
	ck := checks["C17"]
	ck.race = true
	checks["C17"] = ck
}

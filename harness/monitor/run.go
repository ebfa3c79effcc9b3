package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math"
	"math/rand/v2"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strings"
	"sync"
	"time"

	. "aaverif/proto"
)

// Death is the end of a worker process in the middle of an operation.
type Death struct {
	I      int // operation in flight
	Status string
	Stderr string
	Hang   bool
}

func (d *Death) String() string {
	if d.Hang {
		return "the call did not return"
	}
	return "the call terminated the process (" + d.Status + "): " + clip(d.Stderr, 300)
}

// noRandom tells that the process ended because crypto/rand.Read could get no
// random bytes: that is how it refuses, where other functions return an error.
func (d *Death) noRandom() bool { return !d.Hang && strings.Contains(d.Stderr, noRandomText) }

const noRandomText = "fatal error: crypto/rand: failed to read random data"

func clip(s string, n int) string {
	s = strings.TrimSpace(s)
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// Violation is one observed refutation.
type Violation struct {
	Property string      `json:"property"`
	What     string      `json:"what"`
	Scenario *Scenario   `json:"scenario,omitempty"`
	Job      *ConcJob    `json:"job,omitempty"`
	Events   []Ev        `json:"events,omitempty"`
	Detail   interface{} `json:"detail,omitempty"`
	History  []Scenario  `json:"history,omitempty"` // what the same process ran before
}

// Ctx is one run of one check.
type Ctx struct {
	ID, Tier string
	Seed     uint64
	Mult     int // 1 quick, larger thorough
	Worker   string
	Race     string
	Scratch  string
	R        *rand.Rand
	Procs    int

	mu         sync.Mutex
	viol       []Violation
	stop       bool
	evals      int
	distinct   map[uint64]struct{}
	trivial    int
	counts     map[string]int
	samples    []string
	sampleSeen map[string]int
	extra      map[string]any
	rule       string
	assume     []string
	nextID     int
	incon      []string
	processes  int
	deaths     int
	wrap       func(num int, scs []Scenario) (cmd *exec.Cmd, after func()) // starts the worker in a special way
	hung       map[string]int                                              // functions that did not return, with how often
	places     []platform                                                  // see surroundings
	bare       bool                                                        // with no inherited environment
}

// quickMult scales the number of generated cases so that a quick run takes
// roughly 5 to 20 seconds on 8 cores.
var quickMult = map[string]int{"C01": 2, "C09": 2, "C11": 2, "C13": 3, "C23": 2, "C02": 8, "C03": 8, "C04": 6, "C05": 10, "C06": 5, "C07": 5, "C08": 4, "C10": 3, "C12": 8, "C14": 6,
	"C15": 6, "C16": 8, "C18": 2, "C19": 4, "C20": 8, "C21": 3, "C22": 4, "C24": 3, "C25": 4, "C26": 2}

func newCtx(id, tier string, seed uint64) *Ctx {
	h := fnv.New64a()
	h.Write([]byte(id))
	c := &Ctx{ID: id, Tier: tier, Seed: seed, Mult: 1, R: rand.New(rand.NewPCG(seed, h.Sum64())),
		distinct: map[uint64]struct{}{}, counts: map[string]int{}, sampleSeen: map[string]int{}, extra: map[string]any{}, hung: map[string]int{},
		Procs: runtime.NumCPU(), nextID: 1}
	if c.Procs > 16 {
		c.Procs = 16
	}
	if c.Procs < 2 {
		c.Procs = 2
	}
	if m, ok := quickMult[id]; ok {
		c.Mult = m
	}
	return c
}

// Judged counts one judged case; key identifies the input, class is for the breakdown.
func (c *Ctx) Judged(class, key string, nontrivial bool) {
	h := fnv.New64a()
	h.Write([]byte(class))
	h.Write([]byte{0})
	h.Write([]byte(key))
	c.mu.Lock()
	c.evals++
	c.counts[class]++
	if nontrivial {
		c.distinct[h.Sum64()] = struct{}{}
	} else {
		c.trivial++
	}
	if c.sampleSeen[class] < 2 && len(c.samples) < 60 {
		c.sampleSeen[class]++
		c.samples = append(c.samples, class+": "+clip(key, 300))
	}
	c.mu.Unlock()
}

func (c *Ctx) Count(k string, n int) {
	c.mu.Lock()
	c.counts[k] += n
	c.mu.Unlock()
}

// patience is how long a call may take before it counts as hanging (it is then
// repeated alone in a fresh process).
const patience = 60 * time.Second

const maxViolations = 5

func (c *Ctx) Violate(v Violation) {
	c.mu.Lock()
	defer c.mu.Unlock()
	v.Property = c.ID
	if len(c.viol) < maxViolations {
		c.viol = append(c.viol, v)
	}
	if len(c.viol) >= maxViolations {
		c.stop = true
	}
}

func (c *Ctx) Stopped() bool { c.mu.Lock(); defer c.mu.Unlock(); return c.stop }

func (c *Ctx) ids(scs []Scenario) {
	for i := range scs {
		scs[i].ID = c.nextID
		c.nextID++
	}
}

// Handler sees a complete scenario (death == nil) or one cut short.
type Handler func(sc *Scenario, evs []Ev, death *Death, hist []Scenario)

// Run distributes the scenarios over the worker processes.
func (c *Ctx) Run(scs []Scenario, h Handler) {
	c.ids(scs)
	n := c.Procs
	if n > len(scs) {
		n = len(scs)
	}
	parts := make([][]Scenario, n)
	// neighbours, which are often related, mostly meet the same process
	block := min(48, max(1, len(scs)/(n*4)))
	for i := range scs {
		j := i / block % n
		parts[j] = append(parts[j], scs[i])
	}
	if repeats[c.ID] {
		for i := range parts {
			parts[i] = c.weave(parts[i], map[bool]int{true: 8, false: 33}[len(parts[i]) < 10000])
		}
	}
	if n := longRun[c.ID]; n > 0 {
		parts = append([][]Scenario{c.long(scs, n)}, parts...)
	}
	if withForge[c.ID] {
		parts = append(parts, c.elsewhere(scs)...)
	}
	c.RunParts(parts, h)
}

// repeats are the checks that ask some questions again later in the same process.
var repeats = map[string]bool{"C01": true, "C02": true, "C03": true, "C04": true, "C06": true, "C07": true, "C08": true, "C09": true, "C10": true, "C11": true, "C13": true, "C14": true, "C21": true, "C23": true}

// longRun is how many scenarios one process of a check goes through besides the
// shares of the others: what goes wrong only after many calls shows there.
var longRun = map[string]int{"C01": 3000, "C02": 12000, "C03": 20000, "C04": 20000, "C06": 4000, "C07": 6000, "C08": 6000, "C09": 40000, "C10": 20000, "C11": 15000, "C23": 2000}

// long draws short runs of neighbours from all scenarios.
func (c *Ctx) long(scs []Scenario, n int) []Scenario {
	out := make([]Scenario, 0, n)
	for len(out) < n && len(scs) > 0 {
		at := c.R.IntN(len(scs))
		for i := at; i < len(scs) && i < at+12; i++ {
			out = append(out, scs[i])
		}
	}
	c.ids(out)
	return out
}

// weave repeats one scenario out of every, after a few or many others (lags are
// log-uniform up to the whole history).
func (c *Ctx) weave(p []Scenario, every int) []Scenario {
	out := make([]Scenario, 0, len(p)+len(p)/every)
	for i := range p {
		out = append(out, p[i])
		if c.R.IntN(every) == 0 {
			lag := 1 + int(math.Exp(c.R.Float64()*math.Log(float64(len(out)))))
			if lag <= len(out) {
				sc := out[len(out)-lag]
				sc.Lag = lag
				c.Count("repeated_later", 1)
				if lag > 500 {
					c.Count("repeated_after_more_than_500_others", 1)
				}
				out = append(out, sc)
			}
		}
	}
	c.ids(out)
	return out
}

// RunParts runs each part in order in a process of its own (restarted after a death).
func (c *Ctx) RunParts(parts [][]Scenario, h Handler) {
	var wg sync.WaitGroup
	sem := make(chan struct{}, c.Procs)
	for _, p := range parts {
		wg.Add(1)
		sem <- struct{}{}
		go func(p []Scenario) {
			defer wg.Done()
			defer func() { <-sem }()
			deaths := 0
			start := 0
			for pos := 0; pos < len(p) && !c.Stopped(); {
				if p = c.withoutHung(p, pos); pos == len(p) {
					break
				}
				done, evs, death, err := c.session(p[pos:], func(sc *Scenario, evs []Ev, idx int) {
					h(sc, evs, nil, p[start:pos+idx])
				}, patience)
				pos += done
				if err != nil {
					c.fatal(err)
				}
				if death == nil {
					continue
				}
				if death.Hang {
					// confirm alone, in a fresh process
					d2, e2, death2, err := c.session(p[pos:pos+1], func(sc *Scenario, evs []Ev, idx int) { h(sc, evs, nil, p[start:pos]) }, patience)
					if err != nil {
						c.fatal(err)
					}
					if d2 == 1 && pos > start {
						// alone it returns; it may be what the process did before that keeps it
						done, e3, death3, err := c.session(p[start:pos+1], func(*Scenario, []Ev, int) {}, patience)
						if err != nil {
							c.fatal(err)
						}
						if death3 != nil && death3.Hang && done == pos-start {
							d2, e2, death2 = 0, e3, death3
						}
					}
					if d2 == 1 {
						c.mu.Lock()
						c.incon = append(c.incon, fmt.Sprintf("scenario %d: no progress for a while once, fine when repeated alone", p[pos].ID))
						c.mu.Unlock()
						pos++
						start = pos
						continue
					}
					evs, death = e2, death2
				}
				c.mu.Lock()
				c.deaths++
				c.mu.Unlock()
				h(&p[pos], evs, death, p[start:pos])
				if death.Hang {
					c.mu.Lock()
					c.stop = c.stop || len(c.viol) > 0
					if death.I < len(p[pos].Ops) { // another property's business; no need to wait for it again and again
						c.hung[p[pos].Ops[death.I].K]++
					}
					c.mu.Unlock()
				}
				pos++
				start = pos
				deaths++
				if deaths > 4000 {
					return
				}
			}
		}(p)
	}
	wg.Wait()
}

// withoutHung leaves out what is still to come of scenarios with functions that
// were seen to hang.
func (c *Ctx) withoutHung(p []Scenario, pos int) []Scenario {
	c.mu.Lock()
	defer c.mu.Unlock()
	if len(c.hung) == 0 {
		return p
	}
	out := append([]Scenario{}, p[:pos]...)
	for _, sc := range p[pos:] {
		ok := true
		for i := range sc.Ops {
			ok = ok && c.hung[sc.Ops[i].K] == 0
		}
		if ok {
			out = append(out, sc)
		} else {
			c.counts["left_out_because_a_function_hangs"]++
		}
	}
	return out
}

func (c *Ctx) fatal(err error) {
	fmt.Fprintln(os.Stderr, "monitor error:", err)
	os.RemoveAll(c.Scratch)
	os.Exit(2)
}

// session runs scenarios in one worker process until all are done or it dies.
// It returns how many were completed and, on death, the events of the cut one.
func (c *Ctx) session(scs []Scenario, each func(*Scenario, []Ev, int), patience time.Duration) (done int, evs []Ev, death *Death, err error) {
	c.mu.Lock()
	c.processes++
	num := c.processes
	c.mu.Unlock()
	out, err := os.Create(filepath.Join(c.Scratch, fmt.Sprintf("out%d", num)))
	if err != nil {
		return
	}
	errf, err := os.Create(filepath.Join(c.Scratch, fmt.Sprintf("err%d", num)))
	if err != nil {
		return
	}
	defer func() {
		out.Close()
		errf.Close()
		os.Remove(out.Name())
		os.Remove(errf.Name())
	}()
	r, w, err := os.Pipe()
	if err != nil {
		return
	}
	defer r.Close()
	cmd := exec.Command(c.Worker)
	if c.wrap != nil {
		var after func()
		cmd, after = c.wrap(num, scs)
		defer after()
	}
	if !c.bare {
		cmd.Env = append(append(os.Environ(), "GOMAXPROCS=2", "GOTRACEBACK=single"), cmd.Env...)
	} else if len(cmd.Env) == 0 {
		cmd.Env = []string{"GOTRACEBACK=single"}
	}
	cmd.Stdout, cmd.Stderr = out, errf
	var left func()
	if len(scs) > 0 {
		left = c.place(scs[0].Where, cmd, errf)
	}
	cmd.ExtraFiles = []*os.File{w}
	in, err := cmd.StdinPipe()
	if err != nil {
		return
	}
	if err = cmd.Start(); err != nil {
		return
	}
	w.Close()
	quit := make(chan struct{})
	go func() {
		bw := bufio.NewWriterSize(in, 1<<16)
		enc := json.NewEncoder(bw)
		for i := range scs {
			select {
			case <-quit:
				in.Close()
				return
			default:
			}
			if enc.Encode(&scs[i]) != nil {
				break
			}
		}
		bw.Flush()
		in.Close()
	}()
	defer close(quit)

	hung := false
	var tmu sync.Mutex
	timer := time.AfterFunc(patience, func() {
		tmu.Lock()
		hung = true
		tmu.Unlock()
		cmd.Process.Kill()
	})
	defer timer.Stop()
	inflight := -1
	stopped := false
	rd := bufio.NewReaderSize(r, 1<<20)
	for {
		line, e := rd.ReadBytes('\n')
		if e != nil {
			break
		}
		timer.Reset(patience)
		switch line[0] {
		case 'c':
			var s, i int
			fmt.Sscanf(string(line), "c %d %d", &s, &i)
			inflight = i
		case 'r':
			var ev Ev
			if e := json.Unmarshal(line[2:], &ev); e != nil {
				err = fmt.Errorf("bad event: %v", e)
			}
			evs = append(evs, ev)
			inflight = -1
		case 'd':
			sc := &scs[done]
			if len(evs) != len(sc.Ops) {
				err = fmt.Errorf("scenario %d: %d events for %d operations", sc.ID, len(evs), len(sc.Ops))
			} else {
				timer.Reset(10 * time.Minute) // while the oracle works
				each(sc, evs, done)
				timer.Reset(patience)
			}
			evs = nil
			done++
			if !stopped && c.Stopped() {
				stopped = true
				cmd.Process.Kill()
			}
		}
		if err != nil {
			cmd.Process.Kill()
			cmd.Wait()
			return
		}
	}
	werr := cmd.Wait()
	if left != nil {
		left()
	}
	if stopped {
		done = len(scs)
		return
	}
	if done == len(scs) {
		if sz, _ := os.Stat(errf.Name()); c.ID == "C20" && sz != nil {
			so, _ := os.Stat(out.Name())
			if n := sz.Size() + so.Size(); n > 0 {
				b1, _ := os.ReadFile(out.Name())
				b2, _ := os.ReadFile(errf.Name())
				c.Violate(Violation{What: fmt.Sprintf("%d bytes were written to the standard streams by one of %d scenarios: %q", n, len(scs), clip(string(b1)+string(b2), 300)), Scenario: &scs[len(scs)-1], History: tail(scs[:len(scs)-1], 200)})
			}
		}
		return
	}
	b, _ := os.ReadFile(errf.Name())
	tmu.Lock()
	defer tmu.Unlock()
	if inflight < 0 && !hung {
		if bytes.Contains(b, []byte("harness:")) {
			err = fmt.Errorf("worker failed: %v: %s", werr, clip(string(b), 2000))
			return
		}
		if done == 0 && len(evs) == 0 {
			err = fmt.Errorf("worker died before the first operation: %v: %s", werr, clip(string(b), 2000))
			return
		}
		// died between two operations: attribute it to the last one completed
		inflight = len(evs) - 1
		if inflight < 0 {
			inflight = 0
		} else {
			evs = evs[:len(evs)-1]
		}
	}
	if inflight < 0 {
		inflight = len(evs)
	}
	death = &Death{I: inflight, Status: fmt.Sprint(werr), Stderr: string(b), Hang: hung}
	return
}

// runConc runs one concurrent job. race: under the race detector.
type concOut struct {
	Calls      map[string]int `json:"calls"`
	Mismatches []struct {
		Idx int `json:"idx"`
		Got Ev  `json:"got"`
	} `json:"mismatches"`
	Random []struct {
		Idx int `json:"idx"`
		Got Ev  `json:"got"`
	} `json:"random"`
	Mutated []string       `json:"mutated"`
	Overlap map[string]int `json:"overlap"`
}

type concResult struct {
	out    *concOut
	races  []string
	death  string
	hang   bool
	stderr string
}

func (c *Ctx) runConc(job *ConcJob, race bool) concResult {
	c.mu.Lock()
	c.processes++
	num := c.processes
	c.mu.Unlock()
	bin := c.Worker
	if race {
		bin = c.Race
	}
	if job.Pause != "" {
		bin = c.Worker + "-pause"
	}
	dir := filepath.Join(c.Scratch, fmt.Sprintf("conc%d", num))
	os.MkdirAll(dir, 0o755)
	defer os.RemoveAll(dir)
	r, w, err := os.Pipe()
	if err != nil {
		c.fatal(err)
	}
	defer r.Close()
	var in, se bytes.Buffer
	json.NewEncoder(&in).Encode(job)
	cmd := exec.Command(bin, "conc")
	cmd.Env = append(os.Environ(), "GORACE=halt_on_error=0 exitcode=0 history_size=3 log_path="+filepath.Join(dir, "race"), "VERIF_PAUSE="+job.Pause)
	cmd.Stdin = &in
	cmd.Stderr = &se
	cmd.ExtraFiles = []*os.File{w}
	if err := cmd.Start(); err != nil {
		c.fatal(err)
	}
	w.Close()
	var hung bool
	var tmu sync.Mutex
	t := time.AfterFunc(90*time.Second, func() { tmu.Lock(); hung = true; tmu.Unlock(); cmd.Process.Kill() })
	var out concOut
	derr := json.NewDecoder(r).Decode(&out)
	werr := cmd.Wait()
	t.Stop()
	res := concResult{stderr: se.String()}
	logs, _ := filepath.Glob(filepath.Join(dir, "race.*"))
	for _, l := range logs {
		b, _ := os.ReadFile(l)
		for _, blk := range strings.Split(string(b), "==================") {
			if strings.Contains(blk, "WARNING: DATA RACE") {
				res.races = append(res.races, strings.TrimSpace(blk))
			}
		}
	}
	if derr != nil || werr != nil {
		tmu.Lock()
		res.hang = hung
		tmu.Unlock()
		res.death = fmt.Sprintf("%v %v", werr, derr)
		if strings.Contains(res.stderr, "harness:") {
			c.fatal(fmt.Errorf("worker failed: %s", clip(res.stderr, 1000)))
		}
		return res
	}
	res.out = &out
	return res
}

package main

import (
	"fmt"
	"strings"
	"sync"

	. "aaverif/proto"
)

// c27 measures the live heap at 1/8, 1/4, 1/2 and all of long streams of
// different calls. What is kept per call at least doubles its growth from one
// interval to the next; a bounded cache is full long before the last one.
func c27(c *Ctx) {
	r := c.R
	sizes := map[string]int{"getPub": 4000, "newSeed": 4000, "addPub": 9000, "pubFromHex": 16000, "newMnemonic": 16000}
	byKind := map[string][]branch{}
	for _, b := range append(branches(r, 700*c.Mult), failing(r, 6000*c.Mult)...) {
		k := b.call.K
		if b.call.Fault != nil {
			k += ", failing source"
		} else if k == "genPriv" || k == "newMnemonic" {
			b.call.Ent, b.call.Seed = randBytes(r, 32), 5
		}
		byKind[k] = append(byKind[k], b)
	}
	var parts [][]Scenario
	add := func(name string, calls []Scenario) {
		var p []Scenario
		heap := func() { p = append(p, Scenario{Ops: []Op{{K: "heap"}}}) }
		n := len(calls)
		for i := range calls {
			if i == n/8 || i == n/4 || i == n/2 {
				heap()
			}
			p = append(p, calls[i])
		}
		heap()
		for i := range p {
			p[i].Tag = name
		}
		c.ids(p)
		parts = append(parts, p)
	}
	for _, slow := range []bool{true, false} {
		for _, k := range opKinds {
			if slow != (k == "getPub" || k == "newSeed" || k == "addPub") {
				continue
			}
			n := sizes[k] * c.Mult
			if n == 0 {
				n = 25000 * c.Mult
			}
			var calls []Scenario
			for i := 0; i < n; i++ {
				calls = append(calls, historyCall(r, []string{k}))
			}
			add(k, calls)
		}
	}
	for _, k := range sortedKeys(byKind) {
		var calls []Scenario
		for _, b := range byKind[k] {
			calls = append(calls, b.scenario())
		}
		r.Shuffle(len(calls), func(i, j int) { calls[i], calls[j] = calls[j], calls[i] })
		add(k+" refusals", calls)
	}
	// ever new lists and network values of the caller's own
	lists, nets := []Scenario{}, []Scenario{}
	for i := 0; i < 1200*c.Mult; i++ {
		n := mnemonicLens[r.IntN(5)]
		l := ListNames[r.IntN(9)]
		ops := []Op{{K: "mkList", List: l, Out: 1}, {K: "mutList", A: 1, N: r.IntN(2048), B: r.IntN(2048)}, {K: "newMnemonic", N: n, List: "slot:1", Ent: randBytes(r, 32), Seed: 5, Out: 2}}
		if i%2 == 0 {
			ops = append(ops, Op{K: "newSeed", S: []byte(refEncode(randBytes(r, entBytes(n)), l)), List: "slot:1"})
		} else {
			ops = append(ops, Op{K: "newSeed", SS: 2, List: "slot:1"})
		}
		lists = append(lists, Scenario{Ops: ops})
	}
	for i := 0; i < 12000*c.Mult; i++ {
		nt := litNet(fmt.Sprintf("%02x", i/256%256), fmt.Sprintf("%02x", i%256))
		np, _ := netOf(nt)
		k := randScalar(r)
		p := mulG(two)
		nets = append(nets, Scenario{Ops: []Op{{K: "privFromHex", S: []byte(hex64(k)), Net: nt, Out: 1}, {K: "privFromWIF", S: []byte(refWIF(randScalar(r), np, i%2 == 0)), Net: nt, Out: 2}, {K: "addPriv", A: 1, B: 2, Out: 3}, {K: "mulPriv", A: 1, B: 3, Out: 4},
			{K: "pubFromHex", S: []byte(refFormat(p, false)), Net: nt, Out: 5}, {K: "address", A: 5, F: i%2 == 0}, {K: "genPriv", Net: nt, Ent: randBytes(r, 32), Seed: 5, Out: 6}}})
	}
	add("newSeed, new lists", lists)
	add("privFromHex and others, new networks", nets)
	heaps, objects, died := c.heaps(parts)
	held := map[string]string{}
	for _, p := range parts {
		name := p[0].Tag
		h, n := heaps[name], len(p)-4
		if c.Stopped() || died[name] || len(h) != 4 {
			continue
		}
		held[name] = fmt.Sprintf("%d calls, bytes held after 1/8 1/4 1/2 1 of them: %v", n, h)
		if grows(h) { // once more, in a fresh process
			c.ids(p)
			if again, _, _ := c.heaps([][]Scenario{p}); len(again[name]) != 4 || !grows(again[name]) {
				held[name] += fmt.Sprintf(", and in another process %v", again[name])
				continue
			}
			c.Violate(Violation{What: fmt.Sprintf("operation %d (%s): the memory held grows with the number of calls: by %d, %d and %d bytes over the last %d, %d and %d of %d different calls (%s), objects %v", len(p[len(p)-2].Ops)-1,
				strings.Fields(name)[0], h[1]-h[0], h[2]-h[1], h[3]-h[2], n/8, n/4, n/2, n, name, objects[name]), Scenario: &p[len(p)-1], Detail: p[len(p)/2 : min(len(p), len(p)/2+200)], History: tail(p[:len(p)-1], 60000)})
		}
	}
	c.extra["memory_held"] = held
	c.extra["streams"] = len(held)
}

// grows judges four measurements of the heap, at 1/8, 1/4, 1/2 and all of a stream.
func grows(h []int) bool {
	g2, g3 := h[2]-h[1], h[3]-h[2]
	return g3 >= 12<<10 && g2 >= 3<<10 && 10*g3 >= 13*g2
}

// heaps runs the streams and returns what each measured.
func (c *Ctx) heaps(p [][]Scenario) (heaps, objects map[string][]int, died map[string]bool) {
	heaps, objects, died = map[string][]int{}, map[string][]int{}, map[string]bool{}
	var mu sync.Mutex
	c.RunParts(p, func(sc *Scenario, evs []Ev, d *Death, hist []Scenario) {
		mu.Lock()
		if d != nil {
			died[sc.Tag] = true // C19's business
		}
		if d == nil && sc.Ops[0].K == "heap" {
			var b, o int
			fmt.Sscan(string(evs[0].R.S), &b, &o)
			heaps[sc.Tag], objects[sc.Tag] = append(heaps[sc.Tag], b), append(objects[sc.Tag], o)
			mu.Unlock()
			return
		}
		mu.Unlock()
		o := &sc.Ops[len(sc.Ops)-1]
		key := fmt.Sprintf("%s %q %q %d %s %x", o.K, o.S, o.S2, o.N, o.List, o.Ent)
		for _, m := range sc.Ops[:len(sc.Ops)-1] {
			key += m.X + m.Y
		}
		c.Judged(sc.Tag, key, true)
	})
	return
}

func init() {
	reg("C27", c27, "streams of 4000 to 25000 different calls of one function (succeeding, refused, with a failing random source), each in a process of its own; the live heap after a full collection is measured at 1/8, 1/4, 1/2 and the end; non-trivial: each different call")
}

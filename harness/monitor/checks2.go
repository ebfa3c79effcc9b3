package main

import (
	"fmt"
	"math/big"
	"math/rand/v2"
	"strings"
	"sync"

	. "aaverif/proto"
)

// ---------- C15 ----------

type genKind struct {
	op   Op
	need int
	name string
}

func genKinds() []genKind {
	out := []genKind{{Op{K: "genPriv", Net: main_}, 32, "key"}, {Op{K: "genPriv", Net: test_}, 32, "testnet key"}}
	for i, n := range mnemonicLens {
		out = append(out, genKind{Op{K: "newMnemonic", N: n, List: "English"}, entBytes(n), fmt.Sprintf("%d words", n)})
		l := []string{"Japanese", "custom:2048", "French", "Korean", "Spanish"}[i]
		out = append(out, genKind{Op{K: "newMnemonic", N: n, List: l}, entBytes(n), fmt.Sprintf("%d words %s", n, l)})
	}
	return out
}

// faultErrs are the errors a random source may fail with; the first three at
// every offset, the others at the ends and in turn in between.
var faultErrs = []string{"err", "eof", "ueof", "eintr", "eagain", "deadline", "closed", "noprogress", "shortbuf", "emfile", "wrapeof"}

func returned(ev *Ev) bool {
	return ev.Panic == "" && (ev.R.T == "priv" || ev.R.T == "str" && len(ev.R.S) > 0)
}

func secretOf(ev *Ev) string {
	if !returned(ev) {
		return ""
	}
	if ev.R.T == "priv" {
		return ev.R.Key
	}
	return string(ev.R.S)
}

// plainBlock is a stream whose first block is never rejected, nor any
// single-bit variation of it.
func plainBlock(r *rand.Rand, n int) []byte {
	b := randBytes(r, n)
	b[0] = b[0]&0x0f | 0x60
	b[1] = b[1]&0xf0 | 0x05
	return b
}

// slowSources are generations from a source that works but lets one read wait,
// each for a process of its own.
func slowSources(c *Ctx) (out []Op) {
	waits := []int{150, 600, 1100, 2100, 3100, 5200, 10500}
	if c.Tier == "thorough" {
		waits = append(waits, 16000, 31000)
	}
	gens := genKinds()
	for i, ms := range waits {
		for j, g := range []genKind{gens[0], gens[2+i%10], gens[2+(i+5)%10]} {
			o := g.op
			o.Ent, o.Seed = plainBlock(c.R, g.need), uint64(50+i)
			o.Fault = &Fault{FailAt: -1, Slow: ms}
			if j == 2 || i%2 == 1 && j == 0 { // after some bytes have come
				o.Fault.Chunk, o.Fault.SlowAt = 5+i%5, 1+i%2
			}
			out = append(out, o)
		}
	}
	return
}

func c15(c *Ctx) {
	r := c.R
	var scs []Scenario
	type expect struct {
		need   int
		sticky bool
		stream string
	}
	exp := map[int]expect{} // scenario index -> expectation of op 1
	seed := uint64(100)
	streams := 0
	add := func(g genKind, stream []byte, f Fault) {
		clean, bad := g.op, g.op
		clean.Ent, clean.Seed = stream, seed
		bad.Ent, bad.Seed, bad.Fault = stream, seed, &f
		again := clean
		real := g.op
		exp[len(scs)] = expect{g.need, !f.Once, g.name}
		scs = append(scs, Scenario{Tag: fmt.Sprint(len(scs)), Ops: []Op{clean, bad, again, real}})
	}
	for _, g := range genKinds() {
		for rep := 0; rep < 2*c.Mult; rep++ {
			var base [][]byte
			base = append(base, plainBlock(r, g.need), randBytes(r, g.need))
			if rep == 0 {
				base = append(base, make([]byte, g.need))
				if g.op.K == "genPriv" { // a rejected block first
					b := []byte(strings.Repeat("\xff", 32))
					base = append(base, append(b, plainBlock(r, 32)...), append(make([]byte, 32), plainBlock(r, 32)...), append(be32(new(big.Int).Sub(fn, one)), plainBlock(r, 32)...))
				}
			}
			for _, st := range base {
				seed++
				streams++
				limit := len(st)
				for at := 0; at < limit+2; at++ {
					for i, e := range faultErrs {
						if i >= 3 && at != 0 && at != limit && at != limit-1 && (at+rep)%len(faultErrs) != i {
							continue
						}
						for _, partial := range []bool{false, true} {
							for _, once := range []bool{false, true} {
								if once && e != "err" && at%4 != 0 {
									continue
								}
								add(g, st, Fault{FailAt: at, Err: e, Partial: partial, Once: once})
								if at%5 == 1 {
									add(g, st, Fault{FailAt: at, Err: e, Partial: partial, Once: once, Chunk: 1 + r.IntN(7), Zero: 2 + r.IntN(5)})
								}
							}
						}
					}
				}
				// short but successful reads
				for ch := 1; ch <= g.need; ch++ {
					add(g, st, Fault{FailAt: -1, Chunk: ch})
					if ch%3 == 0 {
						add(g, st, Fault{FailAt: -1, Chunk: ch, Zero: 2 + ch%5})
					}
				}
			}
		}
	}
	var slow [][]Scenario
	for _, o := range slowSources(c) {
		g := genKind{o, 32, "slow " + o.K}
		if o.K == "newMnemonic" {
			g.need = entBytes(o.N)
		}
		for _, f := range []Fault{*o.Fault, {FailAt: g.need - 1, Err: "err", Slow: o.Fault.Slow, SlowAt: o.Fault.SlowAt, Chunk: o.Fault.Chunk}} {
			if f.FailAt >= 0 && f.Slow > 6000 {
				continue
			}
			g.op.Fault = nil
			seed++
			add(g, o.Ent, f)
			p := []Scenario{scs[len(scs)-1]}
			scs = scs[:len(scs)-1]
			x := exp[len(scs)]
			delete(exp, len(scs))
			p[0].Tag = fmt.Sprint(-len(slow) - 1)
			exp[-len(slow)-1] = x
			c.ids(p)
			slow = append(slow, p)
		}
	}
	offsets := map[string]struct{}{}
	outcome := map[string]int{}
	var mu sync.Mutex
	handler := func(sc *Scenario, evs []Ev, d *Death, hist []Scenario) {
		var n int
		fmt.Sscan(sc.Tag, &n)
		x := exp[n]
		f := sc.Ops[1].Fault
		if d != nil && d.I != 1 {
			c.Judged("generation without a fault", sc.Tag, true)
			c.bad(sc, d.I, evs, hist, "generation with a working source: "+d.String())
			return
		}
		clean := &evs[0]
		if bad := abnormal(clean, nil); bad != "" || clean.Err || !returned(clean) {
			c.Judged("generation without a fault", sc.Tag, true)
			c.bad(sc, 0, evs, hist, "generation with a working source failed: "+bad+clean.Msg)
			return
		}
		key := fmt.Sprintf("%s fail at %d %s partial=%v once=%v chunk=%d zero=%d slow=%d stream %x", x.stream, f.FailAt, f.Err, f.Partial, f.Once, f.Chunk, f.Zero, f.Slow, clip(string(sc.Ops[1].Ent), 8))
		if f.FailAt < 0 {
			class := "short reads"
			if f.Slow > 0 {
				class = "slow reads"
			}
			c.Judged(class, key, true)
			if d != nil {
				c.bad(sc, 1, evs, hist, class+", all successful: "+d.String())
				return
			}
			if bad := abnormal(&evs[1], nil); bad != "" || secretOf(&evs[1]) != secretOf(clean) {
				c.bad(sc, 1, evs, hist, fmt.Sprintf(class+" (chunks of %d, %d ms) of the same bytes gave %q instead of %q %s", f.Chunk, secretOf(&evs[1]), secretOf(clean), bad))
			} else if evs[1].Read < x.need {
				c.bad(sc, 1, evs, hist, fmt.Sprintf("%s: only %d bytes were taken, %d are needed", class, evs[1].Read, x.need))
			}
		} else {
			c.Judged("fault "+x.stream, key, f.FailAt < clean.Read)
			mu.Lock()
			offsets[fmt.Sprintf("%s@%d", x.stream, f.FailAt)] = struct{}{}
			if d != nil {
				outcome["process ended"]++
			} else if evs[1].Panic != "" {
				outcome["panic"]++
			} else if evs[1].Err {
				outcome["error"]++
			} else {
				outcome["secret returned"]++
			}
			mu.Unlock()
			if d != nil && d.Hang {
				c.bad(sc, 1, evs, hist, "the random source fails and generation does not come to an end")
				return
			}
			if d != nil {
				return // ended without a secret: allowed
			}
			ev := &evs[1]
			if strings.Contains(ev.Panic, "read too often") {
				c.bad(sc, 1, evs, hist, fmt.Sprintf("the random source fails for good after %d bytes and generation of %s does not come to an end: the failing source was read thousands of times", f.FailAt, x.stream))
				return
			}
			if ev.Err && returned(ev) {
				c.bad(sc, 1, evs, hist, "an error came together with a secret")
				return
			}
			if returned(ev) {
				if ev.Read < x.need {
					c.bad(sc, 1, evs, hist, fmt.Sprintf("the random source failed after %d bytes, yet %s was generated (%d bytes needed)", ev.Read, x.stream, x.need))
				} else if x.sticky && f.FailAt < clean.Read && secretOf(ev) != secretOf(clean) {
					c.bad(sc, 1, evs, hist, fmt.Sprintf("the random source failed after %d of the %d bytes this stream takes, yet a different secret was generated", f.FailAt, clean.Read))
				} else if ev.R.T == "priv" && !validScalar(numOf(ev.R.Key)) {
					c.bad(sc, 1, evs, hist, "an invalid key was generated when the source failed")
				}
			}
		}
		// the source works again
		for _, i := range []int{2, 3} {
			ev := &evs[i]
			if bad := abnormal(ev, nil); bad != "" || ev.Err || !returned(ev) {
				c.bad(sc, i, evs, hist, "generation does not work again after the source recovered: "+bad+ev.Msg)
				return
			}
		}
		if secretOf(&evs[2]) != secretOf(clean) {
			c.bad(sc, 2, evs, hist, "after the failure the same random bytes give a different secret")
		}
	}
	c.Run(scs, handler)
	if !c.Stopped() {
		c.RunParts(slow, handler)
	}
	c.extra["slow_sources"] = len(slow)
	c.extra["fault_points"] = len(offsets)
	c.extra["streams"] = streams
	c.extra["outcomes_under_fault"] = outcome
}

// ---------- C16 ----------

func c16(c *Ctx) {
	r := c.R
	type grp struct {
		g      genKind
		flips  map[string]int // secret -> position
		base   string
		judged int
	}
	var mu sync.Mutex
	var parts [][]Scenario
	groups := map[string]*grp{}
	n := 0
	reps := 3 * c.Mult
	for _, g := range genKinds() {
		for rep := 0; rep < reps; rep++ {
			n++
			tag := fmt.Sprint(n)
			groups[tag] = &grp{g: g, flips: map[string]int{}}
			st := plainBlock(r, g.need)
			if rep%3 == 2 {
				copy(st[2:], structured(r, g.need-2))
			}
			st = append(st, plainBlock(r, 32)...)
			seed := uint64(1000 + n)
			mk := func(b []byte) Op { o := g.op; o.Ent, o.Seed = b, seed; return o }
			ops := []Op{mk(st), mk(st)}
			for bit := 0; bit < 8*(g.need+16); bit++ { // some more: which of the bytes it takes a generator uses is its own business
				b := append([]byte{}, st...)
				b[bit/8] ^= 0x80 >> (bit % 8)
				ops = append(ops, mk(b))
			}
			ops = append(ops, mk(st))
			for i := range ops {
				ops[i].Net = g.op.Net
			}
			parts = append(parts, []Scenario{{Tag: "flip " + tag, Ops: ops}})
			// the same bytes in another process, after other calls
			var hist []Op
			for i := 0; i < 3+r.IntN(6); i++ {
				o := genKinds()[r.IntN(12)].op
				if r.IntN(2) == 0 {
					o.Ent, o.Seed = randBytes(r, 32), r.Uint64()|1
				}
				hist = append(hist, o)
			}
			hist = append(hist, mk(st))
			again := []Scenario{{Tag: "again " + tag, Ops: hist}}
			if p := c.surroundings(); n%2 == 0 && len(p) > 0 {
				again[0].Where = p[n/2%len(p)].name
				c.Count("again_in_unusual_surroundings", 1)
			}
			parts = append(parts, again)
		}
	}
	for i := range parts {
		c.ids(parts[i])
	}
	secrets := map[string]string{}
	redraws := 0
	c.RunParts(parts, func(sc *Scenario, evs []Ev, d *Death, hist []Scenario) {
		kind, tag, _ := strings.Cut(sc.Tag, " ")
		g := groups[tag]
		if d != nil {
			c.Judged("died", sc.Tag, true)
			c.bad(sc, d.I, evs, hist, "generation with a working source: "+d.String())
			return
		}
		last := len(evs) - 1
		mu.Lock()
		defer mu.Unlock()
		for i := range evs {
			if bad := abnormal(&evs[i], nil); bad != "" || !returned(&evs[i]) {
				c.Judged("failed", sc.Tag, true)
				c.bad(sc, i, evs, hist, "generation with a working source failed: "+bad+evs[i].Msg)
				return
			}
		}
		check := func(i int) bool {
			if evs[i].Read < g.g.need {
				c.bad(sc, i, evs[i:i+1], hist, fmt.Sprintf("%s: only %d random bytes were taken from the system source, %d are needed", g.g.name, evs[i].Read, g.g.need))
				return false
			}
			return true
		}
		if prev, ok := secrets[tag]; ok && prev != secretOf(&evs[last]) {
			c.bad(sc, last, evs[last:], hist, fmt.Sprintf("%s: the same random bytes gave %q and %q in different histories", g.g.name, prev, secretOf(&evs[last])))
		}
		secrets[tag] = secretOf(&evs[last])
		c.Judged("same bytes same secret", sc.Tag, true)
		if !check(last) || kind != "flip" {
			return
		}
		base := secretOf(&evs[0])
		for _, i := range []int{1, last} {
			if secretOf(&evs[i]) != base {
				c.bad(sc, i, evs[i:i+1], hist, fmt.Sprintf("%s: the same random bytes gave %q and %q", g.g.name, base, secretOf(&evs[i])))
				return
			}
		}
		seen := map[string]int{base: -1}
		// A generator may discard a candidate and draw again; then the bits of
		// the discarded one legitimately do not show in the result. Calls that
		// took more than the least number of bytes are such redraws.
		least := evs[0].Read
		for i := range evs {
			least = min(least, evs[i].Read)
		}
		shown, skipped := 0, 0
		without := []string{}
		for i := 2; i < last; i++ {
			bit := i - 2
			if !check(i) {
				return
			}
			if evs[0].Read != least || evs[i].Read != least {
				redraws++
				skipped++
				continue
			}
			if bit < 8*evs[i].Read {
				c.Judged("bit "+g.g.name, fmt.Sprintf("%s bit %d", tag, bit), true)
			}
			s := secretOf(&evs[i])
			if p, ok := seen[s]; !ok {
				shown++
			} else if bit < 8*evs[i].Read {
				if p < 0 {
					without = append(without, fmt.Sprintf("bit %d changes nothing", bit))
				} else {
					without = append(without, fmt.Sprintf("bits %d and %d have the same effect", p, bit))
				}
			}
			seen[s] = bit
		}
		if shown+skipped < 8*g.g.need {
			c.bad(sc, 0, evs[:2], hist, fmt.Sprintf("%s: the %d random bytes taken have only %d bits with an effect of their own, %d are needed: %s", g.g.name, least, shown, 8*g.g.need, clip(strings.Join(without, ", "), 300)))
		}
	})
	// all bytes consumed, for many streams, also rejected ones
	var scs []Scenario
	for i := 0; i < 14000*c.Mult; i++ {
		ks := genKinds()
		g := ks[r.IntN(len(ks))]
		o := g.op
		o.Ent, o.Seed = structured(r, g.need), r.Uint64()|1
		scs = append(scs, Scenario{Tag: fmt.Sprint(g.need), Ops: []Op{o}})
	}
	for _, e := range keyEntropies(r) {
		o := Op{K: "genPriv", Net: main_, Ent: e, Seed: r.Uint64() | 1}
		scs = append(scs, Scenario{Tag: "32", Ops: []Op{o}})
	}
	for _, n := range mnemonicLens {
		for _, e := range specialEntropies(n) {
			o := Op{K: "newMnemonic", N: n, List: "English", Ent: e, Seed: r.Uint64() | 1}
			scs = append(scs, Scenario{Tag: fmt.Sprint(entBytes(n)), Ops: []Op{o}})
		}
	}
	// every stream is used twice, the second time in another order
	half := len(scs)
	for _, j := range r.Perm(half) {
		scs = append(scs, Scenario{Tag: fmt.Sprintf("%s %d", scs[j].Tag, j), Ops: scs[j].Ops})
	}
	for i := range scs[:half] {
		scs[i].Tag += fmt.Sprintf(" %d", i)
	}
	first := map[int]string{}
	most := 0
	c.Run(scs, func(sc *Scenario, evs []Ev, d *Death, hist []Scenario) {
		var need, stream int
		fmt.Sscan(sc.Tag, &need, &stream)
		c.Judged("bytes consumed", fmt.Sprintf("%s %d %x", sc.Ops[0].K, sc.Ops[0].N, sc.Ops[0].Ent), true)
		if d != nil {
			c.bad(sc, d.I, evs, hist, "generation with a working source: "+d.String())
			return
		}
		if bad := abnormal(&evs[0], nil); bad != "" || !returned(&evs[0]) {
			c.bad(sc, 0, evs, hist, "generation with a working source failed: "+bad+evs[0].Msg)
			return
		}
		if evs[0].Read < need {
			c.bad(sc, 0, evs, hist, fmt.Sprintf("only %d random bytes were taken from the system source, %d are needed", evs[0].Read, need))
		}
		mu.Lock()
		if s, ok := first[stream]; !ok {
			first[stream] = secretOf(&evs[0])
		} else if s != secretOf(&evs[0]) {
			c.bad(sc, 0, evs, hist, fmt.Sprintf("the same random bytes gave %q and %q", s, secretOf(&evs[0])))
		}
		if evs[0].Read > most {
			most = evs[0].Read
		}
		mu.Unlock()
	})
	c.extra["most_bytes_read_by_one_call"] = most
	c.extra["bit_changes_not_judged_because_of_a_redraw"] = redraws
}

// ---------- mixed operations, used by several checks ----------

// phraseChain returns a valid 12-word phrase and a valid 15-word phrase that
// starts with it (the phrase/passphrase boundary is ambiguous when joined).
func phraseChain(r *rand.Rand, l string) (string, string) {
	for {
		a := refEncode(randBytes(r, 16), l)
		for i := 0; i < 400; i++ {
			w := a
			for j := 0; j < 3; j++ {
				w += " " + official[l][r.IntN(2048)]
			}
			if _, why := refDecode(w, l); why == "" {
				return a, w
			}
		}
	}
}

// families returns scenarios of one operation each (plus literals); groups of
// them have nearly equal arguments, to expose caches and leftovers.
func families(r *rand.Rand, n int) []Scenario {
	var scs []Scenario
	one1 := func(op Op) { scs = append(scs, Scenario{Ops: []Op{op}}) }
	onPriv := func(k *big.Int, nt *Net) {
		scs = append(scs, Scenario{Ops: []Op{mkPriv(k, nt, 1), {K: "getPub", A: 1, Out: 2}}})
	}
	onPub := func(p Pt, nt *Net) {
		for _, f := range []bool{true, false} {
			scs = append(scs, Scenario{Ops: []Op{mkPub(p, nt, 1), {K: "format", A: 1, F: f}}})
			scs = append(scs, Scenario{Ops: []Op{mkPub(p, nt, 1), {K: "address", A: 1, F: f}}})
		}
	}
	pair := func(k string, a, b *big.Int, na, nb *Net) {
		scs = append(scs, Scenario{Ops: []Op{mkPriv(a, na, 1), mkPriv(b, nb, 2), {K: k, A: 1, B: 2, Out: 3}}})
	}
	pubPair := func(a, b Pt, na, nb *Net) {
		scs = append(scs, Scenario{Ops: []Op{mkPub(a, na, 1), mkPub(b, nb, 2), {K: "addPub", A: 1, B: 2, F: r.IntN(2) == 0, Out: 3}}})
	}
	nets := []*Net{main_, test_, litNet("80", "00"), litNet("80", "6f"), litNet("ef", "00"), litNet("b0", "30")}
	for i := 0; i < n; i++ {
		k := genScalar(r)
		if sp := specialScalars(); i%5 == 0 && len(sp) > 0 {
			k = sp[r.IntN(len(sp))]
		}
		fam := []*big.Int{k}
		rel := related(r, k)
		for j := 0; j < 3; j++ {
			fam = append(fam, rel[r.IntN(len(rel))])
		}
		for j, x := range fam {
			nt := nets[r.IntN(len(nets))]
			nt2 := nets[r.IntN(len(nets))]
			for _, t := range []*Net{nt, nt2} {
				p, _ := netOf(t)
				one1(Op{K: "privFromHex", S: []byte(mixCase(r, hex64(x))), Net: t, Out: 1})
				one1(Op{K: "privFromWIF", S: []byte(refWIF(x, p, r.IntN(2) == 0)), Net: t, Out: 1})
				one1(Op{K: "privFromWIF", S: []byte(refWIF(x, p, r.IntN(2) == 0)), Net: nt2, Out: 1})
				w := refWIF(x, p, r.IntN(2) == 0)
				one1(Op{K: "checkWIF", S: []byte(w)})
				one1(Op{K: "checkWIF", S: []byte(mutateText(r, w, b58))})
				one1(Op{K: "privFromHex", S: []byte(mutateText(r, hex64(x), "0123456789abcdefg")), Net: t, Out: 1})
			}
			pt := mulG(x)
			if j < 2 {
				onPriv(x, nt)
				onPriv(x, nt2)
			}
			onPub(pt, nt)
			onPub(pt.neg(), nt)
			onPub(pt, nt2)
			for _, q := range []Pt{pt, pt.neg()} {
				one1(Op{K: "pubFromHex", S: []byte(mixCase(r, refFormat(q, true))), Net: nt, Out: 1})
				one1(Op{K: "pubFromHex", S: []byte(refFormat(q, false)), Net: nt2, Out: 1})
			}
			one1(Op{K: "pubFromHex", S: []byte("04" + fmt.Sprintf("%064x%064x", pt.X, sub(pt.Y, one))), Net: nt, Out: 1})
			one1(Op{K: "pubFromHex", S: []byte(mutateText(r, refFormat(pt, true), "0123456789abcdef")), Net: nt, Out: 1})
			y := fam[r.IntN(len(fam))]
			pair("addPriv", x, y, nt, nt)
			pair("addPriv", y, x, nt, nt2)
			pair("mulPriv", x, y, nt, nt)
			pair("mulPriv", x, y, nt2, nt2)
			pubPair(pt, mulG(y), nt, nt)
			pubPair(pt, mulG(y).neg(), nt, nt2)
			pubPair(pt, pt, nt, nt)
			pubPair(pt, pt.neg(), nt, nt)
		}
		one1(Op{K: "checkWIF", S: []byte(hostile[r.IntN(len(hostile))])})
		one1(Op{K: "privFromHex", S: []byte(hostile[r.IntN(len(hostile))]), Net: main_})
		one1(Op{K: "privFromWIF", S: []byte(hostile[r.IntN(len(hostile))]), Net: main_})
		one1(Op{K: "pubFromHex", S: []byte(hostile[r.IntN(len(hostile))]), Net: main_})
		for _, l := range []string{"English", SwapLists[r.IntN(4)], ListNames[r.IntN(9)], []string{"custom:2048", "odd"}[r.IntN(2)]} {
			a, b := phraseChain(r, l)
			for _, ps := range []string{"", b[len(a):], "x", " "} {
				one1(Op{K: "newSeed", S: []byte(a), S2: []byte(ps), List: l})
			}
			one1(Op{K: "newSeed", S: []byte(b), List: l})
			e, _ := refDecode(a, l)
			e[15] ^= 1
			one1(Op{K: "newSeed", S: []byte(refEncode(e, l)), List: l})
			w := strings.Split(b, " ")
			w[0], w[1] = w[1], w[0]
			one1(Op{K: "newSeed", S: []byte(strings.Join(w, " ")), List: l})
			w[2] += "x"
			one1(Op{K: "newSeed", S: []byte(strings.Join(w, " ")), List: l})
			one1(Op{K: "newSeed", S: []byte(a), List: badLists[r.IntN(len(badLists))]})
			one1(Op{K: "newSeed", S: []byte(a), List: ListNames[r.IntN(9)]})
			one1(Op{K: "newSeed", S: []byte(a), List: SwapLists[r.IntN(4)]})
			nn := mnemonicLens[r.IntN(5)]
			one1(Op{K: "newMnemonic", N: nn, List: l, Ent: genEntropy(r, nn), Seed: r.Uint64() | 1})
			one1(Op{K: "newMnemonic", N: r.IntN(30), List: l, Ent: randBytes(r, 32), Seed: 9})
		}
		one1(Op{K: "genPriv", Net: nets[r.IntN(len(nets))], Ent: randBytes(r, 32), Seed: r.Uint64() | 1})
	}
	return scs
}

// familyRuns has calls with nearly equal arguments meet each other in one
// process, in several orders, and judges those of the given kinds.
func (c *Ctx) familyRuns(n int, h Handler, kinds ...string) {
	if c.Stopped() {
		return
	}
	set := map[string]bool{}
	for _, k := range kinds {
		set[k] = true
	}
	var parts [][]Scenario
	for i := 0; i < n; i++ {
		var own, other []Scenario
		for _, sc := range families(c.R, 1) {
			switch k := sc.Ops[len(sc.Ops)-1].K; {
			case set[k]:
				own = append(own, sc)
			case k != "newSeed" && k != "getPub" && k != "addPub" || c.R.IntN(8) == 0:
				other = append(other, sc)
			}
		}
		for _, b := range branches(c.R, 1) { // refusals in between
			switch k := b.call.K; {
			case !b.plain:
			case set[k]:
				own = append(own, b.scenario())
			case k != "newSeed" && k != "getPub" && k != "addPub" || c.R.IntN(8) == 0:
				other = append(other, b.scenario())
			}
		}
		part := append([]Scenario{}, own...)
		for _, l := range [][]Scenario{append(append([]Scenario{}, own...), other...), own} {
			for _, j := range c.R.Perm(len(l)) {
				part = append(part, l[j])
			}
		}
		if !set["newSeed"] {
			part = append(part, assignProgram(c.R), netProgram(c.R))
		} else {
			part = append(part, listProgram(c.R))
		}
		c.ids(part)
		parts = append(parts, part)
	}
	if h == nil {
		h = c.kinds(kinds...)
	}
	c.RunParts(parts, h)
	c.extra["families_of_related_calls"] = n
}

// ---------- C18 ----------

// outcomeOf is what must not depend on history.
func outcomeOf(ev *Ev) string {
	if ev.Panic != "" {
		return "panic"
	}
	return fmt.Sprintf("%v %+v", ev.Err, ev.R)
}

// deepCheck verifies that nothing but the expected slots changed.
func (c *Ctx) deepCheck(sc *Scenario, evs []Ev, hist []Scenario) bool {
	prev := map[int]Val{}
	for i := range evs {
		op, ev := &sc.Ops[i], &evs[i]
		if ev.Kept != "" {
			c.bad(sc, i, evs, hist, "a value returned earlier changed by itself: "+ev.Kept)
			return false
		}
		if ev.A2 != nil {
			c.bad(sc, i, evs, hist, fmt.Sprintf("the call changed its first argument: %+v -> %+v", *ev.A, *ev.A2))
			return false
		}
		if ev.B2 != nil {
			c.bad(sc, i, evs, hist, fmt.Sprintf("the call changed its second argument: %+v -> %+v", *ev.B, *ev.B2))
			return false
		}
		if ev.Net != "" {
			c.bad(sc, i, evs, hist, "the call changed the network it was given: "+ev.Net)
			return false
		}
		if i > 0 && ev.Glob != evs[0].Glob {
			c.bad(sc, i, evs, hist, fmt.Sprintf("the exported networks or a word list changed: %s -> %s", evs[0].Glob, ev.Glob))
			return false
		}
		for s, v := range prev {
			if s == op.Out || op.K == "drop" || (op.K == "mut" || op.K == "mutList" || op.K == "assign") && s == op.A {
				continue
			}
			if now, ok := ev.Slots[s]; !ok || fmt.Sprintf("%+v", now) != fmt.Sprintf("%+v", v) {
				what := "the call"
				if op.K == "mut" {
					what = fmt.Sprintf("changing the number (%s) of slot %d in place", op.Field, op.A)
				}
				c.bad(sc, i, evs, hist, fmt.Sprintf("%s changed the unrelated value in slot %d: %+v -> %+v", what, s, v, now))
				return false
			}
		}
		prev = ev.Slots
	}
	return true
}

// aliasProgram builds values, changes one number in place, and probes.
func aliasProgram(r *rand.Rand) Scenario {
	nt := []*Net{main_, test_, litNet("80", "00")}[r.IntN(3)]
	np, _ := netOf(nt)
	small := []*big.Int{one, two, big.NewInt(3), big.NewInt(4), new(big.Int).Sub(fn, one), new(big.Int).Sub(fn, two), bi("7fffffffffffffffffffffffffffffff5d576e7357a4501ddfe92f46681b20a0"), bi("7fffffffffffffffffffffffffffffff5d576e7357a4501ddfe92f46681b20a1")}
	pick := func() *big.Int {
		if r.IntN(2) == 0 {
			return small[r.IntN(len(small))]
		}
		return genScalar(r)
	}
	a, b := pick(), pick()
	for a.Cmp(b) == 0 {
		b = pick()
	}
	var ops []Op
	slot := 0
	var privs, pubs []int
	add := func(o Op, list *[]int) {
		slot++
		o.Out = slot
		ops = append(ops, o)
		if list != nil {
			*list = append(*list, slot)
		}
	}
	imp := func(k *big.Int) Op {
		switch r.IntN(3) {
		case 0:
			return Op{K: "privFromHex", S: []byte(hex64(k)), Net: nt}
		case 1:
			return Op{K: "privFromWIF", S: []byte(refWIF(k, np, false)), Net: nt}
		}
		return Op{K: "privFromWIF", S: []byte(refWIF(k, np, true)), Net: nt}
	}
	add(imp(a), &privs)
	add(imp(b), &privs)
	add(Op{K: "genPriv", Net: nt, Ent: plainBlock(r, 32), Seed: r.Uint64() | 1}, &privs)
	add(Op{K: "addPriv", A: 1, B: 2}, &privs)
	add(Op{K: "mulPriv", A: 1, B: 2}, &privs)
	add(Op{K: "getPub", A: 1}, &pubs)
	add(Op{K: "getPub", A: 2}, &pubs)
	add(Op{K: "getPub", A: 1}, &pubs) // derived twice: two separate values
	pa := mulG(a)
	add(Op{K: "pubFromHex", S: []byte(refFormat(pa, r.IntN(2) == 0)), Net: nt}, &pubs)
	add(Op{K: "pubFromHex", S: []byte(refFormat(pa, r.IntN(2) == 0)), Net: nt}, &pubs)
	add(Op{K: "addPub", A: pubs[0], B: pubs[1]}, &pubs)
	add(Op{K: "addPub", A: pubs[0], B: pubs[0]}, &pubs)
	add(Op{K: "addPub", A: pubs[1], B: pubs[3]}, &pubs)
	ph := refEncode(genEntropy(r, 12), "English")
	pass := genPass(r)
	add(Op{K: "newSeed", S: []byte(ph), S2: []byte(pass), List: "English"}, nil)
	s1 := slot
	add(Op{K: "newSeed", S: []byte(ph), S2: []byte(pass), List: "English"}, nil)
	// change all numbers in place, one after the other
	type tgt struct {
		slot  int
		field string
	}
	ts := []tgt{{s1, "bytes"}}
	for _, p := range privs {
		ts = append(ts, tgt{p, "key"})
	}
	for _, p := range pubs {
		ts = append(ts, tgt{p, "x"}, tgt{p, "y"})
	}
	for _, j := range r.Perm(len(ts)) {
		ops = append(ops, Op{K: "mut", A: ts[j].slot, Field: ts[j].field, Mode: []string{"set", "add", "lsh", "neg", "bits"}[r.IntN(5)]})
	}
	// probe: the same calls with the same texts, and some others
	ops = append(ops, imp(a), Op{K: "privFromHex", S: []byte(hex64(b)), Net: nt, Out: slot + 1}, Op{K: "getPub", A: slot + 1, Out: slot + 2})
	ops = append(ops, Op{K: "privFromHex", S: []byte(hex64(a)), Net: nt, Out: slot + 3}, Op{K: "getPub", A: slot + 3, Out: slot + 4},
		Op{K: "addPriv", A: slot + 3, B: slot + 1}, Op{K: "mulPriv", A: slot + 3, B: slot + 1},
		Op{K: "addPub", A: slot + 2, B: slot + 4, Out: slot + 5}, Op{K: "addPub", A: slot + 4, B: slot + 4, Out: slot + 6},
		Op{K: "pubFromHex", S: []byte(refFormat(pa, true)), Net: nt, Out: slot + 7}, Op{K: "pubFromHex", S: []byte(refFormat(pa.neg(), true)), Net: nt},
		Op{K: "pubFromHex", S: []byte(refFormat(pa, false)), Net: nt},
		Op{K: "format", A: slot + 4, F: true}, Op{K: "format", A: slot + 7, F: false}, Op{K: "address", A: slot + 7, F: true}, Op{K: "address", A: slot + 4},
		Op{K: "newSeed", S: []byte(ph), S2: []byte(pass), List: "English"},
		Op{K: "privFromHex", S: []byte(hex64(one)), Net: nt, Out: slot + 8}, Op{K: "getPub", A: slot + 8, Out: slot + 9},
		Op{K: "privFromHex", S: []byte(hex64(new(big.Int).Sub(fn, one))), Net: nt, Out: slot + 8}, Op{K: "getPub", A: slot + 8, Out: slot + 9})
	return Scenario{Deep: true, Tag: "alias", Ops: ops}
}

// listProgram uses a caller-owned word list that the caller changes between calls.
func listProgram(r *rand.Rand) Scenario {
	sw := SwapLists[r.IntN(3)]
	var i, j int
	fmt.Sscanf(sw, "swap:%d:%d", &i, &j)
	var ops []Op
	ops = append(ops, Op{K: "mkList", List: "English", Out: 1})
	use := func(l string) {
		for k := 0; k < 2; k++ {
			n := mnemonicLens[r.IntN(5)]
			e := genEntropy(r, n)
			if r.IntN(2) == 0 { // use the swapped words
				for x := range e {
					e[x] = []byte{0, 0xff, 0, 0x20}[r.IntN(4)]
				}
			}
			ops = append(ops, Op{K: "newMnemonic", N: n, List: "slot:1", JL: l, Ent: e, Seed: r.Uint64() | 1},
				Op{K: "newSeed", S: []byte(refEncode(e, l)), List: "slot:1", JL: l},
				Op{K: "newSeed", S: []byte(refEncode(e, "English")), List: "English"},
				Op{K: "newSeed", S: []byte(refEncode(e, "English")), List: "slot:1", JL: l},
				Op{K: "newSeed", S: []byte(refEncode(e, sw)), List: sw})
		}
	}
	use("English")
	ops = append(ops, Op{K: "mutList", A: 1, N: i, B: j})
	use(sw)
	ops = append(ops, Op{K: "mutList", A: 1, N: i, B: j})
	use("English")
	return Scenario{Deep: true, Tag: "alias", Ops: ops}
}

// assignProgram uses key objects to which the caller assigns other values.
func assignProgram(r *rand.Rand) Scenario {
	nt := []*Net{main_, test_, litNet("b0", "30")}[r.IntN(3)]
	np, _ := netOf(nt)
	ops := []Op{importPriv(r, genScalar(r), nt, 1), mkPriv(genScalar(r), nt, 2)}
	pub := func(k *big.Int, slot int) Op {
		if p := mulG(k); r.IntN(2) == 0 {
			return mkPub(p, nt, slot)
		} else {
			return Op{K: "pubFromHex", S: []byte(refFormat(p, r.IntN(2) == 0)), Net: nt, Out: slot}
		}
	}
	ops = append(ops, pub(genScalar(r), 3), pub(genScalar(r), 4))
	k := genScalar(r)
	others := [2]*big.Int{genScalar(r), genScalar(r)}
	for i := 0; i < 6; i++ {
		f := r.IntN(2) == 0
		use := []Op{{K: "getPub", A: 1, Out: 5}, {K: "addPriv", A: 1, B: 2}, {K: "mulPriv", A: 2, B: 1}, {K: "format", A: 3, F: f},
			{K: "address", A: 3, F: f}, {K: "format", A: 3, F: !f}, {K: "address", A: 3, F: !f}, {K: "addPub", A: 3, B: 4}, {K: "addPub", A: 3, B: 3}}
		for _, j := range r.Perm(len(use)) {
			ops = append(ops, use[j])
		}
		switch i {
		case 0, 2:
			k = genScalar(r)
		case 1:
			k = new(big.Int).Sub(fn, k)
		case 3, 4: // the same numbers move to another network
			nt = []*Net{main_, test_, litNet("b0", "30"), litNet("80", "05"), litNet("80", "00")}[r.IntN(5)]
			np, _ = netOf(nt)
		}
		mode := []string{"", "new"}[r.IntN(2)]
		ops = append(ops, Op{K: "assign", A: 1, X: hexs(k), Hex: hex64(k), WIF: refWIF(k, np, r.IntN(2) == 0), Net: nt, Mode: mode})
		p := mulG(k)
		ops = append(ops, Op{K: "assign", A: 3, X: hexs(p.X), Y: hexs(p.Y), Net: nt, Mode: mode})
		if i != 3 || r.IntN(2) == 0 { // the other keys may stay behind, and then nothing combines
			p := mulG(others[1])
			ops = append(ops, Op{K: "assign", A: 2, X: hexs(others[0]), Hex: hex64(others[0]), WIF: refWIF(others[0], np, r.IntN(2) == 0), Net: nt, Mode: mode},
				Op{K: "assign", A: 4, X: hexs(p.X), Y: hexs(p.Y), Net: nt, Mode: mode})
		}
	}
	return Scenario{Deep: true, Tag: "assign", Ops: ops}
}

// dropProgram makes values of all kinds, keeps only their numbers, and makes more.
func dropProgram(r *rand.Rand, wait int) Scenario {
	nt := []*Net{main_, test_, litNet("b0", "30")}[r.IntN(3)]
	np, _ := netOf(nt)
	var ops []Op
	for round := 0; round < 3; round++ {
		a, b := genScalar(r), genScalar(r)
		for a.Cmp(b) == 0 {
			b = genScalar(r)
		}
		ph := refEncode(genEntropy(r, 12), "English")
		f := r.IntN(2) == 0
		ops = append(ops, Op{K: "privFromHex", S: []byte(hex64(a)), Net: nt, Out: 1}, Op{K: "privFromWIF", S: []byte(refWIF(b, np, f)), Net: nt, Out: 2},
			Op{K: "genPriv", Net: nt, Ent: plainBlock(r, 32), Seed: r.Uint64() | 1, Out: 3}, Op{K: "addPriv", A: 1, B: 2, Out: 4}, Op{K: "mulPriv", A: 1, B: 2, Out: 5},
			Op{K: "getPub", A: 1, Out: 6}, Op{K: "getPub", A: 4, Out: 7}, Op{K: "pubFromHex", S: []byte(refFormat(mulG(b), f)), Net: nt, Out: 8},
			Op{K: "addPub", A: 6, B: 8, F: f, Out: 9}, Op{K: "addPub", A: 8, B: 8, F: !f, Out: 10}, Op{K: "newSeed", S: []byte(ph), List: "English", Out: 11},
			Op{K: "format", A: 6, F: f}, Op{K: "address", A: 9, F: !f}, Op{K: "format", A: 8, F: !f}, Op{K: "format", A: 9, F: f}, Op{K: "newMnemonic", N: 12, List: "English", Ent: randBytes(r, 16), Seed: 3})
		ops = append(ops, Op{K: "drop", N: wait})
		wait = 0
	}
	return Scenario{Deep: true, Tag: "drop", Ops: ops}
}

// netProgram uses network objects which the caller changes between calls.
func netProgram(r *rand.Rand) Scenario {
	pool := [][2]string{{"80", "00"}, {"ef", "6f"}, {"80", "6f"}, {"b0", "30"}, {"9e", "1e"}, {"80", "05"}}
	at := r.Perm(len(pool))
	nets := []*Net{litNet(pool[at[0]][0], pool[at[0]][1]), litNet(pool[at[1]][0], pool[at[1]][1])}
	ops := []Op{{K: "mkNet", Net: nets[0], Out: 1}, {K: "mkNet", Net: nets[1], Out: 2}}
	ks := []*big.Int{genScalar(r), genScalar(r), genScalar(r)}
	for round := 0; round < 4; round++ {
		nt := func(i int) *Net { return &Net{Name: "slot", P: nets[i].P, H: nets[i].H, Slot: i + 1} }
		for j := 0; j < 5; j++ {
			i := r.IntN(2)
			k := ks[r.IntN(3)]
			f := r.IntN(2) == 0
			p := mulG(k)
			ops = append(ops, Op{K: "privFromHex", S: []byte(hex64(k)), Net: nt(i), Out: 3}, Op{K: "privFromHex", S: []byte(hex64(ks[2-j%3])), Net: nt(r.IntN(2)), Out: 4},
				Op{K: "privFromWIF", S: []byte(refWIF(k, nets[i].P, f)), Net: nt(i), Out: 3}, Op{K: "privFromWIF", S: []byte(refWIF(k, nets[1-i].P, f)), Net: nt(i), Out: 5},
				Op{K: "addPriv", A: 3, B: 4, Out: 6}, Op{K: "mulPriv", A: 3, B: 4, Out: 6}, Op{K: "pubFromHex", S: []byte(refFormat(p, f)), Net: nt(i), Out: 7},
				Op{K: "address", A: 7, F: f}, Op{K: "pubFromHex", S: []byte(refFormat(mulG(ks[1]), !f)), Net: nt(r.IntN(2)), Out: 8}, Op{K: "addPub", A: 7, B: 8, Out: 9},
				Op{K: "genPriv", Net: nt(i), Ent: plainBlock(r, 32), Seed: r.Uint64() | 1, Out: 10})
		}
		i := r.IntN(2)
		x := pool[at[2+round]]
		nets[i] = litNet(x[0], x[1])
		ops = append(ops, Op{K: "mutNet", A: i + 1, Net: nets[i]})
	}
	return Scenario{Tag: "net", Ops: ops}
}

func c18(c *Ctx) {
	r := c.R
	// part 1: aliasing
	var scs []Scenario
	for i := 0; i < 260*c.Mult; i++ {
		scs = append(scs, aliasProgram(r))
		if i%4 == 0 {
			scs = append(scs, listProgram(r), assignProgram(r), netProgram(r), dropProgram(r, 0))
		}
	}
	for i := 0; i < 3; i++ { // something may happen later
		scs = append(scs, dropProgram(r, 2500))
	}
	muts := map[string]int{}
	var mu sync.Mutex
	c.Run(scs, func(sc *Scenario, evs []Ev, d *Death, hist []Scenario) {
		for i := range evs {
			if op := sc.Ops[i]; op.K == "mut" && !evs[i].Skip {
				mu.Lock()
				muts[op.Field+" "+op.Mode]++
				mu.Unlock()
				c.Judged("mutation in place", fmt.Sprintf("%d %s %s %s", sc.ID, op.Field, op.Mode, evs[0].R.Key), true)
			}
		}
		if d != nil {
			c.Judged("died", fmt.Sprint(sc.ID), true)
			c.bad(sc, d.I, evs, hist, d.String())
			return
		}
		if !c.deepCheck(sc, evs, hist) {
			return
		}
		for i := range evs {
			if !c.judgeOne(sc, i, &evs[i], nil, evs, hist) {
				return
			}
		}
	})
	c.extra["mutations_in_place"] = muts
	if c.Stopped() {
		return
	}
	// part 2: the same calls in different orders, in different processes
	fam := append(families(r, 8+2*c.Mult), scripted(r, append(branches(r, 3+c.Mult), failing(r, 60)...))...)
	for i := range fam {
		fam[i].Tag = fmt.Sprint(i)
	}
	var parts [][]Scenario
	orders := 7
	if c.Tier == "thorough" {
		orders = 24
	}
	perm := func() []Scenario {
		p := make([]Scenario, len(fam))
		for i, j := range r.Perm(len(fam)) {
			p[i] = fam[j]
		}
		c.ids(p)
		return p
	}
	fwd := append([]Scenario{}, fam...)
	rev := make([]Scenario, len(fam))
	for i := range fam {
		rev[len(fam)-1-i] = fam[i]
	}
	c.ids(fwd)
	c.ids(rev)
	twice := append(append([]Scenario{}, fam...), fam...) // and each again
	c.ids(twice)
	parts = append(parts, fwd, rev, twice)
	for i := 0; i < orders-2; i++ {
		parts = append(parts, perm())
	}
	for i := 0; i < 60; i++ { // alone in a fresh process
		one := []Scenario{fam[r.IntN(len(fam))]}
		c.ids(one)
		parts = append(parts, one)
	}
	got := map[string]string{}
	ops := 0
	c.RunParts(parts, func(sc *Scenario, evs []Ev, d *Death, hist []Scenario) {
		var what string
		last := len(sc.Ops) - 1
		if d != nil {
			what = "process ended or hung"
		} else {
			for i := range evs {
				if evs[i].A2 != nil || evs[i].B2 != nil || evs[i].Net != "" {
					c.bad(sc, i, evs, hist, "the call changed an argument")
					return
				}
				if evs[i].Kept != "" {
					c.bad(sc, i, evs, hist, "a value returned earlier changed by itself: "+evs[i].Kept)
					return
				}
			}
			what = outcomeOf(&evs[last])
		}
		mu.Lock()
		defer mu.Unlock()
		ops++
		c.Judged("order "+sc.Ops[last].K, sc.Tag, true)
		if prev, ok := got[sc.Tag]; ok && prev != what {
			c.bad(sc, last, evs, hist, fmt.Sprintf("the same call gives %s after one history and %s after another", clip(prev, 400), clip(what, 400)))
			return
		}
		got[sc.Tag] = what
	})
	c.extra["calls_compared_across_orders"] = ops
	c.extra["orders"] = len(parts)
	if c.Stopped() {
		return
	}
	// part 3: long histories of one function, or of two, with earlier calls repeated
	kinds := []string{"getPub", "newSeed", "addPub", "getPub newSeed", "privFromHex", "privFromWIF", "checkWIF", "pubFromHex", "format", "address", "addPriv", "mulPriv", "newMnemonic", "genPriv"}
	counts := map[string]int{"getPub": 2600, "newSeed": 3400, "addPub": 5000, "getPub newSeed": 2600, "pubFromHex": 8000, "newMnemonic": 6000}
	parts = nil
	for _, k := range kinds {
		n := counts[k]
		if n == 0 {
			n = 20000
		}
		// counters and caches of the sizes that stand in the source
		limit := 10 * n
		if strings.Contains(k, "getPub") || k == "newSeed" {
			limit = 5 * n
		}
		if c.Tier == "thorough" {
			n *= 5
		}
		for _, h := range hintNumbers(n, limit) {
			n = max(n, h+h/5+200)
		}
		var p []Scenario
		for i := 0; i < n; i++ {
			sc := historyCall(r, strings.Fields(k))
			sc.Tag = fmt.Sprintf("%s %d", k, i)
			p = append(p, sc)
		}
		parts = append(parts, c.weave(p, 4))
	}
	got = map[string]string{}
	reps := 0
	c.RunParts(parts, func(sc *Scenario, evs []Ev, d *Death, hist []Scenario) {
		last := len(sc.Ops) - 1
		what := "process ended or hung"
		if d == nil {
			what = outcomeOf(&evs[last])
			if evs[last].Kept != "" {
				c.bad(sc, last, evs, hist, "a value returned earlier changed by itself: "+evs[last].Kept)
				return
			}
		}
		mu.Lock()
		defer mu.Unlock()
		if prev, ok := got[sc.Tag]; ok {
			reps++
			c.Judged("again "+sc.Ops[last].K, fmt.Sprintf("%s lag %d", sc.Tag, sc.Lag), true)
			if prev != what {
				c.bad(sc, last, evs, hist, fmt.Sprintf("the same call first gives %s and later %s", clip(prev, 400), clip(what, 400)))
			}
			return
		}
		got[sc.Tag] = what
	})
	c.extra["calls_in_long_histories"] = len(got)
	c.extra["calls_repeated_in_long_histories"] = reps
}

// longHistories are the calls of single processes, thousands of one function each.
func longHistories(r *rand.Rand, cheap, slow int) (parts [][]Scenario) {
	for _, k := range []string{"privFromHex", "privFromWIF", "checkWIF", "pubFromHex", "format", "address", "addPriv", "mulPriv", "newMnemonic", "genPriv", "addPub", "getPub", "newSeed"} {
		n := cheap
		switch k {
		case "getPub", "newSeed":
			n = slow
		}
		var p []Scenario
		for i := 0; i < n; i++ {
			p = append(p, historyCall(r, []string{k}))
		}
		parts = append(parts, p)
	}
	return
}

// historyCall is one call of one of the kinds, mostly successful, with its literals.
func historyCall(r *rand.Rand, kinds []string) Scenario {
	nt := []*Net{main_, main_, test_, litNet("b0", "30")}[r.IntN(4)]
	np, _ := netOf(nt)
	k := randScalar(r)
	if r.IntN(4) == 0 {
		k = new(big.Int).Rsh(k, uint(r.IntN(240)))
		k.Add(k, two)
	}
	one1 := func(o Op) Scenario { return Scenario{Ops: []Op{o}} }
	text := func(s, alphabet string) []byte {
		if r.IntN(10) == 0 {
			s = mutateText(r, s, alphabet)
		}
		return []byte(s)
	}
	point := func() Pt {
		for {
			x := new(big.Int).SetBytes(randBytes(r, 31))
			if y, ok := liftX(x, uint(r.IntN(2))); ok {
				return Pt{x, y}
			}
		}
	}
	switch kind := kinds[r.IntN(len(kinds))]; kind {
	case "getPub":
		return Scenario{Ops: []Op{mkPriv(k, nt, 1), {K: "getPub", A: 1, Out: 2}}}
	case "newSeed":
		l := ListNames[r.IntN(9)]
		n := mnemonicLens[r.IntN(5)]
		return one1(Op{K: "newSeed", S: []byte(refEncode(randBytes(r, entBytes(n)), l)), S2: []byte(passphrases[r.IntN(3)]), List: l})
	case "addPub":
		return Scenario{Ops: []Op{mkPub(point(), nt, 1), mkPub(point(), nt, 2), {K: "addPub", A: 1, B: 2, F: r.IntN(2) == 0, Out: 3}}}
	case "privFromHex":
		return one1(Op{K: kind, S: text(mixCase(r, hex64(k)), "0123456789abcdefg"), Net: nt, Out: 1})
	case "privFromWIF":
		return one1(Op{K: kind, S: text(refWIF(k, np, r.IntN(2) == 0), b58), Net: nt, Out: 1})
	case "checkWIF":
		return one1(Op{K: kind, S: text(refWIF(k, np, r.IntN(2) == 0), b58)})
	case "pubFromHex":
		return one1(Op{K: kind, S: text(refFormat(point(), r.IntN(3) > 0), "0123456789abcdef"), Net: nt, Out: 1})
	case "format", "address":
		return Scenario{Ops: []Op{mkPub(point(), nt, 1), {K: kind, A: 1, F: r.IntN(2) == 0}}}
	case "addPriv", "mulPriv":
		return Scenario{Ops: []Op{mkPriv(k, nt, 1), mkPriv(randScalar(r), nt, 2), {K: kind, A: 1, B: 2, Out: 3}}}
	case "newMnemonic":
		return one1(Op{K: kind, N: mnemonicLens[r.IntN(5)], List: ListNames[r.IntN(9)], Ent: randBytes(r, 32), Seed: 5})
	default:
		return one1(Op{K: kind, Net: nt, Ent: randBytes(r, 32), Seed: 6, Out: 1})
	}
}

// ---------- C19 ----------

func c19(c *Ctx) {
	r := c.R
	var scs []Scenario
	one1 := func(op Op) { scs = append(scs, Scenario{Ops: []Op{op}}) }
	text := func(s string) {
		b := []byte(s)
		one1(Op{K: "privFromHex", S: b, Net: genNet(r), Out: 1})
		one1(Op{K: "privFromWIF", S: b, Net: genNet(r), Out: 1})
		one1(Op{K: "checkWIF", S: b})
		one1(Op{K: "pubFromHex", S: b, Net: genNet(r), Out: 1})
		one1(Op{K: "newSeed", S: b, S2: []byte(genPass(r)), List: ListNames[r.IntN(9)]})
	}
	for _, s := range hostile {
		text(s)
		for _, t := range hostile {
			if r.IntN(12) == 0 {
				text(s + t)
			}
		}
	}
	for l := 0; l <= 160; l++ {
		for _, ch := range []string{"1", "0", "f", "z", "2", " ", "\x00", "\xff", "é", "4"} {
			if l%3 == 0 || ch == "1" || ch == "0" {
				text(strings.Repeat(ch, l))
			}
		}
	}
	for b := 0; b < 256; b++ {
		text(string([]byte{byte(b)}))
		text(fmt.Sprintf("%02x", b))
		text(fmt.Sprintf("%02x%064x", b, randScalar(r)))
		text(fmt.Sprintf("%02x%064x%064x", b, randScalar(r), randScalar(r)))
	}
	for _, k := range []string{"privFromHex", "pubFromHex", "newSeed"} { // very large ones
		for _, u := range []string{"1", "04", "abandon ", " ", "\xff", "02aF"} {
			one1(Op{K: k, S: []byte(strings.Repeat(u, 3<<20/len(u))), Net: main_, List: "English"})
		}
	}
	for _, n := range []int{1000, 5000, 20000} { // large inputs
		text(strings.Repeat("1", n))
		text(strings.Repeat("z", n))
		text(strings.Repeat("04", n))
		text(strings.Repeat("abandon ", n))
		text(strings.Repeat("\xff", n))
	}
	for i := 0; i < 6000*c.Mult; i++ {
		k := genScalar(r)
		var s string
		switch i % 10 {
		case 0:
			s = mutateText(r, hex64(k), "0123456789abcdefABCDEFxg -+")
		case 1:
			s = mutateText(r, refWIF(k, []string{"80", "ef"}[r.IntN(2)], r.IntN(2) == 0), b58)
		case 2:
			s = mutateText(r, refFormat(genPoint(r), r.IntN(2) == 0), "0123456789abcdef")
		case 3:
			s = string(randBytes(r, r.IntN(80)))
		case 4:
			l := r.IntN(12)
			x := make([]byte, l)
			for j := range x {
				x[j] = b58[r.IntN(58)]
			}
			s = string(x)
		case 5: // valid checksum, arbitrary payload
			s = b58check(randBytes(r, r.IntN(50)))
		case 6:
			s = refEncode(genEntropy(r, mnemonicLens[r.IntN(5)]), ListNames[r.IntN(9)])
		case 7: // valid encodings of anything
			s = fmt.Sprintf("0%d%064x", 2+r.IntN(2), new(big.Int).SetBytes(randBytes(r, 32)))
		case 8:
			n := r.IntN(28)
			w := make([]string, n)
			l := official[ListNames[r.IntN(9)]]
			for j := range w {
				w[j] = l[r.IntN(2048)]
			}
			s = strings.Join(w, " ")
		case 9:
			x := []rune{}
			for j := 0; j < r.IntN(70); j++ {
				x = append(x, rune(r.IntN(0x3000)))
			}
			s = string(x)
		}
		text(s)
	}
	// word counts and lists of every kind
	var lists []string
	lists = append(lists, badLists...)
	lists = append(lists, ListNames...)
	lists = append(lists, SwapLists...)
	lists = append(lists, "custom:2048", "custom:2", "custom:12", "custom:100", "custom:1024", "custom:2050", "custom:10000")
	counts := []int{0, 1, 2, 3, 6, 9, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 27, 33, 48, 100, 1000, -1, -3, -12, -24, 1 << 30, -1 << 31, 1<<63 - 1, -1 << 63, 1<<32 + 12}
	for _, l := range lists {
		for _, n := range counts {
			one1(Op{K: "newMnemonic", N: n, List: l})
			one1(Op{K: "newMnemonic", N: n, List: l, Ent: []byte(strings.Repeat("\xff", 32)), Seed: 3})
			one1(Op{K: "newMnemonic", N: n, List: l, Ent: make([]byte, 32), Seed: 3})
		}
		for i := 0; i < 30; i++ {
			n := r.IntN(27)
			src := ListNames[r.IntN(9)]
			w := make([]string, n)
			for j := range w {
				w[j] = official[src][r.IntN(2048)]
			}
			one1(Op{K: "newSeed", S: []byte(strings.Join(w, " ")), List: l})
			one1(Op{K: "newSeed", S: []byte(refEncode(genEntropy(r, mnemonicLens[i%5]), src)), List: l})
		}
		for _, h := range hostile {
			one1(Op{K: "newSeed", S: []byte(h), List: l})
		}
		var m int
		if x, _ := fmt.Sscanf(l, "custom:%d", &m); x == 1 && m > 0 { // phrases from a list of the wrong size
			cl := CustomList(m)
			for _, n := range counts[:25] {
				w := make([]string, n)
				for j := range w {
					w[j] = cl[r.IntN(m)]
				}
				one1(Op{K: "newSeed", S: []byte(strings.Join(w, " ")), List: l})
				for j := range w {
					w[j] = cl[m-1]
				}
				one1(Op{K: "newSeed", S: []byte(strings.Join(w, " ")), List: l})
			}
		}
	}
	for _, b := range branches(r, 40*c.Mult) {
		if b.plain {
			scs = append(scs, b.scenario())
		}
	}
	for _, e := range keyEntropies(r) {
		one1(Op{K: "genPriv", Net: genNet(r), Ent: e, Seed: 7})
	}
	// every key value
	edges := edgeScalars()
	for i, k := range edges {
		if i%2 == 0 && i > 90 && c.Tier == "quick" {
			continue
		}
		scs = append(scs, Scenario{Ops: []Op{mkPriv(k, main_, 1), {K: "getPub", A: 1, Out: 2}, {K: "format", A: 2, F: true}, {K: "address", A: 2}}})
	}
	for i := 0; i < 1500*c.Mult; i++ {
		a, b := genScalar(r), genScalar(r)
		switch i % 4 {
		case 0:
			a, b = edges[r.IntN(len(edges))], edges[r.IntN(len(edges))]
		case 1:
			b = new(big.Int).Sub(fn, a)
		case 2:
			b = a
		}
		na, nb := genNet(r), genNet(r)
		if i%3 != 0 {
			nb = na
		}
		scs = append(scs, Scenario{Ops: []Op{mkPriv(a, na, 1), mkPriv(b, nb, 2), {K: "addPriv", A: 1, B: 2, Out: 3}, {K: "mulPriv", A: 1, B: 2, Out: 4}}})
		pa, pb := mulG(a), mulG(b)
		scs = append(scs, Scenario{Ops: []Op{mkPub(pa, na, 1), mkPub(pb, nb, 2), {K: "addPub", A: 1, B: 2, Out: 3}, {K: "addPub", A: 2, B: 1, Out: 4}, {K: "addPub", A: 3, B: 1, Out: 5}, {K: "format", A: 3, F: true}, {K: "address", A: 3, F: true}, {K: "address", A: 5}}})
	}
	for _, p := range smallPoints() {
		scs = append(scs, Scenario{Ops: []Op{{K: "pubFromHex", S: []byte(refFormat(p, true)), Net: main_, Out: 1}, {K: "addPub", A: 1, B: 1, Out: 2}, {K: "format", A: 1}, {K: "format", A: 1, F: true}, {K: "address", A: 1}, {K: "address", A: 1, F: true},
			{K: "pubFromHex", S: []byte(refFormat(p.neg(), false)), Net: main_, Out: 3}, {K: "addPub", A: 1, B: 3, Out: 4}, {K: "format", A: 2}}})
	}
	// results fed into everything
	for i := 0; i < 150*c.Mult; i++ {
		p, _ := walletProgram(r, 12, false)
		scs = append(scs, p)
	}
	c.R.Shuffle(len(scs), func(i, j int) { scs[i], scs[j] = scs[j], scs[i] })
	long := longHistories(r, 30000*min(c.Mult, 4), 2500*min(c.Mult, 4))
	for _, p := range long {
		c.ids(p)
	}
	outcome := map[string]int{}
	var mu sync.Mutex
	handler := func(sc *Scenario, evs []Ev, d *Death, hist []Scenario) {
		for i := range sc.Ops {
			var ev *Ev
			var dd *Death
			if i < len(evs) {
				ev = &evs[i]
			} else if d != nil && d.I == i {
				dd, ev = d, &Ev{}
			} else {
				break
			}
			op := &sc.Ops[i]
			if ev.Skip || strings.HasPrefix(op.K, "mk") {
				continue
			}
			key := fmt.Sprintf("%q %d %s", clip(textOf(op, ev), 200), op.N, op.List)
			if ev.A != nil {
				key = fmt.Sprintf("%v %v %v", ev.A, ev.B, op.F)
			}
			c.Judged(op.K, key, true)
			mu.Lock()
			if ev.Err {
				outcome[op.K+" error"]++
			} else {
				outcome[op.K+" result"]++
			}
			mu.Unlock()
			if bad := abnormal(ev, dd); bad != "" {
				c.bad(sc, i, evs, hist, fmt.Sprintf("%s: input %s", bad, clip(key, 300)))
				return
			}
		}
	}
	c.Run(scs, handler)
	if !c.Stopped() {
		c.RunParts(long, handler)
	}
	c.extra["outcomes"] = outcome
}

// ---------- C20 ----------

func c20(c *Ctx) {
	r := c.R
	scs := families(r, 14*c.Mult)
	for _, s := range append(append([]string{}, hostile...), strings.Repeat("1", 60), strings.Repeat("f", 64), "04"+strings.Repeat("f", 128), "02"+strings.Repeat("f", 64)) {
		b := []byte(s)
		for _, k := range []string{"privFromHex", "privFromWIF", "checkWIF", "pubFromHex", "newSeed"} {
			scs = append(scs, Scenario{Ops: []Op{{K: k, S: b, Net: genNet(r), List: "English", Out: 1}}})
		}
	}
	for _, e := range keyEntropies(r) {
		scs = append(scs, Scenario{Ops: []Op{{K: "genPriv", Net: genNet(r), Ent: e, Seed: 7}}})
	}
	for _, n := range mnemonicLens {
		for i, e := range specialEntropies(n) {
			l := append(append([]string{}, ListNames...), "custom:2048")[i%10]
			scs = append(scs, Scenario{Ops: []Op{{K: "newMnemonic", N: n, List: l, Ent: e, Seed: 7, Out: 1}, {K: "newSeed", SS: 1, S2: []byte(genPass(r)), List: l}}})
			w := strings.Split(refEncode(e, l), " ")
			w[n-1] = official[l][r.IntN(2048)]
			scs = append(scs, Scenario{Ops: []Op{{K: "newSeed", S: []byte(strings.Join(w, " ")), List: l}}})
		}
		for _, l := range badLists {
			scs = append(scs, Scenario{Ops: []Op{{K: "newMnemonic", N: n, List: l}, {K: "newSeed", S: []byte(refEncode(genEntropy(r, n), "English")), List: l}}})
		}
	}
	for n := -3; n < 40; n++ {
		scs = append(scs, Scenario{Ops: []Op{{K: "newMnemonic", N: n, List: "English"}}})
	}
	for _, b := range branches(r, 20*c.Mult) {
		scs = append(scs, b.scenario())
	}
	// failing random source
	for _, g := range genKinds() {
		for at := 0; at < g.need; at += 3 {
			o := g.op
			o.Ent, o.Seed = plainBlock(r, g.need), 3
			o.Fault = &Fault{FailAt: at, Err: faultErrs[at%len(faultErrs)], Partial: at%4 == 0}
			scs = append(scs, Scenario{Ops: []Op{o, g.op}})
		}
	}
	for i, k := range edgeScalars() {
		if i%4 == 0 || i < 80 {
			scs = append(scs, Scenario{Ops: []Op{mkPriv(k, main_, 1), {K: "getPub", A: 1, Out: 2}, {K: "format", A: 2}, {K: "address", A: 2, F: true}, {K: "addPub", A: 2, B: 2, Out: 3}}})
		}
	}
	for _, s := range outOfRange(r) {
		scs = append(scs, Scenario{Ops: []Op{{K: "mkPriv", X: s, Net: main_, Out: 1}, {K: "getPub", A: 1, Out: 2}}})
	}
	for i := 0; i < 3000*c.Mult; i++ {
		t, n := wifTexts1(r)
		scs = append(scs, Scenario{Ops: []Op{{K: "privFromWIF", S: []byte(t), Net: n, Out: 1}, {K: "privFromHex", S: []byte(mutateText(r, hex64(genScalar(r)), "0123456789abcdef")), Net: n}}})
	}
	for i := 0; i < 60*c.Mult; i++ {
		p, _ := walletProgram(r, 10, false)
		scs = append(scs, p)
	}
	c.R.Shuffle(len(scs), func(i, j int) { scs[i], scs[j] = scs[j], scs[i] })
	var slow [][]Scenario
	for _, o := range slowSources(c) {
		p := []Scenario{{Ops: []Op{o, {K: o.K, N: o.N, List: o.List, Net: o.Net}}}}
		c.ids(p)
		slow = append(slow, p)
	}
	for _, p := range longHistories(r, 12000*min(c.Mult, 4), 2500*min(c.Mult, 4)) { // output that begins only after many calls
		c.ids(p)
		slow = append(slow, p)
	}
	handler := func(sc *Scenario, evs []Ev, d *Death, hist []Scenario) {
		for i := range evs {
			op, ev := &sc.Ops[i], &evs[i]
			if ev.Skip || strings.HasPrefix(op.K, "mk") {
				continue
			}
			res := "result"
			if ev.Err {
				res = "error"
			} else if ev.Panic != "" {
				res = "panic"
			}
			key := fmt.Sprintf("%q %d %s %x", textOf(op, ev), op.N, op.List, op.Ent)
			if ev.A != nil {
				key = fmt.Sprintf("%v %v %v", *ev.A, ev.B, op.F)
			}
			c.Judged(op.K+" "+res, key, true)
			if ev.Out != 0 {
				c.bad(sc, i, evs, hist, fmt.Sprintf("the call wrote %d bytes to the standard streams", ev.Out))
				return
			}
		}
	}
	c.Run(scs, handler)
	if !c.Stopped() {
		c.RunParts(slow, handler)
	}
	c.mu.Lock()
	total := c.counts["output_bytes_total"]
	c.counts["output_bytes_total"] = total
	c.mu.Unlock()
	if total > 0 && len(c.viol) == 0 {
		c.Violate(Violation{What: fmt.Sprintf("operation ?: the library wrote %d bytes to the standard streams outside of a call (initialisation, another goroutine or a delayed write)", total)})
	}
}

// wifTexts1 is one random WIF-like text with a network.
func wifTexts1(r *rand.Rand) (string, *Net) {
	k := genScalar(r)
	n := genNet(r)
	p, _ := netOf(n)
	w := refWIF(k, p, r.IntN(2) == 0)
	switch r.IntN(5) {
	case 0:
		return mutateText(r, w, b58), n
	case 1:
		return w, genNet(r)
	case 2:
		return b58check(append(unhex(p), randBytes(r, r.IntN(40))...)), n
	}
	return w, n
}

// ---------- C21 ----------

func c21(c *Ctx) {
	r := c.R
	var scs []Scenario
	nets := []*Net{main_, test_, litNet("80", "00"), litNet("EF", "6F"), litNet("80", "6F"), litNet("EF", "00"), litNet("b0", "30"), litNet("9e", "1e"), litNet("00", "00"), litNet("ff", "80"), litNet("6F", "EF"), litNet("81", "00"), litNet("80", "01"), litNet("08", "00"), litNet("f0", "0f")}
	scs = append(scs, Scenario{Ops: []Op{{K: "nets"}}})
	life := func(k, k2 *big.Int, a, b *Net, derive bool) {
		ap, _ := netOf(a)
		ops := []Op{
			{K: "privFromHex", S: []byte(hex64(k)), Net: a, Out: 1},
			{K: "privFromWIF", SS: 1, SF: "wif", Net: a, Out: 2},
			{K: "privFromWIF", SS: 1, SF: "wif", Net: b, Out: 3},
			{K: "privFromWIF", S: []byte(refWIF(k, ap, true)), Net: b, Out: 4},
			{K: "privFromHex", S: []byte(hex64(k2)), Net: b, Out: 5},
			{K: "addPriv", A: 1, B: 5, Out: 6}, {K: "mulPriv", A: 5, B: 1, Out: 7},
			{K: "addPriv", A: 2, B: 5, Out: 6}, {K: "mulPriv", A: 5, B: 2, Out: 7},
			{K: "addPriv", A: 5, B: 1, Out: 6},
			{K: "genPriv", Net: a, Ent: randBytes(r, 64), Seed: r.Uint64() | 1, Out: 8},
			{K: "addPriv", A: 8, B: 5, Out: 9}, {K: "addPriv", A: 8, B: 1, Out: 9},
			mkPub(mulG(k), a, 10), mkPub(mulG(k2), b, 11),
			{K: "addPub", A: 10, B: 11, F: true, Out: 12}, {K: "addPub", A: 11, B: 10, Out: 12}, {K: "addPub", A: 10, B: 10, Out: 13},
			{K: "address", A: 10, F: true}, {K: "address", A: 11, F: false}, {K: "address", A: 12, F: true}, {K: "address", A: 13, F: false},
			{K: "pubFromHex", S: []byte(refFormat(mulG(k), true)), Net: b, Out: 14}, {K: "address", A: 14}, {K: "addPub", A: 14, B: 10, Out: 15}, {K: "addPub", A: 14, B: 11, Out: 15}, {K: "address", A: 15, F: true},
			{K: "pubFromHex", S: []byte(refFormat(mulG(k2), false)), Net: a, Out: 16}, {K: "addPub", A: 16, B: 11, Out: 17}, {K: "address", A: 16, F: true},
		}
		if derive {
			ops = append(ops, Op{K: "getPub", A: 1, Out: 18}, Op{K: "getPub", A: 5, Out: 19}, Op{K: "getPub", A: 2, Out: 20}, Op{K: "addPub", A: 18, B: 19, Out: 21}, Op{K: "addPub", A: 18, B: 20, Out: 22}, Op{K: "address", A: 18}, Op{K: "address", A: 19, F: true}, Op{K: "address", A: 21}, Op{K: "address", A: 22},
				Op{K: "getPub", A: 6, Out: 23}, Op{K: "address", A: 23, F: true})
		}
		ops = append(ops, Op{K: "nets"})
		scs = append(scs, Scenario{Ops: ops})
	}
	for i, a := range nets {
		for j, b := range nets {
			for rep := 0; rep < c.Mult; rep++ {
				k, k2 := genScalar(r), genScalar(r)
				if k.Cmp(k2) != 0 {
					life(k, k2, a, b, (i+j)%3 == 0)
				}
			}
		}
	}
	for i := 0; i < 900*c.Mult; i++ {
		a, b := genNet(r), genNet(r)
		if i%4 == 0 {
			p, h := netOf(a)
			b = litNet(p, h)
		}
		k, k2 := genScalar(r), genScalar(r)
		if k.Cmp(k2) != 0 {
			life(k, k2, a, b, i%6 == 0)
		}
	}
	for p := 0; p < 256; p++ { // every WIF version byte against the standard networks
		k := randScalar(r)
		for _, cp := range []bool{false, true} {
			for _, n := range []*Net{main_, test_} {
				scs = append(scs, Scenario{Ops: []Op{{K: "privFromWIF", S: []byte(refWIF(k, fmt.Sprintf("%02x", p), cp)), Net: n, Out: 1}}})
			}
		}
		n := litNet(fmt.Sprintf("%02x", p), fmt.Sprintf("%02x", 255-p))
		scs = append(scs, Scenario{Ops: []Op{mkPriv(k, n, 1), mkPriv(randScalar(r), n, 2), {K: "addPriv", A: 1, B: 2, Out: 3}, {K: "mulPriv", A: 1, B: 2, Out: 4}, mkPub(mulG(k), n, 5), {K: "address", A: 5, F: p%2 == 0}, {K: "privFromHex", S: []byte(hex64(k)), Net: n, Out: 6}, {K: "genPriv", Net: n}}})
	}
	for i := 0; i < 30*c.Mult; i++ { // networks of the caller's own that it changes, keys that it moves from one network to another
		scs = append(scs, assignProgram(r), netProgram(r))
	}
	c.Run(scs, func(sc *Scenario, evs []Ev, d *Death, hist []Scenario) {
		if d != nil {
			c.Judged("died", fmt.Sprint(sc.ID), true)
			c.bad(sc, d.I, evs, hist, d.String())
			return
		}
		for i := range evs {
			op, ev := &sc.Ops[i], &evs[i]
			if op.K == "nets" {
				c.Judged("network constants", fmt.Sprint(sc.ID), true)
				if string(ev.R.S) != "80/00 EF/6F" {
					c.bad(sc, i, evs, hist, "network prefixes are "+string(ev.R.S))
					return
				}
				continue
			}
			if ev.Skip {
				continue
			}
			if bad := netJudge(op, ev); bad != "" {
				c.Judged(op.K, fmt.Sprintf("%d.%d", sc.ID, i), true)
				c.bad(sc, i, evs, hist, bad)
				return
			}
			if op.K == "privFromHex" || op.K == "privFromWIF" || op.K == "genPriv" || op.K == "pubFromHex" || ev.A != nil {
				np, nh := netOf(op.Net)
				key := fmt.Sprintf("%s %s %s", np, nh, textOf(op, ev))
				cl := op.K
				if ev.A != nil {
					key = fmt.Sprintf("%s/%s %s %s", ev.A.NP, ev.A.NH, ev.A.Key, ev.A.X)
					if ev.B != nil {
						key += fmt.Sprintf(" %s/%s %s %s", ev.B.NP, ev.B.NH, ev.B.Key, ev.B.X)
						if ev.A.NP+ev.A.NH != ev.B.NP+ev.B.NH {
							cl += " mixed"
						}
					}
				}
				if ev.Err {
					cl += " refused"
				}
				c.Judged(cl, key, true)
			}
		}
	})
}

// netJudge looks at the network aspects only.
func netJudge(op *Op, ev *Ev) string {
	if ev.Panic != "" {
		return "the call panicked: " + clip(ev.Panic, 300)
	}
	carried := func(np, nh string) string {
		if ev.Err {
			return ""
		}
		if !sameNet(&ev.R, np, nh) {
			return fmt.Sprintf("the result carries network %s/%s (nil=%v) instead of %s/%s", ev.R.NP, ev.R.NH, ev.R.NN, np, nh)
		}
		if ev.R.T == "priv" {
			p, ok := b58checkDec(ev.R.WIF)
			if !ok || !strings.HasPrefix(fmt.Sprintf("%x", p), strings.ToLower(np)) {
				return fmt.Sprintf("the WIF %q is not of network %s", ev.R.WIF, np)
			}
		}
		return ""
	}
	np, nh := netOf(op.Net)
	switch op.K {
	case "privFromHex", "genPriv", "pubFromHex":
		if ev.Err {
			return "refused with error " + ev.Msg // only valid texts are used here
		}
		return carried(np, nh)
	case "privFromWIF":
		if _, ok := refParseWIF(textOf(op, ev), np); !ok {
			return refused(ev, fmt.Sprintf("%q is a WIF of another network than %s", textOf(op, ev), np))
		}
		if ev.Err {
			return "refused with error " + ev.Msg
		}
		return carried(np, nh)
	case "getPub":
		if ev.Err {
			return "derivation failed"
		}
		return carried(ev.A.NP, ev.A.NH)
	case "addPriv", "mulPriv", "addPub":
		a, b := ev.A, ev.B
		if a.NP != b.NP || a.NH != b.NH {
			if strings.EqualFold(a.NP, b.NP) && strings.EqualFold(a.NH, b.NH) {
				return ""
			}
			return refused(ev, fmt.Sprintf("the networks %s/%s and %s/%s differ", a.NP, a.NH, b.NP, b.NH))
		}
		if ev.Err {
			// legitimate refusals: identical or opposite keys
			if op.K == "addPub" {
				if a.X == b.X && a.Y != b.Y {
					return ""
				}
			} else if a.Key == b.Key || new(big.Int).Add(numOf(a.Key), numOf(b.Key)).Cmp(fn) == 0 {
				return ""
			}
			return "keys of equal networks were refused with error " + ev.Msg
		}
		return carried(a.NP, a.NH)
	case "address":
		if ev.Err {
			return "refused with error " + ev.Msg
		}
		p, ok := b58checkDec(string(ev.R.S))
		if !ok || !strings.HasPrefix(fmt.Sprintf("%x", p), strings.ToLower(ev.A.NH)) {
			return fmt.Sprintf("the address %q is not of network %s", ev.R.S, ev.A.NH)
		}
	}
	return ""
}

// ---------- C22 ----------

func c22(c *Ctx) {
	r := c.R
	var parts [][]Scenario
	parts = append(parts, []Scenario{{Tag: "fresh", Ops: []Op{{K: "lists"}}}})
	uses := 12 * c.Mult
	if uses > 60 {
		uses = 60
	}
	for u := 0; u < uses; u++ {
		var ops []Op
		for i := 0; i < 400; i++ {
			l := append(append(append([]string{}, ListNames...), badLists...), "custom:2048", "rev")[r.IntN(21)]
			n := mnemonicLens[r.IntN(5)]
			switch r.IntN(4) {
			case 0:
				ops = append(ops, Op{K: "newMnemonic", N: n, List: l})
			case 1:
				ops = append(ops, Op{K: "newMnemonic", N: r.IntN(30), List: l, Ent: genEntropy(r, n), Seed: 5})
			case 2:
				src := ListNames[r.IntN(9)]
				ops = append(ops, Op{K: "newSeed", S: []byte(refEncode(genEntropy(r, n), src)), List: src})
			case 3:
				src := ListNames[r.IntN(9)]
				ph := refEncode(genEntropy(r, n), src)
				iv := invalidPhrases(r, ph, src, false)
				ops = append(ops, Op{K: "newSeed", S: []byte(iv[r.IntN(len(iv))]), List: l})
			}
		}
		k := genScalar(r)
		ops = append(ops, Op{K: "privFromHex", S: []byte(hex64(k)), Net: main_, Out: 1}, Op{K: "getPub", A: 1, Out: 2}, Op{K: "address", A: 2}, Op{K: "genPriv", Net: test_}, Op{K: "lists"})
		parts = append(parts, []Scenario{{Tag: "after use", Ops: ops}})
		if p := c.surroundings(); u < len(p) {
			parts = append(parts, []Scenario{{Tag: "fresh", Where: p[u].name, Ops: []Op{{K: "lists"}}}}, []Scenario{{Tag: "after use", Where: p[u].name, Ops: ops[max(0, len(ops)-60):]}})
		}
	}
	// tens of thousands of uses
	for u := 0; u < 4; u++ {
		var ops []Op
		for i := 0; i < 24000; i++ {
			l := ListNames[r.IntN(9)]
			if u == 3 {
				l = "English"
			}
			n := mnemonicLens[r.IntN(5)]
			switch {
			case u == 0 || u == 3 && i%2 == 0:
				ops = append(ops, Op{K: "newMnemonic", N: n, List: l})
			case u == 1 && i%8 == 0:
				ops = append(ops, Op{K: "newSeed", S: []byte(refEncode(genEntropy(r, n), l)), List: l})
			default:
				w := strings.Split(refEncode(genEntropy(r, n), l), " ")
				w[r.IntN(n)] = official[l][r.IntN(2048)]
				o := Op{K: "newSeed", S: []byte(strings.Join(w, " ")), List: l}
				if u == 2 && i > 20 && i%20 != 0 { // the same few phrases again and again
					o = ops[i%20]
				}
				ops = append(ops, o)
			}
			if i%6000 == 5999 {
				ops = append(ops, Op{K: "lists"})
			}
		}
		parts = append(parts, []Scenario{{Tag: "after many uses", Ops: ops}})
	}
	for i := range parts {
		c.ids(parts[i])
	}
	c.RunParts(parts, func(sc *Scenario, evs []Ev, d *Death, hist []Scenario) {
		if d != nil {
			return
		}
		i := len(evs) - 1
		for _, n := range ListNames {
			got, want := evs[i].Lists[n], official[n]
			if len(got) != len(want) {
				c.bad(sc, i, nil, hist, fmt.Sprintf("%s: list %s has %d words", sc.Tag, n, len(got)))
				continue
			}
			for j := range want {
				key := fmt.Sprintf("%s %d", n, j)
				if sc.Tag != "fresh" {
					key += fmt.Sprint(" ", sc.ID)
				}
				c.Judged("word "+sc.Tag, key, sc.Tag == "fresh" || j == 0)
				if got[j] != want[j] {
					c.bad(sc, i, nil, hist, fmt.Sprintf("%s: word %d of list %s is %q (%x), should be %q (%x)", sc.Tag, j, n, got[j], got[j], want[j], want[j]))
					break
				}
			}
		}
	})
	c.extra["lists"] = len(ListNames)
	c.extra["words_compared_fresh"] = 9 * 2048
}

// ---------- C23 ----------

type mval struct {
	kind string // priv, pub, text
	k    *big.Int
	net  *Net
	wif  string
	text string
}

// walletProgram builds a random program together with the value every slot
// must have (nil: the operation must be refused).
func walletProgram(r *rand.Rand, n int, deep bool) (Scenario, []*mval) {
	var ops []Op
	var want []*mval // per operation
	nets := []*Net{main_, test_}
	if r.IntN(3) == 0 {
		nets = append(nets, litNet("80", "00"), litNet("b0", "30"))
	}
	slot := 0
	var privs, pubs, texts []int
	val := map[int]*mval{}
	put := func(o Op, v *mval) {
		slot++
		o.Out = slot
		ops = append(ops, o)
		want = append(want, v)
		val[slot] = v
		if v == nil {
			return
		}
		switch v.kind {
		case "priv":
			privs = append(privs, slot)
		case "pub":
			pubs = append(pubs, slot)
		case "text":
			texts = append(texts, slot)
		}
	}
	pick := func(l []int) int {
		if r.IntN(3) == 0 {
			return l[len(l)-1]
		}
		return l[r.IntN(len(l))]
	}
	same := func(a, b *Net) bool {
		ap, ah := netOf(a)
		bp, bh := netOf(b)
		return ap == bp && ah == bh
	}
	net := nets[r.IntN(len(nets))]
	imp := func(k *big.Int) {
		nt := net
		if r.IntN(6) == 0 {
			nt = nets[r.IntN(len(nets))]
		}
		p, _ := netOf(nt)
		switch r.IntN(3) {
		case 0:
			put(Op{K: "privFromHex", S: []byte(mixCase(r, hex64(k))), Net: nt}, &mval{kind: "priv", k: k, net: nt, wif: refWIF(k, p, false)})
		default:
			w := refWIF(k, p, r.IntN(2) == 0)
			put(Op{K: "privFromWIF", S: []byte(w), Net: nt}, &mval{kind: "priv", k: k, net: nt, wif: w})
		}
	}
	imp(genScalar(r))
	imp(genScalar(r))
	for len(ops) < n {
		switch r.IntN(13) {
		case 0:
			k := genScalar(r)
			if r.IntN(3) == 0 { // related to an existing key: its opposite, or the complement to something small
				k = new(big.Int).Sub(fn, val[pick(privs)].k)
			} else if r.IntN(3) == 0 {
				k = new(big.Int).Sub(new(big.Int).Rsh(fn, uint(4+r.IntN(200))), val[pick(privs)].k)
				k.Mod(k, fn)
			}
			if validScalar(k) {
				imp(k)
			}
		case 1, 2: // add or multiply
			a, b := pick(privs), pick(privs)
			va, vb := val[a], val[b]
			kind := []string{"addPriv", "mulPriv"}[r.IntN(2)]
			k := new(big.Int)
			if kind == "addPriv" {
				k.Add(va.k, vb.k)
			} else {
				k.Mul(va.k, vb.k)
			}
			k.Mod(k, fn)
			var w *mval
			if same(va.net, vb.net) && va.k.Cmp(vb.k) != 0 && k.Sign() != 0 {
				p, _ := netOf(va.net)
				w = &mval{kind: "priv", k: k, net: va.net, wif: refWIF(k, p, false)}
			}
			put(Op{K: kind, A: a, B: b}, w)
		case 3: // export and import
			a := pick(privs)
			v := val[a]
			if r.IntN(2) == 0 {
				put(Op{K: "privFromWIF", SS: a, SF: "wif", Net: v.net}, v)
			} else {
				p, _ := netOf(v.net)
				put(Op{K: "privFromHex", SS: a, SF: "hex", Net: v.net}, &mval{kind: "priv", k: v.k, net: v.net, wif: refWIF(v.k, p, false)})
			}
		case 4, 5: // derive
			if r.IntN(3) == 0 || len(pubs) == 0 {
				a := pick(privs)
				put(Op{K: "getPub", A: a}, &mval{kind: "pub", k: val[a].k, net: val[a].net})
			}
		case 6, 7:
			if len(pubs) == 0 {
				continue
			}
			a, b := pick(pubs), pick(pubs)
			va, vb := val[a], val[b]
			k := new(big.Int).Add(va.k, vb.k)
			k.Mod(k, fn)
			var w *mval
			if same(va.net, vb.net) && k.Sign() != 0 {
				w = &mval{kind: "pub", k: k, net: va.net}
			}
			put(Op{K: "addPub", A: a, B: b, F: r.IntN(2) == 0}, w)
		case 8, 9:
			if len(pubs) == 0 {
				continue
			}
			a := pick(pubs)
			f := r.IntN(2) == 0
			put(Op{K: "format", A: a, F: f}, &mval{kind: "text", k: val[a].k, text: refFormat(mulG(val[a].k), f)})
		case 10:
			if len(pubs) == 0 {
				continue
			}
			a := pick(pubs)
			f := r.IntN(2) == 0
			_, h := netOf(val[a].net)
			put(Op{K: "address", A: a, F: f}, &mval{kind: "addr", k: val[a].k, text: refAddress(mulG(val[a].k), h, f)})
		case 11:
			if len(texts) == 0 {
				continue
			}
			a := pick(texts)
			nt := net
			put(Op{K: "pubFromHex", SS: a, Net: nt}, &mval{kind: "pub", k: val[a].k, net: nt})
		case 12:
			if r.IntN(3) == 0 { // a failing call in between
				bad := []Op{{K: "privFromHex", S: []byte(hostile[r.IntN(len(hostile))]), Net: net}, {K: "pubFromHex", S: []byte("02" + strings.Repeat("f", 64)), Net: net},
					{K: "privFromWIF", S: []byte(mutateText(r, refWIF(randScalar(r), "80", true), "0OIl")), Net: net}}[r.IntN(3)]
				if bad.K == "privFromWIF" {
					if _, ok := refParseWIF(string(bad.S), "80"); ok {
						continue
					}
					if _, ok := refParseWIF(string(bad.S), "ef"); ok {
						continue
					}
				}
				put(bad, nil)
			}
		}
	}
	return Scenario{Ops: ops, Deep: deep}, want
}

func (c *Ctx) modelCheck(sc *Scenario, want []*mval, evs []Ev, hist []Scenario) bool {
	check := func(v *Val, w *mval) string {
		switch w.kind {
		case "priv":
			p, h := netOf(w.net)
			return privIs(v, w.k, p, h, w.wif)
		case "pub":
			p, h := netOf(w.net)
			return pubIs(v, mulG(w.k), p, h)
		}
		if w.kind == "text" && strings.EqualFold(string(v.S), w.text) || string(v.S) == w.text {
			return ""
		}
		return fmt.Sprintf("text is %q, should be %q", v.S, w.text)
	}
	for i := range evs {
		ev, w := &evs[i], want[i]
		if ev.Skip {
			c.bad(sc, i, evs, hist, "an earlier operation yielded no value")
			return false
		}
		bad := abnormal(ev, nil)
		if bad == "" {
			if w == nil {
				bad = refused(ev, "the operation has no valid result")
			} else if ev.Err {
				bad = "refused with error " + ev.Msg
			} else {
				bad = check(&ev.R, w)
			}
		}
		if bad != "" {
			c.bad(sc, i, evs, hist, bad)
			return false
		}
	}
	// at the end every value is still what it was
	for s, v := range evs[len(evs)-1].Slots {
		if w := want[s-1]; w != nil {
			if bad := check(&v, w); bad != "" {
				c.bad(sc, len(evs)-1, evs, hist, fmt.Sprintf("at the end, the value of operation %d: %s", s-1, bad))
				return false
			}
		}
	}
	return true
}

func c23(c *Ctx) {
	r := c.R
	var scs []Scenario
	wants := map[string][]*mval{}
	n := 700 * c.Mult
	refusals := branches(r, 5)
	for i := 0; i < n; i++ {
		l := 12 + r.IntN(20)
		if i%40 == 0 {
			l = 120
		}
		deep := true
		if i%(n/6) == 1 { // the life of a wallet
			l, deep = 3000, false
		}
		s, w := walletProgram(r, l, deep)
		s.Tag = fmt.Sprint(i)
		wants[s.Tag] = w
		scs = append(scs, s)
		if i%30 == 0 { // refusals in between
			for _, j := range r.Perm(len(refusals))[:20] {
				scs = append(scs, refusals[j].scenario())
			}
		}
	}
	lens := 0
	var mu sync.Mutex
	c.Run(scs, func(sc *Scenario, evs []Ev, d *Death, hist []Scenario) {
		w := wants[sc.Tag]
		if w == nil { // C19's business
			return
		}
		var sig []string
		for i := range sc.Ops {
			sig = append(sig, fmt.Sprintf("%s(%d,%d,%s)", sc.Ops[i].K, sc.Ops[i].A, sc.Ops[i].B, clip(string(sc.Ops[i].S), 12)))
		}
		c.Judged("program", strings.Join(sig, " "), true)
		mu.Lock()
		for i := range evs {
			c.Count("step "+sc.Ops[i].K, 1)
			if w[i] == nil {
				c.Count("step refused "+sc.Ops[i].K, 1)
			}
		}
		lens += len(evs)
		mu.Unlock()
		if d != nil {
			c.bad(sc, d.I, evs, hist, d.String())
			return
		}
		for i := range evs {
			if evs[i].Kept != "" {
				c.bad(sc, i, evs, hist, "a text returned earlier changed by itself: "+evs[i].Kept)
				return
			}
		}
		c.modelCheck(sc, w, evs, hist)
	})
	c.extra["steps_checked"] = lens
}

func init() {
	reg("C15", c15, "for keys and the five phrase lengths, the source fails at every byte offset (permanently or once, with or without the last bytes, as EOF or another error, with whole or chunked reads), also after rejected blocks, and delivers short reads of every size; non-trivial: each distinct (kind, stream, fault) where the fault comes before the last byte the fault-free run takes")
	ck := checks["C15"]
	ck.level = "fault_enumeration"
	checks["C15"] = ck
	reg("C16", c16, "every consumed random bit is flipped for keys and the five phrase lengths and all results compared; same bytes in different histories and processes; bytes consumed over many streams; non-trivial: each distinct (stream, bit) or stream")
	reg("C18", c18, "values obtained in many ways, one number changed in place, all other values and globals dumped and calls probed; caller-owned word lists changed between calls; one list of calls with nearly equal arguments run in different orders and alone in fresh processes; non-trivial: each distinct mutation program and each distinct call compared")
	reg("C19", c19, "hostile, truncated, oversized, mutated and random texts to all text entry points, all word counts and list sizes, boundary, equal, opposite and mixed-network key pairs, random wallet programs; non-trivial: each distinct input")
	reg("C20", c20, "succeeding and failing calls of every function, including failing random sources and out-of-range keys; the sizes of stdout and stderr are compared around each call and at exit; non-trivial: each distinct call")
	reg("C21", c21, "keys of 15 standard and custom networks and random one-byte prefixes, pairwise: import, cross-import, derive, add, multiply, address; all 256 WIF version bytes; non-trivial: each distinct (operation, networks, key)")
	reg("C22", c22, "all 9 x 2048 words in a fresh process and after hundreds of succeeding and failing calls; non-trivial: each word of each list")
	reg("C23", c23, "random straight-line wallet programs of 12 to 120 operations against a model that only tracks the scalar and the network; non-trivial: each distinct program")
	for id, ks := range map[string][]string{"C01": {"getPub"}, "C02": {"privFromHex"}, "C03": {"privFromWIF"}, "C04": {"checkWIF"},
		"C05": {"genPriv"}, "C06": {"addPriv"}, "C07": {"mulPriv"}, "C08": {"format"}, "C09": {"pubFromHex"}, "C10": {"address"},
		"C11": {"addPub"}, "C12": {"newMnemonic"}, "C13": {"newSeed"}, "C14": {"newSeed"}} {
		ck := checks[id]
		run := ck.run
		ck.run = func(c *Ctx) {
			run(c)
			var h Handler
			switch id {
			case "C13": // only valid phrases
				h = eachOp("newSeed", func(sc *Scenario, i int, ev *Ev, d *Death, evs []Ev, hist []Scenario) {
					op := &sc.Ops[i]
					if _, why := refDecode(textOf(op, ev), listOf(op)); why == "" {
						c.judgeOne(sc, i, ev, d, evs, hist)
					}
				})
			case "C14":
				h = c.acceptance()
			}
			c.familyRuns(24, h, ks...)
		}
		ck.rule += "; families of calls with nearly equal arguments (truncated, negated, re-cased, other network, other list, shifted phrase/passphrase boundary) met in one process in several orders"
		checks[id] = ck
	}
}

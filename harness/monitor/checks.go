package main

import (
	"crypto/sha256"
	"encoding/hex"
	"fmt"
	"math/big"
	"math/rand/v2"
	"sort"
	"strings"
	"sync"

	. "aaverif/proto"
)

type check struct {
	run   func(c *Ctx)
	level string
	race  bool
	rule  string
}

var checks = map[string]check{}

func reg(id string, run func(c *Ctx), rule string) {
	checks[id] = check{run: run, level: "exploration", rule: rule}
}

// kinds applies the event-local oracle to the operations of the given kinds.
func (c *Ctx) kinds(ks ...string) Handler {
	set := map[string]bool{}
	for _, k := range ks {
		set[k] = true
	}
	return func(sc *Scenario, evs []Ev, d *Death, hist []Scenario) {
		for i := range sc.Ops {
			var ev *Ev
			var dd *Death
			if i < len(evs) {
				ev = &evs[i]
			} else if d != nil && i == d.I {
				dd, ev = d, &Ev{}
			} else {
				break
			}
			if !set[sc.Ops[i].K] {
				continue
			}
			c.judgeOne(sc, i, ev, dd, evs, hist)
		}
	}
}

func (c *Ctx) judgeOne(sc *Scenario, i int, ev *Ev, d *Death, evs []Ev, hist []Scenario) (ok bool) {
	judged, class, key, bad := judge(&sc.Ops[i], ev, d)
	if !judged {
		return true
	}
	if d != nil && key == "" {
		key = fmt.Sprintf("scenario %d op %d", sc.ID, i)
	}
	c.Judged(class, key, true)
	if bad != "" {
		c.bad(sc, i, evs, hist, bad)
		return false
	}
	return true
}

func tail(h []Scenario, n int) []Scenario {
	if len(h) > n {
		return h[len(h)-n:]
	}
	return h
}

func (c *Ctx) bad(sc *Scenario, i int, evs []Ev, hist []Scenario, what string) {
	keep := 300
	if sc.Lag > 0 {
		keep = 10000
		what += fmt.Sprintf(" (asked again after %d other calls)", sc.Lag)
	}
	c.Violate(Violation{What: fmt.Sprintf("operation %d (%s): %s", i, sc.Ops[i].K, what), Scenario: sc, Events: evs, History: tail(hist, keep)})
}

func mkPriv(k *big.Int, n *Net, out int) Op {
	p, _ := netOf(n)
	return Op{K: "mkPriv", X: hexs(k), Hex: hex64(k), WIF: refWIF(k, p, false), Net: n, Out: out}
}

func mkPub(p Pt, n *Net, out int) Op {
	return Op{K: "mkPub", X: hexs(p.X), Y: hexs(p.Y), Net: n, Out: out}
}

func importPriv(r *rand.Rand, k *big.Int, n *Net, out int) Op {
	p, _ := netOf(n)
	switch r.IntN(4) {
	case 0:
		return Op{K: "privFromHex", S: []byte(mixCase(r, hex64(k))), Net: n, Out: out}
	case 1:
		return Op{K: "privFromWIF", S: []byte(refWIF(k, p, false)), Net: n, Out: out}
	case 2:
		return Op{K: "privFromWIF", S: []byte(refWIF(k, p, true)), Net: n, Out: out}
	}
	return mkPriv(k, n, out)
}

// ---------- C01 ----------

func outOfRange(r *rand.Rand) []string {
	out := []string{"nil", "0", "-1", "-2", hexs(fn), "-" + hexs(fn)}
	for i := int64(1); i < 20; i++ {
		out = append(out, hexs(new(big.Int).Add(fn, big.NewInt(i))))
	}
	p256 := new(big.Int).Lsh(one, 256)
	for _, d := range []int64{-3, -2, -1, 0, 1, 2, 3, 7} {
		out = append(out, hexs(new(big.Int).Add(p256, big.NewInt(d))))
	}
	out = append(out, hexs(new(big.Int).Lsh(fn, 1)), hexs(new(big.Int).Add(new(big.Int).Lsh(fn, 1), one)), hexs(fp), hexs(new(big.Int).Add(fp, one)))
	for i := 0; i < 30; i++ {
		k := randScalar(r)
		out = append(out, hexs(new(big.Int).Add(k, fn)), hexs(new(big.Int).Add(k, p256)), "-"+hexs(k), hexs(new(big.Int).Lsh(k, uint(1+r.IntN(300)))))
	}
	var res []string
	for _, s := range out {
		if v := numOf(s); v == nil || !validScalar(v) {
			res = append(res, s)
		}
	}
	return res
}

func c01(c *Ctx) {
	var scs []Scenario
	for i, k := range scalarList(c.R, true, 9000*c.Mult) {
		n := genNet(c.R)
		imp := importPriv(c.R, k, n, 1)
		if i%3 != 0 {
			imp = mkPriv(k, n, 1)
		}
		scs = append(scs, Scenario{Ops: []Op{imp, {K: "getPub", A: 1, Out: 2}}})
	}
	plain := func(k *big.Int) {
		if validScalar(k) {
			scs = append(scs, Scenario{Ops: []Op{mkPriv(k, genNet(c.R), 1), {K: "getPub", A: 1, Out: 2}}})
		}
	}
	// every small number and its opposite, and numbers of two, three bits or one run of bits
	for i := int64(1); i <= 1100; i++ {
		plain(big.NewInt(i))
		plain(new(big.Int).Sub(fn, big.NewInt(i)))
	}
	for i := 0; i < 300*c.Mult; i++ {
		a := new(big.Int).Lsh(one, uint(c.R.IntN(256)))
		b := new(big.Int).Lsh(one, uint(c.R.IntN(256)))
		d := new(big.Int).Lsh(one, uint(c.R.IntN(256)))
		ab := new(big.Int).Add(a, b)
		plain(ab)
		plain(new(big.Int).Add(ab, d))
		plain(new(big.Int).Abs(new(big.Int).Sub(a, b)))
		plain(new(big.Int).Sub(fn, ab))
	}
	for _, s := range outOfRange(c.R) {
		scs = append(scs, Scenario{Ops: []Op{{K: "mkPriv", X: s, Net: genNet(c.R), Out: 1}, {K: "getPub", A: 1, Out: 2}}})
	}
	c.R.Shuffle(len(scs), func(i, j int) { scs[i], scs[j] = scs[j], scs[i] })
	c.Run(scs, c.kinds("getPub"))
}

// ---------- C02 ----------

func hexKeyTexts(r *rand.Rand, n int) []string {
	var out []string
	for _, k := range append(edgeScalars(), specialScalars()...) {
		out = append(out, hex64(k), strings.ToUpper(hex64(k)))
	}
	for _, s := range outOfRange(r) {
		if v := numOf(s); v != nil {
			out = append(out, s, fmt.Sprintf("%064x", v))
		}
	}
	out = append(out, hostile...)
	for i := 0; i < 3; i++ {
		out = append(out, hintTexts(r, hex64(genScalar(r)))...)
	}
	for l := 0; l <= 140; l++ {
		out = append(out, strings.Repeat("1", l), strings.Repeat("0", l), strings.Repeat("f", l))
		if l > 0 {
			out = append(out, strings.Repeat("0", l-1)+"1")
		}
	}
	for i := 0; i < 4; i++ {
		h := hex64(randScalar(r))
		for pos := 0; pos < 64; pos++ {
			for _, ch := range []string{"g", "G", "_", " ", "-", "+", "x", "\x00", "\xff", "/", ":", "@", "`", "é"} {
				out = append(out, h[:pos]+ch+h[pos+1:], h[:pos]+ch+h[pos:])
			}
			out = append(out, h[:pos], h[pos:], h[:pos]+h[pos+1:], h+h[:pos])
		}
		out = append(out, "0x"+h, "0x"+h[2:], "0X"+h[2:], " "+h, h+" ", h+"\n", "+"+h[1:], "-"+h[1:], "80"+h, h+"01", "00"+h, h[:62], h[2:], h[1:63])
	}
	for i := 0; i < n; i++ {
		k := genScalar(r)
		h := mixCase(r, hex64(k))
		out = append(out, h)
		switch i % 8 {
		case 0:
			out = append(out, mutateText(r, h, "0123456789abcdefABCDEF"))
		case 1:
			out = append(out, hexs(k)) // unpadded
		case 2:
			out = append(out, hex64(new(big.Int).Add(fn, new(big.Int).Rsh(k, 130)))) // just above n
		case 3:
			if i%64 == 3 {
				for _, x := range related(r, k) {
					out = append(out, hex64(x))
				}
			}
		}
	}
	return out
}

func c02(c *Ctx) {
	var scs []Scenario
	for _, s := range hexKeyTexts(c.R, 60000*c.Mult) {
		scs = append(scs, Scenario{Ops: []Op{{K: "privFromHex", S: []byte(s), Net: genNet(c.R), Out: 1}}})
	}
	for i := 0; i < 6*c.Mult; i++ {
		nt := genNet(c.R)
		p, _ := netOf(nt)
		for _, s := range foreignKeys(c.R, genScalar(c.R), p) {
			scs = append(scs, Scenario{Ops: []Op{{K: "privFromHex", S: []byte(s), Net: nt, Out: 1}}})
		}
	}
	// the same key under every prefix
	k := randScalar(c.R)
	for p := 0; p < 256; p++ {
		scs = append(scs, Scenario{Ops: []Op{{K: "privFromHex", S: []byte(hex64(k)), Net: litNet(fmt.Sprintf("%02x", p), "00"), Out: 1}}})
	}
	c.Run(scs, c.kinds("privFromHex"))
}

// ---------- C03 / C04 ----------

// wifTexts yields (text, network) pairs.
func wifTexts(r *rand.Rand, n int) (out []string, nets []*Net) {
	add := func(s string, n *Net) { out = append(out, s); nets = append(nets, n) }
	payload := func(pre string, b []byte, nt *Net) { add(b58check(append(unhex(pre), b...)), nt) }
	for _, k := range append(edgeScalars(), specialScalars()...) {
		nt := genNet(r)
		p, _ := netOf(nt)
		add(refWIF(k, p, false), nt)
		add(refWIF(k, p, true), nt)
	}
	for _, s := range hostile {
		add(s, genNet(r))
	}
	for i := 0; i < 4; i++ {
		nt := genNet(r)
		p, _ := netOf(nt)
		for _, s := range hintTexts(r, refWIF(genScalar(r), p, i%2 == 0)) {
			add(s, nt)
		}
		for _, s := range hintTexts(r, string(be32(genScalar(r)))) { // right checksums
			payload(p, []byte(s), nt)
		}
	}
	for _, s := range outOfRange(r) {
		v := numOf(s)
		if v == nil || v.Sign() < 0 || v.BitLen() > 256 {
			continue
		}
		payload("80", be32(v), main_)
		payload("ef", be32(v), test_)
		payload("80", append(be32(v), 1), main_)
	}
	for l := 0; l <= 80; l++ { // every payload length, valid checksum
		for i := 0; i < 3; i++ {
			b := randBytes(r, l)
			if l == 33 && i > 0 {
				b[32] = byte(i * 2) // bad compression byte
			}
			payload("80", b, main_)
			payload("EF", b, test_)
			if l > 0 {
				b[l-1] = 1
				payload("80", b, main_)
			}
		}
	}
	for l := 0; l < 4; l++ { // right checksum of almost nothing
		for i := 0; i < 4; i++ {
			add(b58check(randBytes(r, l)), main_)
			add(b58check(make([]byte, l)), test_)
		}
	}
	for f := 0; f < 256; f++ { // every flag byte, every version byte
		k := randScalar(r)
		payload("80", append(be32(k), byte(f)), main_)
		payload(fmt.Sprintf("%02x", f), be32(k), main_)
		payload(fmt.Sprintf("%02x", f), be32(k), test_)
		payload(fmt.Sprintf("%02x", f), be32(k), litNet(fmt.Sprintf("%02x", f), "00"))
		payload(fmt.Sprintf("%02x", f), append(be32(k), 1), litNet(fmt.Sprintf("%02X", f), "00"))
		b := be32(k)
		b[31] = byte(f) // keys ending in every byte, 01 among them
		payload("80", b, main_)
		payload("80", append(b, 1), main_)
		b[30], b[31] = 1, 1
		payload("80", b, main_)
		b[0] = 0
		payload("80", b, main_)
		payload("80", append(append([]byte{}, b...), 1, 1), main_)
	}
	for i := 0; i < n; i++ {
		k := genScalar(r)
		nt := genNet(r)
		p, _ := netOf(nt)
		w := refWIF(k, p, i%2 == 0)
		add(w, nt)
		switch i % 5 {
		case 0:
			add(mutateText(r, w, b58), nt)
		case 1:
			add(w, genNet(r))
		case 2: // corrupt one bit of the payload or the checksum
			b, _ := b58dec(w)
			b[r.IntN(len(b))] ^= 1 << r.IntN(8)
			add(b58enc(b), nt)
		case 3:
			if i%100 == 3 {
				for _, x := range related(r, k) {
					add(refWIF(x, p, i%2 == 0), nt)
				}
			}
		case 4:
			s := randBytes(r, 30+r.IntN(25))
			for j := range s {
				s[j] = b58[int(s[j])%58]
			}
			add(string(s), nt)
		}
	}
	return
}

// corruptions of one WIF: every substitution, deletion, transposition, and
// every bit of the decoded bytes.
func corruptions(r *rand.Rand, w string) []string {
	var out []string
	for i := range w {
		for j := range b58 {
			if b58[j] != w[i] {
				out = append(out, w[:i]+string(b58[j])+w[i+1:])
			}
		}
		out = append(out, w[:i]+w[i+1:], w[:i], w[i:], w[:i]+string(w[i])+w[i:])
		for _, x := range []string{"0", "O", "I", "l", " ", "\x00", "é", "\xff"} {
			out = append(out, w[:i]+x+w[i+1:])
		}
		for j := i + 1; j < len(w); j++ {
			if w[i] != w[j] && (j == i+1 || r.IntN(8) == 0) {
				b := []byte(w)
				b[i], b[j] = b[j], b[i]
				out = append(out, string(b))
			}
		}
	}
	out = append(out, strings.ToLower(w), strings.ToUpper(w), "1"+w, w+"1", " "+w, w+" ", w+"\n", w+w)
	b, _ := b58dec(w)
	for i := range b {
		for j := 0; j < 8; j++ {
			x := append([]byte{}, b...)
			x[i] ^= 1 << j
			out = append(out, b58enc(x))
		}
		x := append([]byte{}, b...)
		x[i] ^= byte(1 + r.IntN(255))
		out = append(out, b58enc(x))
	}
	// swapped and zeroed checksum bytes
	n := len(b)
	for _, f := range []func(x []byte){
		func(x []byte) { x[n-4], x[n-3] = x[n-3], x[n-4] },
		func(x []byte) { x[n-1], x[n-2] = x[n-2], x[n-1] },
		func(x []byte) { x[n-4], x[n-3], x[n-2], x[n-1] = x[n-1], x[n-2], x[n-3], x[n-4] },
		func(x []byte) { copy(x[n-4:], []byte{0, 0, 0, 0}) },
		func(x []byte) { copy(x[n-4:], []byte{0xff, 0xff, 0xff, 0xff}) },
		func(x []byte) { h := sha256.Sum256(x[:n-4]); copy(x[n-4:], h[:4]) }, // single hash
		func(x []byte) { copy(x[n-4:], dsha(x[:n-4])[28:]) },                 // last four bytes
		func(x []byte) { copy(x[n-4:], dsha(x[:n-4])[1:5]) },
		func(x []byte) { copy(x[n-4:], dsha(x[1 : n-4])[:4]) },
	} {
		x := append([]byte{}, b...)
		f(x)
		out = append(out, b58enc(x))
	}
	return out
}

func c03(c *Ctx) {
	var scs []Scenario
	t, n := wifTexts(c.R, 40000*c.Mult)
	for i := range t {
		scs = append(scs, Scenario{Ops: []Op{{K: "privFromWIF", S: []byte(t[i]), Net: n[i], Out: 1}}})
	}
	for i := 0; i < 3*c.Mult; i++ {
		nt := genNet(c.R)
		p, _ := netOf(nt)
		for _, s := range corruptions(c.R, refWIF(genScalar(c.R), p, i%2 == 0)) {
			scs = append(scs, Scenario{Ops: []Op{{K: "privFromWIF", S: []byte(s), Net: nt, Out: 1}}})
		}
	}
	for i := 0; i < 6*c.Mult; i++ {
		nt := genNet(c.R)
		p, _ := netOf(nt)
		for _, s := range foreignKeys(c.R, genScalar(c.R), p) {
			scs = append(scs, Scenario{Ops: []Op{{K: "privFromWIF", S: []byte(s), Net: nt, Out: 1}}})
		}
	}
	// export and import again
	rt := len(scs)
	for i := 0; i < 4000*c.Mult; i++ {
		nt := genNet(c.R)
		k := genScalar(c.R)
		first := Op{K: "privFromHex", S: []byte(hex64(k)), Net: nt, Out: 1}
		if i%4 == 0 {
			first = Op{K: "genPriv", Net: nt, Ent: append(randBytes(c.R, 32), randBytes(c.R, 8)...), Seed: uint64(i) + 1, Out: 1}
		}
		scs = append(scs, Scenario{Tag: "roundtrip", Ops: []Op{first, {K: "privFromWIF", SS: 1, SF: "wif", Net: nt, Out: 2}, {K: "privFromHex", SS: 2, SF: "hex", Net: nt, Out: 3}}})
	}
	_ = rt
	h := c.kinds("privFromWIF")
	c.Run(scs, func(sc *Scenario, evs []Ev, d *Death, hist []Scenario) {
		h(sc, evs, d, hist)
		if sc.Tag == "roundtrip" && d == nil {
			a, b := &evs[0].R, &evs[1].R
			if a.T == "priv" && evs[0].Panic == "" && !evs[0].Err {
				c.Judged("roundtrip", a.Key+a.NP, true)
				if b.T != "priv" || b.Key != a.Key || b.NP != a.NP || b.NH != a.NH || b.WIF != a.WIF || !strings.EqualFold(a.Hex, b.Hex) {
					c.bad(sc, 1, evs, hist, fmt.Sprintf("export to WIF and import again changed the key: %+v -> %+v", *a, *b))
				}
			}
		}
	})
}

func c04(c *Ctx) {
	var scs []Scenario
	add := func(s string) {
		scs = append(scs, Scenario{Ops: []Op{{K: "checkWIF", S: []byte(s)}}})
	}
	t, _ := wifTexts(c.R, 30000*c.Mult)
	for _, s := range t {
		add(s)
	}
	for i := 0; i < 12*c.Mult; i++ {
		for _, s := range corruptions(c.R, refWIF(genScalar(c.R), []string{"80", "ef"}[i/2%2], i%2 == 0)) {
			add(s)
		}
	}
	for i := 0; i < 6*c.Mult; i++ {
		for _, s := range foreignKeys(c.R, genScalar(c.R), []string{"80", "ef"}[i%2]) {
			add(s)
		}
	}
	// keys whose checksum has zero bytes, with their corruptions
	for _, k := range sortedKeys(special.Scalars) {
		if strings.HasPrefix(k, "wif") {
			for i, s := range special.Scalars[k] {
				if i < 1 || c.Tier == "thorough" {
					for j, x := range corruptions(c.R, refWIF(bi(s), "80", false)) {
						if c.Tier == "thorough" || j%3 == 0 {
							add(x)
						}
					}
				}
			}
		}
	}
	for l := 1; l <= 120; l++ { // any payload length
		for z := 0; z < 3; z++ {
			b := randBytes(c.R, l)
			for i := 0; i < z && i < l; i++ {
				b[i] = 0
			}
			add(b58check(b))
			w := []byte(b58check(b))
			w[c.R.IntN(len(w))] = b58[c.R.IntN(58)]
			add(string(w))
		}
	}
	for i := 0; i < 58; i++ { // everything short
		add(string(b58[i]))
		for j := 0; j < 58; j++ {
			add(string(b58[i]) + string(b58[j]))
		}
	}
	for i := 0; i < 4000*c.Mult; i++ {
		s := randBytes(c.R, 1+c.R.IntN(12))
		for j := range s {
			s[j] = b58[int(s[j])%58]
		}
		add(string(s))
	}
	for z := 0; z < 60; z++ {
		add(strings.Repeat("1", z))
		add(strings.Repeat("1", z) + "z")
		add(b58check(make([]byte, z)))
	}
	c.Run(scs, c.kinds("checkWIF"))
}

// ---------- C05 ----------

// keyEntropies are scripted random-source outputs for key generation.
func keyEntropies(r *rand.Rand) [][]byte {
	var out [][]byte
	for i := int64(-5); i <= 5; i++ {
		v := new(big.Int).Add(fn, big.NewInt(i))
		out = append(out, be32(v))
		if i >= 0 {
			out = append(out, be32(big.NewInt(i)), be32(new(big.Int).Sub(new(big.Int).Lsh(one, 256), big.NewInt(i+1))))
		}
	}
	for _, k := range edgeScalars() {
		out = append(out, be32(k))
	}
	for _, k := range specialScalars() {
		out = append(out, be32(k))
	}
	// several rejected blocks in a row
	for _, n := range []int{2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 16, 17, 32, 33, 40, 64, 65, 100, 101, 128, 129, 256, 257, 300} {
		out = append(out, make([]byte, 32*n), []byte(strings.Repeat("\xff", 32*n)))
	}
	for z := 1; z <= 32; z++ {
		b := randBytes(r, 32)
		for i := 0; i < z; i++ {
			b[i] = 0
		}
		out = append(out, b)
		b = append([]byte{}, b...)
		for i := 0; i < z; i++ {
			b[i] = 0xff
		}
		out = append(out, b)
	}
	for s := 0; s < 16; s++ { // every top nibble
		b := randBytes(r, 32)
		b[0] = byte(s<<4) | b[0]&15
		out = append(out, b)
	}
	return out
}

func c05(c *Ctx) {
	var scs []Scenario
	seed := uint64(1)
	for rep := 0; rep < 2; rep++ {
		for _, e := range keyEntropies(c.R) {
			scs = append(scs, Scenario{Ops: []Op{{K: "genPriv", Net: genNet(c.R), Ent: e, Seed: seed}}})
			seed++
		}
	}
	for i := 0; i < 60000*c.Mult; i++ {
		n := genNet(c.R)
		op := Op{K: "genPriv", Net: n}
		if i%2 == 0 {
			op.Ent = randBytes(c.R, 64)
			op.Seed = c.R.Uint64() | 1
		}
		scs = append(scs, Scenario{Tag: "independent", Ops: []Op{op}})
		if i%4 == 1 {
			scs = append(scs, Scenario{Ops: []Op{{K: "genPriv", Net: n, Ent: structured(c.R, 32), Seed: c.R.Uint64() | 1}}})
		}
	}
	var mu sync.Mutex
	seen := map[string]int{}
	h := c.kinds("genPriv")
	c.Run(scs, func(sc *Scenario, evs []Ev, d *Death, hist []Scenario) {
		h(sc, evs, d, hist)
		if d == nil && sc.Tag == "independent" && evs[0].R.T == "priv" {
			mu.Lock()
			defer mu.Unlock()
			k := evs[0].R.Key
			if prev, ok := seen[k]; ok {
				c.bad(sc, 0, evs, hist, fmt.Sprintf("key %s was already generated in scenario %d from independent random bytes", k, prev))
			}
			seen[k] = sc.ID
		}
	})
	c.extra["distinct_keys_from_independent_bytes"] = len(seen)
}

// ---------- C06 / C07 ----------

func pairOps(c *Ctx, op string, n int) []Scenario {
	r := c.R
	var scs []Scenario
	add := func(a, b *big.Int, na, nb *Net, lit bool) {
		if !validScalar(a) || !validScalar(b) {
			return
		}
		i1, i2 := mkPriv(a, na, 1), mkPriv(b, nb, 2)
		if !lit {
			i1, i2 = importPriv(r, a, na, 1), importPriv(r, b, nb, 2)
		}
		sc := Scenario{Ops: []Op{i1, i2, {K: op, A: 1, B: 2, Out: 3}, {K: op, A: 2, B: 1, Out: 4}}}
		if len(scs)%40 == 0 { // the very same object, objects that share their number, results as operands
			sc.Ops = append(sc.Ops, Op{K: "share", A: 1, Out: 5}, Op{K: op, A: 1, B: 1}, Op{K: op, A: 1, B: 5}, Op{K: op, A: 5, B: 2, Out: 6}, Op{K: op, A: 3, B: 4}, Op{K: op, A: 3, B: 1, Out: 7},
				Op{K: op, A: 2, B: 3, Out: 8}, Op{K: op, A: 7, B: 8, Out: 9}, Op{K: op, A: 3, B: 3}, Op{K: op, A: 6, B: 3}, Op{K: op, A: 9, B: 5})
		}
		scs = append(scs, sc)
	}
	target := func(t *big.Int) { // a pair with result t
		a := randScalar(r)
		if r.IntN(4) == 0 {
			a = genScalar(r)
		}
		b := new(big.Int)
		if op == "addPriv" {
			b.Sub(t, a)
		} else {
			b.Mul(t, new(big.Int).ModInverse(a, fn))
		}
		b.Mod(b, fn)
		nt := genNet(r)
		add(a, b, nt, nt, r.IntN(2) == 0)
	}
	edges := edgeScalars()
	for _, t := range edges {
		target(t)
	}
	for _, t := range specialScalars() {
		target(t)
	}
	for i := 0; i < n; i++ {
		switch i % 10 {
		case 0, 1:
			target(genScalar(r))
		case 2: // small results: many leading zeros
			target(new(big.Int).Rsh(randScalar(r), uint(r.IntN(255))))
		case 3:
			a := genScalar(r)
			nt := genNet(r)
			add(a, new(big.Int).Sub(fn, a), nt, nt, false) // opposite
		case 4:
			a := genScalar(r)
			nt := genNet(r)
			add(a, a, nt, nt, i%20 == 4) // identical, possibly through different imports
		case 5:
			add(genScalar(r), genScalar(r), genNet(r), genNet(r), false)
		case 6: // the same network as distinct values
			p, h := netOf(genNet(r))
			add(genScalar(r), genScalar(r), litNet(p, h), litNet(p, h), false)
		case 7:
			nt := genNet(r)
			add(edges[r.IntN(len(edges))], edges[r.IntN(len(edges))], nt, nt, true)
		case 8:
			nt := genNet(r)
			a := genScalar(r)
			rel := related(r, a)
			add(a, rel[r.IntN(len(rel))], nt, nt, true)
		default:
			nt := genNet(r)
			add(genScalar(r), genScalar(r), nt, nt, false)
		}
	}
	return scs
}

func c06(c *Ctx) { c.Run(pairOps(c, "addPriv", 60000*c.Mult), c.kinds("addPriv")) }
func c07(c *Ctx) { c.Run(pairOps(c, "mulPriv", 60000*c.Mult), c.kinds("mulPriv")) }

// ---------- C08 / C10 ----------

func pointList(c *Ctx, n int) []Pt {
	pts := smallPoints()
	for _, k := range append(edgeScalars(), specialScalars()...) {
		p := mulG(k)
		pts = append(pts, p, p.neg())
	}
	for i := 0; i < n; i++ {
		if i%50 == 0 {
			pts = append(pts, genPoint(c.R))
		}
	}
	var mu sync.Mutex
	var wg sync.WaitGroup
	const chunks = 16
	res := make([][]Pt, chunks)
	for g := 0; g < chunks; g++ {
		rr := rand.New(rand.NewPCG(c.R.Uint64(), 7))
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			w := walk(rr, n/chunks)
			mu.Lock()
			res[g] = w
			mu.Unlock()
		}(g)
	}
	wg.Wait()
	for _, w := range res {
		pts = append(pts, w...)
	}
	return pts
}

func c08(c *Ctx) {
	var scs []Scenario
	for i, p := range pointList(c, 40000*c.Mult) {
		n := genNet(c.R)
		ops := []Op{mkPub(p, n, 1), {K: "format", A: 1, F: false, Out: 2}, {K: "format", A: 1, F: true, Out: 3},
			{K: "pubFromHex", SS: 2, Net: n, Out: 4}, {K: "pubFromHex", SS: 3, Net: n, Out: 5}}
		if i%16 == 0 { // serialize the parsed one again
			ops = append(ops, Op{K: "format", A: 4, F: true}, Op{K: "format", A: 5, F: false}, Op{K: "format", A: 4, F: false}, Op{K: "format", A: 5, F: true})
		}
		scs = append(scs, Scenario{Ops: ops})
	}
	h := c.kinds("format")
	c.Run(scs, func(sc *Scenario, evs []Ev, d *Death, hist []Scenario) {
		h(sc, evs, d, hist)
		for _, i := range []int{3, 4} {
			if i < len(evs) && !evs[i].Skip || d != nil && d.I == i && i == len(evs) {
				var ev *Ev
				if i < len(evs) {
					ev = &evs[i]
				} else {
					ev = &Ev{}
				}
				src := &evs[i-2]
				p := Pt{numOf(sc.Ops[0].X), numOf(sc.Ops[0].Y)}
				if !strings.EqualFold(string(src.R.S), refFormat(p, i == 4)) {
					continue // already reported
				}
				np, nh := netOf(sc.Ops[0].Net)
				bad := abnormal(ev, deathAt(d, i))
				if bad == "" && ev.Err {
					bad = "refused with error " + ev.Msg
				}
				if bad == "" {
					bad = pubIs(&ev.R, p, np, nh)
				}
				c.Judged(fmt.Sprintf("roundtrip compressed=%v", i == 4), sc.Ops[0].X+sc.Ops[0].Y, true)
				if bad != "" {
					c.bad(sc, i, evs, hist, "parsing the serialized key "+string(src.R.S)+": "+bad)
				}
			}
		}
	})
}

func deathAt(d *Death, i int) *Death {
	if d != nil && d.I == i {
		return d
	}
	return nil
}

func c10(c *Ctx) {
	var scs []Scenario
	for _, p := range pointList(c, 90000*c.Mult) {
		n := genNet(c.R)
		scs = append(scs, Scenario{Ops: []Op{mkPub(p, n, 1), {K: "address", A: 1, F: false}, {K: "address", A: 1, F: true}}})
	}
	p := mulG(randScalar(c.R))
	for i := 0; i < 256; i++ {
		scs = append(scs, Scenario{Ops: []Op{mkPub(p, litNet("80", fmt.Sprintf("%02X", i)), 1), {K: "address", A: 1, F: false}, {K: "address", A: 1, F: true}}})
	}
	for _, k := range specialScalars() { // both standard networks for the mined hashes
		p := mulG(k)
		for _, n := range []*Net{main_, test_} {
			scs = append(scs, Scenario{Ops: []Op{mkPub(p, n, 1), {K: "address", A: 1, F: false}, {K: "address", A: 1, F: true}}})
		}
	}
	// end to end through the library's own derivation
	for i := 0; i < 300*c.Mult; i++ {
		n := genNet(c.R)
		scs = append(scs, Scenario{Ops: []Op{mkPriv(genScalar(c.R), n, 2), {K: "getPub", A: 2, Out: 1}, {K: "address", A: 1, F: false}, {K: "address", A: 1, F: true}}})
	}
	c.Run(scs, c.kinds("address"))
}

// ---------- C09 ----------

func pubTexts(c *Ctx, n int) []string {
	r := c.R
	var out []string
	add := func(s ...string) { out = append(out, s...) }
	f64 := func(v *big.Int) string { return fmt.Sprintf("%064x", v) }
	for _, p := range smallPoints() {
		add(refFormat(p, true), refFormat(p, false))
	}
	for _, k := range specialScalars() {
		p := mulG(k)
		add(refFormat(p, true), strings.ToUpper(refFormat(p, false)))
	}
	// all small x, on the curve or not; x around and above p
	for i := int64(0); i < 300; i++ {
		x := big.NewInt(i)
		add("02"+f64(x), "03"+f64(x))
		x = new(big.Int).Sub(fp, big.NewInt(i))
		add("02"+f64(x), "03"+f64(x))
		if i < 200 {
			x = new(big.Int).Add(fp, big.NewInt(i))
			add("02"+f64(x), "03"+f64(x))
		}
		x = new(big.Int).Sub(new(big.Int).Lsh(one, 256), big.NewInt(i+1))
		add("02"+f64(x), "03"+f64(x))
	}
	// non-canonical coordinates of real points: x+p or y+p
	for i := int64(1); i < 400; i++ {
		x := big.NewInt(i)
		if y, ok := liftX(x, 0); ok {
			add("04"+f64(new(big.Int).Add(x, fp))+f64(y), "02"+f64(new(big.Int).Add(x, fp)))
		}
		for _, x := range cubeRoots(big.NewInt(i)) {
			add("04" + f64(x) + f64(new(big.Int).Add(big.NewInt(i), fp)))
			break
		}
	}
	add("04"+f64(new(big.Int))+f64(new(big.Int)), "04"+f64(fp)+f64(fp), "00", "0400", "04"+strings.Repeat("f", 128))
	add(hostile...)
	for i := 0; i < 2; i++ {
		p := genPoint(r)
		add(hintTexts(r, refFormat(p, true))...)
		add(hintTexts(r, refFormat(p, false))...)
	}
	for _, k := range hints.scalars {
		p := mulG(k)
		add(refFormat(p, true), refFormat(p, false), "02"+f64(k), "03"+f64(k))
	}
	p0 := mulG(randScalar(r))
	for _, base := range []string{refFormat(p0, true), refFormat(p0, false)} {
		for pre := 0; pre < 256; pre++ {
			add(fmt.Sprintf("%02x", pre) + base[2:])
		}
		for l := 0; l <= len(base); l++ {
			add(base[:l], base+base[:l], base[l:])
		}
		for i := range base {
			for _, ch := range []string{"g", "-", "+", "_", " ", "x", "\x00", "\xff", "é", "G", ":", "/", "@", "`"} {
				add(base[:i]+ch+base[i+1:], base[:i]+ch+base[i:])
			}
		}
		add("0x"+base, " "+base, base+" ", base+"\n", base+"00", "00"+base, base+"zz", strings.Repeat(base, 4))
	}
	for i := 0; i < n; i++ {
		p := genPoint(r)
		u, cc := refFormat(p, false), refFormat(p, true)
		add(mixCase(r, u), mixCase(r, cc))
		switch i % 12 {
		case 0:
			add("04" + f64(p.X) + f64(new(big.Int).SetBytes(randBytes(r, 32))))
		case 1:
			add("04" + f64(p.Y) + f64(p.X))
		case 2: // one bit off
			x := new(big.Int).SetBit(p.X, r.IntN(256), p.X.Bit(r.IntN(256))^1)
			add("04"+f64(x)+f64(p.Y), "02"+f64(x))
			b := r.IntN(256)
			add("04" + f64(p.X) + f64(new(big.Int).SetBit(p.Y, b, p.Y.Bit(b)^1)))
		case 3:
			add("04"+f64(p.X)+f64(p.neg().Y), refFormat(p.neg(), true))
		case 4:
			add("02"+u[2:], "03"+u[2:], "04"+cc[2:], "06"+u[2:], "07"+u[2:], "05"+cc[2:])
		case 5:
			add(mutateText(r, u, "0123456789abcdef"), mutateText(r, cc, "0123456789abcdef"))
		case 6: // random x
			x := randBytes(r, 32)
			add("02"+hex.EncodeToString(x), "03"+hex.EncodeToString(x))
		case 7: // same y, rotated x (endomorphism): valid
			add(refFormat(Pt{mul(p.X, beta), p.Y}, false))
		case 8: // y of another point
			q := genPoint(r)
			add("04" + f64(p.X) + f64(q.Y))
		case 9: // on y^2 = x^3 + b', other twists
			add("04"+f64(p.X)+f64(sub(new(big.Int).Sub(fp, one), p.Y)), "04"+f64(sub(fp, p.X))+f64(p.Y))
		}
	}
	return out
}

func c09(c *Ctx) {
	var scs []Scenario
	texts := pubTexts(c, 22000*c.Mult)
	for i := 0; i < 30*c.Mult; i++ {
		texts = append(texts, foreignPubs(c.R, genPoint(c.R))...)
	}
	for _, s := range texts {
		scs = append(scs, Scenario{Ops: []Op{{K: "pubFromHex", S: []byte(s), Net: genNet(c.R), Out: 1}}})
	}
	c.R.Shuffle(len(scs), func(i, j int) { scs[i], scs[j] = scs[j], scs[i] })
	c.Run(scs, c.kinds("pubFromHex"))
}

// ---------- C11 ----------

func c11(c *Ctx) {
	r := c.R
	var scs []Scenario
	lit := func(x *big.Int, y *big.Int, n *Net, out int) Op {
		return Op{K: "mkPub", X: hexs(x), Y: hexs(y), Net: n, Out: out}
	}
	addN := func(p, q Pt, na, nb *Net) {
		scs = append(scs, Scenario{Ops: []Op{lit(p.X, p.Y, na, 1), lit(q.X, q.Y, nb, 2), {K: "addPub", A: 1, B: 2, F: r.IntN(2) == 0, Out: 3}, {K: "addPub", A: 2, B: 1, F: r.IntN(2) == 0, Out: 4}}})
	}
	add := func(p, q Pt) { n := genNet(r); addN(p, q, n, n) }
	target := func(t Pt) {
		p := mulG(genScalar(r))
		q := addPts(t, p.neg())
		if !q.inf() {
			add(p, q)
		}
	}
	small := smallPoints()
	for _, t := range small {
		target(t)
		add(t, t)
		if r.IntN(3) == 0 {
			add(t, t.neg())
		}
	}
	for _, k := range append(specialScalars(), edgeScalars()...) {
		target(mulG(k))
	}
	for i := int64(1); i < 24; i++ { // multiplication table around G
		for j := int64(1); j < 24; j++ {
			add(mulG(big.NewInt(i)), mulG(big.NewInt(j)))
		}
		add(mulG(big.NewInt(i)), mulG(new(big.Int).Sub(fn, big.NewInt(i))))
		add(mulG(big.NewInt(i)), mulG(new(big.Int).Sub(fn, big.NewInt(i+1))))
	}
	for i := 0; i < 24000*c.Mult; i++ {
		p := genPoint(r)
		switch i % 12 {
		case 0:
			add(p, p)
			if i%24 == 0 { // the very same object, and objects that share their numbers
				f := r.IntN(2) == 0
				scs = append(scs, Scenario{Ops: []Op{lit(p.X, p.Y, main_, 1), {K: "share", A: 1, Out: 2}, {K: "addPub", A: 1, B: 1, F: f, Out: 3}, {K: "addPub", A: 1, B: 1, F: !f, Out: 4},
					{K: "addPub", A: 1, B: 2, F: f, Out: 5}, {K: "addPub", A: 2, B: 1, F: !f, Out: 6}, {K: "addPub", A: 3, B: 4, F: f}, {K: "addPub", A: 3, B: 3, F: f, Out: 7}, {K: "addPub", A: 7, B: 7, F: f}, {K: "addPub", A: 3, B: 1, F: !f}}})
			}
		case 1:
			add(p, p.neg())
		case 2: // same y, different x
			add(p, Pt{mul(p.X, beta), p.Y})
		case 3: // opposite y, different x
			add(p, Pt{mul(p.X, beta), p.neg().Y})
		case 4:
			add(p, addPts(p, p))
		case 5: // off the curve
			switch r.IntN(8) {
			case 6, 7: // one operand off the curve, the chord formula nevertheless gives a point of the curve
				q, ok := chordTrick(p, genPoint(r))
				if !ok {
					continue
				}
				if i%24 < 12 {
					add(p, q)
				} else {
					add(q, p)
				}
			case 0:
				add(Pt{p.X, mod(new(big.Int).Add(p.Y, one))}, genPoint(r))
			case 1:
				add(p, Pt{p.X, mod(new(big.Int).Add(p.Y, one))})
			case 2:
				add(Pt{p.X, new(big.Int)}, Pt{p.X, new(big.Int)})
			case 3:
				add(Pt{new(big.Int), new(big.Int)}, p)
			case 4:
				q := Pt{p.Y, p.X}
				add(q, q)
			case 5:
				add(Pt{p.X, new(big.Int).SetBytes(randBytes(r, 31))}, Pt{p.X, new(big.Int).SetBytes(randBytes(r, 31))})
			}
		case 6:
			addN(p, genPoint(r), genNet(r), genNet(r))
		case 7:
			a, b := netOf(genNet(r))
			addN(p, genPoint(r), litNet(a, b), litNet(a, b))
		case 8:
			target(small[r.IntN(len(small))])
		default:
			add(p, genPoint(r))
		}
	}
	nh := 700 * c.Mult
	for i := 0; i < nh; i++ { // homomorphism, through the library
		n := genNet(r)
		a := genScalar(r)
		b := genScalar(r)
		if i%5 == 0 {
			t := new(big.Int).Rsh(randScalar(r), uint(r.IntN(255)))
			b = new(big.Int).Sub(t, a)
			b.Mod(b, fn)
		}
		if !validScalar(b) || a.Cmp(b) == 0 {
			continue
		}
		scs = append(scs, Scenario{Tag: "hom", Ops: []Op{mkPriv(a, n, 1), mkPriv(b, n, 2), {K: "getPub", A: 1, Out: 3}, {K: "getPub", A: 2, Out: 4},
			{K: "addPub", A: 3, B: 4, Out: 5}, {K: "addPriv", A: 1, B: 2, Out: 6}, {K: "getPub", A: 6, Out: 7}}})
	}
	c.R.Shuffle(len(scs), func(i, j int) { scs[i], scs[j] = scs[j], scs[i] })
	h := c.kinds("addPub")
	c.Run(scs, func(sc *Scenario, evs []Ev, d *Death, hist []Scenario) {
		if d != nil && sc.Ops[d.I].K != "addPub" {
			return
		}
		h(sc, evs, d, hist)
		if sc.Tag == "hom" && d == nil {
			s, p := &evs[4], &evs[6]
			if s.Err || p.Err || s.Skip || p.Skip || s.R.T != "pub" || p.R.T != "pub" {
				// a refusal of the sum of valid keys is judged by addPub's own
				// oracle; here only disagreement counts
				if (s.R.T == "pub") != (p.R.T == "pub") && !s.Skip {
					a, b := numOf(sc.Ops[0].X), numOf(sc.Ops[1].X)
					if new(big.Int).Mod(new(big.Int).Add(a, b), fn).Sign() != 0 {
						c.Judged("homomorphism", sc.Ops[0].X+sc.Ops[1].X, true)
						c.bad(sc, 6, evs, hist, "public and private addition disagree on whether the sum exists")
					}
				}
				return
			}
			c.Judged("homomorphism", sc.Ops[0].X+sc.Ops[1].X, true)
			if s.R.X != p.R.X || s.R.Y != p.R.Y || s.R.NP != p.R.NP || s.R.NH != p.R.NH {
				c.bad(sc, 6, evs, hist, fmt.Sprintf("public key of the sum (%s, %s) differs from the sum of the public keys (%s, %s)", p.R.X, p.R.Y, s.R.X, s.R.Y))
			}
		}
	})
}

// ---------- C12 ----------

var badLists = []string{"nil", "empty", "custom:1", "custom:11", "custom:2047", "custom:2049", "custom:4096", "english:2047", "english:1024", "english:4096"}

func c12(c *Ctx) {
	r := c.R
	var scs []Scenario
	seed := uint64(1)
	add := func(tag string, op Op) {
		op.K = "newMnemonic"
		scs = append(scs, Scenario{Tag: tag, Ops: []Op{op}})
	}
	lists := append(append([]string{}, ListNames...), "custom:2048", "odd")
	for _, n := range mnemonicLens {
		for i, e := range specialEntropies(n) {
			seed++
			add("", Op{N: n, List: lists[i%len(lists)], Ent: e, Seed: seed})
			if i < 8 {
				for _, l := range lists {
					seed++
					add("", Op{N: n, List: l, Ent: e, Seed: seed})
				}
			}
		}
		for _, l := range badLists {
			add("", Op{N: n, List: l})
			add("", Op{N: n, List: l, Ent: make([]byte, 32), Seed: 5})
			add("", Op{N: n, List: l, Ent: randBytes(r, 32), Seed: 5})
		}
	}
	for n := -40; n <= 300; n++ {
		if n != 12 && n != 15 && n != 18 && n != 21 && n != 24 {
			add("", Op{N: n, List: lists[(n+40)%len(lists)]})
		}
	}
	for _, n := range hintNumbers(300, 1<<40) {
		add("", Op{N: n, List: "English"})
	}
	for _, n := range []int{1 << 20, 1 << 31, 1<<31 + 12, 1<<32 + 12, 1<<32 + 24, -1 << 31, -1 << 62, 1<<62 + 12, 1<<16 + 12, 1<<8 + 24, -12, -24} {
		add("", Op{N: n, List: "English"})
		add("", Op{N: n, List: "nil"})
	}
	l := ""
	for i := 0; i < 45000*c.Mult; i++ {
		n := mnemonicLens[i/24%5] // runs of one length and list: what one call leaves for the next shows
		if i%24 == 0 || i/6000%2 == 0 {
			l = lists[r.IntN(len(lists))]
		}
		if i/6000%2 == 0 {
			n = mnemonicLens[i%5]
		}
		op := Op{N: n, List: l}
		tag := "independent"
		switch i % 3 {
		case 0:
		case 1:
			op.Ent = append(randBytes(r, 32), randBytes(r, 8)...)
			op.Seed = r.Uint64() | 1
		default:
			tag = ""
			op.Ent = genEntropy(r, n)
			op.Seed = r.Uint64() | 1
		}
		add(tag, op)
	}
	var mu sync.Mutex
	seen := map[string]int{}
	ents := map[[32]byte]struct{}{}
	wordHits := map[string]map[string]struct{}{}
	h := c.kinds("newMnemonic")
	c.Run(scs, func(sc *Scenario, evs []Ev, d *Death, hist []Scenario) {
		h(sc, evs, d, hist)
		if d != nil || evs[0].R.T != "str" || len(evs[0].R.S) == 0 {
			return
		}
		ph := string(evs[0].R.S)
		mu.Lock()
		defer mu.Unlock()
		l := sc.Ops[0].List
		if wordHits[l] == nil {
			wordHits[l] = map[string]struct{}{}
		}
		for _, w := range strings.Split(ph, " ") {
			wordHits[l][w] = struct{}{}
		}
		ents[sha256.Sum256([]byte(ph))] = struct{}{}
		if sc.Tag == "independent" {
			key := l + ph
			if prev, ok := seen[key]; ok {
				c.bad(sc, 0, evs, hist, fmt.Sprintf("phrase %q was already generated in scenario %d from independent random bytes", ph, prev))
			}
			seen[key] = sc.ID
		}
	})
	hits := map[string]int{}
	for l, m := range wordHits {
		hits[l] = len(m)
	}
	c.extra["distinct_words_seen_per_list"] = hits
	c.extra["distinct_phrases"] = len(ents)
}

// ---------- C13 / C14 ----------

func genPass(r *rand.Rand) string {
	if len(hints.pass) > 0 && r.IntN(12) == 0 {
		return hints.pass[r.IntN(len(hints.pass))]
	}
	if r.IntN(2) == 0 {
		return passphrases[r.IntN(len(passphrases))]
	}
	b := randBytes(r, r.IntN(40))
	switch r.IntN(6) {
	case 0: // any bytes
		return string(b)
	case 1: // Latin-1
		for i := range b {
			b[i] |= 0x80 * byte(r.IntN(2))
		}
		return string(b)
	case 2: // UTF-8 cut in two
		s := passphrases[r.IntN(len(passphrases))]
		return s[:r.IntN(len(s)+1)]
	}
	for i := range b {
		b[i] = 32 + b[i]%95
	}
	return string(b)
}

func c13(c *Ctx) {
	r := c.R
	var scs []Scenario
	lists := append(append([]string{}, ListNames...), "custom:2048", "odd")
	add := func(ph, pass, l string) {
		scs = append(scs, Scenario{Ops: []Op{{K: "newSeed", S: []byte(ph), S2: []byte(pass), List: l}}})
	}
	for _, n := range mnemonicLens {
		for i, e := range specialEntropies(n) {
			add(refEncode(e, lists[i%len(lists)]), passphrases[i%len(passphrases)], lists[i%len(lists)])
		}
		for _, l := range lists {
			for _, p := range passphrases {
				add(refEncode(genEntropy(r, n), l), p, l)
			}
		}
	}
	// passphrases of every length
	for n := 0; n <= 70000; n++ {
		if n <= 300 || n&(n-1) == 0 || n&(n+1) == 0 || n == 1000 || n == 10000 || n == 65537 {
			l := lists[r.IntN(len(lists))]
			add(refEncode(genEntropy(r, mnemonicLens[r.IntN(5)]), l), letters(r, n), l)
			if n <= 300 {
				add(refEncode(genEntropy(r, mnemonicLens[r.IntN(5)]), l), string(randBytes(r, n)), l)
			}
		}
	}
	for _, p := range hintPass(r) {
		l := lists[r.IntN(len(lists))]
		add(refEncode(genEntropy(r, mnemonicLens[r.IntN(5)]), l), p, l)
	}
	for _, s := range special.Seeds {
		f := strings.SplitN(s, "|", 3)
		add(refEncode(unhex(f[0]), f[2]), f[1], f[2])
	}
	for i := 0; i < 7000*c.Mult; i++ {
		n := mnemonicLens[r.IntN(5)]
		l := lists[r.IntN(len(lists))]
		ph := refEncode(genEntropy(r, n), l)
		pass := genPass(r)
		add(ph, pass, l)
		if i%60 == 0 { // related: same phrase other passphrase, prefix passphrases, repeated
			add(ph, pass+"x", l)
			add(ph, "", l)
			add(ph, " "+pass, l)
			add(ph, pass, l)
			e, _ := refDecode(ph, l)
			e[len(e)-1] ^= 1
			add(refEncode(e, l), pass, l)
			e[0] ^= 0x80
			add(refEncode(e, l), pass, l)
		}
	}
	for i := 0; i < 1500*c.Mult; i++ { // phrases the library generated
		n := mnemonicLens[i%5]
		l := lists[r.IntN(len(lists))]
		op := Op{K: "newMnemonic", N: n, List: l, Out: 1}
		if i%2 == 0 {
			op.Ent, op.Seed = genEntropy(r, n), uint64(i)+1
		}
		scs = append(scs, Scenario{Tag: "generated", Ops: []Op{op, {K: "newSeed", SS: 1, S2: []byte(genPass(r)), List: l}}})
	}
	c.Run(scs, func(sc *Scenario, evs []Ev, d *Death, hist []Scenario) {
		i := len(sc.Ops) - 1
		if d != nil && d.I != i {
			return
		}
		ev := &Ev{}
		if i < len(evs) {
			ev = &evs[i]
		}
		if ev.Skip {
			return
		}
		if sc.Tag == "generated" && d == nil {
			// every generated phrase yields its seed
			ph := textOf(&sc.Ops[i], ev)
			bad := abnormal(ev, d)
			if bad == "" && ev.Err {
				bad = "generated phrase refused with error " + ev.Msg
			} else if bad == "" && string(ev.R.S) != string(refSeed(ph, string(sc.Ops[i].S2))) {
				bad = fmt.Sprintf("seed of generated phrase %q is %x", ph, ev.R.S)
			}
			c.Judged("generated phrase", ph, true)
			if bad != "" {
				c.bad(sc, i, evs, hist, bad)
			}
			return
		}
		c.judgeOne(sc, i, ev, d, evs, hist)
	})
}

func invalidPhrases(r *rand.Rand, ph, l string, every bool) []string {
	w := strings.Split(ph, " ")
	words := official[l]
	n := len(w)
	var out []string
	with := func(f func(x []string) []string) {
		x := append([]string{}, w...)
		out = append(out, strings.Join(f(x), " "))
	}
	// last word replaced: all checksum variants of the same entropy, and others
	cs := n / 3
	last := officialIdx[l][w[n-1]]
	for v := 0; v < 1<<cs; v++ {
		if every || cs < 6 || r.IntN(1<<(cs-4)) == 0 {
			with(func(x []string) []string { x[n-1] = words[last&^(1<<cs-1)|v]; return x })
		}
	}
	for i := 0; i < n; i++ {
		if every || r.IntN(4) == 0 {
			with(func(x []string) []string { x[i] = words[r.IntN(2048)]; return x })
			with(func(x []string) []string { x[i] = words[officialIdx[l][x[i]]^(1<<r.IntN(11))]; return x })
			with(func(x []string) []string { return append(x[:i], x[i+1:]...) })
			with(func(x []string) []string { x[i] = x[i] + "x"; return x })
			with(func(x []string) []string { x[i] = ""; return x })
			with(func(x []string) []string { x[i] = strings.ToUpper(x[i]); return x })
			with(func(x []string) []string {
				rs := []rune(x[i])
				x[i] = string(rs[:len(rs)-1])
				return x
			})
			if i > 0 {
				with(func(x []string) []string { x[i], x[i-1] = x[i-1], x[i]; return x })
			}
		}
	}
	for _, k := range []int{1, 2, 3, 6, 9, 11, 12, 13, 14, 15, 18, 21, 23, 24, 25, 27, 30, 33, 36, 48} {
		var x []string
		for i := 0; i < k; i++ {
			x = append(x, w[i%n])
		}
		out = append(out, strings.Join(x, " "))
	}
	out = append(out, " "+ph, ph+" ", strings.Replace(ph, " ", "  ", 1), strings.ReplaceAll(ph, " ", "\t"), strings.ReplaceAll(ph, " ", "\u3000"),
		ph+"\n", strings.ToUpper(ph), strings.Replace(ph, " ", "\u00a0", 1), strings.Replace(ph, " ", ",", -1), "\ufeff"+ph, strings.Replace(ph, " ", "\n", 1), ph+" "+ph)
	with(func(x []string) []string { sort.Strings(x); return x })
	with(func(x []string) []string {
		for i, j := 0, n-1; i < j; i, j = i+1, j-1 {
			x[i], x[j] = x[j], x[i]
		}
		return x
	})
	with(func(x []string) []string { r.Shuffle(n, func(i, j int) { x[i], x[j] = x[j], x[i] }); return x })
	return out
}

func c14(c *Ctx) {
	r := c.R
	var scs []Scenario
	lists := append(append([]string{}, ListNames...), "custom:2048", "odd")
	add := func(ph, l string) {
		scs = append(scs, Scenario{Ops: []Op{{K: "newSeed", S: []byte(ph), S2: []byte(genPass(r)), List: l}}})
	}
	for rep := 0; rep < 3*c.Mult; rep++ {
		for _, n := range mnemonicLens {
			for _, l := range lists {
				ph := refEncode(genEntropy(r, n), l)
				for _, s := range invalidPhrases(r, ph, l, rep == 0 && l == "English") {
					add(s, l)
				}
				for _, s := range foreignPhrases(r, ph, l) {
					add(s, l)
				}
				if rep == 0 {
					for i, s := range hintTexts(r, ph) {
						if i%4 == 0 || l == "English" {
							add(s, l)
						}
					}
				}
				for _, l2 := range lists {
					if l2 != l {
						add(ph, l2)
					}
				}
				for _, b := range badLists {
					add(ph, b)
				}
				add(ph, l)
				if l == "custom:2048" { // lists that are too short or too long but contain every word
					add(ph, "custom:2049")
					add(ph, "custom:4096")
				}
				if l == "English" {
					add(ph, "english:4096")
					add(ph, "english:2049")
				}
			}
		}
	}
	for _, s := range hostile {
		add(s, "English")
		add(s, "nil")
	}
	// random words: accepted exactly when the checksum happens to be right
	for i := 0; i < 25000*c.Mult; i++ {
		n := mnemonicLens[r.IntN(5)]
		if i%7 == 0 {
			n = 1 + r.IntN(30)
		}
		l := lists[r.IntN(len(lists))]
		w := make([]string, n)
		for j := range w {
			w[j] = official[l][r.IntN(2048)]
		}
		if i%11 == 0 { // one word over and over
			for j := range w {
				w[j] = w[0]
			}
		}
		add(strings.Join(w, " "), l)
	}
	for i := 0; i < 2048; i++ { // repeated-word phrases, all of them
		if i%4 == 0 || c.Tier == "thorough" {
			for _, n := range mnemonicLens {
				add(strings.TrimSuffix(strings.Repeat(official["English"][i]+" ", n), " "), "English")
			}
		}
	}
	// right checksums for unsupported lengths
	for n := 3; n <= 96; n += 3 {
		for i := 0; i < 4; i++ {
			l := lists[r.IntN(len(lists))]
			e := randBytes(r, n*4/3)
			h := sha256.Sum256(e)
			v := new(big.Int).Lsh(new(big.Int).SetBytes(e), uint(n/3))
			v.Or(v, new(big.Int).Rsh(new(big.Int).SetBytes(h[:]), uint(256-n/3)))
			w := make([]string, n)
			for j := n - 1; j >= 0; j-- {
				w[j] = official[l][new(big.Int).And(v, big.NewInt(2047)).Int64()]
				v.Rsh(v, 11)
			}
			add(strings.Join(w, " "), l)
		}
	}
	// near misses: checksum off by one bit, entropies with special hashes
	for _, n := range mnemonicLens {
		for i, e := range specialEntropies(n) {
			l := lists[i%len(lists)]
			w := strings.Split(refEncode(e, l), " ")
			last := officialIdx[l][w[n-1]]
			add(strings.Join(w, " "), l)
			for b := 0; b < n/3; b++ {
				w[n-1] = official[l][last^1<<b]
				add(strings.Join(w, " "), l)
			}
		}
	}
	c.R.Shuffle(len(scs), func(i, j int) { scs[i], scs[j] = scs[j], scs[i] })
	c.Run(scs, c.acceptance())
}

// eachOp calls f for the operations of the given kind that ran.
func eachOp(kind string, f func(sc *Scenario, i int, ev *Ev, d *Death, evs []Ev, hist []Scenario)) Handler {
	return func(sc *Scenario, evs []Ev, d *Death, hist []Scenario) {
		for i := range sc.Ops {
			if sc.Ops[i].K != kind {
				continue
			}
			if i < len(evs) {
				if !evs[i].Skip {
					f(sc, i, &evs[i], nil, evs, hist)
				}
			} else if d != nil && i == d.I {
				f(sc, i, &Ev{}, d, evs, hist)
			}
		}
	}
}

func listOf(op *Op) string {
	if op.JL != "" {
		return op.JL
	}
	return op.List
}

// acceptance judges only whether a phrase is accepted; the seed value is C13.
func (c *Ctx) acceptance() Handler {
	return eachOp("newSeed", func(sc *Scenario, i int, ev *Ev, d *Death, evs []Ev, hist []Scenario) {
		op := &sc.Ops[i]
		ph := textOf(op, ev)
		_, why := refDecode(ph, listOf(op))
		bad := abnormal(ev, d)
		class := "invalid"
		if why == "" {
			class = "valid"
		}
		if bad == "" {
			if why != "" {
				bad = refused(ev, fmt.Sprintf("the phrase is invalid (%s): %q", why, clip(ph, 300)))
			} else if ev.Err {
				bad = fmt.Sprintf("valid phrase refused with error %s: %q", ev.Msg, ph)
			} else if ev.R.T != "bytes" {
				bad = fmt.Sprintf("valid phrase accepted without a seed: %q", ph)
			}
		}
		c.Judged(class, ph+"|"+listOf(op), true)
		if bad != "" {
			c.bad(sc, i, evs, hist, bad)
		}
	})
}

func init() {
	reg("C01", c01, "scalars: all boundary patterns (1..40, n-1..n-40, n/2, n/3, 2^i and 2^i+-1, n-2^i, repeated bytes), mined scalars with leading-zero coordinates, structured and random scalars, families agreeing in part, out-of-range literals; non-trivial: each distinct (scalar, network) whose derivation was compared with the reference point")
	reg("C02", c02, "texts: boundary, mined and random keys in three letter cases, all lengths 0..140, every position of a key replaced by non-hex characters, out-of-range numbers, hostile strings, all 256 prefixes; non-trivial: each distinct (text, prefix) judged")
	reg("C03", c03, "WIF texts: boundary/mined/random keys compressed and not, all payload lengths 0..80 with valid checksums, all flag and version bytes, foreign networks, out-of-range payloads, all single-character corruptions of some WIFs, random Base58; plus export/import round trips; non-trivial: each distinct (text, prefix) judged")
	reg("C04", c04, "texts as for C03 plus every substitution/deletion/transposition/bit flip of several WIFs, wrong-checksum constructions, all 1- and 2-character Base58 texts, payloads of length 1..120; non-trivial: each distinct text judged")
	reg("C05", c05, "key generations under scripted random sources (blocks at 0, n and 2^256 boundaries, rejected blocks in a row, leading zeros, boundary and mined scalars) and under the real source; non-trivial: each distinct generated key")
	reg("C06", c06, "pairs built backwards from chosen results (boundary, mined, small, random), opposite, identical (also through different imports), related, mixed-network pairs, both orders; non-trivial: each distinct (a, b, networks)")
	reg("C07", c07, "pairs built backwards from chosen results (boundary, mined, small, random), identical (also through different imports), related, mixed-network pairs, both orders; non-trivial: each distinct (a, b, networks)")
	reg("C08", c08, "points with tiny or near-p x or y, mined points, random walks, both signs; both serializations and parsing them back; non-trivial: each distinct (point, form)")
	reg("C09", c09, "SEC1 texts: small/near-p/above-p x, off-curve and swapped coordinates, one-bit errors, non-canonical coordinates, all 256 prefixes, all truncations, non-hex characters at every position, mixed case, valid points; non-trivial: each distinct text")
	reg("C10", c10, "points as for C08 plus mined ones whose hash or checksum starts with zero bytes, all 256 address prefixes; non-trivial: each distinct (point, form, prefix)")
	reg("C11", c11, "pairs: random, equal, opposite, same y, P+2P, sums chosen backwards (tiny coordinates, mined), off-curve operands, mixed networks, both orders; homomorphism against private addition through the library; non-trivial: each distinct pair")
	reg("C12", c12, "generation under scripted entropies (constant, leading/trailing zero bytes, single bits, mined hashes with leading zero bits) and the real source, five lengths, nine lists and a custom one, wrong lists and word counts; non-trivial: each distinct (length, list, phrase)")
	reg("C13", c13, "valid phrases of special and random entropies in all lists and lengths with 18 fixed and random passphrases, related phrases and passphrases, phrases generated by the library; non-trivial: each distinct (phrase, passphrase, list)")
	reg("C14", c14, "valid phrases and all kinds of damage (all checksum variants, word replaced/bit-flipped/dropped/swapped/truncated/upper-cased, wrong counts, spacing, other lists, lists of wrong length), random and repeated words; non-trivial: each distinct (phrase, list)")
}

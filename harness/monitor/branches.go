package main

import (
	"fmt"
	"math/big"
	"math/rand/v2"
	"strings"

	. "aaverif/proto"
)

// branch is one call for one way a function can end, with the literals it needs.
type branch struct {
	mk    []Op // literals, slots 1, 2, ...
	call  Op
	plain bool // texts, counts, lists and keys a caller of the library can have
}

func (b *branch) scenario() Scenario {
	return Scenario{Ops: append(append([]Op{}, b.mk...), b.call)}
}

// chordTrick returns p on the curve and q off it such that the chord formula
// gives a point of the curve.
func chordTrick(p, a Pt) (Pt, bool) {
	if a.X.Cmp(p.X) == 0 {
		return Pt{}, false
	}
	b := addPts(p, a).neg() // the line through p and a meets the curve here again
	slope := mul(sub(a.Y, p.Y), new(big.Int).ModInverse(sub(a.X, p.X), fp))
	x := mod(sub(add1(a.X, b.X), p.X))
	return Pt{x, mod(add1(p.Y, mul(slope, sub(x, p.X))))}, true
}

// branches returns calls for every outcome of every function, n of each kind.
// Random sources that fail are left to the caller.
func branches(r *rand.Rand, n int) (out []branch) {
	text := func(k, s string, nt *Net) {
		out = append(out, branch{call: Op{K: k, S: []byte(s), Net: nt, Out: 1}, plain: true})
	}
	over := func() *big.Int { // not a key, 256 bits
		d := new(big.Int).Sub(new(big.Int).Lsh(one, 256), fn)
		return new(big.Int).Add(fn, new(big.Int).Mod(new(big.Int).SetBytes(randBytes(r, 32)), d))
	}
	xOver := func() *big.Int { // not a coordinate, 256 bits
		d := new(big.Int).Sub(new(big.Int).Lsh(one, 256), fp)
		return new(big.Int).Add(fp, new(big.Int).Mod(new(big.Int).SetBytes(randBytes(r, 32)), d))
	}
	off := func() *big.Int { // no point has this x
		for {
			x := new(big.Int).SetBytes(randBytes(r, 31))
			if _, ok := liftX(x, 0); !ok {
				return x
			}
		}
	}
	pair := func(k string, a, b Op, plain bool) {
		out = append(out, branch{mk: []Op{a, b}, call: Op{K: k, A: 1, B: 2, F: r.IntN(2) == 0, Out: 3}, plain: plain})
	}
	for i := 0; i < n; i++ {
		nt, other := main_, test_
		if i%2 == 1 {
			nt, other = test_, main_
		}
		np, _ := netOf(nt)
		pre := unhex(np)
		k, k2 := genScalar(r), randScalar(r)
		p, q := mulG(k), mulG(k2)
		cat := func(bs ...[]byte) (o []byte) {
			for _, b := range bs {
				o = append(o, b...)
			}
			return
		}
		// WIF
		for _, v := range []*big.Int{new(big.Int), fn, new(big.Int).Add(fn, one), over(), new(big.Int).Sub(new(big.Int).Lsh(one, 256), one)} {
			w := v.FillBytes(make([]byte, 32))
			for _, s := range []string{b58check(cat(pre, w)), b58check(cat(pre, w, []byte{1}))} {
				text("privFromWIF", s, nt)
				text("checkWIF", s, nil)
			}
			text("privFromHex", fmt.Sprintf("%064x", v), nt)
			text("privFromHex", strings.ToUpper(fmt.Sprintf("%064x", v)), nt)
		}
		for _, l := range []int{0, 1, 4, 20, 31, 33, 34, 64, 65} {
			s := b58check(cat(pre, randBytes(r, l)))
			text("privFromWIF", s, nt)
			text("checkWIF", s, nil)
		}
		text("privFromWIF", b58check(cat(pre, be32(k), []byte{byte(2 + r.IntN(250))})), nt)
		w := refWIF(k, np, i%2 == 0)
		text("privFromWIF", w, nt)
		text("privFromWIF", w, other)
		text("checkWIF", w, nil)
		for _, s := range []string{mutateText(r, w, b58), w + "0", w[:len(w)-1], w[1:], "1" + w, "l" + w[1:], b58enc(randBytes(r, r.IntN(5)))} {
			text("privFromWIF", s, nt)
			text("checkWIF", s, nil)
		}
		// hex keys
		h := hex64(k)
		for _, s := range []string{h, strings.ToUpper(h), h[1:], h + "0", "0" + h, "-" + h[1:], "+" + h[1:], "g" + h[1:], h[:63] + "_", "0x" + h[2:], strings.Repeat("0", 64), "", h + h} {
			text("privFromHex", s, nt)
		}
		bad := litNet([]string{"zz", "8", "0x", " 80"}[i%4], "00")
		out = append(out, branch{call: Op{K: "privFromHex", S: []byte(h), Net: bad, Out: 1}}, branch{call: Op{K: "privFromWIF", S: []byte(w), Net: bad, Out: 1}})
		badH := litNet("80", []string{"zz", "0", "-1", "6f "}[i%4])
		out = append(out, branch{mk: []Op{mkPub(p, badH, 1)}, call: Op{K: "address", A: 1, F: i%2 == 0}})
		// public keys
		x := off()
		offY := mod(new(big.Int).Add(p.Y, one))
		for _, s := range []string{
			fmt.Sprintf("02%064x", x), fmt.Sprintf("03%064x", x), fmt.Sprintf("02%064x", xOver()), fmt.Sprintf("03%064x", fp), fmt.Sprintf("02%064x", new(big.Int)),
			fmt.Sprintf("04%064x%064x", p.X, offY), fmt.Sprintf("04%064x%064x", x, p.Y), fmt.Sprintf("04%064x%064x", xOver(), p.Y), fmt.Sprintf("04%064x%064x", p.X, xOver()), "04" + strings.Repeat("0", 128),
			"04" + h, "02" + h + h, "03" + h + h, fmt.Sprintf("%02d%064x", []int{0, 1, 5, 6, 7, 99}[r.IntN(6)], p.X), fmt.Sprintf("%02d%064x%064x", []int{0, 1, 5, 6, 7, 8}[r.IntN(6)], p.X, p.Y),
			refFormat(p, true), refFormat(p, false), refFormat(p.neg(), true), strings.ToUpper(refFormat(q, false)), refFormat(p, true)[1:], refFormat(p, false) + "00", "0g" + h, "", "02",
		} {
			text("pubFromHex", s, nt)
		}
		// derivation, formats
		for _, s := range []string{"nil", "0", "-1", hexs(fn), hexs(over()), hexs(new(big.Int).Lsh(one, 256)), "-" + hexs(k)} {
			out = append(out, branch{mk: []Op{{K: "mkPriv", X: s, Net: nt, Out: 1}}, call: Op{K: "getPub", A: 1, Out: 2}})
		}
		out = append(out, branch{mk: []Op{mkPriv(k, nt, 1)}, call: Op{K: "getPub", A: 1, Out: 2}, plain: true}, branch{mk: []Op{mkPriv(new(big.Int).Sub(fn, k), nt, 1)}, call: Op{K: "getPub", A: 1, Out: 2}, plain: true})
		for _, f := range []bool{true, false} {
			for _, pt := range []Pt{p, p.neg()} {
				out = append(out, branch{mk: []Op{mkPub(pt, nt, 1)}, call: Op{K: "format", A: 1, F: f}, plain: true}, branch{mk: []Op{mkPub(pt, nt, 1)}, call: Op{K: "address", A: 1, F: f}, plain: true})
			}
		}
		// combinations of private keys
		for _, op := range []string{"addPriv", "mulPriv"} {
			pair(op, mkPriv(k, nt, 1), mkPriv(k2, nt, 2), true)
			pair(op, mkPriv(k, nt, 1), mkPriv(k2, other, 2), true)
			pair(op, mkPriv(k, nt, 1), mkPriv(k2, litNet(np, "77"), 2), true)
			pair(op, mkPriv(k, nt, 1), mkPriv(k, nt, 2), true)
			pair(op, mkPriv(k, nt, 1), mkPriv(new(big.Int).Sub(fn, k), nt, 2), true)
			pair(op, mkPriv(one, nt, 1), mkPriv(new(big.Int).Sub(fn, one), nt, 2), true)
			pair(op, mkPriv(big.NewInt(2), nt, 1), mkPriv(big.NewInt(int64(3+i)), nt, 2), true)
		}
		// combinations of public keys
		lit := func(p Pt, o int) Op { return Op{K: "mkPub", X: hexs(p.X), Y: hexs(p.Y), Net: nt, Out: o} }
		pair("addPub", lit(p, 1), lit(q, 2), true)
		pair("addPub", lit(p, 1), mkPub(q, other, 2), true)
		pair("addPub", lit(p, 1), lit(p, 2), true)
		pair("addPub", lit(p, 1), lit(p.neg(), 2), true)
		pair("addPub", lit(Pt{p.X, offY}, 1), lit(q, 2), false)
		pair("addPub", lit(q, 1), lit(Pt{p.X, offY}, 2), false)
		pair("addPub", lit(Pt{p.X, offY}, 1), lit(Pt{p.X, offY}, 2), false)
		if t, ok := chordTrick(p, q); ok {
			pair("addPub", lit(p, 1), lit(t, 2), false)
			pair("addPub", lit(t, 1), lit(p, 2), false)
		}
		// phrases
		words := mnemonicLens[i%5]
		l := append(append([]string{}, ListNames...), "custom:2048", "odd")[r.IntN(11)]
		seed := func(s, list string) {
			out = append(out, branch{call: Op{K: "newSeed", S: []byte(s), S2: []byte(genPass(r)), List: list}, plain: true})
		}
		ph := refEncode(genEntropy(r, words), l)
		ws := strings.Split(ph, " ")
		seed(ph, l)
		seed(ph, badLists[r.IntN(len(badLists))])
		seed(strings.Join(ws[1:], " "), l)
		seed("", l)
		ws[r.IntN(words)] = "\x01nosuchword"
		seed(strings.Join(ws, " "), l)
		for {
			ws = strings.Split(ph, " ")
			ws[words-1] = official[l][r.IntN(2048)]
			if _, why := refDecode(strings.Join(ws, " "), l); why != "" {
				break
			}
		}
		seed(strings.Join(ws, " "), l)
		for _, m := range []int{words, words + 1, 0, -1} {
			out = append(out, branch{call: Op{K: "newMnemonic", N: m, List: l, Out: 1}, plain: true})
		}
		out = append(out, branch{call: Op{K: "newMnemonic", N: words, List: badLists[r.IntN(len(badLists))], Out: 1}, plain: true}, branch{call: Op{K: "genPriv", Net: nt, Out: 1}, plain: true})
	}
	return out
}

// failing are generations from a random source that fails.
func failing(r *rand.Rand, n int) (out []branch) {
	gs := genKinds()
	for i := 0; i < n; i++ {
		g := gs[i%len(gs)]
		o := g.op
		o.Ent, o.Seed = plainBlock(r, g.need), 3
		if o.K == "genPriv" && i%3 == 0 { // after a rejected block
			o.Ent = append([]byte(strings.Repeat("\xff", 32)), o.Ent...)
		}
		o.Fault = &Fault{FailAt: r.IntN(len(o.Ent)), Err: faultErrs[r.IntN(len(faultErrs))], Partial: r.IntN(2) == 0, Chunk: r.IntN(9), Once: r.IntN(4) == 0}
		o.Out = 1
		out = append(out, branch{call: o})
	}
	return out
}

// scripted makes scenarios of them, with scripted random bytes.
func scripted(r *rand.Rand, bs []branch) (out []Scenario) {
	for _, b := range bs {
		if o := &b.call; (o.K == "genPriv" || o.K == "newMnemonic") && o.Ent == nil {
			o.Ent, o.Seed = genEntropy(r, 24), r.Uint64()>>1|1
		}
		out = append(out, b.scenario())
	}
	return out
}

package main

// Event-local oracles: what an operation must return, given the arguments that
// were observed at the call. They return judged=false outside the domain.

import (
	"fmt"
	"math/big"
	"strings"

	. "aaverif/proto"
)

func netOf(n *Net) (p, h string) {
	if n == nil {
		return "80", "00"
	}
	switch n.Name {
	case "main":
		return "80", "00"
	case "test":
		return "EF", "6F"
	}
	return n.P, n.H
}

func numOf(s string) *big.Int {
	if s == "nil" || s == "" {
		return nil
	}
	v, ok := new(big.Int).SetString(s, 16)
	if !ok {
		return nil
	}
	return v
}

// abnormal reports a panic or process death of the operation.
func abnormal(ev *Ev, d *Death) string {
	if d != nil {
		return d.String()
	}
	if ev.Panic != "" {
		return "the call panicked: " + clip(ev.Panic, 400)
	}
	return ""
}

func textOf(op *Op, ev *Ev) string {
	if op.SS > 0 {
		return string(ev.S)
	}
	return string(op.S)
}

func sameNet(v *Val, p, h string) bool { return !v.NN && v.NP == p && v.NH == h }

// privIs checks that v is the private key k. wif=="" : the uncompressed WIF.
func privIs(v *Val, k *big.Int, np, nh, wif string) string {
	if v.T != "priv" {
		return "no key was returned"
	}
	if numOf(v.Key) == nil || numOf(v.Key).Cmp(k) != 0 {
		return fmt.Sprintf("numeric key is %s, should be %x", v.Key, k)
	}
	if !strings.EqualFold(v.Hex, hex64(k)) {
		return fmt.Sprintf("hex text is %q, should be %q", v.Hex, hex64(k))
	}
	if wif == "" {
		wif = refWIF(k, np, false)
	}
	if v.WIF != wif {
		return fmt.Sprintf("WIF is %q, should be %q", v.WIF, wif)
	}
	if !sameNet(v, np, nh) {
		return fmt.Sprintf("network is %s/%s (nil=%v), should be %s/%s", v.NP, v.NH, v.NN, np, nh)
	}
	return ""
}

func pubIs(v *Val, p Pt, np, nh string) string {
	if v.T != "pub" {
		return "no key was returned"
	}
	x, y := numOf(v.X), numOf(v.Y)
	if x == nil || y == nil || x.Cmp(p.X) != 0 || y.Cmp(p.Y) != 0 {
		return fmt.Sprintf("point is (%s, %s), should be (%x, %x)", v.X, v.Y, p.X, p.Y)
	}
	if !sameNet(v, np, nh) {
		return fmt.Sprintf("network is %s/%s (nil=%v), should be %s/%s", v.NP, v.NH, v.NN, np, nh)
	}
	return ""
}

func refused(ev *Ev, why string) string {
	if !ev.Err {
		return "accepted although " + why
	}
	if ev.R.T != "nil" && !(ev.R.T == "str" && len(ev.R.S) == 0) {
		return "an error came together with a result although " + why
	}
	return ""
}

// pubArg is the point of an observed public-key argument.
func pubArg(v *Val) Pt { return Pt{numOf(v.X), numOf(v.Y)} }

// judge applies the oracle of the operation. key identifies the input.
func judge(op *Op, ev *Ev, d *Death) (judged bool, class, key, bad string) {
	if d == nil && ev.Skip {
		return
	}
	judged = true
	class = op.K
	ab := abnormal(ev, d)
	np, nh := netOf(op.Net)
	list := op.List
	if op.JL != "" {
		list = op.JL
	}
	switch op.K {
	case "privFromHex":
		s := textOf(op, ev)
		key = s + "|" + np
		k, ok := refParseHexKey(s)
		if ok {
			class += " valid"
		} else {
			class += " invalid"
		}
		if ab != "" {
			bad = ab
		} else if !ok {
			bad = refused(ev, fmt.Sprintf("%q is not a 64-digit hex number in 1..n-1", clip(s, 140)))
		} else if ev.Err {
			bad = "refused with error " + ev.Msg
		} else {
			bad = privIs(&ev.R, k, np, nh, "")
		}
	case "privFromWIF":
		s := textOf(op, ev)
		key = s + "|" + np
		k, ok := refParseWIF(s, np)
		if ok {
			class += " valid"
		} else {
			class += " invalid"
		}
		if ab != "" {
			bad = ab
		} else if !ok {
			bad = refused(ev, fmt.Sprintf("%q is not a valid WIF of network %s", clip(s, 140), np))
		} else if ev.Err {
			bad = "refused with error " + ev.Msg
		} else {
			bad = privIs(&ev.R, k, np, nh, s)
		}
	case "checkWIF":
		s := textOf(op, ev)
		key = s
		p, ok := b58checkDec(s)
		ok = ok && len(p) > 0
		class += fmt.Sprintf(" %v", ok)
		if ab != "" {
			bad = ab
		} else if ev.R.B != ok {
			bad = fmt.Sprintf("answered %v, should be %v", ev.R.B, ok)
		}
	case "genPriv":
		key = ev.R.Key
		if op.Fault != nil && op.Fault.FailAt >= 0 {
			return false, class, key, ""
		}
		if ab != "" {
			key = fmt.Sprintf("%x", op.Ent)
			bad = ab
			break
		}
		k := numOf(ev.R.Key)
		if ev.R.T != "priv" || !validScalar(k) {
			bad = fmt.Sprintf("generated key %q is not in 1..n-1", ev.R.Key)
		} else {
			bad = privIs(&ev.R, k, np, nh, "")
		}
	case "addPriv", "mulPriv":
		if d != nil {
			// arguments not recorded
			bad = ab
			break
		}
		a, b := numOf(ev.A.Key), numOf(ev.B.Key)
		if !validScalar(a) || !validScalar(b) || ev.A.NN || ev.B.NN {
			return false, class, key, ""
		}
		key = fmt.Sprintf("%x,%x,%s,%s", a, b, ev.A.NP+ev.A.NH, ev.B.NP+ev.B.NH)
		if ab != "" {
			bad = ab
			break
		}
		r := new(big.Int)
		if op.K == "addPriv" {
			r.Add(a, b)
		} else {
			r.Mul(a, b)
		}
		r.Mod(r, fn)
		switch {
		case ev.A.NP != ev.B.NP || ev.A.NH != ev.B.NH:
			if strings.EqualFold(ev.A.NP, ev.B.NP) && strings.EqualFold(ev.A.NH, ev.B.NH) {
				return false, class, key, ""
			}
			class += " mixed"
			bad = refused(ev, "the networks differ")
		case a.Cmp(b) == 0:
			class += " identical"
			bad = refused(ev, "the keys are identical")
		case r.Sign() == 0:
			class += " zero"
			bad = refused(ev, "the result is zero")
		case ev.Err:
			bad = "refused with error " + ev.Msg
		default:
			bad = privIs(&ev.R, r, ev.A.NP, ev.A.NH, "")
		}
	case "getPub":
		if d != nil {
			bad = ab
			break
		}
		k := numOf(ev.A.Key)
		key = ev.A.Key + "|" + ev.A.NP + ev.A.NH
		if ab != "" {
			bad = ab
			break
		}
		if !validScalar(k) {
			class += " out-of-range"
			bad = refused(ev, "the scalar "+clip(ev.A.Key, 80)+" is not in 1..n-1")
		} else if ev.Err {
			bad = "reported as invalid"
		} else {
			bad = pubIs(&ev.R, mulG(k), ev.A.NP, ev.A.NH)
		}
	case "pubFromHex":
		s := textOf(op, ev)
		key = s
		p, ok := refParsePub(s)
		if ok {
			class += " valid " + s[:2]
		} else {
			class += " invalid"
		}
		if ab != "" {
			bad = ab
		} else if !ok {
			bad = refused(ev, fmt.Sprintf("%q is not a valid SEC1 public key", clip(s, 140)))
		} else if ev.Err {
			bad = "refused with error " + ev.Msg
		} else {
			bad = pubIs(&ev.R, p, np, nh)
		}
	case "format", "address":
		if d != nil {
			bad = ab
			break
		}
		p := pubArg(ev.A)
		if !onCurve(p.X, p.Y) || ev.A.NN {
			return false, class, key, ""
		}
		key = fmt.Sprintf("%s,%s,%v,%s", ev.A.X, ev.A.Y, op.F, ev.A.NH)
		class += fmt.Sprintf(" compressed=%v", op.F)
		if ab != "" {
			bad = ab
			break
		}
		got := string(ev.R.S)
		if op.K == "format" {
			want := refFormat(p, op.F)
			if !strings.EqualFold(got, want) {
				bad = fmt.Sprintf("serialized as %q, should be %q", got, want)
			}
			break
		}
		want := refAddress(p, ev.A.NH, op.F)
		if ev.Err {
			bad = "refused with error " + ev.Msg
		} else if got != want {
			bad = fmt.Sprintf("address is %q, should be %q", got, want)
		}
	case "addPub":
		if d != nil {
			bad = ab
			break
		}
		a, b := pubArg(ev.A), pubArg(ev.B)
		if a.X == nil || a.Y == nil || b.X == nil || b.Y == nil || ev.A.NN || ev.B.NN {
			return false, class, key, ""
		}
		key = fmt.Sprintf("%s,%s+%s,%s %s %s", ev.A.X, ev.A.Y, ev.B.X, ev.B.Y, ev.A.NP+ev.A.NH, ev.B.NP+ev.B.NH)
		if ab != "" {
			bad = ab
			break
		}
		mixed := ev.A.NP != ev.B.NP || ev.A.NH != ev.B.NH
		if mixed && strings.EqualFold(ev.A.NP, ev.B.NP) && strings.EqualFold(ev.A.NH, ev.B.NH) {
			return false, class, key, ""
		}
		switch {
		case mixed:
			class += " mixed"
			bad = refused(ev, "the networks differ")
		case !onCurve(a.X, a.Y) || !onCurve(b.X, b.Y):
			class += " off-curve"
			bad = refused(ev, "a point is not on the curve")
		default:
			r := addPts(a, b)
			if r.inf() {
				class += " infinity"
				bad = refused(ev, "the sum is the point at infinity")
			} else if ev.Err {
				bad = "refused with error " + ev.Msg
			} else {
				if a.eq(b) {
					class += " doubling"
				}
				bad = pubIs(&ev.R, r, ev.A.NP, ev.A.NH)
			}
		}
	case "newMnemonic":
		if op.Fault != nil && op.Fault.FailAt >= 0 {
			return false, class, key, ""
		}
		okLen := op.N == 12 || op.N == 15 || op.N == 18 || op.N == 21 || op.N == 24
		_, okList := officialIdx[list]
		key = fmt.Sprintf("%d %s %s", op.N, list, ev.R.S)
		if ab != "" {
			key = fmt.Sprintf("%d %s %x", op.N, list, op.Ent)
			bad = ab
			break
		}
		if !okLen || !okList {
			class += " refused"
			bad = refused(ev, fmt.Sprintf("%d words from list %q cannot be generated", op.N, list))
			break
		}
		class += fmt.Sprintf(" %d", op.N)
		if ev.Err {
			bad = "refused with error " + ev.Msg
			break
		}
		ph := string(ev.R.S)
		if n := len(strings.Split(ph, " ")); n != op.N {
			bad = fmt.Sprintf("%d words instead of %d: %q", n, op.N, ph)
		} else if _, why := refDecode(ph, list); why != "" {
			bad = fmt.Sprintf("not a valid BIP-39 phrase (%s): %q", why, ph)
		}
	case "newSeed":
		ph := textOf(op, ev)
		key = ph + "|" + string(op.S2) + "|" + list
		_, why := refDecode(ph, list)
		if why == "" {
			class += fmt.Sprintf(" valid %d", len(strings.Split(ph, " ")))
		} else {
			class += " invalid"
		}
		if ab != "" {
			bad = ab
		} else if why != "" {
			bad = refused(ev, fmt.Sprintf("the phrase is invalid (%s): %q", why, clip(ph, 300)))
		} else if ev.Err {
			bad = fmt.Sprintf("valid phrase refused with error %s: %q", ev.Msg, ph)
		} else if want := refSeed(ph, string(op.S2)); string(want) != string(ev.R.S) {
			bad = fmt.Sprintf("seed is %x, should be %x for %q / %q", ev.R.S, want, ph, clip(string(op.S2), 80))
		}
	default:
		judged = false
	}
	return
}

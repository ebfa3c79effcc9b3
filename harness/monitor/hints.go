package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"math/big"
	"math/rand/v2"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	. "aaverif/proto"
)

// hints are the numbers and texts that stand in the current source of /repo, as
// the dictionary of a fuzzer: they steer the workload and judge nothing.
var hints struct {
	Ints    []string // decimal, 0 or more
	Strings []string

	ints      []*big.Int
	scalars   []*big.Int
	nets      []*Net
	entropies map[int][][]byte
	pass      []string // short ones
}

const maxHints = 60

// literals collects the constants of the packages listed (see pauses).
func literals(listing string) ([]byte, error) {
	ints, strs := map[string]int{}, map[string]int{}
	var value func(e ast.Expr) *big.Int
	value = func(e ast.Expr) *big.Int {
		switch e := e.(type) {
		case *ast.ParenExpr:
			return value(e.X)
		case *ast.BasicLit:
			switch e.Kind {
			case token.INT:
				v, _ := new(big.Int).SetString(e.Value, 0)
				return v
			case token.FLOAT:
				if f, ok := new(big.Float).SetString(e.Value); ok && f.IsInt() {
					v, _ := f.Int(nil)
					return v
				}
			case token.CHAR:
				if c, _, _, err := strconv.UnquoteChar(strings.Trim(e.Value, "'"), '\''); err == nil {
					return big.NewInt(int64(c))
				}
			}
		case *ast.BinaryExpr:
			a, b := value(e.X), value(e.Y)
			if a == nil || b == nil {
				return nil
			}
			switch e.Op {
			case token.ADD:
				return new(big.Int).Add(a, b)
			case token.SUB:
				return new(big.Int).Sub(a, b)
			case token.MUL:
				return new(big.Int).Mul(a, b)
			case token.QUO:
				if b.Sign() != 0 {
					return new(big.Int).Quo(a, b)
				}
			case token.SHL:
				if b.IsInt64() && b.Int64() >= 0 && b.Int64() < 1000 {
					return new(big.Int).Lsh(a, uint(b.Int64()))
				}
			}
		}
		return nil
	}
	for _, line := range strings.Split(strings.TrimSpace(listing), "\n") {
		part := strings.Split(line, "\t")
		if len(part) < 4 {
			continue
		}
		for _, f := range part[3:] {
			fset := token.NewFileSet()
			tree, err := parser.ParseFile(fset, filepath.Join(part[0], f), nil, parser.SkipObjectResolution)
			if err != nil {
				return nil, err
			}
			ast.Inspect(tree, func(x ast.Node) bool {
				switch x := x.(type) {
				case *ast.ImportSpec:
					return false
				case *ast.CompositeLit:
					return len(x.Elts) < 300 // not the word lists
				case *ast.CallExpr: // the texts of errors are no inputs
					if s, ok := x.Fun.(*ast.SelectorExpr); ok {
						if p, ok := s.X.(*ast.Ident); ok && (p.Name == "errors" || p.Name == "log" || s.Sel.Name == "Errorf") {
							return false
						}
					}
				case *ast.BasicLit:
					if x.Kind == token.STRING {
						if s, err := strconv.Unquote(x.Value); err == nil && len(s) < 5000 {
							strs[s]++
						}
					} else if v := value(x); v != nil {
						ints[v.String()]++
					}
				case *ast.BinaryExpr:
					if v := value(x); v != nil && v.Sign() >= 0 {
						ints[v.String()]++
					}
				}
				return true
			})
		}
	}
	h := hints
	for v := range ints {
		h.Ints = append(h.Ints, v)
	}
	for s := range strs {
		h.Strings = append(h.Strings, s)
	}
	sort.Strings(h.Ints)
	sort.Strings(h.Strings)
	return json.Marshal(h)
}

func loadHints(file string, seed uint64) {
	b, err := os.ReadFile(file)
	if err != nil || json.Unmarshal(b, &hints) != nil {
		return
	}
	seen := map[string]bool{}
	add := func(v *big.Int) {
		if v != nil && v.Sign() >= 0 && v.BitLen() <= 300 && !seen[v.String()] && len(hints.ints) < 3*maxHints {
			seen[v.String()] = true
			hints.ints = append(hints.ints, v)
		}
	}
	for _, s := range hints.Ints {
		v, _ := new(big.Int).SetString(s, 10)
		add(v)
	}
	for _, s := range hints.Strings { // numbers written as texts
		if len(s) <= 78 {
			v, ok := new(big.Int).SetString(s, 16)
			if ok {
				add(v)
			}
			if v, ok = new(big.Int).SetString(s, 10); ok {
				add(v)
			}
		}
	}
	if len(hints.Strings) > 3*maxHints {
		hints.Strings = hints.Strings[:3*maxHints]
	}
	r := rand.New(rand.NewPCG(seed, 99))
	hints.scalars = hintScalars(r)
	hints.nets = hintNets()
	hints.entropies = map[int][][]byte{}
	for _, n := range mnemonicLens {
		hints.entropies[n] = hintEntropies(r, n)
	}
	for _, p := range hintPass(r) {
		if len(p) <= 300 {
			hints.pass = append(hints.pass, p)
		}
	}
}

// hintNumbers are the hints from lo to hi, each with its neighbours.
func hintNumbers(lo, hi int) (out []int) {
	seen := map[int]bool{}
	for _, v := range hints.ints {
		if v.IsInt64() && v.Int64() <= int64(hi)+1 {
			for d := -1; d <= 1; d++ {
				if n := int(v.Int64()) + d; n >= lo && n <= hi && !seen[n] {
					seen[n] = true
					out = append(out, n)
				}
			}
		}
	}
	sort.Ints(out)
	return
}

// hintScalars are valid scalars made from the hints.
func hintScalars(r *rand.Rand) (out []*big.Int) {
	add := func(k *big.Int) {
		if validScalar(k) {
			out = append(out, k)
		}
	}
	for _, v := range hints.ints {
		for d := int64(-1); d <= 1; d++ {
			w := new(big.Int).Add(v, big.NewInt(d))
			add(w)
			add(new(big.Int).Sub(fn, w))
			if w.Sign() > 0 && w.BitLen() <= 8 { // that many bits
				k := randScalar(r)
				k.SetBit(k, 255, 0)
				if n := uint(w.Int64()); n < 255 {
					k.Rsh(k, 255-n)
				}
				k.SetBit(k, max(0, int(w.Int64())-1), 1)
				add(k)
				add(new(big.Int).Lsh(one, uint(w.Int64())))
				add(new(big.Int).Sub(new(big.Int).Lsh(one, uint(w.Int64())), one))
			}
		}
		if n := v.BitLen(); n > 0 && n < 250 {
			k := randScalar(r) // ends with v
			add(k.Or(k.Lsh(k.Rsh(k, uint(n)), uint(n)), v))
			k = randScalar(r) // ends with v in bytes
			w := uint(n+7) / 8 * 8
			add(k.Or(k.Lsh(k.Rsh(k, w), w), v))
			add(new(big.Int).SetBytes(append(v.Bytes(), randBytes(r, 32-len(v.Bytes()))...))) // begins with v
			k = new(big.Int).Rsh(randScalar(r), uint(n)+1)                                    // a multiple of v
			add(k.Mul(k, v))
			add(new(big.Int).Add(k, one))
			for i := 0; i < 3; i++ { // v inside
				b := be32(randScalar(r))
				if m := len(v.Bytes()); m < 32 {
					copy(b[r.IntN(32-m):], v.Bytes())
				}
				add(new(big.Int).SetBytes(b))
			}
		}
	}
	if len(out) > 3000 {
		r.Shuffle(len(out), func(i, j int) { out[i], out[j] = out[j], out[i] })
		out = out[:3000]
	}
	return
}

// hintTexts are s with the hints as head, tail, middle or replacement, and s
// repeated or cut to the lengths among the hints.
func hintTexts(r *rand.Rand, s string) (out []string) {
	for _, h := range hints.Strings {
		i := r.IntN(len(s) + 1)
		out = append(out, h, h+s, s+h, s[:i]+h+s[i:], strings.ToUpper(h), h+h)
		if len(h) <= len(s) {
			j := r.IntN(len(s) - len(h) + 1)
			out = append(out, s[:j]+h+s[j+len(h):], h+s[len(h):], s[:len(s)-len(h)]+h)
		}
	}
	for _, v := range hints.ints {
		if v.BitLen() <= 20 {
			c := string(rune(v.Int64()))
			i := r.IntN(len(s) + 1)
			out = append(out, c+s, s+c, s[:i]+c+s[i:])
			if v.BitLen() <= 8 {
				c = string([]byte{byte(v.Int64())})
				out = append(out, c+s, s+c, s[:i]+c+s[i:])
			}
		}
	}
	for _, n := range hintNumbers(0, 5000) {
		if len(s) > 0 {
			t := strings.Repeat(s, n/len(s)+1)
			out = append(out, t[:n], t[len(t)-n:])
			if n < len(s) {
				out = append(out, s[:n]+s[n+1:], s[:n]+"\x00"+s[n:])
			}
		}
	}
	return
}

// hintNets are networks with prefixes from the hints.
func hintNets() (out []*Net) {
	for _, v := range hints.ints {
		if v.BitLen() <= 8 {
			s := fmt.Sprintf("%02x", v)
			out = append(out, litNet(s, "00"), litNet("80", s), litNet(strings.ToUpper(s), strings.ToUpper(s)))
		}
	}
	return
}

// hintEntropies have a word with an index among the hints, or bits, bytes or zeros as many.
func hintEntropies(r *rand.Rand, words int) (out [][]byte) {
	n := entBytes(words)
	seen := map[int]bool{}
	for _, i := range hintNumbers(0, 2047) {
		pos := r.IntN(n * 8 / 11)
		for _, p := range []int{0, pos, n*8/11 - 1} {
			k := new(big.Int).SetBytes(randBytes(r, n))
			for b := 0; b < 11; b++ {
				k.SetBit(k, n*8-1-p*11-b, uint(i>>(10-b))&1)
			}
			out = append(out, k.FillBytes(make([]byte, n)))
		}
		if i > 0 && i < n*8 && !seen[i] {
			seen[i] = true
			b := new(big.Int).Rsh(new(big.Int).SetBytes(randBytes(r, n)), uint(i))
			out = append(out, b.FillBytes(make([]byte, n)))
			b = new(big.Int).SetBytes(randBytes(r, n))
			b.Lsh(b.Rsh(b, uint(i)), uint(i))
			out = append(out, b.FillBytes(make([]byte, n)))
		}
	}
	for _, v := range hints.ints {
		if len(v.Bytes()) <= n {
			out = append(out, v.FillBytes(make([]byte, n)))
			b := randBytes(r, n)
			copy(b, v.Bytes())
			out = append(out, b)
			b = randBytes(r, n)
			copy(b[n-len(v.Bytes()):], v.Bytes())
			out = append(out, b)
		}
	}
	return
}

// hintPass are passphrases from the hints.
func hintPass(r *rand.Rand) (out []string) {
	for _, h := range hints.Strings {
		out = append(out, h, h+h, h+" ", "a"+h, h+"a")
	}
	for _, n := range hintNumbers(0, 70000) {
		out = append(out, strings.Repeat("p", n), string(randBytes(r, n)))
	}
	for _, v := range hints.ints {
		if v.BitLen() <= 20 {
			out = append(out, "a"+string(rune(v.Int64()))+"b", fmt.Sprint(v))
		}
	}
	return
}

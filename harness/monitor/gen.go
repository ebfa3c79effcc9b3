package main

import (
	"crypto/sha256"
	_ "embed"
	"encoding/json"
	"fmt"
	"math/big"
	"math/rand/v2"
	"strings"

	. "aaverif/proto"
)

//go:embed data/special.json
var specialJSON []byte

// Special holds mined inputs that random sampling would hardly ever meet.
type Special struct {
	// Scalars by feature, e.g. "x0:3" (x starts with three zero bytes).
	Scalars map[string][]string `json:"scalars"`
	// Entropies (hex) by feature, e.g. "sha0:20" (hash starts with 20 zero bits).
	Entropies map[string][]string `json:"entropies"`
	// Seeds: entropy|passphrase whose seed starts with zero bytes.
	Seeds []string `json:"seeds"`
}

var special Special

func loadSpecial() error { return json.Unmarshal(specialJSON, &special) }

var main_ = &Net{Name: "main"}
var test_ = &Net{Name: "test"}

func randBytes(r *rand.Rand, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(r.Uint32())
	}
	return b
}

func randScalar(r *rand.Rand) *big.Int {
	for {
		k := new(big.Int).SetBytes(randBytes(r, 32))
		if validScalar(k) {
			return k
		}
	}
}

func hexs(k *big.Int) string { return k.Text(16) }

// edgeScalars are the deterministic boundary scalars, all in 1..n-1.
func edgeScalars() []*big.Int {
	var out []*big.Int
	add := func(k *big.Int) {
		if validScalar(k) {
			out = append(out, k)
		}
	}
	for i := int64(1); i <= 40; i++ {
		add(big.NewInt(i))
		add(new(big.Int).Sub(fn, big.NewInt(i)))
	}
	half := new(big.Int).Rsh(fn, 1)
	for i := int64(-4); i <= 5; i++ {
		add(new(big.Int).Add(half, big.NewInt(i)))
	}
	third := new(big.Int).Div(fn, big.NewInt(3))
	for i := int64(-1); i <= 2; i++ {
		add(new(big.Int).Add(third, big.NewInt(i)))
	}
	for b := uint(0); b < 256; b++ {
		p := new(big.Int).Lsh(one, b)
		add(p)
		add(new(big.Int).Sub(p, one))
		add(new(big.Int).Add(p, one))
		if b%8 == 0 {
			add(new(big.Int).Sub(fn, p))
		}
	}
	for _, s := range []string{
		strings.Repeat("55", 32), strings.Repeat("aa", 32), strings.Repeat("0f", 32), strings.Repeat("f0", 32),
		strings.Repeat("00ff", 16), strings.Repeat("ff00", 16), strings.Repeat("80", 32), strings.Repeat("01", 32),
		strings.Repeat("7f", 32), strings.Repeat("10", 32), strings.Repeat("09", 32), strings.Repeat("90", 32),
		strings.Repeat("ab", 32), strings.Repeat("cd", 32), strings.Repeat("11", 32), strings.Repeat("99", 32),
		// lambda and lambda^2: endomorphism multiples (same y as G)
		"5363ad4cc05c30e0a5261c028812645a122e22ea20816678df02967c1b23bd72",
		"ac9c52b33fa3cf1f5ad9e3fd77ed9ba4a880b9fc8ec739c2e0cfc810b51283ce",
	} {
		add(bi(s))
	}
	// small combinations of 1 and lambda, and the numbers a decomposition along
	// the endomorphism works with
	lambda := bi("5363ad4cc05c30e0a5261c028812645a122e22ea20816678df02967c1b23bd72")
	for a := int64(-4); a <= 4; a++ {
		for b := int64(-4); b <= 4; b++ {
			if b != 0 {
				k := new(big.Int).Mul(lambda, big.NewInt(b))
				add(k.Mod(k.Add(k, big.NewInt(a)), fn))
			}
		}
	}
	for _, s := range []string{"3086d221a7d46bcde86c90e49284eb15", "e4437ed6010e88286f547fa90abfe4c3", "114ca50f7a8e2f3f657c1108d9d44cfd8"} {
		v := bi(s)
		lv := new(big.Int).Mul(v, lambda)
		lv.Mod(lv, fn)
		for _, k := range []*big.Int{v, lv, new(big.Int).Add(v, lv), new(big.Int).Sub(v, lv), new(big.Int).Sub(fn, v), new(big.Int).Rsh(v, 1), new(big.Int).ModInverse(v, fn)} {
			for d := int64(-1); d <= 1; d++ {
				x := new(big.Int).Add(k, big.NewInt(d))
				add(x.Mod(x, fn))
			}
		}
	}
	for i := int64(2); i < 12; i++ { // 1/i
		add(new(big.Int).ModInverse(big.NewInt(i), fn))
	}
	return append(out, hints.scalars...)
}

func specialScalars() []*big.Int {
	var out []*big.Int
	for _, f := range sortedKeys(special.Scalars) {
		for _, s := range special.Scalars[f] {
			out = append(out, bi(s))
		}
	}
	return out
}

// genScalar mixes structured and random scalars.
func genScalar(r *rand.Rand) *big.Int {
	for {
		var k *big.Int
		switch r.IntN(12) {
		case 0: // short
			k = new(big.Int).SetBytes(randBytes(r, 1+r.IntN(31)))
		case 1: // near n
			k = new(big.Int).Sub(fn, new(big.Int).SetBytes(randBytes(r, 1+r.IntN(31))))
		case 2: // sparse
			k = new(big.Int)
			for i := 0; i < 1+r.IntN(6); i++ {
				k.SetBit(k, r.IntN(256), 1)
			}
		case 3: // dense
			k = new(big.Int).Sub(new(big.Int).Lsh(one, 256), one)
			for i := 0; i < 1+r.IntN(6); i++ {
				k.SetBit(k, r.IntN(256), 0)
			}
		case 4: // zero bytes inside
			b := randBytes(r, 32)
			i := r.IntN(32)
			for j := i; j < 32 && j < i+1+r.IntN(8); j++ {
				b[j] = 0
			}
			k = new(big.Int).SetBytes(b)
		case 5: // trailing zeros
			k = randScalar(r)
			sh := uint(1 + r.IntN(200))
			k.Rsh(k, sh).Lsh(k, sh)
		case 6: // runs of ff
			b := randBytes(r, 32)
			i := r.IntN(32)
			for j := i; j < 32 && j < i+1+r.IntN(8); j++ {
				b[j] = 0xff
			}
			k = new(big.Int).SetBytes(b)
		default:
			k = randScalar(r)
		}
		if validScalar(k) {
			return k
		}
	}
}

// related returns scalars that agree with k in part (to confuse caches and
// truncated comparisons).
func related(r *rand.Rand, k *big.Int) []*big.Int {
	var out []*big.Int
	add := func(x *big.Int) {
		if validScalar(x) && x.Cmp(k) != 0 {
			out = append(out, x)
		}
	}
	add(new(big.Int).Sub(fn, k))
	for _, b := range []int{0, 7, 31, 63, 64, 127, 128, 200, 248, 255, r.IntN(256)} {
		add(new(big.Int).SetBit(k, b, k.Bit(b)^1))
	}
	for _, n := range []int{4, 8, 16, 28} {
		b := be32(k) // same head
		copy(b[n:], randBytes(r, 32-n))
		add(new(big.Int).SetBytes(b))
		b = be32(k) // same tail
		copy(b[:32-n], randBytes(r, 32-n))
		add(new(big.Int).SetBytes(b))
	}
	b := be32(k)
	for i, j := 0, 31; i < j; i, j = i+1, j-1 {
		b[i], b[j] = b[j], b[i]
	}
	add(new(big.Int).SetBytes(b))
	add(new(big.Int).Rsh(k, 8))
	add(new(big.Int).Rsh(k, 4))
	return out
}

func scalarList(r *rand.Rand, edges bool, n int) []*big.Int {
	var out []*big.Int
	if edges {
		out = append(out, edgeScalars()...)
		out = append(out, specialScalars()...)
	}
	for i := 0; i < n; i++ {
		k := genScalar(r)
		out = append(out, k)
		if i%40 == 0 {
			rel := related(r, k)
			out = append(out, rel...)
			out = append(out, k)
		}
	}
	return out
}

// ---- points ----

var beta = bi("7ae96a2b657c07106e64479eac3434e99cf0497512f58995c1396c28719501ee")

// smallPoints have a tiny x or a tiny y (discrete logs unknown), or ones near p.
func smallPoints() []Pt {
	var out []Pt
	both := func(x *big.Int) {
		for odd := uint(0); odd < 2; odd++ {
			if y, ok := liftX(x, odd); ok {
				out = append(out, Pt{x, y})
			}
		}
	}
	for i := int64(1); i < 60; i++ {
		both(big.NewInt(i))
		both(new(big.Int).Sub(fp, big.NewInt(i)))
	}
	for b := uint(8); b < 256; b++ {
		p := new(big.Int).Lsh(one, b)
		for i := int64(0); i < 8; i++ {
			x := new(big.Int).Add(p, big.NewInt(i))
			if _, ok := liftX(x, 0); ok {
				both(x)
				break
			}
		}
		for i := int64(1); i < 8; i++ {
			x := new(big.Int).Sub(p, big.NewInt(i))
			if _, ok := liftX(x, 0); ok {
				both(x)
				break
			}
		}
	}
	// tiny y: x is a cube root of y^2-7
	for i := int64(1); i < 60; i++ {
		for _, x := range cubeRoots(big.NewInt(i)) {
			y := big.NewInt(i)
			out = append(out, Pt{x, y}, Pt{x, new(big.Int).Sub(fp, y)})
		}
	}
	for b := uint(8); b < 256; b += 4 {
		for i := int64(0); i < 12; i++ {
			y := new(big.Int).Lsh(one, b)
			y.Sub(y, big.NewInt(i))
			if rs := cubeRoots(y); len(rs) > 0 {
				out = append(out, Pt{rs[0], y})
				break
			}
		}
	}
	return out
}

// cubeRoots returns the x with x^3 + 7 = y^2. p = 7 mod 9, so c^((p+2)/9) is a
// cube root of a cubic residue c.
func cubeRoots(y *big.Int) []*big.Int {
	c := sub(mul(y, y), seven)
	e := new(big.Int).Add(fp, two)
	e.Div(e, big.NewInt(9))
	x := new(big.Int).Exp(c, e, fp)
	if mul(mul(x, x), x).Cmp(c) != 0 {
		return nil
	}
	x2 := mul(x, beta)
	return []*big.Int{x, x2, mul(x2, beta)}
}

func genPoint(r *rand.Rand) Pt {
	if r.IntN(3) == 0 { // hash to curve: random x
		x := new(big.Int).SetBytes(randBytes(r, 32))
		if r.IntN(3) == 0 {
			x.Rsh(x, uint(r.IntN(120)))
		}
		for {
			if y, ok := liftX(x, uint(r.IntN(2))); ok {
				return Pt{x, y}
			}
			x.Add(x, one)
			if x.Cmp(fp) >= 0 {
				x.SetInt64(1)
			}
		}
	}
	return mulG(genScalar(r))
}

// walk yields n points quickly: successive additions of a random point.
func walk(r *rand.Rand, n int) []Pt {
	out := make([]Pt, 0, n)
	p := mulG(randScalar(r))
	s := mulG(randScalar(r))
	for i := 0; i < n; i++ {
		if r.IntN(2) == 0 {
			out = append(out, p)
		} else {
			out = append(out, p.neg())
		}
		p = addPts(p, s)
	}
	return out
}

// ---- networks ----

func litNet(p, h string) *Net { return &Net{Name: "lit", P: p, H: h} }

func genNet(r *rand.Rand) *Net {
	if len(hints.nets) > 0 && r.IntN(24) == 0 {
		return hints.nets[r.IntN(len(hints.nets))]
	}
	switch r.IntN(6) {
	case 0, 1:
		return main_
	case 2, 3:
		return test_
	case 4:
		return []*Net{litNet("80", "00"), litNet("EF", "6F"), litNet("b0", "30"), litNet("9E", "1E"), litNet("00", "00"), litNet("ff", "ff"), litNet("01", "05"), litNet("80", "05"), litNet("cc", "4C")}[r.IntN(9)]
	}
	f := "%02x"
	if r.IntN(2) == 0 {
		f = "%02X"
	}
	return litNet(fmt.Sprintf(f, r.IntN(256)), fmt.Sprintf(f, r.IntN(256)))
}

// ---- text mutation ----

const b58extra = "0OIl+/ -_\x00\xff\n"

func mutateText(r *rand.Rand, s string, alphabet string) string {
	b := []byte(s)
	n := 1
	if r.IntN(4) == 0 {
		n = 1 + r.IntN(4)
	}
	for ; n > 0; n-- {
		switch r.IntN(10) {
		case 0:
			if len(b) > 0 {
				i := r.IntN(len(b))
				b = append(b[:i:i], b[i+1:]...)
			}
		case 1:
			i := r.IntN(len(b) + 1)
			b = append(b[:i:i], append([]byte{alphabet[r.IntN(len(alphabet))]}, b[i:]...)...)
		case 2:
			if len(b) > 1 {
				i := r.IntN(len(b) - 1)
				b[i], b[i+1] = b[i+1], b[i]
			}
		case 3:
			if len(b) > 0 {
				i := r.IntN(len(b))
				if b[i] >= 'a' && b[i] <= 'z' {
					b[i] -= 32
				} else if b[i] >= 'A' && b[i] <= 'Z' {
					b[i] += 32
				}
			}
		case 4:
			if len(b) > 0 {
				b = b[:r.IntN(len(b))]
			}
		case 5:
			if len(b) > 0 {
				b[r.IntN(len(b))] = b58extra[r.IntN(len(b58extra))]
			}
		case 6:
			if len(b) > 2 {
				i, j := r.IntN(len(b)), r.IntN(len(b))
				b[i], b[j] = b[j], b[i]
			}
		case 7:
			b = append(b, b[:r.IntN(len(b)+1)]...)
		default:
			if len(b) > 0 {
				b[r.IntN(len(b))] = alphabet[r.IntN(len(alphabet))]
			}
		}
	}
	return string(b)
}

func mixCase(r *rand.Rand, s string) string {
	switch r.IntN(3) {
	case 0:
		return strings.ToUpper(s)
	case 1:
		return s
	}
	b := []byte(s)
	for i := range b {
		if r.IntN(2) == 0 {
			b[i] = strings.ToUpper(string(b[i]))[0]
		}
	}
	return string(b)
}

var hostile = []string{"", " ", "0", "1", "11", "111", "1111", "11111", "a", "0x", "0x01", "zz", "\x00", "\xff\xfe", "-1", "+1", "--", "é", "０１２３", "null", "nil", "%s%n%d",
	"04", "02", "03", "0", "2", "00", "05", "06", "07", "80", "EF", "\n", "\t", "l", "I", "O", "zzzzz", "1 1", "ÿ", "🔑", "\u0000", "abandon", "02 ", " 02"}

// ---- mnemonics ----

func specialEntropies(words int) [][]byte {
	n := entBytes(words)
	var out [][]byte
	add := func(f func(i int) byte) {
		b := make([]byte, n)
		for i := range b {
			b[i] = f(i)
		}
		out = append(out, b)
	}
	for _, c := range []byte{0, 0xff, 0x80, 0x7f, 0x01, 0xfe, 0x55, 0xaa} {
		add(func(int) byte { return c })
	}
	for z := 1; z < n; z++ { // leading zero bytes, trailing zero bytes
		add(func(i int) byte {
			if i < z {
				return 0
			}
			return byte(7*i + z)
		})
		add(func(i int) byte {
			if i >= n-z {
				return 0
			}
			return byte(11*i + z + 1)
		})
	}
	for b := 0; b < 8*n; b += 5 {
		add(func(i int) byte {
			if i == b/8 {
				return 1 << (b % 8)
			}
			return 0
		})
	}
	for _, k := range sortedKeys(special.Entropies) {
		for _, h := range special.Entropies[k] {
			if b := unhex(h); len(b) == n {
				out = append(out, b)
			}
		}
	}
	return append(out, hints.entropies[words]...)
}

func genEntropy(r *rand.Rand, words int) []byte {
	n := entBytes(words)
	b := randBytes(r, n)
	if r.IntN(6) == 0 {
		return structured(r, n)
	}
	switch r.IntN(8) {
	case 0:
		for i := 0; i < 1+r.IntN(n); i++ {
			b[i] = 0
		}
	case 1:
		i := r.IntN(n)
		for j := i; j < n && j < i+4; j++ {
			b[j] = 0
		}
	case 2:
		b[0] &= byte(0xff) >> r.IntN(8)
	case 3: // hash with leading zero bits
		for i := 0; i < 200; i++ {
			h := sha256.Sum256(b)
			if h[0] < 8 {
				break
			}
			b[n-1-i%4]++
		}
	}
	return b
}

// structured returns random bytes with a regular part.
func structured(r *rand.Rand, n int) []byte {
	b := randBytes(r, n)
	i := r.IntN(n)
	j := i + 1 + r.IntN(n-i)
	switch r.IntN(12) {
	case 0, 1:
		for k := i; k < j; k++ {
			b[k] = 0
		}
	case 2:
		for k := i; k < j; k++ {
			b[k] = 0xff
		}
	case 3:
		for k := i; k < j; k++ {
			b[k] = b[i]
		}
	case 4:
		p := 2 + r.IntN(7)
		for k := i + p; k < j; k++ {
			b[k] = b[k-p]
		}
	case 5:
		for k := i + 1; k < j; k++ {
			b[k] = b[k-1] + 1
		}
	case 6:
		for k := i; k < j; k++ {
			b[k] &= 0x0f
		}
	case 7:
		for k := i; k < j; k++ {
			b[k] = '0' + b[k]%10
		}
	case 8: // zeros at the end
		for k := n - 1 - r.IntN(min(12, n)); k < n; k++ {
			b[k] = 0
		}
	case 9: // halves
		copy(b[n/2:], b[:n/2])
	case 10:
		for k := range b {
			b[k] &= byte(1) << (k % 8)
		}
	}
	return b
}

var passphrases = []string{"", "TREZOR", " ", "a", "correct horse battery staple", "mnemonic", strings.Repeat("x", 64), strings.Repeat("long ", 60),
	"\u30e1\u30fc\u30c8\u30eb\u30ab\u3099\u30cf\u3099\u30a6\u3099\u30a1", "pa\u0308ss", "\x00", "with\nnewline", "0", strings.Repeat("y", 127), strings.Repeat("y", 128), strings.Repeat("y", 129), "a b", "\U0001f511"}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sortStrings(ks)
	return ks
}

func sortStrings(s []string) {
	for i := 1; i < len(s); i++ {
		for j := i; j > 0 && s[j] < s[j-1]; j-- {
			s[j], s[j-1] = s[j-1], s[j]
		}
	}
}

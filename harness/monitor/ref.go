package main

// Reference implementations, written independently of the library under test:
// secp256k1 in Jacobian coordinates, RIPEMD-160, Base58Check, WIF, SEC1, P2PKH,
// BIP-39. Only SHA-2, HMAC and big integers come from the standard library.

import (
	"crypto/hmac"
	"crypto/sha256"
	"crypto/sha512"
	"embed"
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"hash/crc32"
	"math/big"
	"math/bits"
	"strings"
	"sync"

	"aaverif/proto"
)

func bi(s string) *big.Int {
	v, ok := new(big.Int).SetString(s, 16)
	if !ok {
		panic("bad hex " + s)
	}
	return v
}

var (
	one   = big.NewInt(1)
	two   = big.NewInt(2)
	seven = big.NewInt(7)
	// p = 2^256 - 2^32 - 977
	fp = new(big.Int).Sub(new(big.Int).Lsh(one, 256), big.NewInt(1<<32+977))
	// n = 2^256 - 432420386565659656852420866394968145599
	fn = func() *big.Int {
		d, _ := new(big.Int).SetString("432420386565659656852420866394968145599", 10)
		return new(big.Int).Sub(new(big.Int).Lsh(one, 256), d)
	}()
	gx, gy *big.Int
)

func init() {
	gx, _ = new(big.Int).SetString("55066263022277343669578718895168534326250603453777594175500187360389116729240", 10)
	gy, _ = new(big.Int).SetString("32670510020758816978083085130507043184471273380659243275938904335757337482424", 10)
}

func mod(x *big.Int) *big.Int { return x.Mod(x, fp) }

// Pt is an affine point; nil X means infinity.
type Pt struct{ X, Y *big.Int }

func (p Pt) inf() bool { return p.X == nil }

func (p Pt) eq(q Pt) bool {
	if p.inf() || q.inf() {
		return p.inf() == q.inf()
	}
	return p.X.Cmp(q.X) == 0 && p.Y.Cmp(q.Y) == 0
}

func (p Pt) neg() Pt {
	if p.inf() {
		return p
	}
	return Pt{p.X, new(big.Int).Sub(fp, p.Y)}
}

func onCurve(x, y *big.Int) bool {
	if x == nil || y == nil || x.Sign() < 0 || y.Sign() < 0 || x.Cmp(fp) >= 0 || y.Cmp(fp) >= 0 {
		return false
	}
	l := mod(new(big.Int).Mul(y, y))
	r := new(big.Int).Mul(x, x)
	r.Mul(mod(r), x)
	r.Add(r, seven)
	return l.Cmp(mod(r)) == 0
}

// jac is a Jacobian point; Z == 0 means infinity.
type jac struct{ x, y, z *big.Int }

func (p jac) isInf() bool { return p.z.Sign() == 0 }

func jinf() jac { return jac{big.NewInt(1), big.NewInt(1), big.NewInt(0)} }

func mul(a, b *big.Int) *big.Int  { t := new(big.Int).Mul(a, b); return mod(t) }
func sub(a, b *big.Int) *big.Int  { t := new(big.Int).Sub(a, b); return mod(t) }
func add1(a, b *big.Int) *big.Int { t := new(big.Int).Add(a, b); return mod(t) }

func (p jac) dbl() jac {
	if p.isInf() || p.y.Sign() == 0 {
		return jinf()
	}
	a := mul(p.x, p.x)
	b := mul(p.y, p.y)
	c := mul(b, b)
	d := new(big.Int).Add(p.x, b)
	d = mul(d, d)
	d.Sub(d, a).Sub(d, c)
	d.Lsh(d, 1)
	mod(d)
	e := new(big.Int).Mul(a, big.NewInt(3))
	mod(e)
	f := mul(e, e)
	x := sub(f, new(big.Int).Lsh(d, 1))
	y := mul(e, sub(d, x))
	y = sub(y, new(big.Int).Lsh(c, 3))
	z := mul(p.y, p.z)
	z.Lsh(z, 1)
	return jac{x, y, mod(z)}
}

// addAff adds an affine point.
func (p jac) addAff(q Pt) jac {
	if q.inf() {
		return p
	}
	if p.isInf() {
		return jac{q.X, q.Y, big.NewInt(1)}
	}
	zz := mul(p.z, p.z)
	u2 := mul(q.X, zz)
	s2 := mul(q.Y, mul(p.z, zz))
	h := sub(u2, p.x)
	r := sub(s2, p.y)
	if h.Sign() == 0 {
		if r.Sign() == 0 {
			return p.dbl()
		}
		return jinf()
	}
	hh := mul(h, h)
	hhh := mul(h, hh)
	v := mul(p.x, hh)
	x := sub(mul(r, r), hhh)
	x = sub(x, new(big.Int).Lsh(v, 1))
	y := sub(mul(r, sub(v, x)), mul(p.y, hhh))
	return jac{x, y, mul(p.z, h)}
}

func (p jac) affine() Pt {
	if p.isInf() {
		return Pt{}
	}
	zi := new(big.Int).ModInverse(p.z, fp)
	z2 := mul(zi, zi)
	return Pt{mul(p.x, z2), mul(p.y, mul(z2, zi))}
}

func addPts(p, q Pt) Pt {
	if p.inf() {
		return q
	}
	return jac{p.X, p.Y, big.NewInt(1)}.addAff(q).affine()
}

var (
	combOnce sync.Once
	comb     [64][16]Pt // comb[i][d] = d * 16^i * G
)

func initComb() {
	base := Pt{gx, gy}
	for i := range comb {
		acc := Pt{}
		for d := 1; d < 16; d++ {
			acc = addPts(acc, base)
			comb[i][d] = acc
		}
		base = addPts(acc, base)
	}
}

// mulG computes k*G (k reduced modulo n).
func mulG(k *big.Int) Pt {
	combOnce.Do(initComb)
	k = new(big.Int).Mod(k, fn)
	r := jinf()
	for i := 0; i < 64; i++ {
		d := uint(0)
		for b := 0; b < 4; b++ {
			d |= k.Bit(4*i+b) << b
		}
		if d != 0 {
			r = r.addAff(comb[i][d])
		}
	}
	return r.affine()
}

func mulPt(k *big.Int, p Pt) Pt {
	r := jinf()
	for i := k.BitLen() - 1; i >= 0; i-- {
		r = r.dbl()
		if k.Bit(i) == 1 {
			r = r.addAff(p)
		}
	}
	return r.affine()
}

// liftX returns the y of the given parity for x, if any.
func liftX(x *big.Int, odd uint) (*big.Int, bool) {
	if x.Sign() < 0 || x.Cmp(fp) >= 0 {
		return nil, false
	}
	r := mul(mul(x, x), x)
	r.Add(r, seven)
	mod(r)
	y := new(big.Int).ModSqrt(r, fp)
	if y == nil {
		return nil, false
	}
	if y.Bit(0) != odd {
		y.Sub(fp, y)
	}
	return y, true
}

func validScalar(k *big.Int) bool { return k != nil && k.Sign() > 0 && k.Cmp(fn) < 0 }

func hex64(k *big.Int) string { return fmt.Sprintf("%064x", k) }

// ---- RIPEMD-160 (from the published specification) ----

var rmdR = [80]int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15,
	7, 4, 13, 1, 10, 6, 15, 3, 12, 0, 9, 5, 2, 14, 11, 8,
	3, 10, 14, 4, 9, 15, 8, 1, 2, 7, 0, 6, 13, 11, 5, 12,
	1, 9, 11, 10, 0, 8, 12, 4, 13, 3, 7, 15, 14, 5, 6, 2,
	4, 0, 5, 9, 7, 12, 2, 10, 14, 1, 3, 8, 11, 6, 15, 13}
var rmdRp = [80]int{5, 14, 7, 0, 9, 2, 11, 4, 13, 6, 15, 8, 1, 10, 3, 12,
	6, 11, 3, 7, 0, 13, 5, 10, 14, 15, 8, 12, 4, 9, 1, 2,
	15, 5, 1, 3, 7, 14, 6, 9, 11, 8, 12, 2, 10, 0, 4, 13,
	8, 6, 4, 1, 3, 11, 15, 0, 5, 12, 2, 13, 9, 7, 10, 14,
	12, 15, 10, 4, 1, 5, 8, 7, 6, 2, 13, 14, 0, 3, 9, 11}
var rmdS = [80]int{11, 14, 15, 12, 5, 8, 7, 9, 11, 13, 14, 15, 6, 7, 9, 8,
	7, 6, 8, 13, 11, 9, 7, 15, 7, 12, 15, 9, 11, 7, 13, 12,
	11, 13, 6, 7, 14, 9, 13, 15, 14, 8, 13, 6, 5, 12, 7, 5,
	11, 12, 14, 15, 14, 15, 9, 8, 9, 14, 5, 6, 8, 6, 5, 12,
	9, 15, 5, 11, 6, 8, 13, 12, 5, 12, 13, 14, 11, 8, 5, 6}
var rmdSp = [80]int{8, 9, 9, 11, 13, 15, 15, 5, 7, 7, 8, 11, 14, 14, 12, 6,
	9, 13, 15, 7, 12, 8, 9, 11, 7, 7, 12, 7, 6, 15, 13, 11,
	9, 7, 15, 11, 8, 6, 6, 14, 12, 13, 5, 14, 13, 13, 7, 5,
	15, 5, 8, 11, 14, 14, 6, 14, 6, 9, 12, 9, 12, 5, 15, 8,
	8, 5, 12, 9, 12, 5, 14, 6, 8, 13, 6, 5, 15, 13, 11, 11}
var rmdK = [5]uint32{0, 0x5a827999, 0x6ed9eba1, 0x8f1bbcdc, 0xa953fd4e}
var rmdKp = [5]uint32{0x50a28be6, 0x5c4dd124, 0x6d703ef3, 0x7a6d76e9, 0}

func rmdF(j int, x, y, z uint32) uint32 {
	switch j / 16 {
	case 0:
		return x ^ y ^ z
	case 1:
		return x&y | ^x&z
	case 2:
		return (x | ^y) ^ z
	case 3:
		return x&z | y&^z
	}
	return x ^ (y | ^z)
}

func ripemd160(msg []byte) []byte {
	h := [5]uint32{0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476, 0xc3d2e1f0}
	m := append([]byte{}, msg...)
	m = append(m, 0x80)
	for len(m)%64 != 56 {
		m = append(m, 0)
	}
	m = binary.LittleEndian.AppendUint64(m, uint64(len(msg))*8)
	for ; len(m) > 0; m = m[64:] {
		var x [16]uint32
		for i := range x {
			x[i] = binary.LittleEndian.Uint32(m[4*i:])
		}
		a, b, c, d, e := h[0], h[1], h[2], h[3], h[4]
		ap, bp, cp, dp, ep := a, b, c, d, e
		for j := 0; j < 80; j++ {
			t := bits.RotateLeft32(a+rmdF(j, b, c, d)+x[rmdR[j]]+rmdK[j/16], rmdS[j]) + e
			a, e, d, c, b = e, d, bits.RotateLeft32(c, 10), b, t
			t = bits.RotateLeft32(ap+rmdF(79-j, bp, cp, dp)+x[rmdRp[j]]+rmdKp[j/16], rmdSp[j]) + ep
			ap, ep, dp, cp, bp = ep, dp, bits.RotateLeft32(cp, 10), bp, t
		}
		t := h[1] + c + dp
		h[1] = h[2] + d + ep
		h[2] = h[3] + e + ap
		h[3] = h[4] + a + bp
		h[4] = h[0] + b + cp
		h[0] = t
	}
	var out []byte
	for _, v := range h {
		out = binary.LittleEndian.AppendUint32(out, v)
	}
	return out
}

// ---- Base58Check ----

const b58 = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"

func b58enc(b []byte) string {
	var out []byte
	v := new(big.Int).SetBytes(b)
	m := new(big.Int)
	for v.Sign() > 0 {
		v.DivMod(v, big.NewInt(58), m)
		out = append(out, b58[m.Int64()])
	}
	for _, c := range b {
		if c != 0 {
			break
		}
		out = append(out, '1')
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return string(out)
}

func b58dec(s string) ([]byte, bool) {
	if s == "" {
		return nil, false
	}
	v := new(big.Int)
	for i := 0; i < len(s); i++ {
		d := strings.IndexByte(b58, s[i])
		if d < 0 {
			return nil, false
		}
		v.Mul(v, big.NewInt(58))
		v.Add(v, big.NewInt(int64(d)))
	}
	z := 0
	for z < len(s) && s[z] == '1' {
		z++
	}
	return append(make([]byte, z), v.Bytes()...), true
}

func dsha(b []byte) []byte {
	h := sha256.Sum256(b)
	h = sha256.Sum256(h[:])
	return h[:]
}

func b58check(payload []byte) string {
	return b58enc(append(append([]byte{}, payload...), dsha(payload)[:4]...))
}

// b58checkDec returns the payload if the checksum is right.
func b58checkDec(s string) ([]byte, bool) {
	b, ok := b58dec(s)
	if !ok || len(b) < 4 {
		return nil, false
	}
	p := b[:len(b)-4]
	return p, string(dsha(p)[:4]) == string(b[len(b)-4:])
}

func unhex(s string) []byte {
	b, err := hex.DecodeString(s)
	if err != nil {
		panic(err)
	}
	return b
}

func be32(k *big.Int) []byte { return k.FillBytes(make([]byte, 32)) }

func refWIF(k *big.Int, prefix string, compressed bool) string {
	p := append(unhex(prefix), be32(k)...)
	if compressed {
		p = append(p, 1)
	}
	return b58check(p)
}

func refParseWIF(s, prefix string) (*big.Int, bool) {
	p, ok := b58checkDec(s)
	if !ok {
		return nil, false
	}
	pre := unhex(prefix)
	if len(p) < len(pre) || string(p[:len(pre)]) != string(pre) {
		return nil, false
	}
	p = p[len(pre):]
	if len(p) == 33 && p[32] == 1 {
		p = p[:32]
	}
	if len(p) != 32 {
		return nil, false
	}
	k := new(big.Int).SetBytes(p)
	return k, validScalar(k)
}

func isHex(s string) bool {
	for i := 0; i < len(s); i++ {
		c := s[i]
		if !(c >= '0' && c <= '9' || c >= 'a' && c <= 'f' || c >= 'A' && c <= 'F') {
			return false
		}
	}
	return true
}

func refParseHexKey(s string) (*big.Int, bool) {
	if len(s) != 64 || !isHex(s) {
		return nil, false
	}
	k := new(big.Int).SetBytes(unhex(s))
	return k, validScalar(k)
}

func refFormat(p Pt, compressed bool) string {
	if compressed {
		return fmt.Sprintf("%02x%064x", 2+p.Y.Bit(0), p.X)
	}
	return fmt.Sprintf("04%064x%064x", p.X, p.Y)
}

func refParsePub(s string) (Pt, bool) {
	if !isHex(s) || (len(s) != 66 && len(s) != 130) {
		return Pt{}, false
	}
	b := unhex(s)
	switch {
	case b[0] == 4 && len(b) == 65:
		p := Pt{new(big.Int).SetBytes(b[1:33]), new(big.Int).SetBytes(b[33:])}
		return p, onCurve(p.X, p.Y)
	case (b[0] == 2 || b[0] == 3) && len(b) == 33:
		x := new(big.Int).SetBytes(b[1:])
		y, ok := liftX(x, uint(b[0]&1))
		return Pt{x, y}, ok
	}
	return Pt{}, false
}

func hash160(b []byte) []byte {
	h := sha256.Sum256(b)
	return ripemd160(h[:])
}

func refAddress(p Pt, prefix string, compressed bool) string {
	return b58check(append(unhex(prefix), hash160(unhex(refFormat(p, compressed)))...))
}

// ---- BIP-39 ----

//go:embed data/*.txt
var listFS embed.FS

var official = map[string][]string{}
var officialIdx = map[string]map[string]int{}

// CRC-32 of the official files, as published with other BIP-39 implementations.
var officialCRC = map[string]uint32{"English": 0xc1dbd296, "ChineseSimplified": 0xe3721bbf, "ChineseTraditional": 0x3c20b443,
	"French": 0x3e56b216, "Italian": 0x2fc7d07e, "Japanese": 0x0acc1419, "Korean": 0x4ef461eb, "Spanish": 0x266e4f3d, "Czech": 0xd1b5fda0}

func loadLists() error {
	for _, n := range proto.ListNames {
		b, err := listFS.ReadFile("data/" + n + ".txt")
		if err != nil {
			return err
		}
		if crc32.ChecksumIEEE(b) != officialCRC[n] {
			return fmt.Errorf("reference word list %s is corrupt", n)
		}
		regList(n, strings.Split(strings.TrimSuffix(string(b), "\n"), "\n"))
	}
	for _, n := range []int{2048} {
		regList(fmt.Sprintf("custom:%d", n), proto.CustomList(n))
	}
	for _, n := range proto.SwapLists {
		regList(n, proto.Variant(n, official["English"]))
	}
	regList("odd", proto.Variant("odd", official["English"]))
	if len(officialIdx["odd"]) != 2048 {
		return fmt.Errorf("list odd has repeated words")
	}
	return nil
}

func regList(n string, l []string) {
	official[n] = l
	m := map[string]int{}
	for i, w := range l {
		m[w] = i
	}
	officialIdx[n] = m
}

var mnemonicLens = []int{12, 15, 18, 21, 24}

func entBytes(words int) int { return words * 4 / 3 }

// refEncode encodes entropy as a phrase.
func refEncode(ent []byte, list string) string {
	h := sha256.Sum256(ent)
	cs := len(ent) / 4
	v := new(big.Int).SetBytes(ent)
	v.Lsh(v, uint(cs))
	v.Or(v, big.NewInt(int64(h[0]>>(8-cs))))
	n := len(ent) * 3 / 4
	out := make([]string, n)
	m := big.NewInt(2047)
	for i := n - 1; i >= 0; i-- {
		out[i] = official[list][new(big.Int).And(v, m).Int64()]
		v.Rsh(v, 11)
	}
	return strings.Join(out, " ")
}

// refDecode returns the entropy of a valid phrase; reason says why not.
func refDecode(phrase, list string) (ent []byte, reason string) {
	idx, ok := officialIdx[list]
	if !ok {
		return nil, "word list does not have 2048 words"
	}
	words := strings.Split(phrase, " ")
	n := len(words)
	if n != 12 && n != 15 && n != 18 && n != 21 && n != 24 {
		return nil, fmt.Sprintf("%d words", n)
	}
	v := new(big.Int)
	for _, w := range words {
		i, ok := idx[w]
		if !ok {
			return nil, fmt.Sprintf("word %q not in list", w)
		}
		v.Lsh(v, 11)
		v.Or(v, big.NewInt(int64(i)))
	}
	cs := uint(n / 3)
	sum := new(big.Int).And(v, big.NewInt(1<<cs-1)).Uint64()
	v.Rsh(v, cs)
	ent = v.FillBytes(make([]byte, entBytes(n)))
	h := sha256.Sum256(ent)
	if uint64(h[0]>>(8-cs)) != sum {
		return nil, fmt.Sprintf("checksum bits %0*b, should be %0*b", cs, sum, cs, h[0]>>(8-cs))
	}
	return ent, ""
}

func refSeed(phrase, pass string) []byte {
	m := hmac.New(sha512.New, []byte(phrase))
	m.Write([]byte("mnemonic" + pass))
	m.Write([]byte{0, 0, 0, 1})
	u := m.Sum(nil)
	out := append([]byte{}, u...)
	for i := 1; i < 2048; i++ {
		m.Reset()
		m.Write(u)
		u = m.Sum(u[:0])
		for j := range out {
			out[j] ^= u[j]
		}
	}
	return out
}

// selfTest checks the reference against published vectors.
func selfTest() error {
	eq := func(what, got, want string) error {
		if got != want {
			return fmt.Errorf("reference self-test %s: %s != %s", what, got, want)
		}
		return nil
	}
	x2 := mulG(two)
	abandon := strings.Repeat("abandon ", 11) + "about"
	zoo := strings.Repeat("zoo ", 11) + "wrong"
	var errs []error
	errs = append(errs,
		eq("p", fp.Text(16), "fffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2f"),
		eq("n", fn.Text(16), "fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141"),
		eq("gx", gx.Text(16), "79be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798"),
		eq("gy", gy.Text(16), "483ada7726a3c4655da4fbfc0e1108a8fd17b448a68554199c47d08ffb10d4b8"),
		eq("2Gx", x2.X.Text(16), "c6047f9441ed7d6d3045406e95c07cd85c778e4b8cef3ca7abac09b95c709ee5"),
		eq("2Gy", x2.Y.Text(16), "1ae168fea63dc339a3c58419466ceaeef7f632653266d0e1236431a950cfe52a"),
		eq("nG", fmt.Sprint(mulPt(fn, Pt{gx, gy}).inf()), "true"),
		eq("rmd0", hex.EncodeToString(ripemd160(nil)), "9c1185a5c5e9fc54612808977ee8f548b2258d31"),
		eq("rmdabc", hex.EncodeToString(ripemd160([]byte("abc"))), "8eb208f7e05d987a9b044a8e98c6b087f15a0bfc"),
		eq("addr1u", refAddress(mulG(one), "00", false), "1EHNa6Q4Jz2uvNExL497mE43ikXhwF6kZm"),
		eq("addr1c", refAddress(mulG(one), "00", true), "1BgGZ9tcN4rm9KBzDn7KprQz87SZ26SAMH"),
		eq("wif1u", refWIF(one, "80", false), "5HpHagT65TZzG1PH3CSu63k8DbpvD8s5ip4nEB3kEsreAnchuDf"),
		eq("wif1c", refWIF(one, "80", true), "KwDiBf89QgGbjEhKnhXJuH7LrciVrZi3qYjgd9M7rFU73sVHnoWn"),
		eq("bip39", refEncode(make([]byte, 16), "English"), abandon),
		eq("bip39b", refEncode([]byte(strings.Repeat("\xff", 16)), "English"), zoo),
		eq("seed", hex.EncodeToString(refSeed(abandon, "TREZOR")), "c55257c360c07c72029aebc1b53c05ed0362ada38ead3e3e9efa3708e53495531f09a6987599d18264c1e1c92f2cf141630c7a3c4ab7c81b2f001698e7463b04"),
		eq("seedb", hex.EncodeToString(refSeed(zoo, "TREZOR"))[:16], "ac27495480225222"))
	for _, l := range []string{"English", "Japanese"} {
		if e, why := refDecode(refEncode([]byte("0123456789abcdef0123"), l), l); string(e) != "0123456789abcdef0123" {
			errs = append(errs, fmt.Errorf("bip39 round trip: %s", why))
		}
	}
	for _, e := range errs {
		if e != nil {
			return e
		}
	}
	return nil
}

package main

import (
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/big"
	"math/rand/v2"
	"os"
	"sync"
)

func lead0(b []byte) int {
	n := 0
	for _, c := range b {
		if c != 0 {
			break
		}
		n++
	}
	return n
}

func trail0(b []byte) int {
	n := 0
	for i := len(b) - 1; i >= 0 && b[i] == 0; i-- {
		n++
	}
	return n
}

// doMine searches for inputs with rare features (leading or trailing zero bytes
// in coordinates, hashes and checksums). Development only: the result is
// committed as data/special.json.
func doMine() {
	const perFeature = 5
	sp := Special{Scalars: map[string][]string{}, Entropies: map[string][]string{}}
	var mu sync.Mutex
	found := func(m map[string][]string, f, v string) {
		mu.Lock()
		if len(m[f]) < perFeature {
			m[f] = append(m[f], v)
		}
		mu.Unlock()
	}
	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			r := rand.New(rand.NewPCG(uint64(g), 4711))
			k := randScalar(r)
			p := mulG(k)
			gpt := Pt{gx, gy}
			const batch = 512
			for i := 0; i < 5000; i++ { // 8 * 5000 * 512 = 20M points
				// batch inversion: p + j*G by repeated affine addition of table entries
				pts := batchAdd(p, batch)
				for j, q := range pts {
					x, y := be32(q.X), be32(q.Y)
					kk := func() string { return hexs(new(big.Int).Mod(new(big.Int).Add(k, big.NewInt(int64(j))), fn)) }
					feat := func(name string, b []byte, min int) {
						if n := lead0(b); n >= min {
							found(sp.Scalars, fmt.Sprintf("%s:lead%d", name, n), kk())
						}
					}
					feat("x", x, 1)
					feat("y", y, 1)
					if x[0] == 0 && y[0] == 0 {
						found(sp.Scalars, "xy:lead1", kk())
					}
					if n := trail0(x); n >= 2 {
						found(sp.Scalars, fmt.Sprintf("x:trail%d", n), kk())
					}
					if n := trail0(y); n >= 2 {
						found(sp.Scalars, fmt.Sprintf("y:trail%d", n), kk())
					}
					if i%3 != 0 {
						continue
					}
					u := append(append([]byte{4}, x...), y...)
					cc := append([]byte{2 + y[31]&1}, x...)
					for _, e := range []struct {
						n string
						b []byte
					}{{"u", u}, {"c", cc}} {
						s := sha256.Sum256(e.b)
						h := ripemd160(s[:])
						feat("sha"+e.n, s[:], 2)
						feat("hash"+e.n, h, 1)
						for _, pre := range []byte{0, 0x6f} {
							s1 := sha256.Sum256(append([]byte{pre}, h...))
							s2 := sha256.Sum256(s1[:])
							feat(fmt.Sprintf("addrsha%s%02x", e.n, pre), s1[:], 2)
							feat(fmt.Sprintf("addrsum%s%02x", e.n, pre), s2[:], 1)
							if s2[3] == 0 && s2[2] == 0 {
								found(sp.Scalars, fmt.Sprintf("addrsum%s%02x:trail2", e.n, pre), kk())
							}
						}
					}
					kb := be32(new(big.Int).Mod(new(big.Int).Add(k, big.NewInt(int64(j))), fn))
					for _, pre := range []byte{0x80, 0xef} {
						for _, cp := range []bool{false, true} {
							pl := append([]byte{pre}, kb...)
							n := "wif"
							if cp {
								pl = append(pl, 1)
								n = "wifc"
							}
							s1 := sha256.Sum256(pl)
							s2 := sha256.Sum256(s1[:])
							feat(fmt.Sprintf("%ssha%02x", n, pre), s1[:], 2)
							feat(fmt.Sprintf("%ssum%02x", n, pre), s2[:], 1)
							if s2[3] == 0 && s2[2] == 0 {
								found(sp.Scalars, fmt.Sprintf("%ssum%02x:trail2", n, pre), kk())
							}
						}
					}
				}
				k.Add(k, big.NewInt(batch))
				k.Mod(k, fn)
				p = addPts(pts[batch-1], gpt)
			}
			// entropies
			for _, w := range mnemonicLens {
				e := randBytes(r, entBytes(w))
				for i := 0; i < 4000000; i++ {
					for q := 0; q < 4; q++ {
						e[len(e)-1-q]++
						if e[len(e)-1-q] != 0 {
							break
						}
					}
					h := sha256.Sum256(e)
					v := new(big.Int)
					if h[0] == 0 && h[1] < 16 {
						v.SetBytes(h[:])
						found(sp.Entropies, fmt.Sprintf("%d:sha0:%d", w, (256-v.BitLen())/4*4), hex.EncodeToString(e))
					}
					if h[31] == 0 && h[30] == 0 {
						found(sp.Entropies, fmt.Sprintf("%d:shatrail", w), hex.EncodeToString(e))
					}
				}
			}
			for i := 0; i < 1500; i++ {
				w := mnemonicLens[i%5]
				l := []string{"English", "Japanese", "Czech"}[i%3]
				e := randBytes(r, entBytes(w))
				pass := passphrases[i%8]
				s := refSeed(refEncode(e, l), pass)
				if s[0] == 0 || s[63] == 0 {
					mu.Lock()
					if len(sp.Seeds) < 40 || s[1] == 0 || s[62] == 0 {
						sp.Seeds = append(sp.Seeds, fmt.Sprintf("%x|%s|%s", e, pass, l))
					}
					mu.Unlock()
				}
			}
		}(g)
	}
	wg.Wait()
	b, _ := json.MarshalIndent(&sp, "", " ")
	os.Stdout.Write(append(b, '\n'))
}

// batchAdd returns p, p+G, ..., p+(n-1)G with one inversion.
func batchAdd(p Pt, n int) []Pt {
	batchOnce.Do(func() {
		batchTab = make([]Pt, 1024)
		acc := Pt{}
		for i := 1; i < len(batchTab); i++ {
			acc = addPts(acc, Pt{gx, gy})
			batchTab[i] = acc
		}
	})
	d := make([]*big.Int, n)
	pre := make([]*big.Int, n)
	acc := big.NewInt(1)
	for j := 1; j < n; j++ {
		d[j] = sub(batchTab[j].X, p.X)
		pre[j] = acc
		acc = mul(acc, d[j])
	}
	inv := new(big.Int).ModInverse(acc, fp)
	out := make([]Pt, n)
	out[0] = p
	for j := n - 1; j >= 1; j-- {
		i := mul(inv, pre[j])
		inv = mul(inv, d[j])
		l := mul(sub(batchTab[j].Y, p.Y), i)
		x := sub(sub(mul(l, l), p.X), batchTab[j].X)
		out[j] = Pt{x, sub(mul(l, sub(p.X, x)), p.Y)}
	}
	return out
}

var (
	batchOnce sync.Once
	batchTab  []Pt
)

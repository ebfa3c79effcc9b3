package main

import (
	"encoding/base64"
	"fmt"
	"math/big"
	"math/rand/v2"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strings"
	"sync"

	. "aaverif/proto"
)

// ---------- C24: errors reveal no secret ----------

// secret is what must not be readable in an error.
type secret struct {
	text  []string // no six consecutive characters of any of these (any letter case)
	long  []string // no 24 consecutive characters of any of these
	words []string // none of these at all
	lists [][]int  // no four consecutive of these numbers
}

func (s *secret) number(k *big.Int, bytes int) {
	b := k.FillBytes(make([]byte, bytes))
	s.text = append(s.text, fmt.Sprintf("%x", b), base64.StdEncoding.EncodeToString(b), base64.URLEncoding.EncodeToString(b))
	s.long = append(s.long, fmt.Sprintf("%0*b", 8*bytes, k), k.String(), k.Text(8), k.Text(36))
	l := make([]int, bytes)
	for i := range b {
		l[i] = int(b[i])
	}
	s.lists = append(s.lists, l)
}

// found looks for the secret in a text; w is the length of a telling fragment.
func (s *secret) found(t string, w int) string {
	low := strings.ToLower(t)
	for _, x := range s.text {
		x = strings.ToLower(x)
		for i := 0; i+w <= len(x); i++ {
			if strings.Contains(low, x[i:i+w]) {
				return x[i : i+w]
			}
		}
	}
	for _, x := range s.long {
		for i := 0; i+24 <= len(x); i++ {
			if strings.Contains(low, x[i:i+24]) {
				return x[i : i+24]
			}
		}
	}
	for _, x := range s.words {
		if x != "" && strings.Contains(low, strings.ToLower(x)) {
			return x
		}
	}
	nums := numbersIn(t)
	for _, l := range s.lists {
		for i := 0; i+4 <= len(l); i++ {
			for j := 0; j+4 <= len(nums); j++ {
				if l[i] == nums[j] && l[i+1] == nums[j+1] && l[i+2] == nums[j+2] && l[i+3] == nums[j+3] {
					return fmt.Sprint(l[i : i+4])
				}
			}
		}
	}
	return ""
}

var numRE = regexp.MustCompile(`0x[0-9a-fA-F]+|[0-9]+`)

func numbersIn(t string) []int {
	var out []int
	for _, x := range numRE.FindAllString(t, 400) {
		n := 0
		if strings.HasPrefix(x, "0x") {
			fmt.Sscanf(x, "0x%x", &n)
		} else {
			fmt.Sscanf(x, "%d", &n)
		}
		out = append(out, n)
	}
	return out
}

// dense returns a scalar without runs of equal digits.
func dense(r *rand.Rand) *big.Int {
	for {
		k := randScalar(r)
		h := hex64(k)
		ok := true
		for i := 0; i+4 <= len(h); i++ {
			if strings.Count(h[i:i+4], h[i:i+1]) == 4 {
				ok = false
			}
		}
		if ok && k.BitLen() > 250 {
			return k
		}
	}
}

func letters(r *rand.Rand, n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = "bcdfghjklmnpqrstvwxz"[r.IntN(20)]
	}
	return string(b)
}

func c24(c *Ctx) {
	r := c.R
	var scs []Scenario
	var secs []*secret
	add := func(s *secret, ops ...Op) {
		scs = append(scs, Scenario{Tag: fmt.Sprint(len(secs)), Det: true, Ops: ops})
		secs = append(secs, s)
	}
	keySecret := func(k *big.Int, nets ...*Net) *secret {
		s := &secret{}
		s.number(k, 32)
		for _, n := range nets {
			p, _ := netOf(n)
			if len(p) == 2 && !strings.ContainsAny(p, "gz") {
				s.text = append(s.text, refWIF(k, p, true)[2:], refWIF(k, p, false)[2:])
			}
		}
		return s
	}
	rounds := 900 * c.Mult
	for i := 0; i < rounds; i++ {
		k := dense(r)
		h := hex64(k)
		nt := genNet(r)
		p, _ := netOf(nt)
		// texts that are almost the key
		pos := r.IntN(64)
		for _, t := range []string{h[:63], h[1:], h + "0", "0" + h, "0x" + h, "0x" + h[2:], " " + h, h + "\n", " " + h[1:], h[:63] + " ", "+" + h[1:], "-" + h[1:],
			h[:pos] + "g" + h[pos+1:], h[:pos] + "_" + h[pos+1:], h[:pos] + "\xff" + h[pos+1:], h + h, h[:32], strings.ToUpper(h) + "Z", mutateText(r, h, "0123456789abcdefgz+- ")} {
			s := keySecret(k)
			s.text = append(s.text, t)
			add(s, Op{K: "privFromHex", S: []byte(t), Net: nt, Out: 1})
		}
		big1 := new(big.Int).Add(new(big.Int).Sub(new(big.Int).Lsh(one, 256), one), new(big.Int).Neg(new(big.Int).Rsh(k, 132)))
		s := &secret{text: []string{hex64(big1)[32:]}}
		add(s, Op{K: "privFromHex", S: []byte(hex64(big1)), Net: nt}, Op{K: "privFromWIF", S: []byte(b58check(append(unhex(p), be32(big1)...))), Net: nt})
		// a network value that cannot be encoded
		for _, bp := range []string{"zz", "8", "8g0", "0x80"} {
			add(keySecret(k), Op{K: "privFromHex", S: []byte(h), Net: litNet(bp, "00")})
		}
		// WIFs that are almost right
		for _, cp := range []bool{true, false} {
			w := refWIF(k, p, cp)
			other := "80"
			if strings.EqualFold(p, "80") {
				other = "ef"
			}
			pl := append(unhex(p), be32(k)...)
			for _, t := range []string{w[:len(w)-1], w + "1", " " + w, w + " ", w + "\n", w[1:], mutateText(r, w, b58), mutateText(r, w, b58), mutateText(r, w, b58+"0OIl "),
				refWIF(k, other, cp), b58check(append(pl, 2)), b58check(append(pl, 1, 1)), b58check(pl[:32]), b58check(append([]byte{pl[0], 0}, pl[1:]...)), b58enc(pl), h} {
				s := keySecret(k, nt)
				if len(t) > 2 {
					s.text = append(s.text, t[2:])
				}
				add(s, Op{K: "privFromWIF", S: []byte(t), Net: nt, Out: 1})
			}
		}
		// the key in other forms
		if i%4 == 0 {
			f := foreignKeys(r, k, p)
			for j := 0; j < 40; j++ {
				t := f[r.IntN(len(f))]
				add(keySecret(k, nt), Op{K: "privFromHex", S: []byte(t), Net: nt, Out: 1}, Op{K: "privFromWIF", S: []byte(t), Net: nt, Out: 1}, Op{K: "pubFromHex", S: []byte(t), Net: nt, Out: 1})
			}
		}
		// refused combinations
		k2 := dense(r)
		s = keySecret(k, main_, test_)
		s2 := keySecret(k2, main_, test_)
		s.text, s.long, s.lists = append(s.text, s2.text...), append(s.long, s2.long...), append(s.lists, s2.lists...)
		for _, f := range []string{"addPriv", "mulPriv"} {
			add(s, mkPriv(k, main_, 1), mkPriv(k2, test_, 2), Op{K: f, A: 1, B: 2})
			add(s, mkPriv(k, main_, 1), mkPriv(k, main_, 2), Op{K: f, A: 1, B: 2}, Op{K: f, A: 1, B: 1})
			add(s, mkPriv(k, main_, 1), mkPriv(new(big.Int).Sub(fn, k), main_, 2), Op{K: f, A: 1, B: 2})
		}
		// phrases: a list of words that occur nowhere else, or natural ones
		n := mnemonicLens[i%5]
		l := []string{"custom:2048", "Japanese", "Korean", "custom:2048", "ChineseSimplified", "English", "custom:2048", "French"}[i%8]
		ent := randBytes(r, entBytes(n))
		ph := refEncode(ent, l)
		pass := letters(r, 14)
		ps := &secret{text: []string{pass}}
		ps.number(new(big.Int).SetBytes(ent), len(ent))
		idx := make([]int, 0, n)
		for _, x := range strings.Split(ph, " ") {
			for q, y := range official[l] {
				if x == y {
					idx = append(idx, q)
				}
			}
		}
		ps.lists = append(ps.lists, idx)
		w := strings.Split(ph, " ")
		natural := l == "English" || l == "French"
		for j := range w {
			if !natural {
				ps.words = append(ps.words, w[j])
			} else if j > 0 {
				ps.words = append(ps.words, w[j-1]+" "+w[j])
			}
		}
		ps.text = append(ps.text, fmt.Sprintf("%x", refSeed(ph, pass)))
		typo := letters(r, 9)
		ps.words = append(ps.words, typo)
		bad := invalidPhrases(r, ph, l, false)
		r.Shuffle(len(bad), func(a, b int) { bad[a], bad[b] = bad[b], bad[a] })
		if len(bad) > 12 {
			bad = bad[:12]
		}
		for j := 0; j < 4; j++ {
			x := append([]string{}, w...)
			x[r.IntN(len(x))] = typo
			bad = append(bad, strings.Join(x, " "))
		}
		bad = append(bad, strings.Join(w[:n-1], " "), ph+" "+typo, ph+"\n", strings.Join(w, "  "), strings.Join(w, ","))
		for _, b := range bad {
			add(ps, Op{K: "newSeed", S: []byte(b), S2: []byte(pass), List: l})
		}
		add(ps, Op{K: "newSeed", S: []byte(ph), S2: []byte(pass), List: []string{"Spanish", "Italian", "Czech"}[i%3]}, Op{K: "newSeed", S: []byte(ph), S2: []byte(pass), List: "custom:2047"}, Op{K: "newSeed", S: []byte(ph), S2: []byte(pass), List: "nil"})
		// a source that fails half-way
		for _, g := range []genKind{genKinds()[i%12], genKinds()[(i+5)%12]} {
			e := randBytes(r, g.need)
			at := 8 + r.IntN(g.need-8)
			s := &secret{}
			for z := at; z > at-3; z-- {
				s.number(new(big.Int).SetBytes(e[:z]), z)
			}
			o := g.op
			o.Ent, o.Seed = e, r.Uint64()|1
			o.Fault = &Fault{FailAt: at, Err: faultErrs[i%len(faultErrs)], Partial: i%2 == 0}
			add(s, o)
		}
	}
	refusals := map[string]int{}
	texts := map[string]int{}
	var mu sync.Mutex
	c.Run(scs, func(sc *Scenario, evs []Ev, d *Death, hist []Scenario) {
		var i int
		fmt.Sscan(sc.Tag, &i)
		if d != nil {
			c.Judged("process ended", fmt.Sprint(sc.Ops[d.I].K), true)
			if x := secs[i].found(d.Stderr, 6); x != "" {
				c.bad(sc, d.I, evs, hist, fmt.Sprintf("the message at the end of the process shows part of the secret (%q): %s", x, clip(d.Stderr, 300)))
			}
			return
		}
		for j := range evs {
			op, ev := &sc.Ops[j], &evs[j]
			if strings.HasPrefix(op.K, "mk") || ev.Skip {
				continue
			}
			msg := ev.Msg + "\n" + strings.SplitN(ev.Panic, "\ngoroutine ", 2)[0]
			failed := ev.Err || ev.Panic != ""
			if !failed {
				continue
			}
			mu.Lock()
			refusals[op.K]++
			texts[op.K+": "+clip(msg, 60)]++
			mu.Unlock()
			c.Judged(op.K+" refused", fmt.Sprintf("%q %q %s %x %v %v", op.S, op.S2, op.List, op.Ent, ev.A, ev.B), true)
			x := secs[i].found(msg, 6)
			if x == "" {
				x = secs[i].found(ev.Det, 12)
			}
			if x != "" {
				c.bad(sc, j, evs, hist, fmt.Sprintf("%s: the error shows part of the secret (%q): %s", op.K, x, clip(msg+" "+ev.Det, 400)))
				return
			}
		}
	})
	c.extra["refusals_inspected"] = refusals
	c.extra["distinct_error_texts"] = len(texts)
}

// ---------- C25: nothing but the result ----------

var (
	callRE  = regexp.MustCompile(`^(\d+)\s+(\w+)\((.*)$`)
	mutFile = map[string]bool{"creat": true, "unlink": true, "unlinkat": true, "rename": true, "renameat": true, "renameat2": true, "mkdir": true, "mkdirat": true,
		"rmdir": true, "link": true, "linkat": true, "symlink": true, "symlinkat": true, "chmod": true, "fchmod": true, "fchmodat": true, "chown": true, "lchown": true,
		"fchown": true, "fchownat": true, "truncate": true, "ftruncate": true, "mknod": true, "mknodat": true, "utime": true, "utimes": true, "utimensat": true, "futimesat": true,
		"setxattr": true, "lsetxattr": true, "removexattr": true, "chdir": true, "fchdir": true, "chroot": true, "mount": true, "umount2": true, "pivot_root": true,
		"fork": true, "vfork": true, "execve": true, "execveat": true, "kill": true, "memfd_create": true}
)

const traced = "trace=%file,%network,fork,vfork,clone,clone3,execve,execveat,kill,fchmod,fchown,ftruncate,fchdir,memfd_create,write,writev,pwrite64"

// outsideEffect judges one line of a system-call trace.
func outsideEffect(line string) (call, bad string) {
	m := callRE.FindStringSubmatch(line)
	if m == nil {
		return "", ""
	}
	call, args := m[2], m[3]
	switch {
	case mutFile[call]:
		return call, line
	case call == "open" || call == "openat" || call == "openat2":
		if strings.Contains(args, "O_WRONLY") || strings.Contains(args, "O_RDWR") || strings.Contains(args, "O_CREAT") || strings.Contains(args, "O_TRUNC") {
			if strings.Contains(args, `"/dev/null"`) || strings.Contains(args, `random"`) {
				return call, ""
			}
			return call, line
		}
	case call == "socket" || call == "socketpair" || call == "connect" || call == "bind" || call == "listen" || call == "sendto" || call == "sendmsg":
		return call, line
	case call == "clone" || call == "clone3":
		if !strings.Contains(args, "CLONE_THREAD") && strings.Contains(args, "flags=") {
			return call, line
		}
	case call == "write" || call == "writev" || call == "pwrite64":
		if strings.HasPrefix(args, "1,") || strings.HasPrefix(args, "2,") {
			return call, line
		}
	}
	return call, ""
}

func c25(c *Ctx) {
	strace, _ := exec.LookPath("strace")
	if strace != "" { // tracing may not be permitted here
		if out, err := exec.Command(strace, "-f", "-qq", "-o", "/dev/null", "-e", traced, "true").CombinedOutput(); err != nil {
			strace = ""
			c.assume = append(c.assume, "system calls could not be traced here ("+clip(string(out), 100)+"): files were watched only in the directories given to the process")
		}
	}
	var mu sync.Mutex
	syscalls := map[string]int{}
	traces := 0
	c.wrap = func(num int, scs []Scenario) (*exec.Cmd, func()) {
		dir := filepath.Join(c.Scratch, fmt.Sprintf("home%d", num))
		for _, d := range []string{"work", "tmp", "home"} {
			os.MkdirAll(filepath.Join(dir, d), 0o755)
		}
		log := filepath.Join(c.Scratch, fmt.Sprintf("trace%d", num))
		cmd := exec.Command(c.Worker)
		if strace != "" {
			cmd = exec.Command(strace, "-f", "-qq", "-e", traced, "-e", "signal=none", "-s", "80", "-o", log, c.Worker)
		}
		cmd.Dir = filepath.Join(dir, "work")
		cmd.Env = []string{"HOME=" + filepath.Join(dir, "home"), "TMPDIR=" + filepath.Join(dir, "tmp"), "PWD=" + cmd.Dir}
		return cmd, func() {
			defer os.RemoveAll(dir)
			defer os.Remove(log)
			var files []string
			filepath.Walk(dir, func(p string, i os.FileInfo, err error) error {
				if err == nil && !i.IsDir() {
					files = append(files, p)
				}
				return nil
			})
			ents, _ := filepath.Glob(dir + "/*/*")
			files = append(files, ents...)
			if len(files) > 0 {
				b, _ := os.ReadFile(files[0])
				c.Violate(Violation{What: fmt.Sprintf("a library call left a file behind: %s: %q", files[0], clip(string(b), 200)), Scenario: &scs[0], Detail: scs[:min(40, len(scs))]})
				return
			}
			if strace == "" {
				return
			}
			b, err := os.ReadFile(log)
			if err != nil {
				return
			}
			seen := map[string]int{}
			marks, bad, cur := 0, "", ""
			for _, line := range strings.Split(string(b), "\n") {
				if i := strings.Index(line, `write(3, "c `); i >= 0 {
					marks++
					cur = line[i+12:]
					continue
				}
				if marks == 0 || strings.Contains(line, `write(3, `) {
					continue
				}
				if strings.Contains(line, `write(2, "fatal error: `) || strings.Contains(line, `write(2, "panic: `) || strings.Contains(line, `write(2, "runtime: `) {
					break // the Go runtime ends the process
				}
				call, x := outsideEffect(line)
				if call != "" {
					seen[call]++
				}
				if x != "" && bad == "" {
					var id, op int
					fmt.Sscanf(cur, "%d %d", &id, &op)
					bad = x
					for k := range scs {
						if scs[k].ID == id && op < len(scs[k].Ops) {
							c.Violate(Violation{What: fmt.Sprintf("%s: the call reached outside the process: %s", scs[k].Ops[op].K, clip(x, 300)), Scenario: &scs[k], History: tail(scs[:k], 50)})
						}
					}
				}
			}
			mu.Lock()
			traces++
			for k, n := range seen {
				syscalls[k] += n
			}
			mu.Unlock()
			c.Judged("trace", fmt.Sprintf("process %d: %d calls of the library", num, marks), marks > 0)
		}
	}
	defer func() { c.wrap = nil }()
	r := c.R
	var scs []Scenario
	put := func(ops ...Op) {
		scs = append(scs, Scenario{Env: true, Ops: append([]Op{mkPriv(randScalar(r), main_, 1)}, ops...)})
	}
	for _, f := range families(r, 5*c.Mult) {
		if len(f.Ops) < 60 {
			f.Env = true
			f.Ops = append([]Op{{K: "nop"}}, f.Ops...)
			scs = append(scs, f)
		}
	}
	for i := 0; i < 60*c.Mult; i++ {
		p, _ := walletProgram(r, 10, false)
		p.Env = true
		p.Ops = append([]Op{{K: "nop"}}, p.Ops...)
		scs = append(scs, p)
	}
	for _, s := range append(append([]string{}, hostile...), strings.Repeat("1", 60), strings.Repeat("f", 64), "04"+strings.Repeat("f", 128)) {
		var ops []Op
		for _, k := range []string{"privFromHex", "privFromWIF", "checkWIF", "pubFromHex", "newSeed"} {
			ops = append(ops, Op{K: k, S: []byte(s), Net: genNet(r), List: "English"})
		}
		put(ops...)
	}
	for i := 0; i < 200*c.Mult; i++ {
		t, n := wifTexts1(r)
		put(Op{K: "privFromWIF", S: []byte(t), Net: n, Out: 2}, Op{K: "privFromHex", S: []byte(mutateText(r, hex64(genScalar(r)), "0123456789abcdef")), Net: n})
	}
	for i, n := range mnemonicLens {
		for j, l := range append(append([]string{}, ListNames...), "custom:2048", "odd") {
			put(Op{K: "newMnemonic", N: n, List: l, Out: 2}, Op{K: "newSeed", SS: 2, S2: []byte(genPass(r)), List: l}, Op{K: "newSeed", SS: 2, List: ListNames[(i+j)%9]},
				Op{K: "newMnemonic", N: n + 1, List: l}, Op{K: "newMnemonic", N: n, List: "custom:9"})
		}
	}
	for _, b := range append(branches(r, 3*c.Mult), failing(r, 40)...) {
		sc := b.scenario()
		sc.Env = true
		sc.Ops = append([]Op{{K: "nop"}}, sc.Ops...)
		scs = append(scs, sc)
	}
	for _, g := range genKinds() {
		for at := 0; at < g.need; at += 5 {
			o := g.op
			o.Ent, o.Seed = plainBlock(r, g.need), 3
			o.Fault = &Fault{FailAt: at, Err: faultErrs[at%len(faultErrs)], Partial: at%2 == 0, Chunk: at % 7}
			put(o, g.op)
		}
	}
	for i, e := range keyEntropies(r) {
		if i%3 == 0 {
			put(Op{K: "genPriv", Net: genNet(r), Ent: e, Seed: 7})
		}
	}
	var slow [][]Scenario
	for _, o := range slowSources(c) {
		p := []Scenario{{Env: true, Ops: []Op{{K: "nop"}, o, {K: o.K, N: o.N, List: o.List, Net: o.Net}}}}
		c.ids(p)
		slow = append(slow, p)
	}
	handler := func(sc *Scenario, evs []Ev, d *Death, hist []Scenario) {
		if d != nil {
			c.Judged("process ended", sc.Ops[d.I].K, false) // C19's business
			return
		}
		for i := 1; i < len(evs); i++ {
			op, ev := &sc.Ops[i], &evs[i]
			if ev.Env == nil || ev.Skip || strings.HasPrefix(op.K, "mk") {
				continue
			}
			res := "result"
			if ev.Err || ev.Panic != "" {
				res = "failure"
			}
			c.Judged(op.K+" "+res, fmt.Sprintf("%q %q %d %s %x %v %v", op.S, op.S2, op.N, op.List, op.Ent, ev.A, ev.B), true)
			for _, k := range sortedKeys(ev.Env) {
				if k != "keys" {
					c.bad(sc, i, evs, hist, fmt.Sprintf("%s changed the process: %s %s", op.K, k, clip(ev.Env[k], 400)))
					return
				}
			}
		}
	}
	for _, p := range longHistories(r, 6000*min(c.Mult, 4), 2000*min(c.Mult, 4)) { // effects that begin only after many calls
		sc := Scenario{Env: true, Sparse: 500, Ops: []Op{{K: "nop"}}}
		for _, s := range p {
			sc.Ops = append(sc.Ops, s.Ops...)
		}
		one := []Scenario{sc}
		c.ids(one)
		slow = append(slow, one)
	}
	c.Run(scs, handler)
	if !c.Stopped() {
		c.RunParts(slow, handler)
	}
	c.extra["process_state_compared"] = []string{"goroutines", "open files", "child processes", "environment", "working directory", "random source", "logger", "GOMAXPROCS", "GC settings", "limits", "umask", "standard files", "time zone"}
	c.extra["traced_processes"] = traces
	fmt.Printf("%d processes traced\n", traces)
	c.extra["system_calls_inspected"] = syscalls
}

func init() {
	reg("C24", c24, "every error and panic text (and the fields of what it wraps) of refused imports, combinations, phrases and failing generations is searched for fragments of the key, phrase, entropy, passphrase or seed involved, in several encodings; non-trivial: each refused call with a distinct input")
	reg("C25", c25, "process-wide state is compared after every call with the state before the first, and the system calls of the worker are traced and judged; non-trivial: each distinct call")
}

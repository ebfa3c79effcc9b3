// worker runs scenarios against the library in /repo and records every call
// and its outcome. It makes no judgement (except equality in "conc" mode).
package main

import (
	"bufio"
	"bytes"
	crand "crypto/rand"
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"hash/fnv"
	"io"
	"log"
	"log/slog"
	"math/big"
	"math/rand/v2"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"aaverif/hook"
	. "aaverif/proto"

	"github.com/aureleoules/btc"
)

func lists() map[string]btc.Wordlist {
	return map[string]btc.Wordlist{
		"English": btc.EnglishWordlist, "French": btc.FrenchWordlist, "Japanese": btc.JapaneseWordlist,
		"Italian": btc.ItalianWordlist, "Spanish": btc.SpanishWordlist, "Korean": btc.KoreanWordlist,
		"Czech": btc.CzechWordlist, "ChineseTraditional": btc.ChineseTraditionalWordlist,
		"ChineseSimplified": btc.ChineseSimplifiedWordlist,
	}
}

func list(name string) btc.Wordlist {
	switch name {
	case "", "nil":
		return nil
	case "empty":
		return btc.Wordlist{}
	}
	if l, ok := lists()[name]; ok {
		return l
	}
	if l, ok := cached[name]; ok {
		return l
	}
	l := build(name)
	cached[name] = l
	return l
}

// custom lists are built once and shared by all calls, as a caller would do
var (
	cached  = map[string]btc.Wordlist{}
	english = append([]string{}, btc.EnglishWordlist...)
)

func build(name string) btc.Wordlist {
	var n int
	if c, _ := fmt.Sscanf(name, "custom:%d", &n); c == 1 {
		return btc.Wordlist(CustomList(n))
	}
	if c, _ := fmt.Sscanf(name, "english:%d", &n); c == 1 {
		l := make(btc.Wordlist, n)
		for i := range l {
			l[i] = english[i%2048]
		}
		return l
	}
	if l := Variant(name, english); l != nil {
		return btc.Wordlist(l)
	}
	panic("harness: unknown list " + name)
}

func network(n *Net, slots []any) *btc.Network {
	if n == nil {
		return btc.MainNetwork
	}
	switch n.Name {
	case "main":
		return btc.MainNetwork
	case "test":
		return btc.TestNetwork
	case "slot":
		return slots[n.Slot].(*btc.Network)
	}
	return &btc.Network{PrivKeyPrefix: n.P, PubKeyHashPrefix: n.H}
}

func num(b *big.Int) string {
	if b == nil {
		return "nil"
	}
	return b.Text(16)
}

func lit(s string) *big.Int {
	if s == "nil" || s == "" {
		return nil
	}
	v, ok := new(big.Int).SetString(s, 16)
	if !ok {
		panic("harness: bad literal " + s)
	}
	return v
}

func setNet(v *Val, n *btc.Network) {
	if n == nil {
		v.NN = true
		return
	}
	v.NP, v.NH = n.PrivKeyPrefix, n.PubKeyHashPrefix
}

func dump(x any) Val {
	switch t := x.(type) {
	case *btc.PrivateKey:
		if t == nil {
			return Val{T: "nil"}
		}
		v := Val{T: "priv", Key: num(t.Key), Hex: t.Hex, WIF: t.WIF}
		setNet(&v, t.Network)
		return v
	case *btc.PublicKey:
		if t == nil {
			return Val{T: "nil"}
		}
		v := Val{T: "pub", X: num(t.X), Y: num(t.Y)}
		setNet(&v, t.Network)
		return v
	case string:
		return Val{T: "str", S: []byte(t)}
	case []byte:
		if t == nil {
			return Val{T: "nil"}
		}
		return Val{T: "bytes", S: append([]byte{}, t...)}
	case bool:
		return Val{T: "bool", B: t}
	case btc.Wordlist:
		h := fnv.New64a()
		for _, w := range t {
			io.WriteString(h, w)
			h.Write([]byte{0})
		}
		return Val{T: "list", Hex: fmt.Sprintf("%d %x", len(t), h.Sum64())}
	}
	return Val{T: "nil"}
}

func globals() string {
	h := fnv.New64a()
	var extra []string
	for n := range cached {
		extra = append(extra, n)
	}
	sort.Strings(extra)
	for _, n := range ListNames {
		l := lists()[n]
		fmt.Fprintf(h, "%s %d ", n, len(l))
		for _, w := range l {
			io.WriteString(h, w)
			h.Write([]byte{0})
		}
	}
	for _, n := range extra { // the callers' own lists
		want := build(n)
		for i, w := range cached[n] {
			if len(want) != len(cached[n]) || want[i] != w {
				return "list " + n + " changed"
			}
		}
	}
	m, t := btc.MainNetwork, btc.TestNetwork
	return fmt.Sprintf("%s/%s %s/%s %x", m.PrivKeyPrefix, m.PubKeyHashPrefix, t.PrivKeyPrefix, t.PubKeyHashPrefix, h.Sum64())
}

func outSize() int {
	n := 0
	for fd := 1; fd <= 2; fd++ {
		var st syscall.Stat_t
		if syscall.Fstat(fd, &st) == nil && st.Mode&syscall.S_IFMT == syscall.S_IFREG {
			n += int(st.Size)
		}
	}
	return n
}

func sameVal(a, b Val) bool {
	return a.T == b.T && a.Key == b.Key && a.Hex == b.Hex && a.WIF == b.WIF && a.X == b.X && a.Y == b.Y &&
		a.NP == b.NP && a.NH == b.NH && a.NN == b.NN && a.B == b.B && string(a.S) == string(b.S)
}

func script(op *Op) *hook.Script {
	if op.Ent == nil && op.Seed == 0 && op.Fault == nil {
		return nil
	}
	s := &hook.Script{Buf: op.Ent, Seed: op.Seed, FailAt: -1}
	if f := op.Fault; f != nil {
		s.FailAt, s.Partial, s.Once, s.Chunk, s.Zero = f.FailAt, f.Partial, f.Once, f.Chunk, f.Zero
		s.Slow, s.SlowAt = time.Duration(f.Slow)*time.Millisecond, f.SlowAt
		switch f.Err {
		case "eof":
			s.Err = io.EOF
		case "ueof":
			s.Err = io.ErrUnexpectedEOF
		case "eintr":
			s.Err = syscall.EINTR
		case "eagain":
			s.Err = &os.PathError{Op: "read", Path: "/dev/urandom", Err: syscall.EAGAIN}
		case "deadline":
			s.Err = os.ErrDeadlineExceeded
		case "closed":
			s.Err = &os.PathError{Op: "read", Path: "/dev/urandom", Err: os.ErrClosed}
		case "noprogress":
			s.Err = io.ErrNoProgress
		case "shortbuf":
			s.Err = io.ErrShortBuffer
		case "emfile":
			s.Err = &os.PathError{Op: "open", Path: "/dev/urandom", Err: syscall.EMFILE}
		case "wrapeof":
			s.Err = fmt.Errorf("entropy pool: %w", io.EOF)
		default:
			s.Err = hook.ErrInjected
		}
	}
	return s
}

// exec runs one operation. seq: scripted randomness, output accounting and
// argument dumps are recorded too.
func exec(op *Op, slots []any, seq bool) (ev Ev) {
	text := string(op.S)
	if op.SS > 0 {
		switch t := slots[op.SS].(type) {
		case *btc.PrivateKey:
			if op.SF == "hex" {
				text = t.Hex
			} else {
				text = t.WIF
			}
		case string:
			text = t
		default:
			ev.Skip = true
			return
		}
		ev.S = []byte(text)
	}
	priv := func(i int) *btc.PrivateKey { p, _ := slots[i].(*btc.PrivateKey); return p }
	pub := func(i int) *btc.PublicKey { p, _ := slots[i].(*btc.PublicKey); return p }

	switch op.K {
	case "getPub":
		ev.Skip = priv(op.A) == nil
	case "addPriv", "mulPriv":
		ev.Skip = priv(op.A) == nil || priv(op.B) == nil
	case "format", "address":
		ev.Skip = pub(op.A) == nil
	case "addPub":
		ev.Skip = pub(op.A) == nil || pub(op.B) == nil
	case "mut":
		ev.Skip = slots[op.A] == nil
	}
	if ev.Skip {
		return
	}

	// Operations that do not call the library.
	switch op.K {
	case "drop": // the caller keeps the numbers and bytes of its values, but not the values
		drop(slots, time.Duration(op.N)*time.Millisecond)
		return
	case "share": // another object with the same numbers
		switch t := slots[op.A].(type) {
		case *btc.PrivateKey:
			c := *t
			slots[op.Out] = &c
		case *btc.PublicKey:
			c := *t
			slots[op.Out] = &c
		}
		return
	case "mkPriv":
		slots[op.Out] = &btc.PrivateKey{Key: lit(op.X), Hex: op.Hex, WIF: op.WIF, Network: network(op.Net, slots)}
		return
	case "mkPub":
		slots[op.Out] = &btc.PublicKey{X: lit(op.X), Y: lit(op.Y), Network: network(op.Net, slots)}
		return
	case "mut":
		mutate(op, slots)
		return
	case "mkNet":
		slots[op.Out] = &btc.Network{PrivKeyPrefix: op.Net.P, PubKeyHashPrefix: op.Net.H}
		return
	case "mutNet": // the caller changes its own network object
		if n, ok := slots[op.A].(*btc.Network); ok {
			n.PrivKeyPrefix, n.PubKeyHashPrefix = op.Net.P, op.Net.H
		}
		return
	case "assign": // the caller gives its own key object another, consistent value
		switch t := slots[op.A].(type) {
		case *btc.PrivateKey:
			if op.Mode == "new" {
				t.Key = new(big.Int)
			}
			t.Key.Set(lit(op.X))
			t.Hex, t.WIF = op.Hex, op.WIF
			if op.Net != nil {
				t.Network = network(op.Net, slots)
			}
		case *btc.PublicKey:
			if op.Mode == "new" {
				t.X, t.Y = new(big.Int), new(big.Int)
			}
			t.X.Set(lit(op.X))
			t.Y.Set(lit(op.Y))
			if op.Net != nil {
				t.Network = network(op.Net, slots)
			}
		}
		return
	case "nop":
		return
	case "heap": // what the process holds on to
		kept = nil
		var m runtime.MemStats
		for i := 0; i < 3; i++ { // finalizers, pools and caches with weak references
			runtime.GC()
			time.Sleep(time.Millisecond)
		}
		runtime.ReadMemStats(&m)
		ev.R = Val{T: "str", S: []byte(fmt.Sprint(m.HeapAlloc, " ", m.HeapObjects, " ", m.StackInuse))}
		return
	case "mkList":
		slots[op.Out] = append(btc.Wordlist{}, list(op.List)...)
		return
	case "mutList":
		if l, ok := slots[op.A].(btc.Wordlist); ok {
			l[op.N], l[op.B] = l[op.B], l[op.N]
		}
		return
	case "lists":
		ev.Lists = map[string][]string{}
		for n, l := range lists() {
			ev.Lists[n] = append([]string{}, l...)
		}
		return
	case "nets":
		ev.R = Val{T: "str", S: []byte(fmt.Sprintf("%s/%s %s/%s", btc.MainNetwork.PrivKeyPrefix, btc.MainNetwork.PubKeyHashPrefix,
			btc.TestNetwork.PrivKeyPrefix, btc.TestNetwork.PubKeyHashPrefix))}
		return
	}

	var a0, b0 Val
	var sc *hook.Script
	var out0 int
	if seq {
		if op.A > 0 {
			a0 = dump(slots[op.A])
			ev.A = &a0
		}
		if op.B > 0 {
			b0 = dump(slots[op.B])
			ev.B = &b0
		}
		sc = script(op)
		if sc != nil {
			hook.Set(sc)
		}
		out0 = outSize()
	}
	net := network(op.Net, slots)
	var wl btc.Wordlist
	if op.K == "newMnemonic" || op.K == "newSeed" {
		var n int
		if c, _ := fmt.Sscanf(op.List, "slot:%d", &n); c == 1 {
			wl, _ = slots[n].(btc.Wordlist)
		} else {
			wl = list(op.List)
		}
	}
	var net0 btc.Network
	if seq && net != nil {
		net0 = *net
	}
	var res any
	func() {
		defer func() {
			if r := recover(); r != nil {
				ev.Panic = fmt.Sprint(r)
				if ev.Panic == "" {
					ev.Panic = "panic"
				}
				if e, ok := r.(runtime.Error); ok {
					_ = e
					ev.Panic += "\n" + string(debug.Stack())
				}
			}
		}()
		var err error
		switch op.K {
		case "privFromHex":
			var p *btc.PrivateKey
			p, err = btc.PrivateFromHex(text, net)
			res = p
		case "privFromWIF":
			var p *btc.PrivateKey
			p, err = btc.PrivateFromWIF(text, net)
			res = p
		case "checkWIF":
			res = btc.CheckWIF(text)
		case "genPriv":
			res = btc.GeneratePrivateKey(net)
		case "addPriv":
			var p *btc.PrivateKey
			p, err = btc.AddPrivateKeys(priv(op.A), priv(op.B))
			res = p
		case "mulPriv":
			var p *btc.PrivateKey
			p, err = btc.MultiplyPrivateKeys(priv(op.A), priv(op.B))
			res = p
		case "getPub":
			p, ok := priv(op.A).GetPublicKey()
			ev.Err = !ok
			res = p
		case "pubFromHex":
			var p *btc.PublicKey
			p, err = btc.PublicFromHex(text, net)
			res = p
		case "format":
			res = pub(op.A).Format(op.F)
		case "address":
			var s string
			s, err = pub(op.A).Address(op.F)
			res = s
		case "addPub":
			var p *btc.PublicKey
			p, err = btc.AddPublicKeys(pub(op.A), pub(op.B), op.F)
			res = p
		case "newMnemonic":
			var s string
			s, err = btc.NewMnemonic(op.N, wl)
			res = s
		case "newSeed":
			var b []byte
			b, err = btc.NewSeedFromMnemonic(text, string(op.S2), wl)
			res = b
		default:
			panic("harness: unknown op " + op.K)
		}
		if err != nil {
			ev.Err = true
			ev.Msg = err.Error()
			if detail {
				for e, n := err, 0; e != nil && n < 20; e, n = errors.Unwrap(e), n+1 {
					ev.Det += fmt.Sprintf("%v\n%+v\n%#v\n%q\n", e, e, e, e)
					if j, err := json.Marshal(e); err == nil {
						ev.Det += string(j) + "\n"
					}
				}
			}
		}
	}()
	ev.R = dump(res)
	if seq {
		if sc != nil {
			hook.Set(nil)
			ev.Read, ev.After, ev.Calls = sc.Read, sc.After, sc.Calls
		}
		ev.Out = outSize() - out0
		keep(res)
		if net != nil && *net != net0 {
			ev.Net = fmt.Sprintf("%v -> %v", net0, *net)
		}
		if op.A > 0 {
			if v := dump(slots[op.A]); !sameVal(v, a0) {
				ev.A2 = &v
			}
		}
		if op.B > 0 {
			if v := dump(slots[op.B]); !sameVal(v, b0) {
				ev.B2 = &v
			}
		}
	}
	if op.Out > 0 {
		slots[op.Out] = nil
		if ev.R.T != "nil" && !ev.Err && ev.Panic == "" {
			slots[op.Out] = res
		}
	}
	return
}

// kept are values the library returned, each with a copy made at once. Nobody
// but the library could change them.
var kept []keptVal

type keptVal struct {
	s, sc string
	n, nc *big.Int
	b, bc []byte
}

func keep(res any) {
	text := func(s string) {
		if s != "" {
			kept = append(kept, keptVal{s: s, sc: strings.Clone(s)})
		}
	}
	switch t := res.(type) {
	case string:
		text(t)
	case *btc.PrivateKey:
		if t != nil {
			text(t.Hex)
			text(t.WIF)
		}
	}
}

// drop forgets the values in the slots except for their numbers.
func drop(slots []any, wait time.Duration) {
	num := func(n *big.Int) {
		if n != nil {
			kept = append(kept, keptVal{n: n, nc: new(big.Int).Set(n)})
		}
	}
	for i := range slots {
		switch t := slots[i].(type) {
		case *btc.PrivateKey:
			num(t.Key)
		case *btc.PublicKey:
			num(t.X)
			num(t.Y)
		case []byte:
			kept = append(kept, keptVal{b: t, bc: append([]byte{}, t...)})
		}
		slots[i] = nil
	}
	for i := 0; i < 3; i++ { // finalizers run on a goroutine of their own
		runtime.GC()
		time.Sleep(time.Millisecond)
	}
	time.Sleep(wait)
}

var turn int

// recheck compares the last n kept values, and some older ones, with their copies.
func recheck(n int) string {
	one := func(k *keptVal) string {
		switch {
		case k.n != nil && k.n.Cmp(k.nc) != 0:
			return fmt.Sprintf("the number %x has become %x", k.nc, k.n)
		case k.b != nil && !bytes.Equal(k.b, k.bc):
			return fmt.Sprintf("the bytes %x have become %x", k.bc, k.b)
		case k.s != k.sc:
			return fmt.Sprintf("the text %q has become %q", k.sc, strings.Clone(k.s))
		}
		return ""
	}
	for i := max(0, len(kept)-n); i < len(kept); i++ {
		if x := one(&kept[i]); x != "" {
			return x
		}
	}
	for i := 0; i < 8 && len(kept) > 0; i++ {
		turn++
		if x := one(&kept[turn%len(kept)]); x != "" {
			return x
		}
	}
	return ""
}

func mutate(op *Op, slots []any) {
	if b, ok := slots[op.A].([]byte); ok {
		for i := range b {
			b[i] ^= 0xff
		}
		return
	}
	var v *big.Int
	switch t := slots[op.A].(type) {
	case *btc.PrivateKey:
		v = t.Key
	case *btc.PublicKey:
		if op.Field == "y" {
			v = t.Y
		} else {
			v = t.X
		}
	}
	if v == nil {
		return
	}
	switch op.Mode {
	case "set":
		v.SetInt64(0x1234567)
	case "add":
		v.Add(v, big.NewInt(1))
	case "lsh":
		v.Lsh(v, 3)
	case "neg":
		v.Neg(v)
	case "bits":
		w := v.Bits()
		for i := range w {
			w[i] ^= 0x5a5a
		}
		v.SetBits(w)
	}
}

var detail bool

// process describes the process-wide state that a library has no business to
// change.
func process() map[string]string {
	m := map[string]string{}
	n := runtime.NumGoroutine()
	for i := 0; i < 200 && n > goroutines; i++ { // those about to end
		time.Sleep(10 * time.Millisecond)
		n = runtime.NumGoroutine()
	}
	if n > goroutines { // do not wait for these again
		m["goroutines"] = fmt.Sprintf("%d more", n-goroutines)
		goroutines = n
	}
	m["working directory"], _ = os.Getwd()
	m["environment"] = strings.Join(os.Environ(), "\n")
	m["arguments"] = strings.Join(os.Args, "\n")
	m["GOMAXPROCS"] = fmt.Sprint(runtime.GOMAXPROCS(0))
	gc := debug.SetGCPercent(100)
	debug.SetGCPercent(gc)
	m["GC percent"] = fmt.Sprint(gc)
	m["memory limit"] = fmt.Sprint(debug.SetMemoryLimit(-1))
	m["logger"] = fmt.Sprintf("%p %d %q %v", log.Default(), log.Flags(), log.Prefix(), log.Writer() == io.Writer(os.Stderr))
	m["random source"] = fmt.Sprint(crand.Reader == io.Reader(hook.P))
	m["standard files"] = fmt.Sprintf("%p %p %p", os.Stdin, os.Stdout, os.Stderr)
	m["time zone"] = time.Local.String()
	m["structured logger"] = fmt.Sprintf("%p", slog.Default())
	stack := debug.SetMaxStack(1 << 30)
	debug.SetMaxStack(stack)
	threads := debug.SetMaxThreads(10000)
	debug.SetMaxThreads(threads)
	fault := debug.SetPanicOnFault(false)
	debug.SetPanicOnFault(fault)
	m["runtime limits"] = fmt.Sprint(stack, threads, fault)
	m["profiling"] = fmt.Sprint(runtime.MemProfileRate, runtime.SetMutexProfileFraction(-1))
	nflags := 0
	flag.VisitAll(func(*flag.Flag) { nflags++ })
	m["command-line flags"] = fmt.Sprint(nflags)
	m["identity"] = fmt.Sprint(os.Getuid(), os.Geteuid(), os.Getgid(), os.Getegid())
	prio, _ := syscall.Getpriority(syscall.PRIO_PROCESS, 0)
	m["priority"] = fmt.Sprint(prio)
	status, _ := os.ReadFile("/proc/self/status")
	for _, l := range strings.Split(string(status), "\n") {
		for _, k := range []string{"Name:", "SigIgn:", "SigCgt:", "VmLck:", "NoNewPrivs:", "Seccomp:", "Groups:"} {
			if strings.HasPrefix(l, k) {
				m["signals, name and locks"] += l + "\n"
			}
		}
	}
	var files []string
	ents, _ := os.ReadDir("/proc/self/fd")
	for _, e := range ents {
		t, err := os.Readlink("/proc/self/fd/" + e.Name())
		if err != nil || strings.HasPrefix(t, "anon_inode") || strings.HasPrefix(t, "/proc/") || strings.HasSuffix(t, "random") {
			continue // the runtime's poller, this directory, the random device
		}
		files = append(files, e.Name()+" "+t)
	}
	sort.Strings(files)
	m["open files"] = strings.Join(files, "\n")
	kids := ""
	tasks, _ := filepath.Glob("/proc/self/task/*/children")
	for _, t := range tasks {
		b, _ := os.ReadFile(t)
		kids += string(b)
	}
	m["child processes"] = kids
	um := syscall.Umask(0)
	syscall.Umask(um)
	m["umask"] = fmt.Sprint(um)
	var rl syscall.Rlimit
	for i := 0; i < 10; i++ {
		if syscall.Getrlimit(i, &rl) == nil {
			m["limits"] += fmt.Sprint(rl)
		}
	}
	return m
}

var (
	goroutines = 1
	base       map[string]string
)

func runSeq() {
	goroutines = runtime.NumGoroutine()
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	ev := os.NewFile(3, "events")
	dec := json.NewDecoder(in)
	for {
		var sc Scenario
		if err := dec.Decode(&sc); err != nil {
			if err == io.EOF {
				return
			}
			fmt.Fprintln(os.Stderr, "harness: bad scenario:", err)
			os.Exit(97)
		}
		max := 0
		for _, o := range sc.Ops {
			if o.Out > max {
				max = o.Out
			}
		}
		slots := make([]any, max+1)
		if len(kept) > 512 {
			kept = append(kept[:0], kept[len(kept)-256:]...)
		}
		first := len(kept)
		for i := range sc.Ops {
			fmt.Fprintf(ev, "c %d %d\n", sc.ID, i)
			detail = sc.Det
			e := exec(&sc.Ops[i], slots, true)
			e.Sc, e.I = sc.ID, i
			if sc.Env && (sc.Sparse == 0 || i%sc.Sparse == 0 || i == len(sc.Ops)-1) {
				now := process()
				if base == nil { // the first operation calls nothing
					base = now
				}
				e.Env = map[string]string{"keys": fmt.Sprint(len(now))}
				for k, v := range now {
					if v != base[k] {
						e.Env[k] = fmt.Sprintf("was %q, is %q", base[k], v)
					}
				}
			}
			if i == len(sc.Ops)-1 || sc.Ops[i].K == "drop" {
				e.Kept = recheck(len(kept) - first)
				if i == len(sc.Ops)-1 {
					first = len(kept)
				}
			}
			if sc.Deep {
				e.Slots = map[int]Val{}
				for k, s := range slots {
					if s != nil {
						e.Slots[k] = dump(s)
					}
				}
				e.Glob = globals()
			}
			b, err := json.Marshal(&e)
			if err != nil {
				fmt.Fprintln(os.Stderr, "harness: marshal:", err)
				os.Exit(97)
			}
			b = append([]byte("r "), b...)
			ev.Write(append(b, '\n'))
		}
		fmt.Fprintf(ev, "d %d\n", sc.ID)
	}
}

type mismatch struct {
	Idx int `json:"idx"`
	Got Ev  `json:"got"`
}

type concOut struct {
	Calls      map[string]int `json:"calls"`
	Mismatches []mismatch     `json:"mismatches"`
	First      []Ev           `json:"first"`  // cold mode: results by (goroutine, op)
	Random     []mismatch     `json:"random"` // results of random generators (sampled)
	Switches   int            `json:"switches"`
	Mutated    []string       `json:"mutated"`
	Overlap    map[string]int `json:"overlap"`
}

var kindNames = []string{"privFromHex", "privFromWIF", "checkWIF", "genPriv", "addPriv", "mulPriv", "getPub", "pubFromHex", "format", "address", "addPub", "newMnemonic", "newSeed"}

var inflight [16]atomic.Int32

func runConc() {
	var job ConcJob
	if err := json.NewDecoder(os.Stdin).Decode(&job); err != nil {
		fmt.Fprintln(os.Stderr, "harness:", err)
		os.Exit(97)
	}
	ev := os.NewFile(3, "events")
	if job.Procs > 0 {
		runtime.GOMAXPROCS(job.Procs)
	}
	shared := make([]any, job.Slots+1)
	for i := range job.Table { // read-only from here on
		if o := &job.Table[i]; o.K == "newMnemonic" || o.K == "newSeed" {
			list(o.List)
		}
	}
	for i := range job.Prelude {
		exec(&job.Prelude[i], shared, false)
	}
	before := make([]Val, len(shared))
	for i, s := range shared {
		before[i] = dump(s)
	}
	hook.Concurrent(job.Jitter, job.Record, job.Broken)
	out := concOut{Calls: map[string]int{}, Overlap: map[string]int{}}
	var mu sync.Mutex
	for round := 0; round < job.Rounds; round++ {
		start := make(chan struct{})
		var wg sync.WaitGroup
		for g := 0; g < job.G; g++ {
			wg.Add(1)
			go func(g int) {
				defer wg.Done()
				s := uint64(g)
				if job.Same {
					s = 0
				}
				rng := rand.New(rand.NewPCG(job.Seed, uint64(round)*1000003+s))
				slots := make([]any, len(shared)+1) // arguments shared, results private
				copy(slots, shared)
				calls := map[string]int{}
				var over [16][16]int
				kidx := map[string]int{}
				for i, k := range kindNames {
					kidx[k] = i
				}
				var bad, random []mismatch
				<-start
				for n := 0; n < job.PerG; n++ {
					i := rng.IntN(len(job.Table))
					if job.PerG == len(job.Table) && job.Expect == nil {
						i = n
					}
					op := job.Table[i]
					if op.Out > 0 {
						op.Out = len(slots) - 1
					}
					k := kidx[op.K]
					if job.Overlap {
						for j := range kindNames {
							if inflight[j].Load() > 0 {
								over[k][j]++
							}
						}
						inflight[k].Add(1)
					}
					e := exec(&op, slots, false)
					if job.Overlap {
						inflight[k].Add(-1)
					}
					calls[op.K]++
					if job.Record {
						e.Taken = hook.Taken()
					}
					if job.Broken && (e.Err || e.Panic != "") && (op.K == "genPriv" || op.K == "newMnemonic") {
						calls[op.K+", no secret"]++
					} else if op.K == "genPriv" || op.K == "newMnemonic" && !e.Err {
						if len(random) < 400 {
							random = append(random, mismatch{i, e})
						}
					} else if job.Expect == nil {
						bad = append(bad, mismatch{i, e})
					} else {
						x := &job.Expect[i]
						if e.Err != x.Err || (e.Panic != "") != (x.Panic != "") || !sameVal(e.R, x.R) {
							if len(bad) < 5 {
								bad = append(bad, mismatch{i, e})
							}
						}
					}
					if job.Yield && rng.IntN(4) == 0 {
						runtime.Gosched()
					}
				}
				mu.Lock()
				for k, v := range calls {
					out.Calls[k] += v
				}
				for i, a := range kindNames {
					for j, b := range kindNames {
						if n := over[i][j]; n > 0 {
							if a < b {
								out.Overlap[a+" with "+b] += n
							} else {
								out.Overlap[b+" with "+a] += n
							}
						}
					}
				}
				out.Mismatches = append(out.Mismatches, bad...)
				out.Random = append(out.Random, random...)
				mu.Unlock()
			}(g)
		}
		close(start)
		wg.Wait()
	}
	for i, s := range shared {
		if v := dump(s); !sameVal(v, before[i]) {
			out.Mutated = append(out.Mutated, fmt.Sprintf("slot %d: %+v -> %+v", i, before[i], v))
		}
	}
	json.NewEncoder(ev).Encode(out)
}

func main() {
	if len(os.Args) > 1 && os.Args[1] == "conc" {
		runConc()
		return
	}
	if os.Getenv("VERIF_TEST") != "" { // what a test binary looks like from inside
		flag.Bool("test.v", true, "")
		flag.Bool("test.short", false, "")
		flag.String("test.run", "", "")
		flag.String("test.timeout", "10m0s", "")
	}
	// a call that allocates without end must end this process, not the sandbox
	syscall.Setrlimit(syscall.RLIMIT_AS, &syscall.Rlimit{Cur: 6 << 30, Max: 6 << 30})
	runSeq()
}

package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	. "aaverif/proto"
)

// ---------- C26 ----------

// altBuilds are the other worker binaries check.sh builds for C26.
var altBuilds = []string{"386", "noopt", "purego", "old", "forge"}

// forge writes an overlay for the Go standard library of the worker's build in
// which environment variables that are not set, files that do not exist, the
// date, the host name, the user and the process number are whatever the monitor says.
func forge(goroot, dir string) error {
	repl := map[string]string{}
	patch := func(file string, pairs ...string) error {
		b, err := os.ReadFile(filepath.Join(goroot, "src", file))
		if err != nil {
			return err
		}
		s := string(b)
		for i := 0; i < len(pairs); i += 2 {
			if strings.Count(s, pairs[i]) != 1 {
				return fmt.Errorf("%s: %d places for %q", file, strings.Count(s, pairs[i]), pairs[i])
			}
			s = strings.Replace(s, pairs[i], pairs[i+1], 1)
		}
		out := filepath.Join(dir, strings.ReplaceAll(file, "/", "_"))
		repl[filepath.Join(goroot, "src", file)] = out
		return os.WriteFile(out, []byte(s), 0o644)
	}
	if err := patch("syscall/env_unix.go", `	i, ok := env[key]
	if !ok {
		return "", false
	}
	s := envs[i]
	for i := 0;`, `	i, ok := env[key]
	if !ok {
		switch key {
		case "TZ", "ZONEINFO", "GODEBUG", "GOTRACEBACK", "GORACE", "GOCOVERDIR", "VERIF_FORGE", "VERIF_SHIFT", "VERIF_RATE", "VERIF_TEST", "VERIF_ASKED", "VERIF_HOST", "VERIF_NUMBER", "VERIF_FILE":
			return "", false
		}
		j, ok := env["VERIF_FORGE"]
		if !ok {
			return "", false
		}
		if l, ok := env["VERIF_ASKED"]; ok {
			if fd, err := Open(envs[l][len("VERIF_ASKED="):], O_WRONLY|O_APPEND|O_CREAT|O_CLOEXEC, 0644); err == nil {
				Write(fd, []byte(key+"\n"))
				Close(fd)
			}
		}
		return envs[j][len("VERIF_FORGE="):], true
	}
	s := envs[i]
	for i := 0;`); err != nil {
		return err
	}
	// files that do not exist exist all the same, with one content; the user, the
	// process numbers and the host name are others
	if err := patch("syscall/syscall_linux.go", "	return openat(_AT_FDCWD, path, mode|O_LARGEFILE, perm)\n", `	fd, err = openat(_AT_FDCWD, path, mode|O_LARGEFILE, perm)
	if err == ENOENT && mode&(O_ACCMODE|O_CREAT) == O_RDONLY {
		if f := verifFile(path); f != "" {
			return openat(_AT_FDCWD, f, mode|O_LARGEFILE, perm)
		}
	}
	return
`); err != nil {
		return err
	}
	if err := patch("syscall/syscall_linux_amd64.go", "	return fstatat(_AT_FDCWD, path, stat, 0)\n", `	err = fstatat(_AT_FDCWD, path, stat, 0)
	if err == ENOENT {
		if f := verifFile(path); f != "" {
			return fstatat(_AT_FDCWD, f, stat, 0)
		}
	}
	return
`, "	return fstatat(_AT_FDCWD, path, stat, _AT_SYMLINK_NOFOLLOW)\n", `	err = fstatat(_AT_FDCWD, path, stat, _AT_SYMLINK_NOFOLLOW)
	if err == ENOENT {
		if f := verifFile(path); f != "" {
			return fstatat(_AT_FDCWD, f, stat, _AT_SYMLINK_NOFOLLOW)
		}
	}
	return
`); err != nil {
		return err
	}
	if err := patch("syscall/zsyscall_linux_amd64.go",
		"(SYS_GETUID, 0, 0, 0)\n", "(SYS_GETUID, 0, 0, 0)\n	r0 += uintptr(verifNumber)\n",
		"(SYS_GETEUID, 0, 0, 0)\n", "(SYS_GETEUID, 0, 0, 0)\n	r0 += uintptr(verifNumber)\n",
		"(SYS_GETGID, 0, 0, 0)\n", "(SYS_GETGID, 0, 0, 0)\n	r0 += uintptr(verifNumber)\n",
		"(SYS_GETPID, 0, 0, 0)\n", "(SYS_GETPID, 0, 0, 0)\n	r0 += uintptr(verifNumber)\n",
		"(SYS_GETPPID, 0, 0, 0)\n", "(SYS_GETPPID, 0, 0, 0)\n	r0 += uintptr(verifNumber)\n",
		"(SYS_UNAME, uintptr(unsafe.Pointer(buf)), 0, 0)\n", "(SYS_UNAME, uintptr(unsafe.Pointer(buf)), 0, 0)\n	verifHost(buf)\n"); err != nil {
		return err
	}
	sys := filepath.Join(dir, "syscall_verif.go")
	repl[filepath.Join(goroot, "src/syscall/verif.go")] = sys
	if err := os.WriteFile(sys, []byte(`package syscall

func verifEnv(key string) string {
	for _, s := range runtime_envs() {
		if len(s) > len(key) && s[:len(key)] == key && s[len(key)] == '=' {
			return s[len(key)+1:]
		}
	}
	return ""
}

// verifFile is the file that stands for all those that do not exist
func verifFile(path string) string {
	if len(path) > 5 && path[:5] == "/sys/" || len(path) > 6 && path[:6] == "/proc/" {
		return ""
	}
	f := verifEnv("VERIF_FILE")
	if l := verifEnv("VERIF_ASKED"); f != "" && l != "" {
		if fd, err := openat(_AT_FDCWD, l, O_WRONLY|O_APPEND|O_CREAT|O_CLOEXEC, 0644); err == nil {
			Write(fd, []byte("file:"+path+"\n"))
			Close(fd)
		}
	}
	return f
}

var verifNumber = func() (n int) {
	for _, c := range []byte(verifEnv("VERIF_NUMBER")) {
		n = n*10 + int(c-'0')
	}
	return
}()

func verifHost(u *Utsname) {
	h := verifEnv("VERIF_HOST")
	if h == "" {
		return
	}
	for i := range u.Nodename {
		u.Nodename[i] = 0
		if i < len(h) {
			u.Nodename[i] = int8(h[i])
		}
	}
}
`), 0o644); err != nil {
		return err
	}
	if err := patch("time/time.go", "	sec, nsec, mono := runtimeNow()\n	if mono == 0 {", "	sec, nsec, mono := verifClock(runtimeNow())\n	sec += verifShift\n	if mono == 0 {",
		"subMono(runtimeNano()-startNano, t.ext)", "subMono(verifNano(), t.ext)", "subMono(t.ext, runtimeNano()-startNano)", "subMono(t.ext, verifNano())"); err != nil {
		return err
	}
	if err := patch("time/sleep.go", "	t := runtimeNano() + int64(d)\n", "	if verifRate > 1 {\n		d /= Duration(verifRate)\n	}\n	t := runtimeNano() + int64(d)\n"); err != nil {
		return err
	}
	extra := filepath.Join(dir, "time_verif.go")
	repl[filepath.Join(goroot, "src/time/verif.go")] = extra
	if err := os.WriteFile(extra, []byte(`package time

import "syscall"

// seconds by which the clock is wrong, and how fast it and the timers run
var verifShift, verifRate = verifInt("VERIF_SHIFT", 0), verifInt("VERIF_RATE", 1)

func verifNano() int64 { return (runtimeNano() - startNano) * verifRate }

func verifClock(sec int64, nsec int32, mono int64) (int64, int32, int64) {
	if verifRate != 1 && mono != 0 {
		d := (mono - startNano) * (verifRate - 1)
		mono += d
		t := int64(nsec) + d
		sec += t / 1e9
		if t %= 1e9; t < 0 {
			t += 1e9
			sec--
		}
		nsec = int32(t)
	}
	return sec, nsec, mono
}

func verifInt(name string, def int64) (n int64) {
	s, ok := syscall.Getenv(name)
	if !ok {
		return def
	}
	neg := len(s) > 0 && s[0] == '-'
	for i := 0; i < len(s); i++ {
		if s[i] >= '0' && s[i] <= '9' {
			n = n*10 + int64(s[i]-'0')
		}
	}
	if neg {
		n = -n
	}
	return n
}
`), 0o644); err != nil {
		return err
	}
	b, _ := json.Marshal(map[string]any{"Replace": repl})
	return os.WriteFile(filepath.Join(dir, "overlay.json"), b, 0o644)
}

type platform struct {
	name  string
	bin   string // alternative build, "" for the ordinary one
	env   []string
	args  []string
	argv0 string // what the program is called
	tty   bool   // on a terminal
	bare  bool   // no other environment variables
	where string
}

func platforms(c *Ctx) []platform {
	ps := []platform{
		{name: "32-bit", bin: "386"},
		{name: "32-bit, constant garbage collection", bin: "386", env: []string{"GOGC=1", "GODEBUG=clobberfree=1"}},
		{name: "compiled without optimisation, with pointer checks", bin: "noopt"},
		{name: "compiled without assembly, no processor extensions", bin: "purego", env: []string{"GODEBUG=cpu.all=off"}},
		{name: "Go 1.23", bin: "old"},
		{name: "one processor, no garbage collection", env: []string{"GOMAXPROCS=1", "GOGC=off"}},
		{name: "constant garbage collection, freed memory overwritten", env: []string{"GOGC=1", "GODEBUG=clobberfree=1,cpu.avx2=off,cpu.sha=off"}},
		{name: "many processors", env: []string{"GOMAXPROCS=64"}},
		{name: "FIPS mode", env: []string{"GODEBUG=fips140=on"}},
		{name: "empty environment", bare: true, where: "/"},
		{name: "Turkish, Kiritimati, debug", env: []string{"LANG=tr_TR.UTF-8", "LC_ALL=tr_TR.UTF-8", "LANGUAGE=tr", "TZ=Pacific/Kiritimati", "DEBUG=1", "VERBOSE=1", "TESTNET=1", "NETWORK=testnet", "HOME=/nonexistent"},
			args: []string{"--debug", "-v", "--testnet", "test"}},
		{name: "C locale, Apia", env: []string{"LANG=C", "LC_ALL=POSIX", "TZ=Pacific/Apia", "PATH=", "TMPDIR=/nonexistent"}, args: []string{"-test.v", "-test.run=x"}},
	}
	for i, v := range []string{"/tmp/go-build1/b001/btc.test", "main.test", "btc-debug", "testnet-cli", "", "__debug_bin"} {
		ps = append(ps, platform{name: fmt.Sprintf("a program called %q", v), bin: []string{"forge", ""}[i%2], argv0: v, args: [][]string{{"-test.v=true", "-test.timeout=10m0s", "-test.short"}, nil}[i/2%2], env: []string{"VERIF_TEST=1"}})
	}
	now := time.Now().Unix()
	dates := []int64{0, 1, 951782400, 1230768000, 1709164800, 1<<31 - 1, 1 << 31, 1<<31 + 86400*366, 1<<32 - 1, 1 << 32, 4102444800, 7258118400, 253402300800, -86400}
	for i, v := range []string{"1", "true", "0", "", "testnet", "debug", "/dev/null", "2048", "-1", "en_US.UTF-8", "off", "*", "y", "production"} {
		ps = append(ps, platform{name: fmt.Sprintf("every variable is %q, date %d", v, dates[i%len(dates)]), bin: "forge",
			env: []string{"VERIF_FORGE=" + v, fmt.Sprintf("VERIF_SHIFT=%d", dates[i%len(dates)]-now)}})
	}
	for _, t := range []time.Time{time.Date(2028, 2, 29, 23, 59, 0, 0, time.UTC), time.Date(2025, 12, 31, 23, 59, 58, 0, time.UTC), time.Date(2140, 1, 1, 0, 0, 0, 0, time.UTC), time.Date(2027, 3, 28, 1, 30, 0, 0, time.UTC)} {
		ps = append(ps, platform{name: "date " + t.Format(time.RFC3339), bin: "forge", env: []string{fmt.Sprintf("VERIF_SHIFT=%d", t.Unix()-now), "TZ=Europe/Paris"}})
	}
	for i, v := range []string{"1\n", "testnet=1\ndebug=1\n", "{\"network\":\"testnet\",\"debug\":true}", "", "network: testnet\nstrict: false\n"} {
		f := filepath.Join(c.Scratch, fmt.Sprintf("forged%d", i))
		if os.WriteFile(f, []byte(v), 0o644) == nil {
			ps = append(ps, platform{name: fmt.Sprintf("every file exists and contains %q, other host, user and process", v), bin: "forge",
				env: []string{"VERIF_FILE=" + f, "VERIF_HOST=" + []string{"localhost", "ci-runner-1", "prod", "x", "DESKTOP-1"}[i], fmt.Sprintf("VERIF_NUMBER=%d", []int{1, 1000, 65534, 33, 0}[i])}})
		}
	}
	for _, x := range []int{0, -1, -100000, 50, 3000, 100000, 10000000} { // a call takes no time, or ages
		ps = append(ps, platform{name: fmt.Sprintf("clock and timers %d times as fast", x), bin: "forge", env: []string{fmt.Sprintf("VERIF_RATE=%d", x)}})
	}
	for m := 1; m <= 24; m++ { // each weekday, hour and month
		t := time.Date(2026, time.Month(m), m, m, 7*m%60, 0, 0, time.UTC)
		ps = append(ps, platform{name: "date " + t.Format(time.RFC3339), bin: "forge", env: []string{fmt.Sprintf("VERIF_SHIFT=%d", t.Unix()-now), "TZ=UTC"}})
	}
	return ps
}

func resultOf(op *Op, ev *Ev) string {
	switch {
	case op.Fault != nil && (ev.Err || ev.Panic != ""):
		return "no secret" // how depends on the version of crypto/rand
	case ev.Skip:
		return "argument missing"
	case ev.Panic != "":
		return "panic"
	}
	b, _ := json.Marshal(ev.R)
	return fmt.Sprintf("error=%v %s", ev.Err, b)
}

// endOf describes a call that ended the process; where random bytes are missing
// this is as good as an error.
func endOf(d *Death) string {
	if d.noRandom() {
		return "no secret"
	}
	return "process ended"
}

func c26(c *Ctx) {
	r := c.R
	var scs []Scenario
	add := func(ops ...Op) { scs = append(scs, Scenario{Ops: ops}) }
	for _, f := range families(r, 4*c.Mult) {
		ok := len(f.Ops) < 60
		for i := range f.Ops {
			if o := &f.Ops[i]; (o.K == "genPriv" || o.K == "newMnemonic") && o.Ent == nil {
				o.Ent, o.Seed = genEntropy(r, 32), r.Uint64()>>1
			}
		}
		if ok {
			scs = append(scs, f)
		}
	}
	for i := 0; i < 40*c.Mult; i++ {
		p, _ := walletProgram(r, 12, false)
		for j := range p.Ops {
			if o := &p.Ops[j]; (o.K == "genPriv" || o.K == "newMnemonic") && o.Ent == nil {
				o.Ent, o.Seed = genEntropy(r, 32), r.Uint64()>>1
			}
		}
		scs = append(scs, p)
	}
	sp := specialScalars()
	for i := 0; i < 60*c.Mult; i++ {
		k := genScalar(r)
		if i%2 == 0 && len(sp) > 0 {
			k = sp[r.IntN(len(sp))]
		}
		add(mkPriv(k, genNet(r), 1), Op{K: "getPub", A: 1, Out: 2}, Op{K: "format", A: 2, F: i%2 == 0}, Op{K: "address", A: 2, F: i%2 == 1})
		add(Op{K: "privFromHex", S: []byte(mutateText(r, hex64(k), "0123456789abcdefG")), Net: genNet(r)})
		t, n := wifTexts1(r)
		add(Op{K: "privFromWIF", S: []byte(t), Net: n}, Op{K: "checkWIF", S: []byte(t)})
		add(Op{K: "pubFromHex", S: []byte(mutateText(r, refFormat(mulG(k), i%2 == 0), "0123456789abcdefG")), Net: genNet(r)})
	}
	for _, s := range append(append([]string{}, hostile...), strings.Repeat("1", 60), strings.Repeat("f", 64), "04"+strings.Repeat("f", 128)) {
		for _, k := range []string{"privFromHex", "privFromWIF", "checkWIF", "pubFromHex", "newSeed"} {
			add(Op{K: k, S: []byte(s), Net: genNet(r), List: "English"})
		}
	}
	for _, n := range mnemonicLens {
		for _, l := range append(append([]string{}, ListNames...), "custom:2048", "odd") {
			for i := 0; i < 1+c.Mult/2; i++ {
				add(Op{K: "newMnemonic", N: n, List: l, Ent: genEntropy(r, entBytes(n)), Seed: 11, Out: 2}, Op{K: "newSeed", SS: 2, S2: []byte(genPass(r)), List: l})
			}
		}
	}
	for _, n := range []int{0, 1, -1, 3, 11, 13, 27, 1 << 20, 1<<31 - 1, -1 << 31} {
		add(Op{K: "newMnemonic", N: n, List: "English", Ent: randBytes(r, 32), Seed: 5})
	}
	scs = append(scs, scripted(r, append(branches(r, 2+c.Mult), failing(r, 40)...))...)
	for i, e := range keyEntropies(r) {
		if i%4 == 0 {
			add(Op{K: "genPriv", Net: genNet(r), Ent: e, Seed: 7, Out: 1}, Op{K: "getPub", A: 1})
		}
	}
	for i := range scs {
		scs[i].Tag = strconv.Itoa(i)
	}

	base := make([][]string, len(scs))
	var mu sync.Mutex
	c.Run(scs, func(sc *Scenario, evs []Ev, d *Death, hist []Scenario) {
		i, _ := strconv.Atoi(sc.Tag)
		var out []string
		for j := range evs {
			out = append(out, resultOf(&sc.Ops[j], &evs[j]))
		}
		if d != nil {
			out = append(out, endOf(d))
		}
		mu.Lock()
		base[i] = out
		mu.Unlock()
	})
	dir := filepath.Dir(c.Worker)
	asked := map[string]int{}
	var ran, notRun []string
	for n, p := range platforms(c) {
		if c.Stopped() {
			break
		}
		bin := c.Worker
		if p.bin != "" {
			bin = filepath.Join(dir, "worker-"+p.bin)
			if _, err := os.Stat(bin); err != nil {
				notRun = append(notRun, p.name+": no such build here")
				continue
			}
		}
		cmd := exec.Command(bin)
		cmd.Env = append(os.Environ(), p.env...)
		if out, err := cmd.CombinedOutput(); err != nil { // no scenarios: ends at once
			notRun = append(notRun, fmt.Sprintf("%s: %v %s", p.name, err, clip(string(out), 200)))
			continue
		}
		log := filepath.Join(c.Scratch, fmt.Sprintf("asked%d", n))
		c.bare = p.bare
		c.wrap = func(num int, _ []Scenario) (*exec.Cmd, func()) {
			cmd := exec.Command(bin, p.args...)
			cmd.Env = append([]string{}, p.env...)
			if p.argv0 != "" {
				cmd.Args[0] = p.argv0
			}
			if p.bin == "forge" {
				cmd.Env = append(cmd.Env, "VERIF_ASKED="+log)
			}
			cmd.Dir = p.where
			return cmd, func() {}
		}
		// Dates and variables are checked on a part of the calls, another one each time
		part := scs
		if p.bin == "forge" {
			part = nil
			for i := range scs {
				if c.Tier == "thorough" || (i/8+n)%4 == 0 {
					part = append(part, scs[i])
				}
			}
		}
		part = append([]Scenario{}, part...)
		c.Run(part, func(sc *Scenario, evs []Ev, d *Death, hist []Scenario) {
			i, _ := strconv.Atoi(sc.Tag)
			want := base[i]
			for j := range sc.Ops {
				got := ""
				if j < len(evs) {
					got = resultOf(&sc.Ops[j], &evs[j])
				} else if d == nil || d.I != j {
					break
				} else {
					got = endOf(d)
				}
				op := &sc.Ops[j]
				if j >= len(want) {
					break
				}
				if !strings.HasPrefix(op.K, "mk") {
					c.Judged(p.name, fmt.Sprintf("%s %q %q %d %s %x %s", op.K, op.S, op.S2, op.N, op.List, op.Ent, want[j]), got != "argument missing")
				}
				if got != want[j] {
					c.Violate(Violation{What: fmt.Sprintf("%s differs on another platform or in another environment (%s): %s, but ordinarily %s", op.K, p.name, clip(got, 400), clip(want[j], 400)),
						Scenario: sc, Events: evs, Detail: map[string]any{"build": p.bin, "environment": p.env, "arguments": p.args}, History: tail(hist, 50)})
					return
				}
			}
		})
		c.wrap, c.bare = nil, false
		b, _ := os.ReadFile(log)
		for _, l := range strings.Fields(string(b)) {
			asked[l]++
		}
		ran = append(ran, p.name)
	}
	c.wrap, c.bare = nil, false
	if _, err := os.Stat(filepath.Join(dir, "no386")); err == nil {
		b, _ := os.ReadFile(filepath.Join(dir, "no386"))
		c.Violate(Violation{What: "the library does not compile for a 32-bit platform: " + clip(string(b), 800)})
	}
	names := []string{}
	for k := range asked {
		names = append(names, k)
	}
	sort.Strings(names)
	c.extra["platforms_run"] = ran
	c.extra["platforms_not_run"] = notRun
	c.extra["environment_variables_and_missing_files_asked_for"] = names
	fmt.Printf("%d platforms and environments, %d not available here; variables and missing files asked for: %v\n", len(ran), len(notRun), names)
}

func init() {
	reg("C26", c26, "the same scripted calls (all functions, valid and invalid, with scripted random bytes) in other builds of the worker and in other environments, compared with the ordinary process; non-trivial: each distinct call per platform")
}

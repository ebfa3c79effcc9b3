package main

import (
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"syscall"
	"time"
	"unsafe"

	. "aaverif/proto"
)

// Some of the calls of a check are made once more in unusual surroundings: in
// workers of the "forge" build, where every unset environment variable has a
// value, every missing file exists, the date is another, or clocks run wrong.
// The oracle is that of the check, so what is wrong only there is reported as
// a violation of the property it breaks.

// withForge are the checks that do so in Run.
var withForge = map[string]bool{"C01": true, "C02": true, "C03": true, "C04": true, "C05": true, "C06": true, "C07": true, "C08": true, "C09": true, "C10": true, "C11": true, "C12": true, "C13": true, "C14": true,
	"C15": true, "C16": true, "C19": true, "C20": true, "C21": true, "C23": true, "C24": true, "C25": true}

// surroundings are the places to be in; places[name] finds them again.
func (c *Ctx) surroundings() []platform {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.places != nil {
		return c.places
	}
	c.places = []platform{}
	if _, err := os.Stat(c.forgeBin()); err != nil {
		return c.places
	}
	put := func(name string, args []string, env ...string) {
		c.places = append(c.places, platform{name: name, bin: "forge", args: args, env: env})
	}
	now := time.Now().Unix()
	dates := []int64{0, 1<<31 + 86400*366, 4102444800, 951782400, 1<<32 + 5}
	for i, v := range []string{"1", "true", "0", "debug", "", "testnet", "/dev/stderr", "all", "-1", "trace,verbose", "yes", "2048"} {
		put(fmt.Sprintf("every variable is %q", v), [][]string{nil, {"--debug", "-v"}, {"-test.v"}}[i%3], "VERIF_FORGE="+v, fmt.Sprintf("VERIF_SHIFT=%d", dates[i%len(dates)]-now))
	}
	for i, v := range []string{"1\n", "debug=1\ntestnet=1\n", "{\"debug\":true,\"network\":\"testnet\"}"} {
		f := filepath.Join(c.Scratch, fmt.Sprintf("missing%d", i))
		if os.WriteFile(f, []byte(v), 0o644) == nil {
			put(fmt.Sprintf("every file exists and contains %q", v), nil, "VERIF_FILE="+f, "VERIF_HOST="+[]string{"localhost", "ci-runner-1", "prod"}[i], fmt.Sprintf("VERIF_NUMBER=%d", []int{1, 1000, 0}[i]))
		}
	}
	put("a test binary", []string{"-test.v=true", "-test.timeout=10m0s"}, "VERIF_TEST=1")
	c.places[len(c.places)-1].argv0 = "/tmp/go-build1/b001/btc.test"
	put("on a terminal", nil, "TERM=xterm-256color")
	c.places[len(c.places)-1].tty = true
	if c.ID != "C25" { // there the worker waits for what the library may have left running
		for _, x := range []int{0, -1000, 3000, 1000000} {
			put(fmt.Sprintf("clock and timers %d times as fast", x), nil, fmt.Sprintf("VERIF_RATE=%d", x))
		}
	}
	return c.places
}

func (c *Ctx) forgeBin() string { return filepath.Join(filepath.Dir(c.Worker), "worker-forge") }

// elsewhere takes samples of the scenarios for each of the surroundings.
func (c *Ctx) elsewhere(scs []Scenario) (parts [][]Scenario) {
	places := c.surroundings()
	n := min(len(scs), max(60, min(1500, len(scs)/100)))
	for _, p := range places {
		var part []Scenario
		for _, i := range c.R.Perm(len(scs))[:n] {
			sc := scs[i]
			if sc.Tag == "independent" && sc.Ops[0].Ent != nil { // the same bytes again
				sc.Tag = ""
			}
			sc.Where = p.name
			part = append(part, sc)
		}
		c.ids(part)
		c.Count("calls_in_unusual_surroundings", n)
		parts = append(parts, part)
	}
	c.extra["unusual_surroundings"] = len(places)
	return parts
}

// place makes the command start the worker where the scenario belongs.
func (c *Ctx) place(name string, cmd *exec.Cmd, copyTo *os.File) (after func()) {
	if name == "" {
		return nil
	}
	for _, p := range c.surroundings() {
		if p.name != name {
			continue
		}
		for i := range cmd.Args {
			if cmd.Args[i] == c.Worker {
				cmd.Args[i] = c.forgeBin()
			}
		}
		if cmd.Path == c.Worker {
			cmd.Path = c.forgeBin()
		}
		cmd.Args = append(cmd.Args, p.args...)
		cmd.Env = append(cmd.Env, p.env...)
		if p.argv0 != "" && len(cmd.Args) == 1+len(p.args) {
			cmd.Args[0] = p.argv0
		}
		if p.tty {
			after = terminal(cmd, copyTo)
		}
	}
	return after
}

// terminal makes a terminal the standard output and error of the command; what
// is written there also goes to the file. The result is to be called when the
// command has ended.
func terminal(cmd *exec.Cmd, copyTo *os.File) func() {
	master, err := os.OpenFile("/dev/ptmx", os.O_RDWR|syscall.O_NOCTTY, 0)
	if err != nil {
		return nil
	}
	var n, unlock uint32
	rc, err := master.SyscallConn()
	ok := err == nil
	if ok {
		rc.Control(func(fd uintptr) {
			_, _, e1 := syscall.Syscall(syscall.SYS_IOCTL, fd, syscall.TIOCSPTLCK, uintptr(unsafe.Pointer(&unlock)))
			_, _, e2 := syscall.Syscall(syscall.SYS_IOCTL, fd, syscall.TIOCGPTN, uintptr(unsafe.Pointer(&n)))
			ok = e1 == 0 && e2 == 0
		})
	}
	if !ok {
		master.Close()
		return nil
	}
	slave, err := os.OpenFile(fmt.Sprintf("/dev/pts/%d", n), os.O_RDWR|syscall.O_NOCTTY, 0)
	if err != nil {
		master.Close()
		return nil
	}
	cmd.Stdout, cmd.Stderr = slave, slave
	done := make(chan struct{})
	go func() {
		io.Copy(copyTo, master) // until nobody has the terminal any more
		close(done)
	}()
	return func() {
		slave.Close()
		select {
		case <-done:
		case <-time.After(5 * time.Second):
		}
		master.Close()
	}
}

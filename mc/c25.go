package main

import (
	"encoding/hex"
	"fmt"
	"io"
	"os"
	"os/exec"
	"os/signal"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
	"unicode/utf8"
	"unsafe"
)

func init() { checks["C25"] = c25 }

// A run on a terminal that outlives it, as a shell provides it. The session leader has to be a
// process of its own: the kernel resets the terminal when the session leader ends.

type ttyRun struct {
	args    []string
	bit     [2]int // termios word (0 input, 1 output, 3 local) and bit changed before the start; word 2: none
	mask    uint32
	tostart string          // typed before the start
	drive   func(t *ttyCtl) // acts while the run lasts
	bin     string
	dial    string
}

type ttyCtl struct {
	m    *os.File
	pid  func() int
	out  func() string
	done chan struct{}
}

func (t *ttyCtl) lflag() (uint32, bool) {
	var x syscall.Termios
	if ioctl(t.m.Fd(), syscall.TCGETS, uintptr(unsafe.Pointer(&x))) != nil {
		return 0, false
	}
	return x.Lflag, true
}

// until waits for a condition on the terminal's local flags or the end of the run.
func (t *ttyCtl) until(f func(l uint32) bool) bool {
	for {
		if l, ok := t.lflag(); ok && f(l) {
			return true
		}
		select {
		case <-t.done:
			return false
		case <-time.After(150 * time.Microsecond):
		}
	}
}

// prompt waits until a password is being read; fallback: the prompt text stands there for two seconds.
func (t *ttyCtl) prompt(quiet bool) bool {
	var shown time.Time
	return t.until(func(l uint32) bool {
		if !quiet && l&syscall.ECHO == 0 {
			return true
		}
		if !strings.Contains(t.out(), "assword") {
			return false
		}
		if shown.IsZero() {
			shown = time.Now()
		}
		d := 2 * time.Second
		if quiet {
			d = 150 * time.Millisecond
		}
		return time.Since(shown) > d
	})
}
func (t *ttyCtl) text(s string) bool {
	return t.until(func(uint32) bool { return strings.Contains(t.out(), s) })
}
func (t *ttyCtl) typ(s string) { t.m.Write([]byte(s)) }

type ttyResult struct {
	Out           string
	Code          int
	Killed        bool
	Timeout       bool
	Before, After string
}

var ttyLine = regexp.MustCompile(`\r?\n?VERIF-TTY code=(-?\d+) killed=(\w+)\r?\n$`)

// ttyHelper is the session leader: starts the application, waits, reports.
func ttyHelper() {
	c := make(chan os.Signal, 16)
	signal.Notify(c, syscall.SIGINT, syscall.SIGQUIT, syscall.SIGTERM, syscall.SIGTSTP, syscall.SIGTTOU, syscall.SIGTTIN)
	cmd := exec.Command(os.Args[2], os.Args[3:]...)
	cmd.Stdin, cmd.Stdout, cmd.Stderr = os.Stdin, os.Stdout, os.Stderr
	if err := cmd.Start(); err != nil {
		fmt.Println(err)
		os.Exit(3)
	}
	pipe := os.NewFile(3, "|3")
	fmt.Fprintf(pipe, "pid %d\n", cmd.Process.Pid)
	cmd.Wait()
	ws := cmd.ProcessState.Sys().(syscall.WaitStatus)
	fmt.Fprintf(pipe, "end %d %v\n", cmd.ProcessState.ExitCode(), ws.Signaled())
	io.Copy(io.Discard, pipe) // until the terminal has been looked at
	os.Exit(0)
}

func (r *Root) Tty(s ttyRun) (res *ttyResult) {
	res = &ttyResult{Code: -1}
	self, err := os.Executable()
	must(err)
	if s.bin == "" {
		s.bin = r.C.App
	}
	if s.dial == "" {
		s.dial = "refuse"
	}
	master, slave, err := openPty()
	must(err)
	defer master.Close()
	ws := [4]uint16{24, 80, 0, 0}
	ioctl(slave.Fd(), syscall.TIOCSWINSZ, uintptr(unsafe.Pointer(&ws)))
	var t syscall.Termios
	must(ioctl(slave.Fd(), syscall.TCGETS, uintptr(unsafe.Pointer(&t))))
	switch s.bit[0] {
	case 0:
		t.Iflag ^= s.mask
	case 1:
		t.Oflag ^= s.mask
	case 3:
		t.Lflag ^= s.mask
	}
	must(ioctl(slave.Fd(), syscall.TCSETS, uintptr(unsafe.Pointer(&t))))
	get := func() string {
		var x syscall.Termios
		must(ioctl(slave.Fd(), syscall.TCGETS, uintptr(unsafe.Pointer(&x))))
		b := unsafe.Slice((*byte)(unsafe.Pointer(&x)), unsafe.Sizeof(x))
		return hex.EncodeToString(b[:16+1+19])
	}
	res.Before = get()
	cmd := exec.Command(self, append([]string{"__tty", s.bin}, s.args...)...)
	cmd.Dir = r.Home()
	cmd.Env = []string{"HOME=" + r.Home(), "TZ=UTC", "TERM=xterm", "PATH=/usr/bin:/bin", "GOMAXPROCS=2", "VERIF_ROOT=" + r.Dir, "VERIF_LOG=" + r.Dir + ".log", "VERIF_EXE=" + r.Exe(), "VERIF_DIAL=" + s.dial}
	lf, err := os.OpenFile(r.Dir+".log", os.O_CREATE|os.O_WRONLY|os.O_TRUNC, 0666)
	must(err)
	lf.Chmod(0666)
	lf.Close()
	cmd.SysProcAttr = &syscall.SysProcAttr{Setsid: true, Setctty: true, Ctty: 0}
	if canSetid() {
		cmd.SysProcAttr.Credential = &syscall.Credential{Uid: runUid, Gid: runUid}
		must(slave.Chown(runUid, runUid))
	}
	cmd.Stdin, cmd.Stdout, cmd.Stderr = slave, slave, slave
	fds, err := syscall.Socketpair(syscall.AF_UNIX, syscall.SOCK_STREAM|syscall.SOCK_CLOEXEC, 0)
	must(err)
	ours, theirs := os.NewFile(uintptr(fds[0]), "|ours"), os.NewFile(uintptr(fds[1]), "|theirs")
	cmd.ExtraFiles = []*os.File{theirs}
	out := &syncBuf{}
	if s.tostart != "" {
		master.Write([]byte(s.tostart))
	}
	must(cmd.Start())
	theirs.Close()
	pid := cmd.Process.Pid
	procMu.Lock()
	procs[pid] = true
	procMu.Unlock()
	copied := make(chan struct{})
	go func() { io.Copy(out, master); close(copied) }()
	done := make(chan struct{})
	var mu sync.Mutex
	child := 0
	ctl := &ttyCtl{m: master, out: out.String, done: done, pid: func() int { mu.Lock(); defer mu.Unlock(); return child }}
	timer := time.AfterFunc(20*time.Second, func() {
		mu.Lock()
		res.Timeout = true
		mu.Unlock()
		syscall.Kill(-pid, syscall.SIGKILL)
		syscall.Kill(pid, syscall.SIGKILL)
	})
	started := make(chan struct{})
	fin := make(chan struct{})
	go func() {
		defer close(fin)
		var buf strings.Builder
		p := make([]byte, 200)
		for {
			n, err := syscall.Read(fds[0], p)
			if err == syscall.EINTR {
				continue
			}
			if n <= 0 || err != nil {
				break
			}
			buf.Write(p[:n])
			if m := regexp.MustCompile(`(?m)^pid (\d+)\n`).FindStringSubmatch(buf.String()); m != nil {
				mu.Lock()
				if child == 0 {
					child, _ = strconv.Atoi(m[1])
					close(started)
				}
				mu.Unlock()
			}
			if m := regexp.MustCompile(`(?m)^end (-?\d+) (\w+)\n`).FindStringSubmatch(buf.String()); m != nil {
				mu.Lock()
				res.Code, _ = strconv.Atoi(m[1])
				res.Killed = m[2] == "true"
				mu.Unlock()
				break
			}
		}
	}()
	if s.drive != nil {
		go func() {
			select {
			case <-started:
				s.drive(ctl)
			case <-done:
			}
		}()
	}
	<-fin
	timer.Stop()
	res.After = get()
	close(done)
	slave.Close()
	ours.Close()
	cmd.Wait()
	procMu.Lock()
	delete(procs, pid)
	procMu.Unlock()
	select {
	case <-copied:
	case <-time.After(2 * time.Second):
	}
	res.Out = out.String()
	return
}

func c25(c *Ctx) {
	c.Level = "exploration"
	c.Rule = "case = one run on a terminal that outlives it, ended in one way; the terminal attributes before and after are compared bit by bit. Enumerated: {list, overview, details} x every attribute the user may have set differently x every way to end the run (right, wrong and empty password, end of input, interrupt key and interrupt or termination signal at the prompt, after a part of the password, while the vault is being opened); the other commands with every answer and interrupt point of the dialogue; the interactive mode with the real terminal library after every key sequence up to a length. Non-trivial: every case"
	c.Assume = []string{"ended by the user or by SIGINT/SIGTERM at a password prompt; SIGKILL, SIGQUIT, stopping the process, and interactive sessions ended by a signal or by a broken vault are outside", "terminal of type xterm, as the terminal library describes it"}
	v := &VVault{Password: "pw", Seed: "c25", Items: []VItem{simpleItem(1, "001", "LoginLive", false, 1), simpleItem(2, "003", "NoteLive", false, 3), simpleItem(3, "001", "LoginTrash", true, 4)}}
	dir := filepath.Join(c.Scratch, "vault")
	v.write(dir)
	slow := &VVault{Password: "pw", Seed: "c25s", Iter: 400000, Items: v.Items}
	slowDir := filepath.Join(c.Scratch, "slow")
	slow.write(slowDir)
	roots := make([]*Root, NCPU)
	for w := range roots {
		roots[w] = c.NewRoot(fmt.Sprintf("r%d", w))
		roots[w].Config(cfgText("", 1, 1, false))
	}
	type ending struct {
		name  string
		code  int // expected: 0, 1 (any failure or signal), -1: any
		drive func(t *ttyCtl)
		slow  bool
	}
	at := func(f func(t *ttyCtl)) func(t *ttyCtl) {
		return func(t *ttyCtl) {
			if t.prompt(false) {
				f(t)
			}
		}
	}
	kill := func(s syscall.Signal) func(t *ttyCtl) { return at(func(t *ttyCtl) { syscall.Kill(t.pid(), s) }) }
	keys := func(s string) func(t *ttyCtl) { return at(func(t *ttyCtl) { t.typ(s) }) }
	ends := []ending{
		{"right password", 0, keys("pw\n"), false},
		{"wrong password", 1, keys("nope\n"), false},
		{"empty password", 1, keys("\n"), false},
		{"password with more behind it", -1, keys("pw\nmore\nlines"), false},
		{"end of input key, then wrong password", 1, keys("\x04nope\n"), false},
		{"part, end of input key, rest", 1, keys("no\x04pe\n"), false},
		{"interrupt key", 1, keys("\x03"), false},
		{"part, then interrupt key", 1, keys("p\x03"), false},
		{"interrupt signal", 1, kill(syscall.SIGINT), false},
		{"termination signal", 1, kill(syscall.SIGTERM), false},
		{"part, then termination signal", 1, at(func(t *ttyCtl) { t.typ("p"); syscall.Kill(t.pid(), syscall.SIGTERM) }), false},
		{"right password, then interrupt while opening", -1, at(func(t *ttyCtl) {
			t.typ("pw\n")
			t.until(func(l uint32) bool { return l&syscall.ECHO != 0 })
			syscall.Kill(t.pid(), syscall.SIGINT)
		}), true},
		{"right password, then termination while opening", -1, at(func(t *ttyCtl) {
			t.typ("pw\n")
			t.until(func(l uint32) bool { return l&syscall.ECHO != 0 })
			syscall.Kill(t.pid(), syscall.SIGTERM)
		}), true},
		{"interrupt key while opening", -1, at(func(t *ttyCtl) {
			t.typ("pw\n")
			t.until(func(l uint32) bool { return l&syscall.ECHO != 0 })
			t.typ("\x03")
		}), true},
	}
	type attr struct {
		name string
		word int
		mask uint32
	}
	const none = 2
	attrs := []attr{{"as usual", none, 0},
		{"ECHOE", 3, syscall.ECHOE}, {"ECHOK", 3, syscall.ECHOK}, {"ECHONL", 3, syscall.ECHONL}, {"ECHOCTL", 3, syscall.ECHOCTL}, {"ECHOKE", 3, syscall.ECHOKE}, {"IEXTEN", 3, syscall.IEXTEN}, {"NOFLSH", 3, syscall.NOFLSH}, {"TOSTOP", 3, syscall.TOSTOP}, {"ISIG", 3, syscall.ISIG}, {"ICANON", 3, syscall.ICANON}, {"ECHO", 3, syscall.ECHO},
		{"ICRNL", 0, syscall.ICRNL}, {"IXON", 0, syscall.IXON}, {"IXOFF", 0, syscall.IXOFF}, {"IXANY", 0, syscall.IXANY}, {"IUTF8", 0, syscall.IUTF8}, {"BRKINT", 0, syscall.BRKINT}, {"IMAXBEL", 0, syscall.IMAXBEL}, {"IGNPAR", 0, syscall.IGNPAR}, {"ISTRIP", 0, syscall.ISTRIP},
		{"OPOST", 1, syscall.OPOST}, {"ONLCR", 1, syscall.ONLCR}, {"OCRNL", 1, syscall.OCRNL}, {"ONLRET", 1, syscall.ONLRET}}
	type job struct {
		name string
		a    attr
		run  ttyRun
		code int
		gui  bool
	}
	var jobs []job
	cmds := [][]string{{"list"}, {"overview", uid(1)}, {"details", uid(1)}, {"details", "-t", uid(3)}, {"list", "-t"}, {"overview", "00"}}
	for _, cmd := range cmds {
		for _, a := range attrs {
			for _, e := range ends {
				if a.word != none && cmd[0] != "list" && len(cmd) > 2 && !c.Thorough {
					continue
				}
				d := dir
				if e.slow {
					d = slowDir
				}
				e := e
				drive := e.drive
				if a.name == "ECHO" { // already off: the prompt cannot be recognised by it
					drive = func(t *ttyCtl) {
						if t.prompt(true) {
							f := *t
							f.done = t.done
							switch e.name {
							case "interrupt signal":
								syscall.Kill(t.pid(), syscall.SIGINT)
							case "termination signal":
								syscall.Kill(t.pid(), syscall.SIGTERM)
							case "right password":
								t.typ("pw\n")
							case "wrong password":
								t.typ("nope\n")
							case "interrupt key":
								t.typ("\x03")
							default:
								t.typ("\n")
							}
						}
					}
					switch e.name {
					case "interrupt signal", "termination signal", "right password", "wrong password", "interrupt key":
					default:
						continue
					}
				}
				jobs = append(jobs, job{e.name, a, ttyRun{args: append(append([]string{}, cmd...), "-v", d), bit: [2]int{a.word, 0}, mask: a.mask, drive: drive}, e.code, false})
			}
		}
	}
	// before the prompt: refused runs
	for _, args := range [][]string{{"list", "-v", "/nonexistent"}, {"list"}, {"details"}, {"list", "--bogus"}, {"bogus"}, {"version"}, {"categories"}, {"help"}, {"-v", "/nonexistent"}, {"list", "-v", dir, "-c", "nonsense"}} {
		code := -1
		drive := at(func(t *ttyCtl) { t.typ("pw\n") })
		for _, a := range attrs[:4] {
			jobs = append(jobs, job{"no prompt", a, ttyRun{args: args, bit: [2]int{a.word, 0}, mask: a.mask, drive: drive}, code, false})
		}
	}
	// the configuration dialogue
	qs := []string{"1. ", "2. ", "3. ", "4. "}
	for n := 0; n <= 4; n++ {
		for _, how := range []string{"\x03", "\x04", "x\x03", "kill"} {
			n, how := n, how
			jobs = append(jobs, job{fmt.Sprintf("dialogue: %d answers, then %q", n, how), attrs[0], ttyRun{args: []string{"configure"}, drive: func(t *ttyCtl) {
				for i := 0; i < n && i < 4; i++ {
					if !t.text(qs[i]) {
						return
					}
					t.typ("\n")
				}
				if n == 4 || !t.text(qs[n]) {
					return
				}
				if how == "kill" {
					syscall.Kill(t.pid(), syscall.SIGINT)
				} else {
					for k := 0; k < 4-n; k++ {
						t.typ(how)
						time.Sleep(20 * time.Millisecond)
					}
				}
			}, bit: [2]int{none, 0}}, -1, false})
		}
	}
	// the interactive mode with the real terminal library
	alpha := []string{"pw\r", "no\r", "\r", "j", "l", "h", "\t", "\x0c", "\x03", "\x1bOB"}
	depth := 4
	if c.Thorough {
		depth = 5
	}
	real := os.Getenv("VERIF_APPREAL")
	var rec func(p string, n int, unl bool)
	nGui := 0
	rec = func(p string, n int, unl bool) {
		p0 := p
		a := attrs[0]
		if nGui%7 == 3 {
			a = attrs[1+nGui/7%8]
		}
		nGui++
		jobs = append(jobs, job{fmt.Sprintf("keys %q", p0), a, ttyRun{bin: real, args: []string{"-v", dir}, bit: [2]int{a.word, 0}, mask: a.mask, drive: func(t *ttyCtl) {
			if t.until(func(l uint32) bool { return l&syscall.ICANON == 0 }) {
				t.typ(p0 + "\x11")
				for k := 0; k < 4; k++ { // again, in case the terminal library missed the signal of arriving input
					select {
					case <-t.done:
						return
					case <-time.After(3 * time.Second):
						t.typ("\x11")
					}
				}
			}
		}}, 0, true})
		if n == 0 {
			return
		}
		for _, k := range alpha {
			if unl && k == "pw\r" {
				continue
			}
			rec(p+k, n-1, unl || k == "pw\r")
		}
	}
	rec("", depth-1, false)
	rec("pw\r", depth, true)
	rec("pw\rl", depth, true)
	rec("pw\rl\t", depth-1, true)
	secrets := []string{"LoginLive", "NoteLive", "LoginTrash", "note 1", "note 2", "note 3", "pw"}
	c.Par(len(jobs), func(w, k int) {
		j := jobs[k]
		c.Eval(1)
		c.Distinct(1)
		r := roots[w].Tty(j.run)
		if r.Timeout {
			// the terminal may be set so that the ending is no ending (no interrupt key, no line end)
			if j.a.word != none && !j.gui {
				return
			}
		}
		desc := obj{"command line": j.run.args, "ended by": j.name, "attribute flipped": j.a.name, "before": r.Before, "after": r.After, "code": r.Code, "killed": r.Killed, "output": r.Out}
		bad := func(key, f string, x ...any) {
			c.Fail(key, desc, "%q ended by %s (terminal: %s): %s", j.run.args, j.name, j.a.name, fmt.Sprintf(f, x...))
		}
		if r.Timeout {
			bad("hang", "does not end")
			return
		}
		if strings.Contains(r.Out, "panic:") || strings.Contains(r.Out, "goroutine ") {
			bad("crash", "crashes")
		}
		if r.Before != r.After {
			bad("attributes", "the terminal is left changed: %s", termDiff(r.Before, r.After))
		}
		if j.code == 0 && (r.Code != 0 || r.Killed) {
			bad("status", "ends with status %d", r.Code)
		}
		if j.code == 1 && r.Code == 0 && !r.Killed {
			bad("status", "ends with status 0")
		}
		if j.code == 1 {
			for _, s := range secrets[:6] {
				if strings.Contains(r.Out, s) {
					bad("shown", "shows %q", s)
				}
			}
		}
		if j.gui {
			in, off := strings.Count(r.Out, "\x1b[?1049h"), strings.Count(r.Out, "\x1b[?1049l")
			if in != 1 || off != 1 {
				bad("screen", "the alternate screen is entered %d and left %d times", in, off)
			} else {
				rest := r.Out[strings.Index(r.Out, "\x1b[?1049l"):] + r.Out[:strings.Index(r.Out, "\x1b[?1049h")]
				for _, s := range secrets {
					if strings.Contains(rest, s) {
						bad("remains", "%q remains on the screen after the end", s)
					}
				}
			}
			if strings.LastIndex(r.Out, "\x1b[?25l") > strings.LastIndex(r.Out, "\x1b[?25h") {
				bad("cursor", "the cursor stays hidden")
			}
			if strings.Contains(r.Out, "\x1b[?1h") && strings.LastIndex(r.Out, "\x1b[?1h") > strings.LastIndex(r.Out, "\x1b[?1l") {
				bad("keypad", "the keypad stays switched")
			}
		}
		if k%400 == 9 {
			desc["output"] = len(r.Out)
			c.Sample(desc)
		}
	})
	c25screens(c, roots, real, dir)
	c.Extra("interactive_sessions", nGui)
	c.Extra("command_runs", len(jobs)-nGui)
}

func termDiff(a, b string) string {
	w := func(s string, i int) uint32 {
		x, _ := hex.DecodeString(s[i*8 : i*8+8])
		return uint32(x[0]) | uint32(x[1])<<8 | uint32(x[2])<<16 | uint32(x[3])<<24
	}
	s := ""
	for i, n := range []string{"input", "output", "control", "local"} {
		if w(a, i) != w(b, i) {
			s += fmt.Sprintf("%s flags %#o become %#o; ", n, w(a, i), w(b, i))
		}
	}
	if a[32:] != b[32:] {
		s += "special characters differ"
	}
	return s
}

// c25screens: how far the virtual terminal of the other checks shows what the real terminal library
// shows. Evidence about the machinery, not a verdict.
func c25screens(c *Ctx, roots []*Root, real, dir string) {
	tok := map[string][]Ev{"pw\r": append(typed("pw"), key(kEnter)), "no\r": append(typed("no"), key(kEnter)), "\r": {key(kEnter)}, "j": typed("j"), "k": typed("k"), "l": typed("l"), "h": typed("h"), "\t": {key(kTab)}, "\x0c": {key(kCtrlL)}}
	moves := []string{"j", "k", "l", "h", "\t", "\x0c", "\r"}
	var seqs [][]string
	for _, pre := range [][]string{{}, {"no\r"}, {"pw\r"}, {"pw\r", "l"}, {"pw\r", "l", "\t"}, {"pw\r", "l", "\t", "\t"}} {
		seqs = append(seqs, pre)
		for _, a := range moves {
			seqs = append(seqs, append(append([]string{}, pre...), a))
			if len(pre) > 1 {
				for _, b := range moves {
					seqs = append(seqs, append(append([]string{}, pre...), a, b))
				}
			}
		}
	}
	c.NewServer("c25")
	drv := make([]*Driver, len(roots))
	for w := range drv {
		drv[w] = c.NewDriver(roots[w], c.App)
	}
	defer func() {
		for _, d := range drv {
			d.Close()
		}
	}()
	var mu sync.Mutex
	same, other := 0, 0
	c.Par(len(seqs), func(w, k int) {
		var st []Step
		keys := ""
		for _, t := range seqs[k] {
			keys += t
			for _, e := range tok[t] {
				st = append(st, one(e))
			}
		}
		fs := drv[w].Run(Sess{Args: []string{"-v", dir}, W: 80, H: 24, Dial: "block", Steps: st, From: len(st)})
		var want []string
		for _, r := range fs[len(fs)-1].Rows {
			want = append(want, strings.ReplaceAll(r, "\t", " ")) // a tab cell is drawn blank
		}
		eq := false
		roots[w].Config(cfgText("", 30, 1, false))
		roots[w].Tty(ttyRun{bin: real, dial: "stall", args: []string{"-v", dir}, bit: [2]int{2, 0}, drive: func(t *ttyCtl) {
			if !t.until(func(l uint32) bool { return l&syscall.ICANON == 0 }) {
				return
			}
			t.typ(keys)
			for end := time.Now().Add(5 * time.Second); time.Now().Before(end) && !eq; time.Sleep(5 * time.Millisecond) {
				got := screenOf(t.out(), 80, 24)
				eq = len(got) == len(want)
				for i := range got {
					eq = eq && strings.TrimRight(got[i], " ") == strings.TrimRight(want[i], " ")
				}
			}
			if !eq && c.verbose {
				fmt.Printf("screens differ after %q "+fs[len(fs)-1].Status+"\n%s\n--\n%s\n", keys, strings.Join(want, "\n"), strings.Join(screenOf(t.out(), 80, 24), "\n"))
			}
			for {
				t.typ("\x11")
				select {
				case <-t.done:
					return
				case <-time.After(time.Second):
				}
			}
		}})
		mu.Lock()
		if eq {
			same++
		} else {
			other++
		}
		mu.Unlock()
	})
	c.Extra("screens_equal_to_virtual_terminal", same)
	c.Extra("screens_different_from_virtual_terminal", other)
}

var escRe = regexp.MustCompile(`^\x1b(\[[0-9;?]*[a-zA-Z]|[()].|[=>78cM])`)

// screenOf interprets what was written to a terminal.
func screenOf(s string, w, h int) []string {
	rows := make([][]rune, h)
	clear := func() {
		for i := range rows {
			rows[i] = []rune(strings.Repeat(" ", w))
		}
	}
	clear()
	x, y := 0, 0
	for s != "" {
		if s[0] == 0x1b {
			m := escRe.FindString(s)
			if m == "" {
				break
			}
			s = s[len(m):]
			var n []int
			for _, t := range regexp.MustCompile(`\d+`).FindAllString(m, -1) {
				v, _ := strconv.Atoi(t)
				n = append(n, v)
			}
			switch m[len(m)-1] {
			case 'H':
				x, y = 0, 0
				if len(n) == 2 {
					y, x = min(n[0]-1, h-1), min(n[1]-1, w)
				}
			case 'J':
				clear()
			case 'C':
				x += n[0]
			}
			continue
		}
		r, k := utf8.DecodeRuneInString(s)
		s = s[k:]
		switch {
		case r == '\r':
			x = 0
		case r == '\n':
			y = min(y+1, h-1)
		case r >= ' ':
			if x < w {
				rows[y][x] = r
			}
			x++
		}
	}
	var out []string
	for _, r := range rows {
		out = append(out, string(r))
	}
	return out
}

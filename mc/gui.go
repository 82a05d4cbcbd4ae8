package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"syscall"
	"time"
)

// Client of the session driver inside the instrumented application.

type Ev struct {
	K uint16 `json:"k,omitempty"`
	C rune   `json:"c,omitempty"`
	M uint8  `json:"m,omitempty"`
	W int    `json:"w,omitempty"`
	H int    `json:"h,omitempty"`
}

type Step struct {
	E []Ev   `json:"e,omitempty"`
	R string `json:"r,omitempty"`
}

type Sess struct {
	Op    string   `json:"op"`
	Args  []string `json:"args,omitempty"`
	Home  string   `json:"home"`
	W     int      `json:"w"`
	H     int      `json:"h"`
	Dial  string   `json:"dial,omitempty"`
	Steps []Step   `json:"steps"`
	From  int      `json:"from"`
	Hash  bool     `json:"hash,omitempty"`
}

type View struct {
	Name           string
	Ox, Oy, Cx, Cy int
}

type Frame struct {
	Status         string
	W, H           int
	Rows, Bg, Fg   []string
	Cx, Cy         int
	Inited, Closed bool
	Hash, Cur      string
	Views          []View
	Out            string
	Dials          int
	Flush          int
	Index          int
}

func (f *Frame) Screen() string { return strings.Join(f.Rows, "\n") }

type Driver struct {
	c      *Ctx
	r      *Root
	bin    string
	cmd    *exec.Cmd
	in     *os.File
	out    *bufio.Reader
	outf   *os.File
	err    *syncBuf
	olderr string
	runs   int
	Log    string // mutation log
	env    []string
}

func (c *Ctx) NewDriver(r *Root, bin string, env ...string) *Driver {
	d := &Driver{c: c, r: r, bin: bin, Log: r.Dir + ".driver.log", env: env}
	d.start()
	return d
}

func (d *Driver) start() {
	r1, w1, err := os.Pipe()
	must(err)
	r2, w2, err := os.Pipe()
	must(err)
	if _, err := os.Stat(d.Log); err != nil {
		must(os.WriteFile(d.Log, nil, 0666))
		os.Chmod(d.Log, 0666)
	}
	cmd := exec.Command(d.bin)
	cmd.Dir = d.r.Home()
	cmd.Env = []string{"HOME=" + d.r.Home(), "TZ=UTC", "TERM=xterm", "PATH=/usr/bin:/bin", "GOMAXPROCS=2", "SSL_CERT_DIR=/nonexistent",
		"SSL_CERT_FILE=" + filepath.Join(d.c.Scratch, "ca.pem"), "VERIF_CERT=" + filepath.Join(d.c.Scratch, "cert.pem"), "VERIF_KEY=" + filepath.Join(d.c.Scratch, "key.pem"),
		"VERIF_ROOT=" + d.r.Dir, "VERIF_LOG=" + d.Log, "VERIF_EXE=" + d.r.Exe(), "VERIF_DRIVER=1", "GORACE=halt_on_error=0 exitcode=0"}
	cmd.Env = append(cmd.Env, d.env...)
	cmd.ExtraFiles = []*os.File{r1, w2}
	cmd.SysProcAttr = &syscall.SysProcAttr{Setsid: true}
	if canSetid() {
		cmd.SysProcAttr.Credential = &syscall.Credential{Uid: runUid, Gid: runUid}
	}
	if d.err != nil {
		d.olderr += tail(d.err.String(), 100000)
	}
	d.err = &syncBuf{}
	cmd.Stderr = d.err
	must(cmd.Start())
	r1.Close()
	w2.Close()
	procMu.Lock()
	procs[cmd.Process.Pid] = true
	procMu.Unlock()
	d.cmd, d.in, d.outf, d.out, d.runs = cmd, w1, r2, bufio.NewReaderSize(r2, 1<<20), 0
}

// Stderr: what the application wrote there in all of its sessions.
func (d *Driver) Stderr() string { return d.olderr + d.err.String() }

func (d *Driver) Close() {
	d.in.Close()
	done := make(chan struct{})
	go func() { d.cmd.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(3 * time.Second):
		d.cmd.Process.Kill()
		<-done
	}
	d.outf.Close()
	procMu.Lock()
	delete(procs, d.cmd.Process.Pid)
	procMu.Unlock()
}

// Run executes a session. If the driver dies or does not answer, the result is one frame with
// the status "dead ..." or "hang".
func (d *Driver) Run(s Sess) []Frame {
	if d.runs > 4000 {
		d.Close()
		d.start()
	}
	d.runs++
	s.Op = "run"
	if s.Home == "" {
		s.Home = d.r.Home()
	}
	if s.Steps == nil {
		s.Steps = []Step{}
	}
	b, err := json.Marshal(s)
	must(err)
	d.outf.SetReadDeadline(time.Now().Add(20 * time.Second))
	d.in.Write(append(b, '\n'))
	line, err := d.out.ReadBytes('\n')
	if err != nil {
		st := "hang"
		if !os.IsTimeout(err) {
			st = "dead"
		}
		d.cmd.Process.Kill()
		d.Close()
		f := Frame{Status: st + ": " + tail(d.err.String(), 30000)}
		d.start()
		return []Frame{f}
	}
	var fs []Frame
	must(json.Unmarshal(line, &fs))
	if len(fs) == 0 {
		panic("driver: no frame")
	}
	return fs
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

// ---------------------------------------------------------------- keys

const (
	kEnter = 0x0d
	kTab   = 0x09
	kCtrlL = 0x0c
	kCtrlQ = 0x11
	kSpace = 0x20
	kBack2 = 0x7f
	kBack  = 0x08
	kUp    = 0xFFFF - 18
	kDown  = 0xFFFF - 19
	kLeft  = 0xFFFF - 20
	kRight = 0xFFFF - 21
	kEsc   = 0x1b
	kIns   = 0xFFFF - 12
	kDel   = 0xFFFF - 13
	kHome  = 0xFFFF - 14
	kEnd   = 0xFFFF - 15
	kPgUp  = 0xFFFF - 16
	kPgDn  = 0xFFFF - 17
	kF1    = 0xFFFF
)

func key(k uint16) Ev { return Ev{K: k} }
func ch(c rune) Ev {
	if c == ' ' {
		return Ev{K: kSpace} // termbox reports the space bar as a key
	}
	return Ev{C: c}
}
func one(e Ev) Step      { return Step{E: []Ev{e}} }
func batch(e ...Ev) Step { return Step{E: e} }
func typed(s string) []Ev {
	var r []Ev
	for _, c := range s {
		r = append(r, ch(c))
	}
	return r
}

// chunks groups events into batches of at most n (the event queue of the main loop holds 20).
func chunks(e []Ev, n int) []Step {
	var r []Step
	for len(e) > 0 {
		k := min(n, len(e))
		r = append(r, batch(e[:k]...))
		e = e[k:]
	}
	return r
}

func evName(e Ev) string {
	if e.W != 0 {
		return fmt.Sprintf("<resize %dx%d>", e.W, e.H)
	}
	n := map[uint16]string{kEnter: "ENTER", kTab: "TAB", kCtrlL: "^L", kCtrlQ: "^Q", kSpace: "SPACE", kBack2: "BS", kBack: "^H", kUp: "UP", kDown: "DOWN", kLeft: "LEFT", kRight: "RIGHT", kEsc: "ESC", kIns: "INS", kDel: "DEL", kHome: "HOME", kEnd: "END", kPgUp: "PGUP", kPgDn: "PGDN", kF1: "F1"}
	s := ""
	if e.C != 0 {
		s = string(e.C)
	} else if s = n[e.K]; s == "" {
		s = fmt.Sprintf("key%d", e.K)
	}
	if e.M != 0 {
		s = "ALT+" + s
	}
	return s
}

func stepName(s Step) string {
	if s.R != "" {
		return "<check: " + clip(s.R) + ">"
	}
	var l []string
	for _, e := range s.E {
		l = append(l, evName(e))
	}
	if len(l) == 1 {
		return l[0]
	}
	return "[" + strings.Join(l, " ") + "]"
}

func stepNames(s []Step) []string {
	var l []string
	for _, x := range s {
		l = append(l, stepName(x))
	}
	return l
}

// ---------------------------------------------------------------- reading the screen

// box is a framed area: its inner rows and their background colours.
type box struct {
	Title      string
	X, Y, W, H int // inner area
	Rows, Bg   []string
}

func sub(s string, x, w int) string {
	r := []rune(s)
	if x > len(r) {
		return ""
	}
	if x+w > len(r) {
		w = len(r) - x
	}
	return string(r[x : x+w])
}

// find returns the box whose top edge carries the title, nil if there is none.
func (f *Frame) find(title string) *box {
	pat := []rune("┌─" + title)
	for y, row := range f.Rows {
		r := []rune(row)
	next:
		for x := 0; x+len(pat) <= len(r); x++ {
			for i := range pat {
				if r[x+i] != pat[i] {
					continue next
				}
			}
			x1 := x + len(pat)
			for x1 < len(r) && r[x1] != '┐' {
				if r[x1] != '─' {
					continue next
				}
				x1++
			}
			y1 := y + 1
			for y1 < len(f.Rows) && []rune(f.Rows[y1])[x] != '└' {
				y1++
			}
			b := &box{Title: title, X: x + 1, Y: y + 1, W: x1 - x - 1, H: y1 - y - 1}
			for k := y + 1; k < y1; k++ {
				b.Rows = append(b.Rows, sub(f.Rows[k], b.X, b.W))
				b.Bg = append(b.Bg, sub(f.Bg[k], b.X, b.W))
			}
			return b
		}
	}
	return nil
}

// hot returns the rows that have a highlighted (blue background) cell.
func (b *box) hot() []int {
	var l []int
	for i, r := range b.Bg {
		if strings.ContainsRune(r, '5') {
			l = append(l, i)
		}
	}
	return l
}

// Verification driver: added to package main at build time (overlay), never part of /repo.
// With VERIF_DRIVER=1 it executes sessions of main() on a virtual terminal, on request of a
// scheduler (JSON lines on fds 3 and 4). Otherwise the program runs as usual.
package main

import (
	"bufio"
	"bytes"
	"context"
	"crypto/tls"
	"encoding/json"
	"errors"
	"fmt"
	"hash/fnv"
	"io"
	"net"
	"os"
	"reflect"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"
	"unsafe"

	"github.com/jroimartin/gocui"
	"github.com/nsf/termbox-go"
)

type vEv struct {
	K uint16 `json:"k,omitempty"`
	C rune   `json:"c,omitempty"`
	M uint8  `json:"m,omitempty"`
	W int    `json:"w,omitempty"`
	H int    `json:"h,omitempty"`
}

// A step is a batch of events queued before the main loop goes on, or the completion of the
// pending update check.
type vStep struct {
	Evs     []vEv  `json:"e,omitempty"`
	Release string `json:"r,omitempty"` // outcome: "refuse" or body of the release document
}

type vCmd struct {
	Op    string   `json:"op"`
	Args  []string `json:"args,omitempty"`
	Home  string   `json:"home,omitempty"`
	W     int      `json:"w,omitempty"`
	H     int      `json:"h,omitempty"`
	Dial  string   `json:"dial,omitempty"` // "refuse" (default) or "block"
	Steps []vStep  `json:"steps,omitempty"`
	From  int      `json:"from"` // frames from this index are returned (0 = initial frame)
	Hash  bool     `json:"hash,omitempty"`
}

type vView struct {
	Name           string
	Ox, Oy, Cx, Cy int
}

type vFrame struct {
	Status string   `json:"status"` // "" running, "return", "exit N", "panic ..."
	W, H   int      `json:",omitempty"`
	Rows   []string `json:"rows,omitempty"`
	Bg     []string `json:"bg,omitempty"`
	Fg     []string `json:"fg,omitempty"`
	Cx, Cy int
	Inited bool
	Closed bool
	Hash   string
	Cur    string
	Views  []vView
	Out    string `json:"out,omitempty"`
	Dials  int
	Flush  int
	Index  int
}

type vExit struct{ code int }

var (
	vdMu      sync.Mutex
	vdDials   int
	vdRelease chan string
	vdCert    *tls.Config
)

func init() {
	if os.Getenv("VERIF_DRIVER") == "" {
		return
	}
	termbox.VerifStandalone = false
	in := bufio.NewReaderSize(os.NewFile(3, "|in"), 1<<20)
	out := bufio.NewWriterSize(os.NewFile(4, "|out"), 1<<20)
	if p := os.Getenv("VERIF_CERT"); p != "" {
		c, err := tls.LoadX509KeyPair(p, os.Getenv("VERIF_KEY"))
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		vdCert = &tls.Config{Certificates: []tls.Certificate{c}, NextProtos: []string{"http/1.1"}}
	}
	net.VerifDialHook = vDial
	debug.SetGCPercent(400)
	for {
		line, err := in.ReadBytes('\n')
		if err != nil {
			os.VerifExitHook = nil
			os.Exit(0)
		}
		var c vCmd
		if err := json.Unmarshal(line, &c); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.VerifExitHook = nil
			os.Exit(3)
		}
		frames := vExec(&c)
		b, _ := json.Marshal(frames)
		out.Write(b)
		out.WriteByte('\n')
		out.Flush()
	}
}

// vDial stands in for the network: connections are served in process.
func vDial(ctx context.Context, network, address string) (net.Conn, error) {
	vdMu.Lock()
	vdDials++
	ch := vdRelease
	vdMu.Unlock()
	outcome := "refuse"
	if ch != nil {
		select {
		case outcome = <-ch:
			ch <- outcome // for further dials of the same session
		case <-time.After(120 * time.Second):
		}
	}
	if outcome == "refuse" || vdCert == nil {
		return nil, errors.New("connection refused")
	}
	a, b := net.Pipe()
	go func() {
		s := tls.Server(b, vdCert)
		defer s.Close()
		r := bufio.NewReader(s)
		for {
			l, err := r.ReadString('\n')
			if err != nil {
				return
			}
			if strings.TrimSpace(l) == "" {
				break
			}
		}
		fmt.Fprintf(s, "HTTP/1.1 200 OK\r\nContent-Type: application/json\r\nContent-Length: %d\r\nConnection: close\r\n\r\n%s", len(outcome), outcome)
	}()
	return a, nil
}

func vMain(args []string) (st string) {
	st = "return"
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(vExit); ok {
				st = fmt.Sprintf("exit %d", e.code)
				return
			}
			st = fmt.Sprintf("panic %v\n%s", r, debug.Stack())
		}
	}()
	os.Args = append([]string{"1pass"}, args...)
	main()
	return
}

func vExec(c *vCmd) []vFrame {
	var frames []vFrame
	var outR, outW *os.File
	var outBuf bytes.Buffer
	var outDone chan struct{}
	if c.Op == "run" {
		termbox.VerifEnd()
		os.Setenv("HOME", c.Home)
		vdMu.Lock()
		vdDials = 0
		vdRelease = nil
		if c.Dial == "block" {
			vdRelease = make(chan string, 1)
		}
		if strings.HasPrefix(c.Dial, "auto:") {
			// answered without any synchronisation with the session
			vdRelease = make(chan string, 1)
			vdRelease <- c.Dial[5:]
		}
		vdMu.Unlock()
		outR, outW, _ = os.Pipe()
		outDone = make(chan struct{})
		go func() { io.Copy(&outBuf, outR); close(outDone) }()
		realOut := os.Stdout
		os.Stdout = outW
		defer func() { os.Stdout = realOut }()
		os.VerifExitHook = func(code int) { panic(vExit{code}) }
		gocui.VerifGui = nil
		termbox.VerifStart(c.W, c.H, func() string { return vMain(c.Args) })
	}
	st := termbox.VerifWait()
	idx := 0
	add := func() {
		if idx >= c.From || st != "" {
			f := vSnap(st, c.Hash)
			f.Index = idx
			frames = append(frames, f)
		}
		idx++
	}
	add()
	for _, s := range c.Steps {
		if st != "" {
			break
		}
		if s.Release != "" {
			before := termbox.VerifFlushes()
			vdMu.Lock()
			ch := vdRelease
			vdMu.Unlock()
			if ch != nil {
				select {
				case <-ch: // an earlier outcome that is being kept for further dials
				default:
				}
				ch <- s.Release
			}
			vSettle()
			// If the result was posted to the main loop, the loop runs without a key press.
			termbox.VerifGo()
			deadline := time.Now().Add(300 * time.Millisecond)
			for termbox.VerifFlushes() == before && time.Now().Before(deadline) {
				time.Sleep(200 * time.Microsecond)
			}
			if termbox.VerifFlushes() > before {
				st = termbox.VerifWait()
				add()
				continue
			}
			// No redraw happened: wake the loop with an event that does nothing and report
			// the screen as it was before.
			w, h, cells, cx, cy, _, _ := termbox.VerifScreen()
			termbox.VerifQueue([]termbox.Event{{Type: termbox.EventNone}})
			st = termbox.VerifWait()
			if idx >= c.From || st != "" {
				f := vFrameOf(w, h, cells)
				f.Cx, f.Cy, f.Status, f.Index, f.Inited = cx, cy, st, idx, true
				frames = append(frames, f)
			}
			idx++
			continue
		}
		var evs []termbox.Event
		for _, e := range s.Evs {
			if e.W != 0 {
				evs = append(evs, termbox.Event{Type: termbox.EventResize, Width: e.W, Height: e.H})
			} else {
				evs = append(evs, termbox.Event{Type: termbox.EventKey, Key: termbox.Key(e.K), Ch: e.C, Mod: termbox.Modifier(e.M)})
			}
		}
		termbox.VerifQueue(evs)
		termbox.VerifGo()
		st = termbox.VerifWait()
		add()
	}
	if c.Op == "run" {
		vdMu.Lock()
		ch := vdRelease
		vdMu.Unlock()
		termbox.VerifEnd()
		if ch != nil {
			select {
			case ch <- "refuse":
			default:
			}
			vSettle()
		}
		os.VerifExitHook = nil
		outW.Close()
		<-outDone
		outR.Close()
		if len(frames) > 0 {
			frames[len(frames)-1].Out = outBuf.String()
		}
	}
	return frames
}

// vSettle waits until no goroutine other than the main loop is inside the interactive code or
// on its way into the event queue.
func vSettle() {
	buf := make([]byte, 1<<20)
	for i := 0; i < 2000; i++ {
		n := runtime.Stack(buf, true)
		busy := false
		for _, g := range strings.Split(string(buf[:n]), "\n\n") {
			if strings.Contains(g, "MainLoop") && !strings.Contains(g, "Update") || strings.Contains(g, "termbox.PollEvent") || strings.Contains(g, "main.vMain") {
				continue
			}
			if strings.Contains(g, "mashmb/1pass") || strings.Contains(g, "jroimartin/gocui") {
				busy = true
			}
		}
		if !busy {
			return
		}
		time.Sleep(time.Millisecond)
	}
}

func vAttr(a termbox.Attribute) byte {
	if a > 60 {
		return '~'
	}
	return byte('0' + a)
}

func vFrameOf(w, h int, cells []termbox.Cell) vFrame {
	f := vFrame{W: w, H: h}
	for y := 0; y < h && (y+1)*w <= len(cells); y++ {
		r := make([]rune, w)
		b := make([]byte, w)
		g := make([]byte, w)
		for x := 0; x < w; x++ {
			c := cells[y*w+x]
			if c.Ch == 0 {
				c.Ch = ' '
			}
			r[x], b[x], g[x] = c.Ch, vAttr(c.Bg), vAttr(c.Fg)
		}
		f.Rows = append(f.Rows, string(r))
		f.Bg = append(f.Bg, string(b))
		f.Fg = append(f.Fg, string(g))
	}
	return f
}

func vSnap(st string, hash bool) vFrame {
	w, h, cells, cx, cy, in, cl := termbox.VerifScreen()
	f := vFrameOf(w, h, cells)
	f.Status, f.Cx, f.Cy, f.Inited, f.Closed = st, cx, cy, in, cl
	f.Flush = termbox.VerifFlushes()
	vdMu.Lock()
	f.Dials = vdDials
	vdMu.Unlock()
	g := gocui.VerifGui
	if g != nil && st == "" {
		if v := g.CurrentView(); v != nil {
			f.Cur = v.Name()
		}
		for _, v := range g.Views() {
			ox, oy := v.Origin()
			cx, cy := v.Cursor()
			f.Views = append(f.Views, vView{v.Name(), ox, oy, cx, cy})
		}
		if hash {
			hs := &vHasher{seen: map[vSeen]uint64{}}
			s := hs.hash(reflect.ValueOf(g).Elem(), 0)
			sh := fnv.New64a()
			for _, r := range f.Rows {
				io.WriteString(sh, r)
			}
			for _, r := range f.Bg {
				io.WriteString(sh, r)
			}
			f.Hash = fmt.Sprintf("%016x%016x", s, sh.Sum64())
		}
	}
	return f
}

// vHasher: structural hash of an object graph. Functions and channels are left out; slices of
// vault items are hashed as multisets (their order in memory depends on map iteration).
type vSeen struct {
	p unsafe.Pointer
	t reflect.Type
}
var vRoot = os.Getenv("VERIF_ROOT")

type vHasher struct {
	seen map[vSeen]uint64
}

func vMix(h uint64, x uint64) uint64 {
	h ^= x + 0x9e3779b97f4a7c15 + (h << 6) + (h >> 2)
	h *= 0xff51afd7ed558ccd
	h ^= h >> 33
	return h
}

func vStr(s string) uint64 {
	h := fnv.New64a()
	io.WriteString(h, s)
	return h.Sum64()
}

func (hs *vHasher) hash(v reflect.Value, depth int) uint64 {
	h := uint64(v.Kind()) + 17
	switch v.Kind() {
	case reflect.Bool:
		if v.Bool() {
			h = vMix(h, 1)
		}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		h = vMix(h, uint64(v.Int()))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		h = vMix(h, v.Uint())
	case reflect.String:
		// the run root differs from worker to worker
		h = vMix(h, vStr(strings.ReplaceAll(v.String(), vRoot, "")))
	case reflect.Float32, reflect.Float64:
		h = vMix(h, uint64(int64(v.Float()*1000)))
	case reflect.Struct:
		t := v.Type()
		if strings.HasPrefix(t.PkgPath(), "sync") {
			return h
		}
		for i := 0; i < v.NumField(); i++ {
			if t.PkgPath() == "github.com/jroimartin/gocui" && t.Name() == "Gui" && (t.Field(i).Name == "tbEvents" || t.Field(i).Name == "userEvents" || t.Field(i).Name == "keybindings") {
				continue
			}
			h = vMix(h, hs.hash(v.Field(i), depth+1))
		}
	case reflect.Ptr:
		if v.IsNil() {
			return vMix(h, 0)
		}
		k := vSeen{unsafe.Pointer(v.Pointer()), v.Type()}
		if n, ok := hs.seen[k]; ok {
			return vMix(h, n)
		}
		hs.seen[k] = vStr(v.Type().String())
		r := hs.hash(v.Elem(), depth+1)
		hs.seen[k] = r
		h = vMix(h, r)
	case reflect.Interface:
		if v.IsNil() {
			return vMix(h, 0)
		}
		e := v.Elem()
		h = vMix(h, vStr(e.Type().String()))
		h = vMix(h, hs.hash(e, depth+1))
	case reflect.Slice, reflect.Array:
		n := v.Len()
		h = vMix(h, uint64(n))
		unordered := strings.HasSuffix(v.Type().Elem().String(), "domain.Item")
		var sum uint64
		for i := 0; i < n; i++ {
			e := hs.hash(v.Index(i), depth+1)
			if unordered {
				sum += e
			} else {
				h = vMix(h, e)
			}
		}
		h = vMix(h, sum)
	case reflect.Map:
		var es []uint64
		for _, k := range v.MapKeys() {
			es = append(es, vMix(hs.hash(k, depth+1), hs.hash(v.MapIndex(k), depth+1)))
		}
		sort.Slice(es, func(i, j int) bool { return es[i] < es[j] })
		for _, e := range es {
			h = vMix(h, e)
		}
	}
	return h
}

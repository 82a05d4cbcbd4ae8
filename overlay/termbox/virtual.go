// Virtual terminal used by the verification build instead of a real one. The API types and
// constants are the original ones (api_common.go); screen, input and size live in memory and
// are driven by a scheduler through the Verif* functions:
//
//	Flush blocks until the scheduler lets the main loop go on, PollEvent blocks until it is
//	given an event. So the scheduler decides how many events the main loop finds queued.
package termbox

import (
	"os"
	"runtime"
	"sync"
)

type vSession struct {
	w, h         int
	nw, nh       int // size after the next Clear
	cells        []Cell
	fg, bg       Attribute
	cx, cy       int
	inited       bool
	closed       bool
	flushes      int
	flushBlocked bool
	goOn         bool
	queue        []Event
	pollWaiting  bool
	polled       int
	ended        bool
	status       string
}

var (
	vMu   sync.Mutex
	vCond = sync.NewCond(&vMu)
	vS    *vSession
	// VerifStandalone: no scheduler; Init reports that the interactive mode was reached.
	VerifStandalone = true
)

func Init() error {
	if VerifStandalone {
		os.Stdout.WriteString("VERIF-GUI-STARTED\n")
		os.Exit(42)
	}
	vMu.Lock()
	defer vMu.Unlock()
	vS.inited = true
	vS.closed = false
	vS.cells = make([]Cell, vS.w*vS.h)
	IsInit = true
	return nil
}
func Interrupt() {}
func Close() {
	vMu.Lock()
	defer vMu.Unlock()
	if vS != nil {
		vS.closed = true
	}
	IsInit = false
}
func Sync() error { return nil }

func Flush() error {
	vMu.Lock()
	defer vMu.Unlock()
	s := vS
	s.flushes++
	s.flushBlocked = true
	s.goOn = false
	vCond.Broadcast()
	for !s.goOn && !s.ended {
		vCond.Wait()
	}
	s.flushBlocked = false
	if s.ended {
		runtime.Goexit() // runs the deferred Unlock
	}
	return nil
}
func SetCursor(x, y int) { vS.cx, vS.cy = x, y }
func HideCursor()        { vS.cx, vS.cy = -1, -1 }
func SetCell(x, y int, ch rune, fg, bg Attribute) {
	s := vS
	if x < 0 || x >= s.w || y < 0 || y >= s.h {
		return
	}
	s.cells[y*s.w+x] = Cell{ch, fg, bg}
}
func GetCell(x, y int) Cell     { return vS.cells[y*vS.w+x] }
func SetChar(x, y int, ch rune) {
	s := vS
	if x < 0 || x >= s.w || y < 0 || y >= s.h {
		return
	}
	s.cells[y*s.w+x].Ch = ch
}
func SetFg(x, y int, fg Attribute) {
	s := vS
	if x < 0 || x >= s.w || y < 0 || y >= s.h {
		return
	}
	s.cells[y*s.w+x].Fg = fg
}
func SetBg(x, y int, bg Attribute) {
	s := vS
	if x < 0 || x >= s.w || y < 0 || y >= s.h {
		return
	}
	s.cells[y*s.w+x].Bg = bg
}
func CellBuffer() []Cell { return vS.cells }

func PollEvent() Event {
	vMu.Lock()
	defer vMu.Unlock()
	s := vS
	s.pollWaiting = true
	s.polled++
	vCond.Broadcast()
	for len(s.queue) == 0 && !s.ended {
		vCond.Wait()
	}
	s.pollWaiting = false
	if s.ended {
		runtime.Goexit() // runs the deferred Unlock
	}
	e := s.queue[0]
	s.queue = s.queue[1:]
	return e
}
func Size() (int, int) { return vS.w, vS.h }
func Clear(fg, bg Attribute) error {
	s := vS
	vMu.Lock()
	w, h := s.nw, s.nh
	vMu.Unlock()
	if w != s.w || h != s.h {
		s.w, s.h = w, h
		s.cells = make([]Cell, w*h)
	}
	s.fg, s.bg = fg, bg
	for i := range s.cells {
		s.cells[i] = Cell{' ', fg, bg}
	}
	return nil
}
func SetInputMode(m InputMode) InputMode {
	if m == InputCurrent {
		return InputEsc
	}
	return m
}
func SetOutputMode(m OutputMode) OutputMode {
	if m == OutputCurrent {
		return OutputNormal
	}
	return m
}
func ParseEvent(data []byte) Event   { return Event{Type: EventNone} }
func PollRawEvent(data []byte) Event { return PollEvent() }

// ---- scheduler side ----

// VerifStart begins a session; main is run in its own goroutine and returns its outcome.
func VerifStart(w, h int, main func() string) {
	vMu.Lock()
	s := &vSession{w: w, h: h, nw: w, nh: h}
	vS = s
	vMu.Unlock()
	go func() {
		st := main()
		vMu.Lock()
		if s.status == "" {
			s.status = st
		}
		vCond.Broadcast()
		vMu.Unlock()
	}()
}

// VerifWait waits until the main loop is at a flush or the session ended; the result is the
// outcome, "" while it is running.
func VerifWait() string {
	vMu.Lock()
	defer vMu.Unlock()
	s := vS
	for !(s.flushBlocked && !s.goOn) && s.status == "" {
		vCond.Wait()
	}
	return s.status
}

// VerifQueue hands events to the application's poller, which puts all of them into the event
// queue of the main loop (blocked at a flush meanwhile).
func VerifQueue(evs []Event) {
	vMu.Lock()
	defer vMu.Unlock()
	s := vS
	for _, e := range evs {
		if e.Type == EventResize {
			s.nw, s.nh = e.Width, e.Height
		}
	}
	for !s.pollWaiting && s.status == "" { // poller not there yet
		vCond.Wait()
	}
	n := s.polled
	s.queue = append(s.queue, evs...)
	vCond.Broadcast()
	for s.polled < n+len(evs) && s.status == "" {
		vCond.Wait()
	}
}

// VerifGo lets the main loop leave its flush.
func VerifGo() {
	vMu.Lock()
	defer vMu.Unlock()
	vS.goOn = true
	vS.flushBlocked = false
	vCond.Broadcast()
}

// VerifEnd ends the session whatever its state (its goroutines exit).
func VerifEnd() {
	vMu.Lock()
	defer vMu.Unlock()
	if vS != nil {
		vS.ended = true
		vCond.Broadcast()
	}
}

func VerifFlushes() int {
	vMu.Lock()
	defer vMu.Unlock()
	return vS.flushes
}

// VerifScreen returns the screen; only while the main loop is at a flush or after the end.
func VerifScreen() (w, h int, cells []Cell, cx, cy int, inited, closed bool) {
	vMu.Lock()
	defer vMu.Unlock()
	s := vS
	return s.w, s.h, append([]Cell(nil), s.cells...), s.cx, s.cy, s.inited, s.closed
}

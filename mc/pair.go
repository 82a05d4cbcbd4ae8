package main

import (
	"bufio"
	"os"
	"strings"
	"sync"
)

// Controlled scheduling of several processes of the application at the granularity of their
// file-system operations: each process stops before every operation until it is told to go on.

type Gate struct {
	childR, childW *os.File
	grant          *os.File
	req            *bufio.Reader
	reqF           *os.File
	res            chan *Result
}

func newGate() *Gate {
	g := &Gate{res: make(chan *Result, 1)}
	var err error
	g.childR, g.grant, err = os.Pipe()
	must(err)
	g.reqF, g.childW, err = os.Pipe()
	must(err)
	g.req = bufio.NewReader(g.reqF)
	return g
}

type step struct {
	who int
	op  string
	alt []int // other processes that could have gone on
}

type history struct {
	steps []step
	res   []*Result
	bad   string // the schedule could not be followed (not deterministic)
}

func (h *history) Lines(root string) []string {
	var l []string
	for _, s := range h.steps {
		l = append(l, string(rune('A'+s.who))+": "+strings.ReplaceAll(s.op, root, ""))
	}
	return l
}

// Together runs the processes under a schedule: the given choices, then without preemption.
// After every operation (all processes stopped or ended) seen is called.
func (r *Root) Together(runs []Run, choices []int, seen func(h *history, ended []*Result)) *history {
	h := &history{res: make([]*Result, len(runs))}
	gs := make([]*Gate, len(runs))
	op := make([]string, len(runs)) // "" ended
	next := func(i int) {
		l, err := gs[i].req.ReadString('\n')
		if err != nil {
			op[i] = ""
			h.res[i] = <-gs[i].res
			return
		}
		op[i] = strings.TrimSuffix(l, "\n")
	}
	for i := range runs {
		gs[i] = newGate()
		s := runs[i]
		s.Gate, s.Tag = gs[i], string(rune('A'+i))
		go func(i int) { gs[i].res <- r.Exec(s) }(i)
	}
	for i := range runs {
		next(i)
	}
	cur := -1
	for {
		var en []int
		for i := range runs {
			if op[i] != "" {
				en = append(en, i)
			}
		}
		if len(en) == 0 {
			break
		}
		who := -1
		if k := len(h.steps); k < len(choices) {
			who = choices[k]
			if op[who] == "" && h.bad == "" {
				h.bad = "the chosen process has ended"
				who = en[0]
			}
		} else if cur >= 0 && op[cur] != "" {
			who = cur
		} else {
			who = en[0]
		}
		if op[who] == "" {
			who = en[0]
		}
		var alt []int
		for _, e := range en {
			if e != who {
				alt = append(alt, e)
			}
		}
		h.steps = append(h.steps, step{who, op[who], alt})
		cur = who
		gs[who].grant.Write([]byte{1})
		next(who)
		seen(h, h.res)
	}
	for _, g := range gs {
		g.grant.Close()
		g.reqF.Close()
	}
	return h
}

// Schedules enumerates every schedule with at most bound preemptions (switches away from a process
// that could have gone on), each once; run executes one and returns its history. Stateless search.
func (c *Ctx) Schedules(bound int, run func(w int, choices []int) *history) (n int) {
	var mu sync.Mutex
	cond := sync.NewCond(&mu)
	stack := [][]int{nil}
	active := 0
	var wg sync.WaitGroup
	for w := 0; w < NCPU; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			for {
				mu.Lock()
				for len(stack) == 0 && active > 0 {
					cond.Wait()
				}
				if len(stack) == 0 || c.Stop() || c.TimeUp() {
					stack = nil
					mu.Unlock()
					cond.Broadcast()
					return
				}
				ch := stack[len(stack)-1]
				stack = stack[:len(stack)-1]
				active++
				mu.Unlock()
				h := run(w, ch)
				var more [][]int
				pre := 0
				for i, s := range h.steps {
					switched := i > 0 && h.steps[i-1].who != s.who && hasInt(s.alt, h.steps[i-1].who)
					if i >= len(ch) {
						for _, a := range s.alt {
							p := pre
							if i > 0 && a != h.steps[i-1].who && (s.who == h.steps[i-1].who || hasInt(s.alt, h.steps[i-1].who)) {
								p++
							}
							if p <= bound {
								x := make([]int, 0, i+1)
								for _, t := range h.steps[:i] {
									x = append(x, t.who)
								}
								more = append(more, append(x, a))
							}
						}
					}
					if switched {
						pre++
					}
				}
				mu.Lock()
				n++
				stack = append(stack, more...)
				active--
				mu.Unlock()
				cond.Broadcast()
			}
		}(w)
	}
	wg.Wait()
	return
}

func hasInt(l []int, x int) bool {
	for _, y := range l {
		if x == y {
			return true
		}
	}
	return false
}

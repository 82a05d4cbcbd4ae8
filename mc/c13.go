package main

import (
	"fmt"
	"net/http"
	"os"
	"path/filepath"
	"strings"
)

func init() { checks["C13"] = c13 }

const day = int64(86400)
const t0 = int64(1700000000)

// completed and failing answers of the release server
type answer struct {
	name string
	ok   bool
	h    http.HandlerFunc
	dial string // instead of the server
}

func answers13() []answer {
	jsn := func(s string) http.HandlerFunc { return serve([]byte(s), nil) }
	return []answer{
		{"newer", true, serve(asJSON([]release{stdRelease("9.0.0")}), nil), ""},
		{"older", true, serve(asJSON([]release{stdRelease("1.0.0")}), nil), ""},
		{"same", true, serve(asJSON([]release{stdRelease(runningVersion)}), nil), ""},
		{"none", true, jsn("[]"), ""},
		{"refused", false, nil, "refuse"},
		{"garbage", false, jsn("<html>rate limited</html>"), ""},
		{"cut", false, jsn(`[{"tag_name":"9.0.0","body":"x","assets":[{"name":"1p`), ""},
		{"object", false, jsn(`{"message":"API rate limit exceeded"}`), ""},
		{"broken", false, func(w http.ResponseWriter, q *http.Request) { panic(http.ErrAbortHandler) }, ""},
	}
}

func (r *rig) run13(a answer, args []string, stdin string, now int64) *Result {
	h := a.h
	d := a.dial
	if h == nil {
		h = serve(nil, nil)
	}
	r.S.Set(h, nil)
	if d == "" {
		d = r.S.Dial()
	}
	return r.Exec(Run{Args: args, Stdin: stdin, Dial: d, Now: now})
}

func c13(c *Ctx) {
	c.Level = "model_checking"
	c.Rule = "explicit-state search: state = (files of the configuration directory, clock); actions = (advance the clock, automatic check or update command, answer of the release server); from every state within the depth every action is executed by a process of the application under a frozen clock, and network contact, notice and time stamp are compared with the reference (stamp of the last completed check). For every period of the set and notifications on/off. Plus: every content class of the stamp file at ages around the period, to the second, for every command. Non-trivial: an automatic check with a time stamp present"
	c.Assume = []string{"wall clock frozen during a run", "the interactive mode always checks (C21) and is not a command-line command"}
	rigs := c.rigs()
	ans := answers13()
	periods := []int{0, 1, 2, 7, 365}
	depth := 4
	if c.Thorough {
		periods = []int{0, 1, 2, 3, 7, 30, 180, 364, 365}
		depth = 5
	}
	c.histories13(rigs, ans, periods, depth)
	c.files13(rigs, ans, periods)
	c.commands13(rigs)
}

type st13 struct {
	stamp string // contents of the stamp file, "" absent
	has   bool
	ref   int64 // stamp of the last completed check, 0: none
	now   int64
	hist  []string
}

func due(period int, ref, now int64) bool {
	if period == 0 || ref == 0 {
		return true
	}
	d := now - ref
	if d < 0 {
		d = -d
	}
	return d >= int64(period)*day
}

func (c *Ctx) histories13(rigs []*rig, ans []answer, periods []int, depth int) {
	type cfg struct {
		period int
		notify bool
	}
	for _, g := range func() (l []cfg) {
		for _, p := range periods {
			l = append(l, cfg{p, true})
		}
		return append(l, cfg{1, false}, cfg{0, false})
	}() {
		p := int64(g.period)
		advs := []int64{0, p*day - 1, p * day, day / 2}
		if p == 0 {
			advs = []int64{0, 1, day}
		} else if p > 1 {
			advs = append(advs, (p-1)*day)
		}
		if c.Thorough {
			advs = append(advs, -day, p*day+1)
		}
		front := []st13{{now: t0}}
		seen := map[string]bool{}
		for d := 0; d < depth && len(front) > 0; d++ {
			type job struct {
				s    st13
				adv  int64
				auto bool
				a    answer
			}
			var jobs []job
			for _, s := range front {
				for _, adv := range advs {
					for i, a := range ans {
						for _, auto := range []bool{true, false} {
							if d >= 2 && i > 4 {
								continue // further failing answers only near the start
							}
							jobs = append(jobs, job{s, adv, auto, a})
						}
					}
				}
			}
			next := make([]st13, len(jobs))
			ok := make([]bool, len(jobs))
			c.Par(len(jobs), func(w, k int) {
				if c.Stop() {
					return
				}
				j := jobs[k]
				r := rigs[w]
				os.RemoveAll(filepath.Join(r.Home(), ".config"))
				r.Config(cfgText("", 5, g.period, g.notify))
				if j.s.has {
					r.Write(r.Last(), j.s.stamp)
					r.Own()
				}
				now := j.s.now + j.adv
				args, in := []string{"categories"}, ""
				if !j.auto {
					args, in = []string{"update"}, "n\n"
				}
				x := r.run13(j.a, args, in, now)
				c.Eval(1)
				c.Trans(1)
				what := fmt.Sprintf("+%ds %s %s", j.adv, args[0], j.a.name)
				hist := append(append([]string{}, j.s.hist...), what)
				desc := obj{"period": g.period, "notify": g.notify, "history": hist, "out": firstLine(x.Out), "err": x.Err}
				if x.Panicked() || x.Timeout || x.Killed {
					c.Fail("crash", desc, "%v: %s", hist, x.Err)
					return
				}
				want := !j.auto || (g.notify && due(g.period, j.s.ref, now))
				if j.auto && j.s.ref != 0 {
					c.Distinct(1)
				}
				if got := x.Dials() > 0; got != want {
					c.Fail("contact", desc, "period %d, notifications %v, last completed check %s: %v: contacted the server: %v, expected %v", g.period, g.notify, ago(j.s.ref, now), hist, got, want)
					return
				}
				if j.auto {
					if n := strings.Contains(x.Out, noticeText); n != (want && j.a.name == "newer") {
						c.Fail("notice", desc, "%v: notice %v", hist, n)
					}
				}
				t, err := os.ReadFile(r.Last())
				n := st13{string(t), err == nil, j.s.ref, now, hist}
				if want && j.a.ok {
					n.ref = now
					if v := strings.TrimSpace(n.stamp); v != fmt.Sprint(now) {
						c.Fail("stamp", desc, "%v: a completed check left the time stamp %q (present %v) at time %d", hist, v, n.has, now)
						return
					}
				} else if n.has != j.s.has || n.stamp != j.s.stamp {
					c.Fail("stamp-changed", desc, "%v: without a completed check the time stamp changed from %q to %q", hist, j.s.stamp, n.stamp)
					return
				}
				next[k], ok[k] = n, true
			})
			front = nil
			for k, n := range next {
				if !ok[k] {
					continue
				}
				key := fmt.Sprint(n.stamp, n.has, n.ref, n.now)
				if !seen[key] {
					seen[key] = true
					front = append(front, n)
					c.State(fmt.Sprint(g, key))
				}
			}
			if len(front) > 0 && d == depth-1 {
				c.Sample(obj{"period": g.period, "history": front[len(front)-1].hist})
			}
			if c.Stop() {
				return
			}
		}
	}
}

func ago(ref, now int64) string {
	if ref == 0 {
		return "never"
	}
	return fmt.Sprintf("%d s ago", now-ref)
}

// stamp file contents
func (c *Ctx) files13(rigs []*rig, ans []answer, periods []int) {
	type sf struct {
		name, text string
		ref        int64
		kind       string // file, none, dir, unreadable
	}
	type job struct {
		f      sf
		period int
		a      answer
	}
	var jobs []job
	for _, p := range periods {
		P := int64(p) * day
		var fs []sf
		for _, d := range []int64{0, 1, 60, 3599, 3600, 43200, 86399, 86400, 86401, P - 86400, P - 43200, P - 3600, P - 2, P - 1, P, P + 1, P + 3600, P + 43200, P + 86400, 2 * P, 400 * day, 10000 * day} {
			for _, sg := range []int64{1, -1} {
				t := t0 - sg*d
				if d < 0 {
					continue
				}
				fs = append(fs, sf{fmt.Sprintf("age %d", sg*d), fmt.Sprint(t), t, "file"})
			}
		}
		for _, b := range []string{"", "\n", "abc", "17000000OO", "12 34", "1.7e9", "--5", "0x65", "\x00\x00", "9999999999999999999999", fmt.Sprint(t0) + "x", fmt.Sprint(t0) + "\n" + fmt.Sprint(t0), "{}"} {
			fs = append(fs, sf{fmt.Sprintf("text %q", b), b, 0, "file"})
		}
		for _, b := range []string{"%d\n", " %d ", "\n%d\n\n"} {
			fs = append(fs, sf{"blanks", fmt.Sprintf(b, t0-P+10), t0 - P + 10, "file"}, sf{"blanks", fmt.Sprintf(b, t0-P), t0 - P, "file"})
		}
		for _, t := range []int64{1, -1, -t0, 1 << 40, -(1 << 40), 1<<62 - 1, -(1 << 62), 9223372036854775807, -9223372036854775808} {
			fs = append(fs, sf{fmt.Sprint("value ", t), fmt.Sprint(t), -1, "file"}) // far away: always due
		}
		fs = append(fs, sf{"absent", "", 0, "none"}, sf{"directory", "", 0, "dir"}, sf{"unreadable", fmt.Sprint(t0), 0, "unreadable"})
		for _, f := range fs {
			for _, a := range []answer{ans[0], ans[1], ans[3], ans[4]} {
				jobs = append(jobs, job{f, p, a})
			}
		}
	}
	c.Par(len(jobs), func(w, k int) {
		if c.Stop() {
			return
		}
		j := jobs[k]
		r := rigs[w]
		os.RemoveAll(filepath.Join(r.Home(), ".config"))
		r.Config(cfgText("", 5, j.period, true))
		switch j.f.kind {
		case "dir":
			must(os.MkdirAll(r.Last(), 0755))
		case "none":
		default:
			r.Write(r.Last(), j.f.text)
		}
		r.Own()
		if j.f.kind == "unreadable" {
			if !canSetid() {
				return
			}
			os.Chmod(r.Last(), 0)
		}
		x := r.run13(j.a, []string{"categories"}, "", t0)
		c.Eval(1)
		c.Distinct(1)
		desc := obj{"period": j.period, "stamp": j.f.name, "answer": j.a.name, "out": firstLine(x.Out), "err": x.Err}
		want := j.f.ref == -1 || due(j.period, j.f.ref, t0)
		if x.Panicked() || x.Timeout || x.Code != 0 {
			c.Fail("crash", desc, "stamp file %s: exit %d %s", j.f.name, x.Code, x.Err)
			return
		}
		if got := x.Dials() > 0; got != want {
			c.Fail("contact", desc, "period %d, stamp file %s (%q): contacted the server: %v, expected %v", j.period, j.f.name, j.f.text, got, want)
			return
		}
		if j.f.kind == "file" || j.f.kind == "none" {
			t, err := os.ReadFile(r.Last())
			if want && j.a.ok {
				if strings.TrimSpace(string(t)) != fmt.Sprint(t0) {
					c.Fail("stamp", desc, "stamp file %s: after a completed check it reads %q", j.f.name, t)
				}
			} else if (err == nil) != (j.f.kind == "file") || string(t) != j.f.text {
				c.Fail("stamp-changed", desc, "stamp file %s: changed from %q to %q", j.f.name, j.f.text, t)
			}
		}
	})
}

// every command, due and not due, notifications on and off
func (c *Ctx) commands13(rigs []*rig) {
	v := &VVault{Password: "pw", Seed: "c13", Items: []VItem{simpleItem(1, "001", "TheTitle", false, 1)}}
	u := v.Items[0].Uid
	for _, r := range rigs {
		v.write(filepath.Join(r.Home(), "v"))
	}
	type job struct {
		args   []string
		pass   string // "" none
		stdin  string
		auto   bool
		always bool
		notify bool
		period int
		age    int64 // -1: no stamp
		cfg    bool
	}
	var jobs []job
	for _, notify := range []bool{true, false} {
		for _, period := range []int{0, 1, 30} {
			for _, age := range []int64{-1, 0, int64(period)*day - 1, int64(period) * day} {
				add := func(j job) {
					j.notify, j.period, j.age, j.cfg = notify, period, age, true
					jobs = append(jobs, j)
				}
				for _, pw := range []string{"pw", "wrong"} {
					add(job{args: []string{"list", "-v", "VAULT"}, pass: pw, auto: true})
					add(job{args: []string{"overview", u, "-v", "VAULT"}, pass: pw, auto: true})
					add(job{args: []string{"details", u, "-v", "VAULT"}, pass: pw, auto: true})
				}
				add(job{args: []string{"list", "-v", "/nonexistent"}, auto: true})
				add(job{args: []string{"categories"}, auto: true})
				add(job{args: []string{"configure"}, stdin: "\n\n\n\n", auto: true})
				add(job{args: []string{"version"}})
				add(job{args: []string{"help"}})
				add(job{args: []string{"list", "--help"}})
				add(job{args: []string{"nosuchcommand"}})
				add(job{args: []string{"update"}, stdin: "n\n", always: true})
				add(job{args: []string{"update", "--help"}})
			}
		}
	}
	c.Par(len(jobs), func(w, k int) {
		if c.Stop() {
			return
		}
		j := jobs[k]
		r := rigs[w]
		os.RemoveAll(filepath.Join(r.Home(), ".config"))
		r.Config(cfgText("", 5, j.period, j.notify))
		if j.age >= 0 {
			r.Write(r.Last(), fmt.Sprint(t0-j.age))
		}
		r.Own()
		args := append([]string{}, j.args...)
		for i := range args {
			if args[i] == "VAULT" {
				args[i] = filepath.Join(r.Home(), "v")
			}
		}
		r.S.Set(serve(asJSON([]release{stdRelease("9.0.0")}), nil), nil)
		s := Run{Args: args, Stdin: j.stdin, Dial: r.S.Dial(), Now: t0}
		if j.pass != "" {
			s.Pass = &j.pass
		}
		x := r.Exec(s)
		c.Eval(1)
		c.Distinct(1)
		ref := t0 - j.age
		if j.age < 0 {
			ref = 0
		}
		want := j.always || (j.auto && j.notify && due(j.period, ref, t0))
		desc := obj{"args": j.args, "period": j.period, "notify": j.notify, "age": j.age, "out": x.Out, "err": x.Err}
		if got := x.Dials() > 0; got != want {
			c.Fail("contact", desc, "%v with notifications %v, period %d, stamp age %d: contacted the server: %v, expected %v", j.args, j.notify, j.period, j.age, got, want)
		}
	})
}

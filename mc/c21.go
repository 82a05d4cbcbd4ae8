package main

import (
	"encoding/json"
	"fmt"
	"strings"
	"sync"
)

func init() { checks["C21"] = c21 }

type outcome struct{ name, body, want string }

const (
	vNewer  = "new version is available: v"
	vSame   = "up to date"
	vFailed = "update check failed"
)

// version line: rows of the Version box.
func versionLine(f *Frame) string {
	b := f.find("Version")
	if b == nil {
		return "<none>"
	}
	return strings.TrimSpace(strings.Join(b.Rows, ""))
}

func below(f *Frame) string {
	return strings.Join(f.Rows[min(3, len(f.Rows)):], "\n") + strings.Join(f.Bg[min(3, len(f.Bg)):], "\n")
}

func c21(c *Ctx) {
	c.Rule = "schedule = (session, moment at which the result of the update check arrives, result): the pending check is released between any two steps of the session; every screen below the version line is compared with the same session without a result, the version line with the result. Sessions: shortest path to every reachable state, scripts with batches and resizes. A subset runs under the race detector. Non-trivial: every schedule"
	c.Assume = []string{"a result arrives between two steps, not between the keys of a batch", "races are those the Go race detector sees on the explored schedules"}
	outs := []outcome{{"newer", string(asJSON([]release{stdRelease("9.9.9"), stdRelease("1.0")})), vNewer + "9.9.9"},
		{"newer long", string(asJSON([]release{stdRelease("10.20.300")})), vNewer + "10.20.300"},
		{"same", string(asJSON([]release{stdRelease("1.3.1")})), vSame},
		{"older", string(asJSON([]release{stdRelease("1.0")})), vSame},
		{"refused", "refuse", vFailed},
		{"garbage", "garbage", vFailed}}
	var more []outcome
	var doc any
	must(json.Unmarshal([]byte(outs[0].body), &doc))
	mutateJSON(doc, func(n string, d any) { more = append(more, outcome{n, string(asJSON(d)), ""}) })
	std := outs[0].body
	for i := 1; i < len(std); i += 7 {
		more = append(more, outcome{fmt.Sprintf("cut to %d", i), std[:i], vFailed})
	}
	for _, b := range []string{" ", "null", "[]", "{}", "[[]]", "\"x\"", "5", "[null]", "[{}]", "[{},{}]", "<html>", strings.Repeat("[", 20000), `[{"tag_name":"9.9.9"}]`, `[{"tag_name":"9.9.9","assets":[{}]}]`, `[{"tag_name":"` + strings.Repeat("9.", 2000) + `9","assets":[]}]`} {
		more = append(more, outcome{"text " + clip(b), b, ""})
	}
	rig := c.newGui(c.App)
	defer rig.close()
	race := c.newGuiNamed(c.AppRace, "race")
	defer race.close()
	vs := c.gvaults()

	judge := func(key string, g *gvault, steps []Step, at int, o outcome, base, fs []Frame) {
		// fs: frames of steps with the release inserted at position at
		cas := map[string]any{"vault": g.Name, "result": o.name, "keys": stepNames(steps)}
		c.Eval(1)
		c.Distinct(1)
		c.Trace(1)
		c.Trans(len(steps))
		for i, f := range fs {
			j := f.Index // index in steps with release
			if i == len(fs)-1 && f.Status != "" {
				if len(base) > 0 && base[len(base)-1].Status == f.Status {
					return
				}
				c.Fail("ended", cas, "the session ended or hangs: %s", clip(f.Status))
				return
			}
			k := j
			if j > at {
				k = j - 1
			}
			if k >= len(base) {
				return
			}
			if below(&f) != below(&base[k]) {
				c.Fail("screen", cas, "after step %d the screen differs from the one without a result:\n%s\ninstead of\n%s", j, f.Screen(), base[k].Screen())
				return
			}
			v := versionLine(&f)
			if j <= at {
				if v != versionLine(&base[k]) {
					c.Fail("early", cas, "version line %q before the result arrived", v)
					return
				}
				continue
			}
			if !strings.HasPrefix(v, "1Pass v1.3.1") {
				c.Fail("version", cas, "version line %q", v)
				return
			}
			ok := o.want != "" && strings.Contains(v, o.want)
			if o.want == "" {
				ok = strings.Contains(v, vNewer) || strings.Contains(v, vSame) || strings.Contains(v, vFailed)
			}
			n := strings.Count(v, vNewer) + strings.Count(v, vSame) + strings.Count(v, vFailed)
			if !ok || n != 1 {
				c.Fail("result", cas, "after step %d the version line is %q, expected %q", j, v, o.want)
				return
			}
		}
		if len(fs) == 0 || fs[len(fs)-1].Index < len(steps) && fs[len(fs)-1].Status == "" {
			c.Fail("ended", cas, "no frame")
		}
	}
	insert := func(st []Step, at int, o outcome) []Step {
		return cat(st[:at], []Step{{R: o.body}}, st[at:])
	}
	// every reachable state, the result arriving at every point of the path to it
	names := []string{"empty", "trash", "mixed"}
	var nodes []struct {
		g *gvault
		n gnode
	}
	var mu sync.Mutex
	for _, n := range names {
		g := vs[n]
		rig.explore(g, gsearch{W: 80, H: 24, Moves: moves(1), Max: c.maxStates(), Visit: func(w int, g *gvault, x gnode, f *Frame) {
			mu.Lock()
			nodes = append(nodes, struct {
				g *gvault
				n gnode
			}{g, x})
			mu.Unlock()
		}}, func([]Step, gfinding) {})
		if c.Stop() {
			return
		}
	}
	c.Par(len(nodes), func(w, i int) {
		g := nodes[i].g
		st := cat(nodes[i].n.steps, singles(ch('j'), key(kEnter), key(kTab)))
		base := rig.sess(w, g, 80, 24, st, 0)
		if l := base[len(base)-1]; l.Status != "" {
			c.Fail("waits", map[string]any{"vault": g.Name, "keys": stepNames(st)}, "the session does not go on while the check is pending: %s", clip(l.Status))
			return
		}
		n := len(nodes[i].n.steps)
		for at := 0; at <= n; at++ {
			o := outs[(at+i)%len(outs)]
			if at == n || c.Thorough {
				for _, o := range outs[:5] {
					s := insert(st, at, o)
					judge("", g, s, at, o, base, rig.sess(w, g, 80, 24, s, 0))
				}
				continue
			}
			s := insert(st, at, o)
			judge("", g, s, at, o, base, rig.sess(w, g, 80, 24, s, 0))
		}
	})
	c.Extra("states", len(nodes))
	if c.Stop() {
		return
	}
	// scripts with batches and resizes: every moment, every kind of result, also on larger windows
	g := vs["mixed"]
	pw := g.unlock()
	scripts := [][]Step{
		cat(pw, singles(ch('j'), key(kEnter), ch('j'), key(kTab), ch('l'), ch('j'), key(kTab), ch('q'), key(kCtrlL)), pw),
		cat([]Step{batch(ch('p'), ch('w'), key(kEnter), key(kEnter), key(kTab)), batch(key(kTab), ch('q'), ch('j')), batch(key(kEnter), key(kTab), key(kCtrlL))}),
		cat(singles(ch('x'), key(kEnter), key(kEnter)), pw, singles(Ev{W: 100, H: 30}, key(kEnter), Ev{W: 80, H: 24}, key(kTab), Ev{W: 120, H: 40}, key(kCtrlL), Ev{W: 81, H: 24})),
		cat(singles(ch('p'), Ev{W: 90, H: 28}, ch('w'), key(kEnter))),
		nil,
	}
	type job struct {
		s    int
		W, H int
		at   int
		o    outcome
		rig  *guiRig
	}
	var jobs []job
	for si, s := range scripts {
		for at := 0; at <= len(s); at++ {
			for oi, o := range outs {
				jobs = append(jobs, job{si, 80, 24, at, o, rig}, job{si, 133, 50, at, o, rig})
				if oi%2 == 0 || c.Thorough {
					jobs = append(jobs, job{si, 80, 24, at, o, race})
				}
			}
		}
	}
	for k, o := range more {
		jobs = append(jobs, job{0, 80, 24, 3, o, rig})
		if k%4 == 0 || c.Thorough {
			jobs = append(jobs, job{2, 100, 30, 1, o, rig})
		}
	}
	c.Extra("script_schedules", len(jobs))
	c.Extra("answers", len(outs)+len(more))
	c.Par(len(jobs), func(w, i int) {
		j := jobs[i]
		s := scripts[j.s]
		base := j.rig.sess(w, g, j.W, j.H, s, 0)
		if l := base[len(base)-1]; l.Status != "" {
			c.Fail("waits", map[string]any{"vault": g.Name, "keys": stepNames(s)}, "the session does not go on while the check is pending: %s", clip(l.Status))
			return
		}
		x := insert(s, j.at, j.o)
		judge("", g, x, j.at, j.o, base, j.rig.sess(w, g, j.W, j.H, x, 0))
		// quitting while the check is pending
		q := cat(s[:min(j.at, len(s))], singles(key(kCtrlQ)))
		fs := j.rig.sess(w, g, j.W, j.H, q, len(q))
		c.Trans(len(q))
		if l := fs[len(fs)-1]; l.Status != "return" && l.Status != "exit 0" {
			c.Fail("quit", map[string]any{"keys": stepNames(q)}, "the session cannot be left while the check is pending: %s", clip(l.Status))
		}
	})
	// the result arrives on its own, unordered with the session: only for the race detector
	type free struct {
		s int
		o outcome
	}
	var fr []free
	for i := range scripts {
		for _, o := range outs {
			for k := 0; k < 4; k++ {
				fr = append(fr, free{i, o})
			}
		}
	}
	c.Extra("unordered_sessions_under_race_detector", len(fr))
	c.Par(len(fr), func(w, i int) {
		s := scripts[fr[i].s]
		fs := race.d[w].Run(Sess{Args: []string{"-v", g.Dir}, W: 80, H: 24, Dial: "auto:" + fr[i].o.body, Steps: s, From: len(s)})
		c.Eval(1)
		c.Trans(len(s))
		if l := fs[len(fs)-1]; l.Status != "" {
			c.Fail("ended", map[string]any{"keys": stepNames(s), "result": fr[i].o.name}, "the session ended or hangs: %s", clip(l.Status))
		}
	})
	for _, d := range append(append([]*Driver{}, rig.d...), race.d...) {
		e := d.Stderr()
		for _, r := range strings.Split(e, "==================") {
			if strings.Contains(r, "DATA RACE") && strings.Contains(r, "mashmb/1pass") {
				c.Fail("race", r, "data race: %s", clip(r))
			}
		}
	}
}

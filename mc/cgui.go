package main

import (
	"fmt"
	"slices"
	"strings"
	"sync"
)

func init() {
	checks["C17"] = c17
	checks["C18"] = c18
	checks["C19"] = c19
	checks["C20"] = c20
}

// gItem: an item whose every text is unique and at least five characters long.
func gItem(n int, code, title string, trashed bool, notes bool) VItem {
	d := obj{"sections": []any{obj{"name": "s", "title": fmt.Sprintf("Section%02d", n), "fields": []any{
		obj{"k": "string", "n": "a", "t": fmt.Sprintf("Fieldname%02d", n), "v": fmt.Sprintf("sv%02dsecret", n)},
		obj{"k": "concealed", "n": "b", "t": fmt.Sprintf("Otherfield%02d", n), "v": fmt.Sprintf("hv%02dhidden", n)}}}}}
	if notes {
		d["notesPlain"] = fmt.Sprintf("nl%02dalpha\nnl%02dbeta", n, n)
	}
	return VItem{Uid: uid(5000 + n), Category: code, Trashed: trashed, Created: int64(1300000000 + n*100003), Updated: int64(1400000000 + n*100003), Band: n % 16,
		Overview: obj{"title": title, "url": fmt.Sprintf("https://urlpart%02d.example/", n)}, Details: d}
}

func gvaultOf(c *Ctx, name string, items ...VItem) *gvault {
	return newGVault(c, name, &VVault{Password: "pw", Seed: "gui" + name, Items: items})
}

func titleN(p string, n int) string { return fmt.Sprintf("%s title %02d", p, n) }

// gvaults: the vault shapes of the interactive checks.
func (c *Ctx) gvaults() map[string]*gvault {
	r := map[string]*gvault{}
	put := func(name string, items ...VItem) { r[name] = gvaultOf(c, name, items...) }
	put("empty")
	put("trash", gItem(1, "001", "Alpha title", true, true), gItem(2, "003", "Gamma title", true, false))
	put("one", gItem(1, "005", "Alpha title", false, true))
	put("two", gItem(1, "001", "Beta title", false, true), gItem(2, "001", "Alpha title", false, false), gItem(3, "003", "Gamma title", false, false))
	put("mixed", gItem(1, "001", "Beta title", false, true), gItem(2, "001", "Alpha title", false, false), gItem(3, "003", "Gamma title", false, true), gItem(4, "001", "Delta title", true, false), gItem(5, "111", "Omega title", true, true))
	var all, many, big []VItem
	for i, k := range categoryCodes() {
		all = append(all, gItem(i, k, titleN("Cat", i), false, i%2 == 0))
	}
	all = append(all, gItem(50, "001", "Trash title", true, true))
	put("all", all...)
	for i := 0; i < 30; i++ {
		many = append(many, gItem(i, "001", titleN("Many", i), false, i%3 == 0))
	}
	put("many", many...)
	for i := 0; i < 40; i++ {
		big = append(big, gItem(i, []string{"001", "002"}[i/20], titleN("Both", i), i%2 == 0, i%3 == 0))
	}
	put("halftrash", big...)
	put("titles", gItem(1, "001", "", false, true), gItem(2, "001", strings.Repeat("Long title ", 12)+"end", false, true), gItem(3, "001", "Zażółć gęślą jaźń", false, false),
		gItem(4, "001", "  spaces before", false, false), gItem(5, "001", "%d %s %v percent", false, false), gItem(6, "003", "lower case", false, false), gItem(7, "003", "Upper case", false, false), gItem(8, "003", "", true, false),
		gItem(9, "005", "a", false, true), gItem(10, "005", "-", false, false), gItem(11, "002", "ab", true, false), gItem(12, "002", "<NO TITLE> x", false, false), gItem(13, "002", "(3)", false, false), gItem(14, "006", "All (5)", false, false), gItem(15, "006", "Trashed", false, false))
	put("twins", gItem(1, "001", "Twin title", false, true), gItem(2, "001", "Twin title", false, false), gItem(3, "001", "Twin title", true, true), gItem(4, "001", "Twin title", true, false), gItem(5, "003", "Twin title", false, false),
		gItem(6, "003", "", false, true), gItem(7, "003", "", false, false), gItem(8, "001", "Twin title", false, true), gItem(9, "001", "Twin titled", false, false))
	br := []VItem{gItem(1, "001", "Breakone first\nBreakone second", false, true), gItem(2, "001", "Breaktwo first\r\nBreaktwo second", false, false), gItem(3, "001", "Breakthree first\rBreakthree second", false, true),
		gItem(4, "001", "\nBreakfour", false, false), gItem(5, "001", "Breakfive\n", false, false), gItem(6, "001", "Plainsix", false, false), gItem(7, "003", "Breakseven\n\nBreakseven end", true, true), gItem(8, "003", "Plaineight", true, false), gItem(9, "005", "Breaknine first\r\n", false, true), gItem(10, "001", "Zplain ten", false, true)}
	br[0].Details = obj{"sections": []any{obj{"name": "s", "title": "Brksection\rBrkother", "fields": []any{obj{"k": "string", "n": "a", "t": "Brkfield\r\nBrkname", "v": "brk01secret"}, obj{"k": "string", "n": "b", "t": "Brkthird\rBrkfourth", "v": "brk02secret"}}}}}
	br[2].Overview.(obj)["url"] = "https://brkurl.example/\rbrkrest"
	put("breaks", br...)
	var huge []VItem
	for i := 0; i < 150; i++ {
		huge = append(huge, gItem(i, "001", fmt.Sprintf("Huge title %03d", i), false, i%3 == 0))
	}
	for i := 150; i < 260; i++ {
		huge = append(huge, gItem(i, "003", fmt.Sprintf("Huge title %03d", i), true, i%3 == 0))
	}
	put("huge", huge...)
	return r
}

// shapes: items of every field kind and combination, long texts and foreign line ends.
func (c *Ctx) gshapes() *gvault {
	var items []VItem
	for _, t := range tokenItems(c.Thorough) {
		items = append(items, t.VItem)
	}
	base := func(n int, det obj) {
		items = append(items, VItem{Uid: uid(7000 + n), Category: categoryCodes()[n%18], Trashed: n%4 == 3, Created: int64(1300000000 + n), Updated: int64(1400000000 + n), Overview: obj{"title": titleN("Shape", n)}, Details: det})
	}
	sec := func(v string) any {
		return []any{obj{"name": "s", "title": "Shapesection", "fields": []any{obj{"k": "string", "n": "a", "t": "Shapefield", "v": v}}}}
	}
	base(1, obj{"notesPlain": "crlfnote1\r\ncrlfnote2\r\n\r\ncrlfnote3"})
	base(2, obj{"notesPlain": "cronly1\rcronly2\rcronly3"})
	base(3, obj{"notesPlain": "trailing1\ntrailing2\n"})
	base(4, obj{"sections": sec("multi-line1\nmulti-line2\r\nmulti-line3"), "notesPlain": "after multi"})
	base(5, obj{"sections": sec(strings.Repeat("wide0123456789", 12))})
	var lines []string
	for i := 0; i < 120; i++ {
		lines = append(lines, fmt.Sprintf("tall line %03d", i))
	}
	base(6, obj{"notesPlain": strings.Join(lines, "\n")})
	base(7, obj{"notesPlain": strings.Repeat("widenote987654321", 10), "sections": sec("plainvalue7")})
	base(8, obj{"sections": sec("  leading and trailing  ")})
	base(9, obj{"sections": sec("zażółć-wert"), "notesPlain": "gęślą jaźń notiz"})
	base(10, obj{"sections": sec("percent %d %s %!v"), "notesPlain": "percent %v %% %n note"})
	base(11, obj{"notesPlain": "\nfirst line empty"})
	base(12, obj{"notesPlain": "**-*****-**", "sections": sec("*****stars*****")})
	return newGVault(c, "shapes", &VVault{Password: "pw", Seed: "guishapes", Items: items})
}

var boundKeys = []Ev{ch('j'), ch('k'), ch('h'), ch('l'), ch('q'), key(kDown), key(kUp), key(kLeft), key(kRight), key(kEnter), key(kTab), key(kCtrlL)}
var otherKeys = []Ev{ch('x'), ch('Q'), ch('J'), ch('1'), ch('?'), ch('ż'), key(kSpace), key(kEsc), key(kF1), key(kPgUp), key(kPgDn), key(kHome), key(kEnd), key(kIns), key(kDel), key(kBack), key(kBack2), {C: 'j', M: 1}, {K: kEnter, M: 1}, key(0x01), key(0x03), key(0x1a)}

// moves: every bound key, from the prompt the right and several wrong passwords.
func moves(scroll int, extra ...Ev) func(g *gvault, s gstate) [][]Step {
	return func(g *gvault, s gstate) [][]Step {
		var r [][]Step
		switch s.Mode {
		case mPrompt:
			pw := g.V.Password
			r = append(r, g.unlock(), cat(singles(typed(pw)...), singles(key(kEnter))), singles(key(kEnter)), singles(key(kCtrlL)), singles(key(kTab)))
			for _, x := range []string{pw + "x", pw[:len(pw)-1], strings.ToUpper(pw), "jjl", pw + " "} {
				if x != pw {
					r = append(r, append(singles(typed(x)...), one(key(kEnter))))
				}
			}
			return r
		case mDetails:
			for _, e := range append(append([]Ev{}, boundKeys...), extra...) {
				n := g.next(s, e)
				if n.Ox <= scroll && n.Oy <= scroll {
					r = append(r, singles(e))
				}
			}
			return r
		}
		for _, e := range append(append([]Ev{}, boundKeys...), extra...) {
			r = append(r, singles(e))
		}
		return r
	}
}

// reporter passes the findings of this property on.
func (c *Ctx) reporter(g *gvault, W, H int) func([]Step, gfinding) {
	return func(p []Step, f gfinding) {
		if f.Prop == c.ID {
			c.Fail(f.Key, map[string]any{"vault": g.Name, "window": fmt.Sprintf("%dx%d", W, H), "keys": stepNames(p)}, "%s", f.Msg)
		}
	}
}

func (r *guiRig) complete(name string, done bool) {
	if !done {
		r.c.mu.Lock()
		r.c.exhausted = false
		r.c.mu.Unlock()
		r.c.AddExtra("searches_cut_short", 1)
	} else {
		r.c.AddExtra("searches_to_fixpoint", 1)
	}
}

// maxStates bounds a search (the largest on the current tree needs 958; on a changed tree the
// state may contain something that never repeats).
func (c *Ctx) maxStates() int {
	if c.Thorough {
		return 60000
	}
	return 2000
}

type size struct{ W, H int }

// subsets: every subset of four categories, with and without trash.
func (c *Ctx) gsubsets() []*gvault {
	var r []*gvault
	codes := []string{"001", "002", "005", "111"}
	for m := 0; m < 32; m++ {
		var it []VItem
		for i, k := range codes {
			if m>>i&1 == 1 {
				it = append(it, gItem(2*i, k, titleN("Sub", 2*i), false, false))
				if i%2 == 0 {
					it = append(it, gItem(2*i+1, k, titleN("Sub", 2*i+1), false, false))
				}
			}
		}
		if m&16 != 0 {
			it = append(it, gItem(20, "003", "Trash title", true, false), gItem(21, "001", "Trash other", true, false))
		}
		r = append(r, gvaultOf(c, fmt.Sprintf("sub%02d", m), it...))
	}
	return r
}

// exploreAll: the searches that C17, C18 and C19 share.
func (c *Ctx) exploreAll(rig *guiRig, sizes []size, scroll, unmerged int, names ...string) {
	vs := c.gvaults()
	for _, sz := range sizes {
		for _, n := range names {
			g := vs[n]
			rep := c.reporter(g, sz.W, sz.H)
			if len(g.panes) == 0 || g.panes[paneKey(sz.W, g.Items[0])] == nil {
				rig.capture(g, sz.W, rep)
			}
			big, sc := len(g.Items) > 6 && !c.Thorough, scroll
			if big {
				sc = 0
			}
			done := rig.explore(g, gsearch{W: sz.W, H: sz.H, Moves: moves(sc, ch('x'), key(kPgDn)), Max: c.maxStates(), Coarse: big}, rep)
			rig.complete(n, done)
			if c.Stop() {
				return
			}
		}
	}
	// unmerged: every key sequence up to a depth, whatever the state hash says
	g := vs["mixed"]
	rep := c.reporter(g, 80, 24)
	if g.panes[paneKey(80, g.Items[0])] == nil {
		rig.capture(g, 80, rep)
	}
	small := func(g *gvault, s gstate) [][]Step {
		if s.Mode == mPrompt {
			return [][]Step{g.unlock(), append(singles(typed("no")...), one(key(kEnter)))}
		}
		var r [][]Step
		for _, e := range []Ev{ch('j'), ch('k'), ch('h'), ch('l'), key(kEnter), key(kTab), key(kCtrlL)} {
			r = append(r, singles(e))
		}
		return r
	}
	rig.explore(g, gsearch{W: 80, H: 24, Moves: small, Depth: unmerged, NoMerge: unmerged, Start: [][]Step{g.unlock(), cat(g.unlock(), singles(ch('j'), key(kEnter), ch('j'), key(kTab))), cat(g.unlock(), singles(ch('j'), ch('j'), ch('j'), ch('l'), key(kTab), ch('j'), ch('l')))}}, rep)
	c.Extra("unmerged_depth", unmerged)
}

var gresizes = []Ev{{W: 80, H: 24}, {W: 81, H: 24}, {W: 100, H: 30}, {W: 200, H: 60}, {W: 80, H: 50}}

// resized: the searches with changes of the window size among the transitions (what a pane shows
// is only judged by what must not be on the screen, since panes keep the size they were opened with).
func (c *Ctx) resized(rig *guiRig, names ...string) {
	vs := c.gvaults()
	max := 250
	if c.Thorough {
		max = 4000
	}
	for _, n := range names {
		g := vs[n]
		rep := c.reporter(g, 80, 24)
		mv := func(g *gvault, s gstate) [][]Step {
			r := moves(1, gresizes...)(g, s)
			if s.Mode == mPrompt {
				for _, e := range append(append([]Ev{}, gresizes...), ch('z'), ch('p')) {
					if len([]rune(s.Typed)) < 3 || e.C == 0 {
						r = append(r, singles(e))
					}
				}
			}
			return r
		}
		rig.explore(g, gsearch{W: 80, H: 24, Moves: mv, Max: max}, func(st []Step, f gfinding) {
			switch f.Key {
			case "details", "overview", "details-begin":
				return
			}
			rep(st, f)
		})
		c.AddExtra("searches_with_resizes", 1)
		if c.Stop() {
			return
		}
	}
}

var gsizes = []size{{80, 24}, {100, 30}, {121, 41}}

// ---------------------------------------------------------------- C17

func c17(c *Ctx) {
	c.Rule = "state = (real interface state incl. views, widgets and vault services; model state). Transition = one key executed by the real main() on a simulated terminal, the screen compared with the model. Non-trivial: every transition"
	c.Assume = []string{"window size constant during the session and at least 80x24", "titles without escape sequences and wide characters"}
	rig := c.newGui(c.App)
	defer rig.close()
	sizes, scroll, un := gsizes[:2], 1, 4
	if c.Thorough {
		sizes, scroll, un = gsizes, 3, 6
	}
	c.exploreAll(rig, sizes, scroll, un, "empty", "trash", "one", "two", "mixed", "all", "many", "halftrash", "titles", "twins", "breaks")
	for _, g := range c.gsubsets() {
		if c.Stop() {
			return
		}
		rep := c.reporter(g, 80, 24)
		rig.capture(g, 80, rep)
		rig.complete(g.Name, rig.explore(g, gsearch{W: 80, H: 24, Moves: moves(0), Max: c.maxStates()}, rep))
	}
	if c.Thorough {
		g := c.gshapes()
		rep := c.reporter(g, 80, 24)
		rig.capture(g, 80, rep)
		rig.complete("shapes", rig.explore(g, gsearch{W: 80, H: 24, Moves: moves(1), Max: c.maxStates()}, rep))
	}
	c.long(rig)
}

// long: sessions that walk through whole lists down and up again, several times, with relocks.
func (c *Ctx) long(rig *guiRig) {
	vs := c.gvaults()
	type job struct {
		g     *gvault
		steps []Step
	}
	var jobs []job
	for _, n := range []string{"mixed", "all", "many", "halftrash", "titles", "twins", "breaks"} {
		g := vs[n]
		rig.capture(g, 80, c.reporter(g, 80, 24))
		for m := range g.Menu {
			k := len(g.Menu[m].Items)
			down := cat(singles(rep(ch('j'), m)...), singles(key(kEnter)), singles(rep(ch('j'), k+1)...))
			up := singles(rep(ch('k'), k+1)...)
			relock := cat(singles(key(kCtrlL)), g.unlock())
			for v := 0; v < 6; v++ {
				s := cat(g.unlock(), down)
				switch v {
				case 0:
					s = cat(s, up, singles(ch('q')), singles(rep(ch('k'), m+1)...), down)
				case 1:
					s = cat(s, relock, down, up)
				case 2:
					s = cat(s, singles(key(kTab)), relock, singles(rep(key(kDown), len(g.Menu)+1)...), singles(key(kRight)), singles(rep(key(kDown), k)...))
				case 3:
					s = cat(s, singles(key(kLeft), key(kRight), key(kTab), key(kTab)), up)
				case 4:
					s = cat(s, singles(key(kTab), ch('l'), ch('j'), ch('j'), key(kTab)), up, singles(key(kTab), key(kTab), ch('h')), singles(rep(ch('j'), len(g.Menu))...), singles(ch('l'), ch('j'), ch('k')))
				case 5:
					s = cat(s, relock, singles(rep(ch('j'), len(g.Menu)+2)...), singles(rep(ch('k'), len(g.Menu)+2)...), down, relock, down)
				}
				jobs = append(jobs, job{g, s})
			}
		}
	}
	c.Par(len(jobs), func(w, i int) { rig.follow(w, jobs[i].g, 80, 24, jobs[i].steps) })
	c.huge(rig)
	c.cycles(rig)
}

// huge: walks through lists of more than a hundred items.
func (c *Ctx) huge(rig *guiRig) {
	g := c.gvaults()["huge"]
	rig.capture(g, 80, c.reporter(g, 80, 24))
	var jobs [][]Step
	for m := range g.Menu {
		k := len(g.Menu[m].Items)
		enter := cat(g.unlock(), singles(rep(ch('j'), m)...), singles(key(kEnter)))
		jobs = append(jobs, cat(enter, singles(rep(ch('j'), k+1)...), singles(key(kTab), key(kTab)), singles(rep(ch('k'), k+1)...), singles(key(kTab), key(kTab), ch('q'))))
		jobs = append(jobs, cat(enter, singles(rep(key(kDown), k)...), singles(key(kCtrlL)), g.unlock(), singles(key(kEnter), ch('j'), key(kTab))))
		for at := 5; at < k; at += 9 {
			jobs = append(jobs, cat(enter, chunks(rep(ch('j'), at), 15), singles(key(kTab), ch('j'), key(kTab), ch('k'), ch('j'), ch('j'), key(kTab), key(kCtrlL)), g.unlock(), singles(key(kEnter))))
		}
	}
	c.AddExtra("walks_through_long_lists", len(jobs))
	c.Par(len(jobs), func(w, i int) { rig.follow(w, g, 80, 24, jobs[i]) })
}

// cycles: every key and every pair of keys repeated many times from the menu, a list and a
// revealed item, and lock, unlock and wrong-password cycles.
func (c *Ctx) cycles(rig *guiRig) {
	const n = 40
	g := c.gvaults()["mixed"]
	rig.capture(g, 80, c.reporter(g, 80, 24))
	wrong := func(s string) []Step { return append(chunks(typed(s), 16), one(key(kEnter)), one(key(kEnter))) }
	times := func(k int, st []Step) []Step {
		var r []Step
		for i := 0; i < k; i++ {
			r = append(r, st...)
		}
		return r
	}
	look := singles(ch('j'), key(kEnter), key(kTab), key(kTab), ch('q'), ch('k'), key(kEnter), key(kTab), key(kCtrlL))
	un := g.unlock()
	lock := singles(key(kCtrlL))
	jobs := [][]Step{
		cat(times(n, wrong("no")), un, look, un, look),
		cat(times(n, wrong("")), un, look, un, look),
		cat(un, look, times(n, wrong("pwx")), un, look, wrong("x"), un, look),
		times(n, cat(un, lock)),
		times(n/2, cat(un, look)),
		times(n/2, cat(wrong("a"), un, look)),
		times(n/3, cat(un, singles(ch('j'), ch('j'), key(kEnter), ch('j'), key(kTab)), lock, wrong("pw "), wrong("P"))),
		times(n/2, cat(un, singles(key(kEnter), ch('q'), ch('j'), key(kEnter), ch('q')), lock)),
		cat(un, times(n, singles(key(kEnter), ch('j'), key(kTab), ch('j'), key(kTab), ch('q'))), look),
		cat(times(3, cat(un, lock)), lock, un, look),
	}
	starts := [][]Step{un, cat(un, singles(ch('j'), key(kEnter))), cat(un, singles(key(kEnter), ch('j'), key(kTab)))}
	for _, st := range starts {
		for i, a := range append(append([]Ev{}, boundKeys...), otherKeys...) {
			jobs = append(jobs, cat(st, singles(rep(a, n)...)))
			for _, b := range boundKeys {
				if i >= len(boundKeys) && !c.Thorough {
					break
				}
				x := cat(st, times(n/4, singles(a, b)))
				if c.Thorough {
					x = cat(st, times(n, singles(a, b)))
				}
				jobs = append(jobs, x)
			}
		}
	}
	c.AddExtra("repetition_sessions", len(jobs))
	c.Par(len(jobs), func(w, i int) {
		if !c.Stop() {
			rig.follow(w, g, 80, 24, jobs[i])
		}
	})
}

// follow runs a session in lockstep with the model.
func (r *guiRig) follow(w int, g *gvault, W, H int, steps []Step) {
	r.c.Eval(1)
	r.c.Trans(len(steps))
	r.c.Distinct(1)
	r.c.Trace(1)
	m := g.init()
	for i, f := range r.sess(w, g, W, H, steps, 0) {
		if i > 0 {
			m = g.run(m, steps[i-1:i])
		}
		own := false
		for _, x := range g.judge(&f, m) {
			r.c.reporter(g, W, H)(steps[:i], x)
			own = own || x.Prop == r.c.ID
		}
		if own || f.Status != "" {
			return
		}
	}
}

// covered: the covered pane of items that differ only in values and notes is the same.
func (c *Ctx) covered(rig *guiRig) {
	its := tokenItems(false)
	n := 30
	if c.Thorough {
		n = 60
	}
	want := map[string][2]string{}
	for k, x := range variants {
		if len(x.s) > 100 || strings.Trim(x.s, " *") == "" {
			continue
		}
		var items []VItem
		for i, it := range its[:2*n] {
			if i%2 == 0 {
				it.VItem.Details = vary(it.Details, x.s, x.n)
				items = append(items, it.VItem)
			}
		}
		g := newGVault(c, fmt.Sprintf("variant%d", k), &VVault{Password: "pw", Seed: "guivariants", Items: items})
		rig.capture(g, 80, c.reporter(g, 80, 70))
		for _, it := range g.Items {
			p := g.panes[paneKey(80, it)]
			if p == nil {
				continue
			}
			o := strings.Join(p.Over, "\n")
			if w, ok := want[it.R.Uid]; !ok {
				want[it.R.Uid] = [2]string{o, x.s}
			} else if w[0] != o {
				c.Fail("depends", obj{"item": it.R.Uid, "value": x.s, "number": x.n, "other_value": w[1], "pane": o, "other_pane": w[0]}, "the covered item depends on its values or notes: with %q it is\n%s\nwith %q it is\n%s", w[1], w[0], x.s, o)
			}
			c.Distinct(1)
		}
		c.AddExtra("value_variants", 1)
	}
}

// ---------------------------------------------------------------- C19

func c19(c *Ctx) {
	c.Rule = "state = (real interface state, model state). Transition = one key executed by the real main() on a simulated terminal; every screen is searched for values and notes of all items that are not revealed, and the details pane is compared with the item. Non-trivial: every transition"
	c.Assume = []string{"terminals of at least 80x24", "texts without escape sequences and wide characters"}
	rig := c.newGui(c.App)
	defer rig.close()
	sizes, scroll, un := gsizes[:1], 3, 4
	if c.Thorough {
		sizes, scroll, un = gsizes, 6, 6
	}
	c.exploreAll(rig, sizes, scroll, un, "trash", "one", "two", "mixed", "all", "many", "titles", "twins", "breaks")
	c.resized(rig, "one", "mixed")
	c.huge(rig)
	c.cycles(rig)
	c.covered(rig)
	g := c.gshapes()
	ws := []int{80, 100}
	if c.Thorough {
		ws = []int{80, 81, 100, 133, 200}
	}
	for _, W := range ws {
		rig.capture(g, W, c.reporter(g, W, 70))
		// walk through every entry: reveal, scroll, cover, go on; reveal twice; lock while revealed
		type job struct{ m, i int }
		var jobs []job
		for m := range g.Menu {
			for i := range g.Menu[m].Items {
				jobs = append(jobs, job{m, i})
			}
		}
		c.Par(len(jobs), func(w, k int) {
			j := jobs[k]
			st := cat(g.unlock(), chunks(rep(ch('j'), j.m), 16), singles(key(kEnter)), chunks(rep(ch('j'), j.i), 16))
			tail := singles(key(kTab), key(kTab), key(kTab), ch('j'), ch('l'), ch('k'), ch('h'), ch('h'), ch('l'), ch('j'), ch('j'), key(kTab), ch('j'), key(kTab), key(kTab), ch('k'), key(kTab), ch('l'), ch('l'), key(kCtrlL))
			tail = cat(tail, g.unlock(), singles(key(kEnter), key(kTab), key(kTab), ch('q')))
			rig.follow(w, g, W, 24, cat(st, tail))
			if W == 80 {
				var ev []Ev
				ev = append(ev, rep(key(kTab), 2)...)
				rig.follow(w, g, W, 24, cat(st, []Step{batch(ev...), batch(key(kTab), ch('j'), key(kTab)), batch(key(kTab), ch('l'), key(kTab), ch('j')), batch(key(kTab), key(kTab), ch('k'), key(kTab)), batch(key(kTab), ch('q')), batch(key(kEnter), key(kTab), key(kCtrlL))}))
			}
		})
		c.AddExtra("item_walks", len(jobs))
	}
}

// ---------------------------------------------------------------- C18

func passwords(thorough bool) []string {
	var r []string
	for b := 0x20; b < 0x7f; b++ {
		r = append(r, string(rune(b)))
		r = append(r, "x"+string(rune(b)), string(rune(b))+"y")
	}
	s := "correct horse battery staple 0123456789 abcdefghijklmnopqrstuvwxyz ABCDEFGHIJKLMNOPQRSTUVWXYZ !#$%&()*+,-./:;<=>?@[]^_{|}~ and so on and on"
	for n := 2; n <= len(s); n++ {
		if thorough || n < 24 || n > 50 && n < 70 || n%7 == 0 {
			r = append(r, s[:n])
		}
	}
	return append(r, "  ", "   ", " a", "a ", " a b ", "a  b", "żółw", "ÄÖÜß", "пароль", "ñ", "é€", "p\u00a0w", "jjkkhhllqq", "tab", "***", "**********", "%s%d", "\\n", "\"'`", "a\\")
}

func c18(c *Ctx) {
	c.Rule = "state = (real interface state, model state). Transition = one batch of keys executed by the real main() on a simulated terminal; while the model is locked no text of the vault may be on the screen. Lock key from every reachable state; all key sequences up to a length in all groupings into batches; passwords of all lengths and characters. Non-trivial: every transition"
	c.Assume = []string{"batches of at most 16 keys (the event queue of the terminal library holds 20)", "no editing keys inside the password field"}
	rig := c.newGui(c.App)
	defer rig.close()
	sizes, scroll, un := gsizes[:1], 2, 4
	if c.Thorough {
		sizes, scroll, un = gsizes, 4, 6
	}
	c.exploreAll(rig, sizes, scroll, un, "empty", "trash", "one", "two", "mixed", "all")
	c.resized(rig, "one", "mixed")
	c.cycles(rig)
	if c.Stop() {
		return
	}
	// groupings
	mk := func(name, pw string) *gvault {
		g := newGVault(c, name, &VVault{Password: pw, Seed: "gui" + name, Items: []VItem{gItem(1, "001", "Alpha title", false, true), gItem(2, "001", "Beta title", false, false), gItem(3, "003", "Gamma title", true, true)}})
		rig.capture(g, 80, c.reporter(g, 80, 24))
		return g
	}
	depth := 5
	if c.Thorough {
		depth = 7
	}
	for _, pw := range []string{"a", "l"} {
		g := mk("grp"+pw, pw)
		alpha := []Ev{ch([]rune(pw)[0]), key(kEnter), key(kTab), key(kCtrlL), ch('j')}
		if pw == "a" {
			alpha[4] = ch('l')
		}
		var seqs [][]Ev
		for n := 1; n <= depth; n++ {
			idx := make([]int, n)
			for {
				var ev []Ev
				for _, i := range idx {
					ev = append(ev, alpha[i])
				}
				// only sequences that unlock at some point or stay locked by a wrong entry
				if n == depth || n <= 2 {
					seqs = append(seqs, ev)
				}
				k := n - 1
				for k >= 0 && idx[k] == len(alpha)-1 {
					idx[k] = 0
					k--
				}
				if k < 0 {
					break
				}
				idx[k]++
			}
		}
		c.Par(len(seqs), func(w, i int) {
			ev := seqs[i]
			for m := 0; m < 1<<(len(ev)-1); m++ {
				var st []Step
				cur := []Ev{}
				for k, e := range ev {
					cur = append(cur, e)
					if k == len(ev)-1 || m>>k&1 == 1 {
						st = append(st, batch(cur...))
						cur = nil
					}
				}
				rig.follow(w, g, 80, 24, st)
			}
		})
		c.AddExtra("grouped_sequences", len(seqs)<<(depth-1))
		// long scripts in every grouping
		pwe := append(typed(pw), key(kEnter))
		for _, script := range [][]Ev{
			append(append(append([]Ev{}, pwe...), ch('l'), key(kTab), key(kCtrlL)), pwe...),
			append(append(append([]Ev{}, pwe...), key(kEnter), key(kCtrlL)), append(append([]Ev{}, pwe...), key(kEnter), key(kTab))...),
			append([]Ev{ch('z'), key(kEnter), key(kEnter)}, append(append([]Ev{}, pwe...), key(kEnter), key(kTab), ch('j'), key(kCtrlL))...),
			append(append([]Ev{}, pwe...), key(kCtrlL), ch('z'), key(kEnter), key(kTab), key(kCtrlL), key(kEnter), ch([]rune(pw)[0]), key(kEnter)),
		} {
			c.Par(1<<(len(script)-1), func(w, m int) {
				var st []Step
				var cur []Ev
				for k, e := range script {
					cur = append(cur, e)
					if k == len(script)-1 || m>>k&1 == 1 {
						st = append(st, batch(cur...))
						cur = nil
					}
				}
				rig.follow(w, g, 80, 24, st)
			})
			c.AddExtra("script_groupings", 1<<(len(script)-1))
		}
	}
	// passwords
	pws := passwords(c.Thorough)
	c.Par(len(pws), func(w, i int) {
		pw := pws[i]
		g := newGVault(c, fmt.Sprintf("pw%d", i), &VVault{Password: pw, Seed: "pw", Items: []VItem{gItem(1, "001", "Alpha title", false, true)}})
		rs := []rune(pw)
		en := one(key(kEnter))
		rig.follow(w, g, 80, 24, cat(singles(typed(pw)...), []Step{en}, singles(key(kEnter), key(kCtrlL)), singles(typed(pw)...), []Step{en}))
		rig.follow(w, g, 80, 24, cat(chunks(typed(pw), 16), []Step{en}, singles(key(kCtrlL)), chunks(append(typed(pw), key(kEnter)), 13)))
		wrong := []string{pw + "x", "x" + pw, pw + " ", " " + pw, string(rs[:len(rs)-1]), pw + pw, swapCase(pw), strings.TrimSpace(pw), string(rs[1:])}
		var st []Step
		for _, x := range wrong {
			if x == pw {
				continue
			}
			st = cat(st, chunks(typed(x), 7), []Step{en, en})
		}
		rig.follow(w, g, 80, 24, cat(st, chunks(typed(pw), 5), []Step{en}, singles(key(kEnter), key(kTab), key(kCtrlL)), chunks(typed(wrong[0]), 9), []Step{en, en}, singles(typed(pw)...), []Step{en}))
	})
	c.Extra("passwords", len(pws))
}

func swapCase(s string) string {
	if t := strings.ToUpper(s); t != s {
		return t
	}
	return strings.ToLower(s)
}

// ---------------------------------------------------------------- C20

func c20(c *Ctx) {
	c.Rule = "state = (real interface state, model state). Transition = a key, a pair of keys in one batch or a resize, executed by the real main() on a simulated terminal. From every state: quit, and a probe that the right password still leads to the menu. Windows of 80x24 and more are part of the search; smaller ones (every height from 0 to 24 x 22 widths) are entered from every kind of state or from the start, keys pressed there, and the window enlarged again: the session must still be that of a fresh start after locking and unlocking. Non-trivial: every transition"
	c.Assume = []string{"batches of at most 16 keys", "windows below 80x24: what is shown while the window is that small is not judged"}
	rig := c.newGui(c.App)
	defer rig.close()
	vs := c.gvaults()
	resizes := gresizes
	names := []string{"empty", "trash", "one", "mixed", "all", "many"}
	var mu sync.Mutex
	fail := func(g *gvault, k string, st []Step, f *Frame, what string) {
		mu.Lock()
		defer mu.Unlock()
		c.Fail(k, map[string]any{"vault": g.Name, "keys": stepNames(st)}, "%s: %s", what, clip(f.Status))
	}
	alive := func(w int, g *gvault, st []Step, W, H int, final string) {
		// quit
		q := cat(st, singles(key(kCtrlQ)))
		fs := rig.sess(w, g, W, H, q, len(q))
		if f := &fs[len(fs)-1]; f.Status != "return" && f.Status != "exit 0" {
			fail(g, "quit", q, f, "the quit key does not end the session normally")
		}
		c.Trans(1)
		// batched quit
		if len(st) > 0 {
			l := st[len(st)-1]
			if l.R == "" && len(l.E) < 10 {
				q := append(append([]Step{}, st[:len(st)-1]...), batch(append(append([]Ev{}, l.E...), key(kCtrlQ))...))
				fs := rig.sess(w, g, W, H, q, len(q))
				if f := &fs[len(fs)-1]; f.Status != "return" && f.Status != "exit 0" {
					fail(g, "quit", q, f, "the quit key does not end the session normally")
				}
				c.Trans(1)
			}
		}
		// reacts
		cur := st
		for round := 0; round < 6; round++ {
			fs := rig.sess(w, g, W, H, cur, len(cur))
			f := &fs[len(fs)-1]
			c.Trans(1)
			if f.Status != "" {
				fail(g, "ended", cur, f, "the session ended or hangs")
				return
			}
			pw, er := f.find("Password"), f.find("Error")
			switch {
			case er != nil:
				cur = cat(cur, singles(key(kEnter)))
			case pw != nil && strings.TrimSpace(strings.Join(pw.Rows, "")) != "":
				cur = cat(cur, singles(ch('z'), key(kEnter))) // something is typed: submit it with a letter more
			case pw != nil:
				n := cat(cur, g.unlock())
				fs := rig.sess(w, g, W, H, n, len(n))
				f := &fs[len(fs)-1]
				if f.Status == "" && f.find("Password") == nil && f.find("Error") == nil {
					if final != "" && f.Screen() != final {
						fail(g, "menu", n, f, "after unlocking, the screen is not that of a fresh session")
					}
					return
				}
				cur = n // a key typed before may have changed the text; the next attempt starts afresh
				if round > 2 {
					fail(g, "stuck", n, f, "the session does not react to the right password any more")
					return
				}
			default:
				cur = cat(cur, singles(key(kCtrlL)))
			}
		}
		fail(g, "stuck", cur, &Frame{}, "the session cannot be brought back to the password prompt")
	}
	for _, n := range names {
		g := vs[n]
		rep := c.reporter(g, 80, 24)
		var nodes []gnode
		all := append(append([]Ev{}, boundKeys...), otherKeys...)
		all = append(all, resizes...)
		mv := func(g *gvault, s gstate) [][]Step {
			r := moves(1, append(append([]Ev{}, otherKeys...), resizes...)...)(g, s)
			if s.Mode == mPrompt {
				for _, e := range append(append([]Ev{}, resizes...), all...) {
					if len([]rune(s.Typed)) < 2 || e.C == 0 && e.K != kSpace {
						r = append(r, singles(e))
					}
				}
			}
			return r
		}
		depth, max := 0, 400
		if n == "many" || n == "all" {
			max = 150
		}
		if c.Thorough {
			max *= 10
		}
		rig.explore(g, gsearch{W: 80, H: 24, Moves: mv, Depth: depth, Max: max, Visit: func(w int, g *gvault, x gnode, f *Frame) {
			mu.Lock()
			nodes = append(nodes, x)
			mu.Unlock()
		}}, rep)
		if c.Stop() {
			return
		}
		c.AddExtra("states_probed", len(nodes))
		c.Par(len(nodes), func(w, i int) { alive(w, g, nodes[i].steps, 80, 24, "") })
		// pairs in one batch, from one state per model state
		var pick []gnode
		seen := map[string]bool{}
		for _, x := range nodes {
			k := fmt.Sprintf("%d %v %v", x.m.Mode, x.m.Typed != "", x.m.Sel == len(g.Menu)-1)
			if x.m.Mode != mPrompt && !seen[k] || x.m.Mode == mPrompt && !seen[k] && len(x.m.Typed) < 2 {
				seen[k] = true
				pick = append(pick, x)
			}
		}
		type job struct {
			st   []Step
			a, b Ev
		}
		var jobs []job
		for _, x := range pick {
			for _, a := range all {
				for _, b := range all {
					jobs = append(jobs, job{x.steps, a, b})
				}
			}
		}
		c.AddExtra("batched_pairs", len(jobs))
		c.Par(len(jobs), func(w, i int) {
			j := jobs[i]
			st := cat(j.st, []Step{batch(j.a, j.b), one(ch('j')), batch(key(kEnter), key(kTab)), one(key(kCtrlL))})
			c.Eval(1)
			c.Distinct(1)
			c.Trans(4)
			fs := rig.sess(w, g, 80, 24, st, len(st))
			if f := &fs[len(fs)-1]; f.Status != "" {
				fail(g, "ended", st, f, "the session ended or hangs")
			}
		})
		if c.Stop() {
			return
		}
	}
	c.tiny(rig, vs, alive, fail)
	if c.Stop() {
		return
	}
	c.huge(rig)
	c.cycles(rig)
	// scrolling far in every direction, in short, long and wide items
	{
		g := c.gshapes()
		var jobs [][]Step
		for m := range g.Menu {
			for i, it := range g.Menu[m].Items {
				if m > 0 && i > 2 || m == 0 && i%7 != 0 && !strings.HasPrefix(it.R.Title, "Shape") {
					continue
				}
				st := cat(g.unlock(), chunks(rep(ch('j'), m), 15), singles(key(kEnter)), chunks(rep(ch('j'), i), 15), singles(key(kTab)))
				x := cat(chunks(rep(ch('j'), 230), 10), chunks(rep(ch('l'), 230), 10), chunks(rep(ch('k'), 240), 10), chunks(rep(ch('h'), 240), 10))
				jobs = append(jobs, cat(st, x, singles(key(kTab), ch('j'), key(kTab), ch('h'), ch('k'), key(kCtrlL)), g.unlock()))
			}
		}
		c.AddExtra("scrolling_sessions", len(jobs))
		c.Par(len(jobs), func(w, i int) { rig.follow(w, g, 80, 24, jobs[i]) })
	}
	// every sequence of prompt and editing keys
	g := vs["one"]
	edit := []Ev{ch('p'), ch('w'), key(kSpace), key(kBack2), key(kBack), key(kDel), key(kLeft), key(kRight), key(kUp), key(kDown), key(kHome), key(kEnd), key(kIns), key(kEnter), key(kTab), key(kCtrlL), {W: 100, H: 30}}
	d := 3
	if c.Thorough {
		d = 4
	}
	n := 1
	for i := 0; i < d; i++ {
		n *= len(edit)
	}
	c.Par(n, func(w, i int) {
		var ev []Ev
		for k := 0; k < d; k++ {
			ev = append(ev, edit[i%len(edit)])
			i /= len(edit)
		}
		for _, st := range [][]Step{singles(ev...), {batch(ev...)}} {
			c.Eval(1)
			c.Distinct(1)
			c.Trans(d)
			fs := rig.sess(w, g, 80, 24, st, len(st))
			if f := &fs[len(fs)-1]; f.Status != "" {
				fail(g, "ended", st, f, "the session ended or hangs")
			}
		}
	})
	c.Extra("prompt_editing_sequences", n)
}

func in(l []int, x int) bool { return slices.Contains(l, x) }

// tiny: windows too small for the layout, entered from every kind of state and at the start.
func (c *Ctx) tiny(rig *guiRig, vs map[string]*gvault, alive func(w int, g *gvault, st []Step, W, H int, final string), fail func(g *gvault, k string, st []Step, f *Frame, what string)) {
	var sizes []Ev
	for _, w := range []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 10, 13, 20, 30, 31, 40, 58, 59, 60, 61, 62, 79, 80} {
		for h := 0; h <= 24; h++ {
			if w > 0 && h > 0 { // the terminal library knows no empty windows
				sizes = append(sizes, Ev{W: w, H: h})
			}
		}
	}
	full := Ev{W: 80, H: 24}
	keys := []Ev{ch('j'), ch('k'), ch('h'), ch('l'), ch('q'), key(kEnter), key(kTab), key(kCtrlL), key(kBack2), key(kLeft), key(kDown), key(kUp), key(kRight)}
	type job struct {
		g     *gvault
		st    []Step
		w, h  int
		probe bool
	}
	var jobs []job
	for _, n := range []string{"empty", "trash", "mixed", "many"} {
		g := vs[n]
		u := g.unlock()
		starts := [][]Step{nil, singles(ch('z')), chunks(rep(ch('z'), 90), 15), singles(ch('z'), key(kEnter)), u, cat(u, singles(key(kEnter))), cat(u, singles(key(kEnter), key(kTab)))}
		if n == "mixed" || n == "many" {
			starts = append(starts, cat(u, chunks(rep(ch('j'), 30), 15)), cat(u, singles(key(kEnter)), chunks(rep(ch('j'), 45), 15)), cat(u, singles(key(kEnter), key(kTab)), chunks(rep(ch('j'), 10), 15), chunks(rep(ch('l'), 10), 15)))
		}
		for si, z := range sizes {
			// quick: every size is entered; keys are pressed in those at which a pane degenerates
			some := c.Thorough || in([]int{1, 2, 3, 5, 8, 30, 60, 79}, z.W) && in([]int{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 17}, z.H)
			few := c.Thorough || in([]int{1, 4, 60}, z.W) && in([]int{1, 8, 10}, z.H)
			for xi, st := range starts {
				x := cat(st, singles(z))
				jobs = append(jobs, job{g, cat(x, singles(full)), 80, 24, (si+xi)%4 == 0 || some && n == "mixed"})
				if some {
					for ki, k := range keys {
						jobs = append(jobs, job{g, cat(x, singles(k, full)), 80, 24, (si+ki)%13 == 0 || c.Thorough})
					}
				}
				if few {
					for _, k := range keys {
						for _, l := range keys {
							jobs = append(jobs, job{g, cat(x, singles(k, l, full)), 80, 24, false})
						}
					}
				}
			}
			if !some {
				continue
			}
			// the whole session in the small window
			for _, k := range keys {
				jobs = append(jobs, job{g, cat(g.unlock(), singles(key(kEnter), k, key(kTab), k, key(kTab), key(kCtrlL)), g.unlock(), singles(k, full)), z.W, z.H, k == keys[0]})
			}
			jobs = append(jobs, job{g, singles(z, Ev{W: 200, H: 60}, z, full), z.W, z.H, true})
		}
	}
	final := map[string]string{}
	for _, j := range jobs {
		if final[j.g.Name] == "" {
			fs := rig.sess(0, j.g, 80, 24, j.g.unlock(), len(j.g.unlock()))
			final[j.g.Name] = fs[len(fs)-1].Screen()
		}
	}
	c.Extra("small_window_sessions", len(jobs))
	c.Par(len(jobs), func(w, i int) {
		j := jobs[i]
		c.Eval(1)
		c.Distinct(1)
		c.Trans(len(j.st))
		if j.probe {
			alive(w, j.g, j.st, j.w, j.h, final[j.g.Name])
			return
		}
		fs := rig.sess(w, j.g, j.w, j.h, j.st, len(j.st))
		if f := &fs[len(fs)-1]; f.Status != "" {
			fail(j.g, "ended", j.st, f, fmt.Sprintf("started in a window of %dx%d: the session ended or hangs", j.w, j.h))
		}
	})
}

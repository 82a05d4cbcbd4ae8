package main

import (
	"fmt"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"
)

// Reference model of the interactive session, kept in lockstep with the real one.

type gitem struct {
	R       *RItem
	Secrets []string // lines of values and notes
	Open    []string // title, URL, section titles, field names
}

type gentry struct {
	Name  string // All, category name, Trashed
	Count int
	Items []*gitem
}

type gvault struct {
	Name  string
	V     *VVault
	Dir   string
	Items []*gitem
	Menu  []gentry
	mu    sync.Mutex
	panes map[string]*gpane // per width and item
}

// gpane: what the details pane shows of an item: covered, and the whole revealed text.
type gpane struct {
	Over []string // rows of the covered pane, right-trimmed
	Full []string // lines of the revealed text
	Wide int      // columns captured
	Rows int      // lines captured over the full width
	W    int
}

func splitLines(s string) []string {
	return strings.Split(strings.ReplaceAll(strings.ReplaceAll(s, "\r\n", "\n"), "\r", "\n"), "\n")
}

func newGVault(c *Ctx, name string, v *VVault) *gvault {
	g := &gvault{Name: name, V: v, Dir: filepath.Join(c.Scratch, "gv-"+name), panes: map[string]*gpane{}}
	v.write(g.Dir)
	for i := range v.Items {
		r := refItem(&v.Items[i])
		if r == nil {
			continue
		}
		it := &gitem{R: r}
		for _, s := range r.Sections {
			it.Open = append(it.Open, splitLines(s.Title)...)
			for _, f := range s.Fields {
				it.Open = append(it.Open, splitLines(f.Name)...)
				it.Secrets = append(it.Secrets, splitLines(f.Value)...)
			}
		}
		it.Secrets = append(it.Secrets, splitLines(r.Notes)...)
		it.Open = append(append(it.Open, splitLines(r.Title)...), splitLines(r.Url)...)
		g.Items = append(g.Items, it)
	}
	sort.Slice(g.Items, func(i, j int) bool {
		a, b := g.Items[i].R, g.Items[j].R
		if a.Code == b.Code && a.Title == b.Title {
			return a.Uid < b.Uid
		}
		return a.Code < b.Code || a.Code == b.Code && a.Title < b.Title
	})
	all, trash := gentry{Name: "All"}, gentry{Name: "Trashed"}
	cats := map[string]*gentry{}
	for _, it := range g.Items {
		if it.R.Trashed {
			trash.Items = append(trash.Items, it)
			continue
		}
		all.Items = append(all.Items, it)
		if cats[it.R.Code] == nil {
			cats[it.R.Code] = &gentry{Name: categoryNames[it.R.Code]}
		}
		cats[it.R.Code].Items = append(cats[it.R.Code].Items, it)
	}
	if len(all.Items) > 0 {
		g.Menu = append(g.Menu, all)
	}
	for _, k := range categoryCodes() {
		if cats[k] != nil {
			g.Menu = append(g.Menu, *cats[k])
		}
	}
	if len(trash.Items) > 0 {
		g.Menu = append(g.Menu, trash)
	}
	for i := range g.Menu {
		g.Menu[i].Count = len(g.Menu[i].Items)
	}
	return g
}

const (
	mPrompt = iota
	mError
	mMenu
	mItems
	mDetails
	mQuit
)

var modeName = []string{"prompt", "error", "menu", "items", "details", "quit"}

type gstate struct {
	Mode      int
	Typed     string
	Sel, Item int
	Ox, Oy    int
}

func (g *gvault) init() gstate { return gstate{Mode: mPrompt} }

func (g *gvault) item(s gstate) *gitem { return g.Menu[s.Sel].Items[s.Item] }

// next: effect of one key.
func (g *gvault) next(s gstate, e Ev) gstate {
	if e.W != 0 {
		return s
	}
	if e.K == kCtrlQ {
		return gstate{Mode: mQuit}
	}
	if e.M != 0 {
		return s
	}
	is := func(c rune, k uint16) bool { return c != 0 && e.C == c || e.C == 0 && k != 0 && e.K == k }
	switch s.Mode {
	case mPrompt:
		switch {
		case e.K == kEnter && e.C == 0:
			if s.Typed == g.V.Password {
				return gstate{Mode: mMenu}
			}
			return gstate{Mode: mError}
		case e.C != 0:
			s.Typed += string(e.C)
		case e.K == kSpace:
			s.Typed += " "
		}
	case mError:
		if e.K == kEnter && e.C == 0 {
			return gstate{Mode: mPrompt}
		}
	case mMenu:
		switch {
		case e.K == kCtrlL && e.C == 0:
			return gstate{Mode: mPrompt}
		case is('j', kDown):
			if s.Sel < len(g.Menu)-1 {
				s.Sel++
			}
		case is('k', kUp):
			if s.Sel > 0 {
				s.Sel--
			}
		case is('l', kRight), e.K == kEnter && e.C == 0:
			if len(g.Menu) > 0 {
				s.Mode, s.Item = mItems, 0
			}
		}
	case mItems:
		switch {
		case e.K == kCtrlL && e.C == 0:
			return gstate{Mode: mPrompt}
		case is('j', kDown):
			if s.Item < len(g.Menu[s.Sel].Items)-1 {
				s.Item++
			}
		case is('k', kUp):
			if s.Item > 0 {
				s.Item--
			}
		case is('h', kLeft), is('q', 0):
			s.Mode, s.Item = mMenu, 0
		case e.K == kTab && e.C == 0:
			s.Mode = mDetails
		}
	case mDetails:
		switch {
		case e.K == kCtrlL && e.C == 0:
			return gstate{Mode: mPrompt}
		case e.K == kTab && e.C == 0:
			s.Mode, s.Ox, s.Oy = mItems, 0, 0
		case is('j', kDown):
			s.Oy++
		case is('k', kUp):
			s.Oy = max(0, s.Oy-1)
		case is('l', kRight):
			s.Ox++
		case is('h', kLeft):
			s.Ox = max(0, s.Ox-1)
		}
	}
	return s
}

func (g *gvault) run(s gstate, steps []Step) gstate {
	for _, st := range steps {
		for _, e := range st.E {
			if s.Mode != mQuit {
				s = g.next(s, e)
			}
		}
	}
	return s
}

// A gfinding is a violation seen on a frame, attributed to a property.
type gfinding struct{ Prop, Key, Msg string }

func trimRows(rows []string) []string {
	r := make([]string, len(rows))
	for i, x := range rows {
		r[i] = strings.TrimRight(x, " ")
	}
	return r
}

// listed compares the rows of a list box with the expected entries: the rows are a window of
// the list that contains the selected entry, which is the only highlighted one.
func listed(b *box, want []string, sel int, match func(row, want string) bool) string {
	rows := trimRows(b.Rows)
	n := 0
	for i, r := range rows {
		if r != "" {
			n = i + 1
		}
	}
	hot := b.hot()
	if len(want) == 0 {
		if n != 0 {
			return fmt.Sprintf("expected an empty list, found %q", rows[:n])
		}
		return ""
	}
	if len(hot) != 1 {
		return fmt.Sprintf("%d highlighted rows", len(hot))
	}
	top := sel - hot[0] // index of the entry in the first row
	if top < 0 {
		return fmt.Sprintf("highlighted row %d, but the selected entry is number %d (%q)", hot[0], sel, want[sel])
	}
	if n != min(b.H, len(want)-top) {
		return fmt.Sprintf("%d rows filled, expected %d: %q", n, min(b.H, len(want)-top), rows[:n])
	}
	for i := 0; i < n; i++ {
		if !match(rows[i], want[top+i]) {
			what := ""
			if i == hot[0] {
				what = " (highlighted)"
			}
			return fmt.Sprintf("row %d%s is %q, expected %q", i, what, strings.TrimSpace(rows[i]), want[top+i])
		}
	}
	return ""
}

func clipRunes(s string, n int) string {
	r := []rune(s)
	if len(r) > n {
		r = r[:n]
	}
	return string(r)
}

func (g *gvault) menuText() []string {
	var r []string
	for _, e := range g.Menu {
		r = append(r, fmt.Sprintf("%s (%d)", e.Name, e.Count))
	}
	return r
}

// tokens that must not be visible: secrets of all items but skip, and with all=true open texts.
func (g *gvault) leaked(screen string, skip *gitem, all bool) string {
	for _, it := range g.Items {
		if it == skip {
			continue
		}
		for _, s := range it.Secrets {
			if len(s) >= 5 && strings.Contains(screen, clipRunes(s, 20)) {
				return s
			}
		}
		if all {
			for _, s := range it.Open {
				if len(s) >= 5 && strings.Contains(strings.ToLower(screen), strings.ToLower(clipRunes(s, 12))) {
					return s
				}
			}
		}
	}
	return ""
}

// judge compares a frame with the model state.
func (g *gvault) judge(f *Frame, s gstate) []gfinding {
	var out []gfinding
	bad := func(p, k, m string, a ...any) { out = append(out, gfinding{p, k, fmt.Sprintf(m, a...)}) }
	if s.Mode == mQuit {
		if f.Status != "return" && f.Status != "exit 0" {
			bad("C20", "quit", "the quit key does not end the session normally: %q", clip(f.Status))
		}
		return out
	}
	if f.Status != "" {
		bad("C20", "ended", "the session ended or hangs: %s", clip(f.Status))
		switch s.Mode { // instead of doing what the state calls for
		case mPrompt, mError:
			bad("C18", "ended", "no password prompt or error message; the session ended or hangs: %s", clip(f.Status))
		case mMenu, mItems:
			bad("C17", "ended", "no menu or list; the session ended or hangs: %s", clip(f.Status))
		case mDetails:
			bad("C19", "ended", "no details; the session ended or hangs: %s", clip(f.Status))
		}
		return out
	}
	pw, er, it, de := f.find("Password"), f.find("Error"), f.find("Items"), f.find("Details")
	screen := f.Screen()
	locked := s.Mode == mPrompt || s.Mode == mError
	if locked {
		if x := g.leaked(screen, nil, true); x != "" {
			bad("C18", "locked-leak", "%q is on the screen although the vault is locked", x)
		}
		for i, m := range g.menuText() {
			if strings.Contains(screen, m) {
				bad("C18", "locked-menu", "menu entry %d %q is on the screen although the vault is locked", i, m)
				break
			}
		}
	} else {
		var sk *gitem
		if s.Mode == mDetails {
			sk = g.item(s)
		}
		if x := g.leaked(screen, sk, false); x != "" {
			bad("C19", "secret", "%q is on the screen in mode %s", x, modeName[s.Mode])
		}
	}
	switch s.Mode {
	case mPrompt:
		if pw == nil || er != nil || it != nil || de != nil {
			bad("C18", "no-prompt", "no password prompt")
			return out
		}
		in := strings.Join(pw.Rows, "")
		if strings.Trim(in, "* ") != "" {
			bad("C18", "unmasked", "the password field shows %q", strings.TrimSpace(in))
		}
		if n := len([]rune(s.Typed)); n > 0 && !strings.Contains(in, "*") || n < pw.W-1 && strings.Count(in, "*") != n {
			bad("C18", "asterisks", "%d characters typed, field shows %q", n, strings.TrimSpace(in))
		}
	case mError:
		if er == nil || pw != nil || it != nil || de != nil {
			bad("C18", "no-error", "no error message after a wrong password")
			return out
		}
		if !strings.Contains(strings.Join(er.Rows, " "), "invalid password") {
			bad("C18", "error-text", "error box shows %q", strings.TrimSpace(strings.Join(er.Rows, " ")))
		}
	case mMenu:
		b := f.find("1Pass")
		if b == nil || pw != nil || er != nil || it != nil || de != nil {
			if pw != nil || er != nil {
				bad("C18", "not-unlocked", "the vault is not unlocked")
			}
			bad("C17", "no-menu", "the menu is not shown")
			return out
		}
		if d := listed(b, g.menuText(), s.Sel, func(row, want string) bool { return strings.TrimSpace(row) == want }); d != "" {
			bad("C17", "menu", "menu: %s", d)
		}
	case mItems, mDetails:
		if it == nil || de == nil || pw != nil || er != nil {
			bad("C17", "no-items", "the items of the entry are not shown")
			return out
		}
		var want []string
		for _, x := range g.Menu[s.Sel].Items {
			t := x.R.Title
			if t == "" {
				t = "<NO TITLE>"
			}
			want = append(want, t)
		}
		if d := listed(it, want, s.Item, func(row, want string) bool {
			if l := splitLines(want); len(l) > 1 { // one row, however the line break is shown
				for l[0] == "" && len(l) > 1 {
					l = l[1:]
				}
				return strings.Contains(row, clipRunes(strings.TrimSpace(l[0]), it.W-2))
			}
			return row == strings.TrimRight(clipRunes(want, it.W), " ")
		}); d != "" {
			bad("C17", "items", "items of %q: %s", g.Menu[s.Sel].Name, d)
		}
		g.mu.Lock()
		p := g.panes[paneKey(f.W, g.item(s))]
		g.mu.Unlock()
		if p == nil {
			return out
		}
		rows := trimRows(de.Rows)
		if s.Mode == mItems {
			for y := range rows {
				w := ""
				if y < len(p.Over) {
					w = p.Over[y]
				}
				if rows[y] != w {
					bad("C17", "overview", "overview of %q expected, row %d is %q instead of %q", g.item(s).R.Title, y, rows[y], w)
					if g.leaked(rows[y], nil, false) != "" {
						bad("C19", "overview", "the covered item shows %q", rows[y])
					}
					break
				}
			}
		} else if d := p.window(rows, s.Ox, s.Oy); d != "" {
			bad("C19", "details", "details of %q at offset %d,%d: %s", g.item(s).R.Title, s.Ox, s.Oy, d)
			if s.Ox == 0 && s.Oy == 0 {
				bad("C17", "details-begin", "details of %q are not shown from their beginning: %s", g.item(s).R.Title, d)
			}
		}
	}
	return out
}

// window compares the rows of the pane with the text at an offset (as far as captured).
func (p *gpane) window(rows []string, ox, oy int) string {
	for y := range rows {
		l := ""
		if oy+y < len(p.Full) {
			l = p.Full[oy+y]
		}
		have := []rune(rows[y])
		lr := []rune(l)
		w := ""
		if ox < len(lr) {
			w = strings.TrimRight(clipRunes(string(lr[ox:]), p.W), " ")
		}
		known := p.W
		if oy+y >= p.Rows && p.Wide-ox < known {
			known = max(0, p.Wide-ox)
		}
		if strings.TrimRight(clipRunes(string(have), known), " ") != strings.TrimRight(clipRunes(w, known), " ") {
			return fmt.Sprintf("row %d is %q instead of %q", y, rows[y], w)
		}
	}
	return ""
}

func paneKey(w int, it *gitem) string { return fmt.Sprintf("%d/%s", w, it.R.Uid) }

// ---------------------------------------------------------------- running

type guiRig struct {
	c  *Ctx
	d  []*Driver
	g  *gvault
	mu sync.Mutex
}

func (c *Ctx) newGui(bin string) *guiRig { return c.newGuiNamed(bin, "gui") }

func (c *Ctx) newGuiNamed(bin, name string) *guiRig {
	c.NewServer(name + "-s")
	g := &guiRig{c: c}
	for w := 0; w < NCPU; w++ {
		r := c.NewRoot(fmt.Sprintf("%s%d", name, w))
		r.Config(cfgText("/nonexistent", 30, 1, true))
		g.d = append(g.d, c.NewDriver(r, bin))
	}
	return g
}

func (r *guiRig) close() {
	for _, d := range r.d {
		d.Close()
	}
}

// sess: a session on a vault; the update check stays pending unless released.
func (r *guiRig) sess(w int, g *gvault, W, H int, steps []Step, from int) []Frame {
	return r.d[w].Run(Sess{Args: []string{"-v", g.Dir}, W: W, H: H, Dial: "block", Steps: steps, From: from, Hash: true})
}

func singles(e ...Ev) []Step {
	var r []Step
	for _, x := range e {
		r = append(r, one(x))
	}
	return r
}

func rep(e Ev, n int) []Ev {
	var r []Ev
	for i := 0; i < n; i++ {
		r = append(r, e)
	}
	return r
}

func cat(l ...[]Step) []Step {
	var r []Step
	for _, x := range l {
		r = append(r, x...)
	}
	return r
}

func (g *gvault) unlock() []Step {
	return append(chunks(typed(g.V.Password), 16), one(key(kEnter)))
}

// capture records, for windows of width W, the covered pane and the revealed text of every
// item, and compares them with the reference. The findings are attributed to C19.
func (r *guiRig) capture(g *gvault, W int, report func(path []Step, f gfinding)) {
	const H = 70
	type job struct{ menu, item int }
	var jobs []job
	seen := map[*gitem]bool{}
	for m := range g.Menu {
		for i, it := range g.Menu[m].Items {
			if !seen[it] {
				seen[it] = true
				jobs = append(jobs, job{m, i})
			}
		}
	}
	r.c.Par(len(jobs), func(w, k int) {
		j := jobs[k]
		it := g.Menu[j.menu].Items[j.item]
		path := cat(g.unlock(), chunks(rep(ch('j'), j.menu), 1), singles(key(kEnter)), chunks(rep(ch('j'), j.item), 1))
		bad := func(st []Step, k, m string, a ...any) { report(st, gfinding{"C19", k, fmt.Sprintf(m, a...)}) }
		pane := func(fr *Frame) []string {
			if fr.Status != "" {
				for _, p := range []string{"C17", "C19", "C20"} {
					report(path, gfinding{p, "ended", "the session ended: " + clip(fr.Status)})
				}
				return nil
			}
			b := fr.find("Details")
			if b == nil {
				bad(path, "no-pane", "no details pane")
				return nil
			}
			return trimRows(b.Rows)
		}
		fs := r.sess(w, g, W, H, append(append([]Step{}, path...), one(key(kTab))), len(path))
		if len(fs) != 2 {
			pane(&fs[len(fs)-1])
			return
		}
		p := &gpane{}
		over, full := pane(&fs[0]), pane(&fs[1])
		if over == nil || full == nil {
			return
		}
		p.W = fs[1].find("Details").W
		p.Over = over
		h := len(full)
		// lines below
		if full[h-1] != "" || full[h-2] != "" {
			st := cat(path, singles(key(kTab)), chunks(rep(ch('j'), 400), 1))
			for _, f := range r.sess(w, g, W, H, st, len(path)+2) {
				x := pane(&f)
				if x == nil {
					return
				}
				last := x[h-1]
				if y := len(full) - h; strings.Join(x, "\n") == strings.Join(full[y:], "\n") {
					break // does not scroll any further
				}
				full = append(full, last)
				if strings.Join(x, "") == "" {
					break
				}
			}
		}
		p.Rows, p.Wide = h, p.W
		// columns to the right
		wide := false
		for _, l := range full {
			wide = wide || len([]rune(l)) >= p.W
		}
		cols := make([][]rune, h)
		for y := range cols {
			cols[y] = []rune(full[y])
			for len(cols[y]) < p.W {
				cols[y] = append(cols[y], ' ')
			}
		}
		if wide {
			st := cat(path, singles(key(kTab)), chunks(rep(ch('l'), 300), 1))
			prev := strings.Join(full[:h], "\n")
			for _, f := range r.sess(w, g, W, H, st, len(path)+2) {
				x := pane(&f)
				if x == nil {
					return
				}
				if s := strings.Join(x, "\n"); s == prev && strings.TrimSpace(s) != "" {
					break
				} else {
					prev = s
				}
				for y := range cols {
					r := []rune(x[y])
					if len(r) == p.W {
						cols[y] = append(cols[y], r[p.W-1])
					} else {
						cols[y] = append(cols[y], ' ')
					}
				}
				p.Wide++
				if strings.TrimSpace(prev) == "" {
					break
				}
			}
		}
		for y := range cols {
			full[y] = strings.TrimRight(string(cols[y]), " ")
		}
		p.Full = full
		g.mu.Lock()
		g.panes[paneKey(W, it)] = p
		g.mu.Unlock()
		r.c.Eval(1)
		// covered: everything but values and notes, in order
		if x := g.leaked(strings.Join(over, "\n"), nil, false); x != "" {
			bad(path, "covered", "the covered item shows %q", x)
		}
		for _, s := range it.Secrets {
			for _, part := range strings.Fields(s) {
				if len(part) > 5 && strings.Contains(strings.Join(over, "\n"), part) {
					bad(path, "covered", "the covered item shows %q", part)
				}
			}
		}
		pos, headOnly := 0, false
		find := func(rows []string, limit int, fold bool, t string) int {
			t = clipRunes(t, limit)
			for y := pos; y < len(rows); y++ {
				if strings.Contains(rows[y], t) || fold && containsFold(rows[y], t) {
					return y
				}
			}
			return -1
		}
		var expect func(rows []string, limit int, what, t string, fold bool) bool
		expect = func(rows []string, limit int, what, t string, fold bool) bool {
			if t == "" {
				return true
			}
			if l := splitLines(t); len(l) > 1 { // the parts in order, however the line breaks are shown
				for _, x := range l {
					if !expect(rows, limit, what, strings.TrimSpace(x), fold) {
						return false
					}
				}
				return true
			}
			y := find(rows, limit, fold, t)
			if y < 0 {
				if headOnly {
					report(path, gfinding{"C17", "not-shown", fmt.Sprintf("item %q: %s %q is missing or out of order in\n%s", it.R.Title, what, t, strings.TrimRight(strings.Join(rows, "\n"), "\n "))})
				}
				bad(append(append([]Step{}, path...), one(key(kTab))), "missing", "item %q: %s %q is missing or out of order in\n%s", it.R.Title, what, t, strings.TrimRight(strings.Join(rows, "\n"), "\n "))
				return false
			}
			pos = y
			return true
		}
		head := func(rows []string, limit int) bool {
			pos, headOnly = 0, true
			defer func() { headOnly = false }()
			x := expect(rows, limit, "category", categoryNames[it.R.Code], false) && expect(rows, limit, "title", it.R.Title, false)
			for _, t := range []string{time.Unix(it.R.Updated, 0).UTC().Format("2006-01-02 15:04:05"), time.Unix(it.R.Created, 0).UTC().Format("2006-01-02 15:04:05")} {
				if find(rows, limit, false, t) < 0 {
					bad(path, "missing", "item %q: time %q is missing in %q", it.R.Title, t, rows)
					report(path, gfinding{"C17", "not-shown", fmt.Sprintf("item %q: time %q is missing in %q", it.R.Title, t, rows)})
					return false
				}
			}
			return x && expect(rows, limit, "trash flag", fmt.Sprintf("Trashed: %v", it.R.Trashed), true) && expect(rows, limit, "URL", it.R.Url, false)
		}
		lim := p.W - 14
		if head(over, lim) {
			for _, s := range it.R.Sections {
				if pos >= len(over)-20 {
					break
				}
				if !expect(over, lim, "section", s.Title, true) {
					break
				}
				for _, f := range s.Fields {
					if pos >= len(over)-8 || !expect(over, lim, "field", f.Name, true) {
						break
					}
					pos++
				}
			}
		}
		// revealed: every value beside its name, the notes in full
		if !head(full, 1000) {
			return
		}
		lines := func(what string, ls []string) bool {
			for i, l := range ls {
				l = strings.TrimRight(l, " ")
				if pos+i >= len(full) && l != "" || pos+i < len(full) && full[pos+i] != clipRunes(l, p.Wide) {
					got := ""
					if pos+i < len(full) {
						got = full[pos+i]
					}
					bad(append(append([]Step{}, path...), one(key(kTab))), "value", "item %q: line %d of %s is %q, expected %q", it.R.Title, i, what, got, l)
					return false
				}
			}
			pos += len(ls)
			return true
		}
		for _, s := range it.R.Sections {
			if !expect(full, 1000, "section", s.Title, true) {
				return
			}
			for _, f := range s.Fields {
				v := splitLines(f.Value)
				if f.Name == "" {
					if v[0] == "" {
						continue
					}
					if !expect(full, 1000, "value of an unnamed field", clipRunes(strings.TrimRight(": "+v[0], " "), 60), false) {
						return
					}
				} else if !expect(full, 1000, "field", f.Name+":", true) {
					return
				}
				shown := strings.HasSuffix(full[pos], strings.TrimRight(" "+v[0], " "))
				if rs := []rune(full[pos]); !shown && len(rs) >= p.Wide-1 { // wider than the scrolled text that was captured
					at := strings.Index(full[pos], ": ")
					shown = at >= 0 && strings.HasPrefix(v[0], full[pos][at+2:])
				}
				if !shown {
					bad(append(append([]Step{}, path...), one(key(kTab))), "value", "item %q: field %q shows %q, expected value %q", it.R.Title, f.Name, full[pos], v[0])
					return
				}
				pos++
				if !lines("field "+f.Name, v[1:]) {
					return
				}
			}
		}
		if it.R.Notes != "" {
			n := splitLines(it.R.Notes)
			for n[0] == "" {
				n = n[1:]
			}
			y := -1
			for i := pos; i < len(full); i++ {
				if full[i] == strings.TrimRight(clipRunes(n[0], p.Wide), " ") && full[i] != "" {
					y = i
					break
				}
			}
			if y < 0 {
				bad(append(append([]Step{}, path...), one(key(kTab))), "notes", "item %q: notes are missing: %q", it.R.Title, full)
				return
			}
			pos = y
			lines("the notes", n)
		}
	})
}

// ---------------------------------------------------------------- search

type gnode struct {
	steps []Step
	m     gstate
	depth int
}

type gsearch struct {
	W, H    int
	Moves   func(g *gvault, s gstate) [][]Step // moves from a state
	Depth   int
	Max     int  // states
	NoMerge int  // up to this depth states are not merged
	Coarse  bool // merge by screen, cursors and model state only
	Start   [][]Step
	Visit   func(w int, g *gvault, n gnode, f *Frame) // extra work per new state
}

// explore: breadth-first search of the session; every move is executed by the real code and
// every frame compared with the model. States are merged by the hash of the whole interface
// state and the model state.
func (r *guiRig) explore(g *gvault, sp gsearch, report func(path []Step, f gfinding)) (complete bool) {
	c := r.c
	seen := map[string]bool{}
	var mu sync.Mutex
	level := []gnode{}
	add := func(l *[]gnode, n gnode, f *Frame) bool {
		mu.Lock()
		defer mu.Unlock()
		hash := f.Hash
		if sp.Coarse && hash != "" {
			hash = fmt.Sprint(hash[16:], f.Cur, f.Views)
		}
		k := hash + fmt.Sprint(n.m)
		fresh := !seen[k]
		if fresh {
			seen[k] = true
			c.nstatesAdd(1)
		}
		if fresh || n.depth <= sp.NoMerge {
			*l = append(*l, n)
		}
		return fresh
	}
	try := func(w int, base gnode, mv []Step, next *[]gnode, depth int) {
		steps := cat(base.steps, mv)
		fs := r.sess(w, g, sp.W, sp.H, steps, len(base.steps)+1)
		c.Trans(len(mv))
		c.Distinct(1)
		c.Trace(1)
		c.Eval(1)
		m := base.m
		for i := range mv {
			m = g.run(m, mv[i:i+1])
			var f *Frame
			if i < len(fs) {
				f = &fs[i]
			} else {
				f = &fs[len(fs)-1]
			}
			fd := g.judge(f, m)
			own := false
			for _, x := range fd {
				report(steps[:len(base.steps)+i+1], x)
				own = own || x.Prop == c.ID
			}
			if own || m.Mode == mQuit || f.Status != "" {
				return
			}
			if i == len(mv)-1 {
				n := gnode{steps, m, depth}
				if add(next, n, f) && sp.Visit != nil {
					sp.Visit(w, g, n, f)
				}
			}
		}
	}
	root := gnode{nil, g.init(), 0}
	fs := r.sess(0, g, sp.W, sp.H, nil, 0)
	for _, x := range g.judge(&fs[0], root.m) {
		report(nil, x)
	}
	if fs[0].Status != "" {
		if c.ID == "C21" {
			c.Fail("waits", g.Name, "the session does not start while the check is pending: %s", clip(fs[0].Status))
		}
		return false
	}
	if sp.Start == nil {
		add(&level, root, &fs[0])
		if sp.Visit != nil {
			sp.Visit(0, g, root, &fs[0])
		}
	}
	for _, st := range sp.Start {
		try(0, root, st, &level, 0)
	}
	for d := 1; len(level) > 0 && (sp.Depth == 0 || d <= sp.Depth); d++ {
		if sp.Max > 0 && len(seen) > sp.Max || c.TimeUp() || c.Stop() {
			return false
		}
		type job struct {
			n  gnode
			mv []Step
		}
		var jobs []job
		for _, n := range level {
			for _, mv := range sp.Moves(g, n.m) {
				jobs = append(jobs, job{n, mv})
			}
		}
		var next []gnode
		c.Par(len(jobs), func(w, i int) { try(w, jobs[i].n, jobs[i].mv, &next, d) })
		level = next
	}
	if c.verbose {
		fmt.Printf("search %s %dx%d: %d states, %.1fs\n", g.Name, sp.W, sp.H, len(seen), time.Since(c.start).Seconds())
	}
	return len(level) == 0
}

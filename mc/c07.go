package main

import (
	"encoding/base64"
	"encoding/hex"
	"fmt"
	"io/fs"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

func init() { checks["C07"] = c07 }

// fingerprint of a directory tree: type, mode, modification time and contents of every entry.
func fingerprint(dir string) string {
	var l []string
	filepath.WalkDir(dir, func(p string, d fs.DirEntry, err error) error {
		i, e := os.Lstat(p)
		if err != nil || e != nil {
			l = append(l, p+" unreadable")
			return nil
		}
		rel, _ := filepath.Rel(dir, p)
		s := fmt.Sprintf("%s %v %d", rel, i.Mode(), i.ModTime().UnixNano())
		if i.Mode().IsRegular() {
			b, _ := os.ReadFile(p)
			s += " " + string(b)
		}
		if i.Mode()&fs.ModeSymlink != 0 {
			t, _ := os.Readlink(p)
			s += " " + t
		}
		l = append(l, s)
		return nil
	})
	sort.Strings(l)
	return strings.Join(l, "\n")
}

// forms: a text as it could be hidden in a file.
func forms(s string) []string {
	r := []string{s, hex.EncodeToString([]byte(s))}
	for i := 0; i < 3; i++ { // base64 of the text at every alignment, without the unstable ends
		e := base64.StdEncoding.EncodeToString([]byte(strings.Repeat("\x00", i) + s))
		if len(e) > 12 {
			r = append(r, strings.TrimRight(e[4:len(e)-4], "="))
		}
	}
	rs := []rune(s)
	for i, j := 0, len(rs)-1; i < j; i, j = i+1, j-1 {
		rs[i], rs[j] = rs[j], rs[i]
	}
	return append(r, string(rs))
}

type watch07 struct {
	c      *Ctx
	tokens []string
	plain  []string // the tokens themselves, for messages
}

func (c *Ctx) watch07(v *VVault, extra ...string) *watch07 {
	w := &watch07{c: c}
	add := func(s string) {
		for _, l := range splitLines(s) {
			l = strings.TrimSpace(l)
			if len(l) < 6 {
				continue
			}
			for _, f := range forms(l) {
				w.tokens = append(w.tokens, f)
				w.plain = append(w.plain, l)
			}
		}
	}
	add(v.Password)
	for _, s := range extra {
		add(s)
	}
	for i := range v.Items {
		r := refItem(&v.Items[i])
		if r == nil {
			continue
		}
		add(r.Title)
		add(r.Url)
		add(r.Notes)
		for _, s := range r.Sections {
			for _, f := range s.Fields {
				add(f.Value)
			}
		}
	}
	return w
}

func (w *watch07) find(b string) string {
	if len(b) < 4 {
		return ""
	}
	for i, t := range w.tokens {
		if len(b) >= len(t) && strings.Contains(b, t) {
			return w.plain[i]
		}
	}
	return ""
}

// allowed: may the application change this path?
func allowed07(root *Root, p string, update bool) bool {
	cfg := root.Cfg()
	for d := cfg; len(d) >= len(root.Home()); d = filepath.Dir(d) {
		if p == d && d != root.Home() {
			return true
		}
	}
	if filepath.Dir(p) == cfg {
		return true
	}
	if update {
		return p == root.Cache() || strings.HasPrefix(p, root.Cache()+"/") || filepath.Dir(p) == filepath.Dir(root.Exe())
	}
	return false
}

// log inspects the log of file-system changes.
func (w *watch07) log(root *Root, lines []string, update bool, bad func(key, f string, a ...any)) {
	for _, l := range lines {
		if !strings.HasPrefix(l, "MUT ") && !strings.HasPrefix(l, "DENY ") {
			continue
		}
		op, path, data := mutation(l)
		w.c.Trans(1)
		for _, p := range strings.Split(path, " -> ") {
			if !allowed07(root, filepath.Clean(p), update) {
				bad("where", "%s %s", op, p)
			}
			if t := w.find(p); t != "" {
				bad("name", "the file name %q contains %q", p, t)
			}
		}
		if t := w.find(string(data)); t != "" {
			bad("data", "%s %s: the written data contain %q: %q", op, path, t, clip(string(data)))
		}
	}
}

// files inspects what lies on the disk.
func (w *watch07) files(root *Root, vault string, update bool, bad func(key, f string, a ...any)) {
	filepath.WalkDir(root.Dir, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return nil
		}
		if p == vault {
			return filepath.SkipDir
		}
		i, e := d.Info()
		if e != nil || d.IsDir() {
			return nil
		}
		if i.Mode().IsRegular() {
			b, _ := os.ReadFile(p)
			if t := w.find(string(b)); t != "" {
				bad("disk", "%s contains %q", p, t)
			}
		}
		if p == root.CfgFile() || p == root.Last() || p == root.Exe() || update && strings.HasPrefix(p, root.Cache()+"/") {
			return nil
		}
		bad("file", "unexpected file %s", p)
		return nil
	})
}

type cmd07 struct {
	name   string
	args   []string
	pw     string
	lines  string
	answer string // release server: newer, same, fail, bad (wrong checksum)
	update bool
	fault  string
	uncfg  bool // start without configuration
}

func c07(c *Ctx) {
	c.Level = "model_checking"
	c.Rule = "state = contents of the run root (home, vault, temporary directory, binary). Action = one run of the application as a process: every command with right, wrong and empty password, every item, unknown UIDs, configuration dialogue, update with every outcome, with and without update check; all sequences of representative commands up to the depth, and a kill or refusal at every file-system change; interactive sessions to every reachable state. After every run: the vault directory is unchanged to the modification time, every change was made at an allowed path, and no written byte sequence contains the password or a text of the vault (plain, hexadecimal, base64, reversed). Non-trivial: every run"
	c.Assume = []string{"changes by os functions are logged, others are seen by comparing the tree", "process death and failing system calls, no power loss"}
	its := tokenItems(false)
	v := &VVault{Password: "pw-RightOne_7", Seed: "c07"}
	step := 3
	if c.Thorough {
		step = 1
	}
	for i := 0; i < len(its); i += step {
		v.Items = append(v.Items, its[i].VItem)
	}
	typedPw := []string{"typed-Wrong_one", "another WRONG pw"}
	wt := c.watch07(v, typedPw...)
	good := tarball(tarEntry{Name: "1pass", Data: newBinary})
	rigs := c.rigs()
	vdir := func(r *rig) string { return filepath.Join(r.Home(), "Vaults", "my.opvault") }
	reset := func(r *rig, cfg bool) {
		r.Reset()
		v.write(vdir(r))
		r.Own()
		if cfg {
			r.Config(cfgText(vdir(r), 2, 0, true))
		}
	}
	run := func(r *rig, k cmd07, history []string) {
		rel, sum := asJSON([]release{stdRelease("9.9.9")}), goodSum()
		switch k.answer {
		case "same":
			rel = asJSON([]release{stdRelease("1.3.1")})
		case "fail":
			rel = []byte("garbage")
		case "bad":
			sum = []byte(md5hex("something else") + "  1pass\n")
		}
		r.S.Set(serve(rel, map[string][]byte{arPath: good, csPath: sum}), nil)
		var args []string
		for _, a := range k.args {
			args = append(args, strings.ReplaceAll(a, "VAULT", vdir(r)))
		}
		before := fingerprint(vdir(r))
		x := Run{Args: args, Dial: r.S.Dial(), Fault: k.fault}
		if k.pw != "" {
			x.Pass = strp(strings.TrimSuffix(k.pw, "<none>"))
		}
		if k.lines != "" {
			x.Pty, x.Lines = true, strings.ReplaceAll(k.lines, "VAULT", vdir(r))
		}
		if k.update {
			x.Pty, x.Lines, x.Stdin = false, "", k.lines
		}
		res := r.Exec(x)
		c.Eval(1)
		c.Distinct(1)
		c.Trace(1)
		c.State(fmt.Sprint(history, k.name, k.fault))
		bad := func(key, f string, a ...any) {
			c.Fail(key, obj{"history": history, "args": k.args, "password": k.pw, "typed": k.lines, "server": k.answer, "fault": k.fault, "log": clip(strings.Join(res.Log, "\n"))}, "%s: %s", k.name, fmt.Sprintf(f, a...))
		}
		if res.Timeout {
			bad("hang", "hangs")
		}
		if fingerprint(vdir(r)) != before {
			bad("vault", "the vault directory was changed")
		}
		wt.log(r.Root, res.Log, k.update, bad)
		if k.fault == "" {
			wt.files(r.Root, vdir(r), k.update || strings.Contains(strings.Join(history, " "), "update"), bad)
		}
	}
	right, wrong := v.Password, typedPw[0]
	var jobs []cmd07
	tr := func(i int) []string {
		if v.Items[i].Trashed == true {
			return []string{"-t"}
		}
		return nil
	}
	ans := []string{"newer", "same", "fail"}
	for i := range v.Items {
		for _, cmd := range []string{"overview", "details"} {
			jobs = append(jobs, cmd07{name: cmd, args: append([]string{cmd, v.Items[i].Uid}, tr(i)...), pw: right, answer: ans[i%3]})
			if i%3 == 0 {
				jobs = append(jobs, cmd07{name: cmd + " other trash state", args: append([]string{cmd, v.Items[i].Uid}, map[bool][]string{true: nil, false: {"-t"}}[v.Items[i].Trashed == true]...), pw: right, answer: ans[i%3]},
					cmd07{name: cmd + " wrong password", args: append([]string{cmd, v.Items[i].Uid, "-v", "VAULT"}, tr(i)...), pw: wrong, answer: ans[i%3]})
			}
		}
	}
	rep := []cmd07{
		{name: "list", args: []string{"list"}, pw: right, answer: "newer"},
		{name: "list wrong", args: []string{"list", "-v", "VAULT"}, pw: wrong, answer: "same"},
		{name: "details", args: []string{"details", v.Items[0].Uid, "-v", "VAULT"}, pw: right, answer: "fail"},
		{name: "overview trashed", args: []string{"overview", "-t", v.Items[1].Uid}, pw: right, answer: "same"},
		{name: "configure", args: []string{"configure"}, lines: "y\nVAULT\ny\n3\n0\n", answer: "same"},
		{name: "update yes", args: []string{"update"}, lines: "y\n", answer: "newer", update: true},
		{name: "update bad", args: []string{"update"}, lines: "y\n", answer: "bad", update: true},
		{name: "categories", args: []string{"categories"}, answer: "newer"},
	}
	for _, a := range ans {
		for _, l := range [][]string{{}, {"-t"}, {"-c", "login"}, {"-c", "nonsense"}, {"-n", "title"}, {"-n", "no such"}, {"-v", "VAULT"}, {"-v", "VAULT/default"}, {"-v", "/nonexistent"}} {
			for _, p := range []string{right, wrong, typedPw[1], "<none>"} {
				jobs = append(jobs, cmd07{name: "list", args: append([]string{"list"}, l...), pw: p, answer: a})
			}
		}
		for _, u := range []string{"nope", "../x", "*", right} {
			for _, cmd := range []string{"overview", "details"} {
				jobs = append(jobs, cmd07{name: cmd + " unknown", args: []string{cmd, u}, pw: right, answer: a}, cmd07{name: cmd + " unknown", args: []string{cmd, u, "-t"}, pw: right, answer: a})
			}
		}
		for _, l := range []string{"y\nVAULT\ny\n3\n0\n", "n\nn\n1\n7\n", "\n\n\n\n", "y\n/nonexistent\ny\n3\n0\n"} {
			jobs = append(jobs, cmd07{name: "configure", args: []string{"configure"}, lines: l, answer: a}, cmd07{name: "configure first", args: []string{"configure"}, lines: l, answer: a, uncfg: true},
				cmd07{name: "list first", args: []string{"list", "-v", "VAULT"}, lines: l, pw: right, answer: a, uncfg: true})
		}
		for _, l := range []string{"y\n", "n\n", "\n"} {
			jobs = append(jobs, cmd07{name: "update", args: []string{"update"}, lines: l, answer: a, update: true})
		}
		jobs = append(jobs, cmd07{name: "categories", args: []string{"categories"}, answer: a}, cmd07{name: "help", args: []string{"help"}, answer: a}, cmd07{name: "unknown", args: []string{"unknown"}, answer: a}, cmd07{name: "version", args: []string{"--version"}, answer: a})
	}
	jobs = append(jobs, rep...)
	// kills and refusals at every change
	for _, k := range []cmd07{rep[0], rep[1], rep[2], rep[4], rep[5], rep[6]} {
		for n := 0; n < 14; n++ {
			for _, f := range []string{"crash", "half", "err", "short"} {
				x := k
				x.fault = fmt.Sprintf("%d:%s", n, f)
				jobs = append(jobs, x)
			}
		}
	}
	c.Par(len(jobs), func(w, i int) {
		reset(rigs[w], !jobs[i].uncfg)
		run(rigs[w], jobs[i], nil)
	})
	c.Extra("single_runs", len(jobs))
	c07forms(c, wt, v, typedPw, rigs, run)
	// sequences
	depth := 4
	if c.Thorough {
		depth = 5
	}
	n := 1
	for i := 1; i < depth; i++ {
		n *= len(rep)
	}
	n *= len(rep)
	c.Par(n, func(w, i int) {
		reset(rigs[w], true)
		var h []string
		for d := 0; d < depth; d++ {
			k := rep[i%len(rep)]
			i /= len(rep)
			run(rigs[w], k, h)
			h = append(h, k.name)
		}
	})
	c.Extra("sequences", n)
	// interactive sessions
	rig := c.newGui(c.App)
	defer rig.close()
	g := gvaultOf(c, "ro", gItem(1, "001", "Beta title", false, true), gItem(2, "001", "Alpha title", false, false), gItem(3, "003", "Gamma title", false, true), gItem(4, "001", "Delta title", true, false))
	gw := c.watch07(g.V)
	before := fingerprint(g.Dir)
	rig.explore(g, gsearch{W: 80, H: 24, Moves: moves(1), Max: c.maxStates(), Visit: func(w int, g *gvault, x gnode, f *Frame) {
		// leave from every state, with the check pending and with a result
		q := cat(x.steps, singles(key(kCtrlQ)))
		rig.sess(w, g, 80, 24, q, len(q))
		q = cat(x.steps, []Step{{R: string(asJSON([]release{stdRelease("9.9.9")}))}}, singles(key(kTab), key(kCtrlQ)))
		rig.sess(w, g, 80, 24, q, len(q))
		c.Trans(2)
		c.Eval(2)
	}}, func([]Step, gfinding) {})
	if fingerprint(g.Dir) != before {
		c.Fail("vault", "interactive", "an interactive session changed the vault directory")
	}
	for _, d := range rig.d {
		b, _ := os.ReadFile(d.Log)
		bad := func(key, f string, a ...any) {
			c.Fail(key, obj{"mode": "interactive"}, "interactive session: %s", fmt.Sprintf(f, a...))
		}
		gw.log(d.r, strings.Split(string(b), "\n"), false, bad)
		gw.files(d.r, "", false, bad)
	}
}

// c07forms: vaults of unusual, broken and damaged form; whatever the application makes of them,
// it does not change them and writes nothing of them.
func c07forms(c *Ctx, wt *watch07, v *VVault, typedPw []string, rigs []*rig, run func(r *rig, k cmd07, history []string)) {
	type form struct {
		name string
		f    func(def string) // the default directory
	}
	var forms []form
	add := func(n string, f func(def string)) { forms = append(forms, form{n, f}) }
	put := func(n, text string) {
		add(fmt.Sprintf("%s = %q", n, clip(text)), func(d string) { must(os.WriteFile(filepath.Join(d, n), []byte(text), 0644)) })
	}
	edit := func(n, what string, f func(b []byte) []byte) {
		add(n+" "+what, func(d string) {
			b, _ := os.ReadFile(filepath.Join(d, n))
			must(os.WriteFile(filepath.Join(d, n), f(b), 0644))
		})
	}
	for _, n := range []string{"band_0.js", "band_7.js", "band_F.js", "profile.js"} {
		for _, t := range []string{"", " ", "\n", "ld({});", "ld();", "{}", "ld([]);", "ld(null);", "ld({", "garbage", "profile", "var profile={};", "ld({\"a\":1});", "ld({\"" + uid(9) + "\":{}});", "\x00"} {
			put(n, t)
		}
		edit(n, "cut in half", func(b []byte) []byte { return b[:len(b)/2] })
		edit(n, "without its end", func(b []byte) []byte { return b[:max(0, len(b)-2)] })
		edit(n, "doubled", func(b []byte) []byte { return append(append([]byte{}, b...), b...) })
		edit(n, "with a line end", func(b []byte) []byte { return append(append([]byte{}, b...), '\n') })
		edit(n, "with damaged texts", func(b []byte) []byte {
			b = append([]byte{}, b...)
			for i := range b {
				if i%97 == 0 && b[i] >= 'a' && b[i] <= 'y' {
					b[i]++
				}
			}
			return b
		})
		add(n+" missing", func(d string) { os.Remove(filepath.Join(d, n)) })
		add(n+" is a directory", func(d string) { os.Remove(filepath.Join(d, n)); must(os.Mkdir(filepath.Join(d, n), 0755)) })
		add(n+" without permission to write", func(d string) { os.Chmod(filepath.Join(d, n), 0444) })
		add(n+" without permission to read", func(d string) { os.Chmod(filepath.Join(d, n), 0) })
		add(n+" is a link", func(d string) {
			if os.Rename(filepath.Join(d, n), filepath.Join(d, "moved")) == nil {
				must(os.Symlink("moved", filepath.Join(d, n)))
			}
		})
	}
	for _, n := range []string{"band_0.js~", "band_G.js", "band_.js", "band_00.js", "band_0.js.tmp", ".band_0.js.swp", "band_0 (conflict).js", "lock", ".lock", "folders.js", "settings.js", "attachment.attachment", "1pass.log", "cache", ".DS_Store", "desktop.ini", "index.json"} {
		put(n, "some text")
		put(n, "")
	}
	add("read-only directory", func(d string) { os.Chmod(d, 0555) })
	add("empty directories beside", func(d string) {
		os.Mkdir(filepath.Join(d, "x"), 0755)
		os.Mkdir(filepath.Join(filepath.Dir(d), "backup"), 0755)
	})
	add("all bands empty", func(d string) {
		for i := 0; i < 16; i++ {
			os.WriteFile(filepath.Join(d, bandName(i)), nil, 0644)
		}
	})
	add("no bands", func(d string) {
		for i := 0; i < 16; i++ {
			os.Remove(filepath.Join(d, bandName(i)))
		}
	})
	w2 := &VVault{Password: v.Password, Seed: "c07forms"}
	for i := 0; i < len(v.Items) && i < 6; i++ {
		it := v.Items[i]
		it.Band = []int{0, 7, 15}[i%3]
		w2.Items = append(w2.Items, it)
	}
	cmds := []cmd07{{name: "list", args: []string{"list"}, pw: v.Password, answer: "same"}, {name: "list wrong", args: []string{"list", "-t"}, pw: typedPw[0], answer: "newer"}, {name: "details", args: []string{"details", w2.Items[0].Uid}, pw: v.Password, answer: "fail"}, {name: "overview", args: []string{"overview", w2.Items[2].Uid}, pw: v.Password, answer: "same"}}
	prep := func(r *Root, f form) string {
		dir := filepath.Join(r.Home(), "Vaults", "my.opvault")
		os.Chmod(filepath.Join(dir, "default"), 0755)
		r.Reset()
		w2.write(dir)
		r.Own()
		f.f(filepath.Join(dir, "default"))
		filepath.WalkDir(dir, func(p string, d fs.DirEntry, err error) error { os.Lchown(p, runUid, runUid); return nil })
		r.Config(cfgText(dir, 2, 0, true))
		return dir
	}
	c.Par(len(forms), func(w, i int) {
		for _, k := range cmds {
			prep(rigs[w].Root, forms[i])
			run(rigs[w], k, []string{"vault: " + forms[i].name})
		}
	})
	rig := c.newGuiNamed(c.App, "guiforms")
	defer rig.close()
	steps := append(singles(typed(w2.Password)...), singles(key(kEnter), ch('l'), key(kTab), key(kTab), ch('j'), ch('h'), key(kCtrlL), ch('x'), key(kEnter), key(kEnter))...)
	c.Par(len(forms), func(w, i int) {
		d := rig.d[w]
		dir := prep(d.r, forms[i])
		before := fingerprint(dir)
		d.Run(Sess{Args: []string{"-v", dir}, W: 80, H: 24, Dial: "block", Steps: steps, From: len(steps)})
		c.Eval(1)
		c.Trace(1)
		bad := func(key, f string, a ...any) {
			c.Fail(key, obj{"mode": "interactive", "vault": forms[i].name}, "interactive session, vault with %s: %s", forms[i].name, fmt.Sprintf(f, a...))
		}
		if fingerprint(dir) != before {
			bad("vault", "the vault directory was changed")
		}
		wt.files(d.r, dir, false, bad)
	})
	for _, d := range rig.d {
		b, _ := os.ReadFile(d.Log)
		wt.log(d.r, strings.Split(string(b), "\n"), false, func(key, f string, a ...any) {
			c.Fail(key, obj{"mode": "interactive"}, "interactive session with an unusual vault: %s", fmt.Sprintf(f, a...))
		})
	}
	c.Extra("vault_forms", len(forms))
}

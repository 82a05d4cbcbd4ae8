package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"time"
)

func init() { checks["C26"] = c26 }

// perms returns all orders of 0..n-1.
func perms(n int) [][]int {
	if n == 0 {
		return [][]int{{}}
	}
	var r [][]int
	for _, p := range perms(n - 1) {
		for i := n - 1; i >= 0; i-- {
			q := append(append(append([]int(nil), p[:i]...), n-1), p[i:]...)
			r = append(r, q)
		}
	}
	return r
}

// order encodes a permutation of the slots of a small map; the slots after the permuted ones follow.
func order(p []int) uint64 {
	var o uint64
	for i := 0; i < 8; i++ {
		s := i
		if i < len(p) {
			s = p[i]
		}
		o |= uint64(s) << (4 * i)
	}
	return o
}

// backwards writes a document with the keys of all objects in reverse order (1) or rotated by one (2).
func backwards(x any, how int) json.RawMessage {
	switch t := x.(type) {
	case map[string]any:
		var ks []string
		for k := range t {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		if how == 1 {
			sort.Sort(sort.Reverse(sort.StringSlice(ks)))
		} else if len(ks) > 1 {
			ks = append(ks[1:], ks[0])
		}
		var l []string
		for _, k := range ks {
			l = append(l, string(jsonDoc(k))+": "+string(backwards(t[k], how)))
		}
		return json.RawMessage("{ " + strings.Join(l, " ,\n") + "}")
	case []any:
		var l []string
		for _, e := range t {
			l = append(l, string(backwards(e, how)))
		}
		return json.RawMessage("[" + strings.Join(l, ", ") + " ]")
	}
	return json.RawMessage(jsonDoc(x))
}

// writeOrdered writes the bands with the items in the order of v.Items.
func (v *VVault) writeOrdered(dir string, how int) {
	v.write(dir)
	bands := map[int][]string{}
	for i := range v.Items {
		it := v.Items[i]
		m := v.seal(&it)
		bands[it.Band] = append(bands[it.Band], string(jsonDoc(it.Uid))+":"+string(backwards(m, how)))
	}
	for n, l := range bands {
		must(os.WriteFile(filepath.Join(dir, "default", bandName(n)), []byte("ld({"+strings.Join(l, ",")+"});"), 0644))
	}
}

var logTime = regexp.MustCompile(`(?m)^\d{4}/\d\d/\d\d \d\d:\d\d:\d\d `)

func c26(c *Ctx) {
	c.Level = "exploration"
	c.Rule = "case = (vault, how it is stored, map iteration order, environment, command): output and exit status are compared with those of the same command in the plain case. Enumerated: every order in which the runtime may iterate a map (all permutations of up to five entries, for every map of the run; all pairs of orders of three entries taken in turn; for a vault of 60 items 16 hash seeds x 64 rotations), every order in which the items may be stored in their bands and every spread of them over three bands, object keys in three orders; more than 70 environments (directory, variables, for every variable that the application reads twelve values, umask, terminal size and type, clock, processors, times and modes of the vault files, neighbouring files, other settings) x all commands, thorough: all pairs; all subsets of the other items for overview and details of one item; the interactive mode under every map order and storage order, before and after locking. Vaults contain items with equal titles. Non-trivial: every case but the plain one"
	c.Assume = []string{"map iteration order is controlled in a build whose runtime takes it from the checker; nothing else of the runtime differs", "the time zone is fixed (times are shown in local time)", "larger maps are iterated in orders the runtime itself can produce"}
	bin := os.Getenv("VERIF_APPMAPS")
	if _, err := os.Stat(bin); err != nil {
		panic("harness: no build with controlled map order")
	}
	tie := func(n int, cat, title string, trashed bool) VItem { return simpleItem(n, cat, title, trashed, n%16) }
	addr := func(n int) VItem {
		it := simpleItem(n, "004", fmt.Sprintf("Person %d", n%2), false, 3)
		it.Details = obj{"notesPlain": "n", "sections": []any{obj{"name": "s", "title": "one", "fields": []any{
			obj{"k": "address", "t": "home", "n": "a", "v": obj{"street": "1 Main St", "city": "Springfield", "zip": "12345", "state": "OR", "country": "us"}},
			obj{"k": "concealed", "t": "pin", "n": "b", "v": "1234"}, obj{"k": "monthYear", "t": "exp", "n": "c", "v": 202411}}},
			obj{"name": "t", "title": "two", "fields": []any{obj{"k": "string", "t": "x", "n": "d", "v": "y"}}}}}
		return it
	}
	var shapes []VItem // each lacks what its neighbours have
	for i := 0; i < 5; i++ {
		it := simpleItem(20+i, []string{"001", "003"}[i%2], fmt.Sprintf("Shape %d", i), false, i)
		ov, det := obj{}, obj{}
		if i != 1 {
			ov["title"] = fmt.Sprintf("Shape %d", i)
		}
		if i == 0 || i == 3 {
			ov["url"] = fmt.Sprintf("https://shape%d.example", i)
		}
		if i == 0 || i == 4 {
			det["notesPlain"] = fmt.Sprintf("note of %d", i)
		}
		if i == 0 || i == 1 {
			det["fields"] = []any{obj{"name": "username", "value": fmt.Sprintf("user%d", i), "type": "T"}}
		}
		if i == 0 || i == 2 {
			det["sections"] = []any{obj{"name": "s", "title": fmt.Sprintf("Part %d", i), "fields": []any{obj{"k": "concealed", "t": "pin", "n": "b", "v": fmt.Sprint(i)}, obj{"k": "date", "t": "day", "n": "c", "v": 1000000000 + i}}}, obj{"name": "t", "title": "", "fields": []any{obj{"k": "string", "t": "x", "n": "d", "v": "y"}}}}
		}
		it.Overview, it.Details = ov, det
		shapes = append(shapes, it)
	}
	long := []VItem{}
	for i := 0; i < 60; i++ {
		long = append(long, tie(100+i, []string{"001", "005"}[i%2], fmt.Sprintf("Same %d", i%3), i%7 == 6))
	}
	vaults := []struct {
		name  string
		items []VItem
		perm  int
	}{
		{"equal titles", []VItem{tie(1, "001", "Mail", false), tie(2, "001", "Mail", false), tie(3, "001", "Mail", false), tie(4, "001", "Mail", true), tie(5, "001", "Mail", true)}, 5},
		{"case and empty titles", []VItem{tie(1, "001", "mail", false), tie(2, "001", "Mail", false), tie(3, "001", "", false), tie(4, "001", "", false), tie(5, "001", "MAIL", false)}, 5},
		{"categories", []VItem{tie(1, "003", "Mail", false), tie(2, "005", "Mail", false), tie(3, "001", "Mail", false), tie(4, "003", "Mail", false), tie(5, "099", "Mail", true)}, 5},
		{"sections and addresses", []VItem{addr(1), addr(2), addr(3), addr(4)}, 5},
		{"one item", []VItem{addr(7)}, 5},
		{"many", long, 0},
		{"shapes", shapes, 5},
	}
	mk := func(items []VItem) *VVault {
		return &VVault{Password: "pw", Seed: "c26", Items: append([]VItem(nil), items...)}
	}
	cmds := func(items []VItem) [][]string {
		r := [][]string{{"list"}, {"list", "-t"}, {"list", "-n", "mai"}, {"list", "-c", "login"}, {"list", "-n", "same 1", "-c", "LOGIN"}, {"list", "-c", "nothing"}}
		for i, it := range items {
			if i < 5 {
				a := []string{"overview", it.Uid}
				b := []string{"details", it.Uid}
				if it.Trashed == true {
					a, b = append(a, "-t"), append(b, "-t")
				}
				r = append(r, a, b)
			}
		}
		return append(r, []string{"details", uid(9999)}, []string{"categories"}, []string{"version"})
	}
	type variant struct {
		name  string
		vault string // directory of the vault, "": plain one
		set   func(r *Root, s *Run)
		gui   string // value of VERIF_MAPS, GUI sessions
	}
	pw := "pw"
	plainOrder := fmt.Sprint("1 ", order(nil))
	plainCfg := cfgText("", 1, 1, false)
	roots := make([]*Root, NCPU)
	for w := range roots {
		roots[w] = c.NewRoot(fmt.Sprintf("r%d", w))
		for _, d := range []string{"elsewhere", "xdg/1pass"} {
			must(os.MkdirAll(filepath.Join(roots[w].Dir, d), 0777))
		}
		must(os.WriteFile(filepath.Join(roots[w].Dir, "xdg/1pass/1pass.yml"), []byte("opvault: /nowhere\n"), 0644))
		roots[w].Own()
	}
	run := func(r *Root, dir string, args []string, v *variant) *Result {
		r.Config(plainCfg)
		if args[0] == "default" {
			r.Config(cfgText(dir, 1, 1, false))
		}
		s := Run{Bin: bin, Pass: &pw, Env: []string{"VERIF_MAPS=" + plainOrder}}
		if v != nil {
			if v.vault != "" {
				dir = v.vault
			}
			if v.set != nil {
				v.set(r, &s)
			}
		}
		s.Args = append([]string{}, args...)
		if args[0] == "default" { // without the vault option
			s.Args = s.Args[1:]
		} else if args[0] != "categories" && args[0] != "version" {
			s.Args = append(s.Args, "-v", dir)
		} else {
			s.Pass = nil
			s.Pty = true
		}
		return r.Exec(s)
	}
	sig := func(r *Result) string {
		return fmt.Sprintf("status %d\n--- output\n%s\n--- error output\n%s", r.Code, r.Out, logTime.ReplaceAllString(r.Err, ""))
	}
	// environments
	env := func(kv ...string) func(*Root, *Run) { return func(_ *Root, s *Run) { s.Env = append(s.Env, kv...) } }
	envs := []variant{}
	addEnv := func(n string, f func(*Root, *Run)) { envs = append(envs, variant{name: n, set: f}) }
	for _, kv := range []string{"LANG=tr_TR.UTF-8", "LANG=en_US.UTF-8", "LC_ALL=en_US.UTF-8", "LANG=C", "LC_ALL=de_DE.UTF-8", "LC_ALL=nonsense", "LC_COLLATE=cs_CZ", "LANGUAGE=pl", "TERM=dumb", "TERM=", "TERM=xterm-256color", "COLUMNS=20", "COLUMNS=1000", "LINES=3", "NO_COLOR=1", "CLICOLOR_FORCE=1", "FORCE_COLOR=1", "CI=true", "DEBUG=1", "TMPDIR=/nowhere", "PATH=", "PWD=/nowhere", "SHELL=/bin/false", "USER=root", "SUDO_USER=root", "EDITOR=false", "PAGER=false", "OPVAULT=/nowhere", "VAULT=/nowhere", "TRASHED=true", "NAME=zzz", "CATEGORY=Server", "UPDATE_NOTIFICATION=true", "UPDATE-NOTIFICATION=true", "TIMEOUT=0", "UPDATE_PERIOD=0", "1PASS_OPVAULT=/nowhere", "ONEPASS_VAULT=/nowhere", "OP_VAULT=/nowhere", "PASSWORD=wrong", "OP_PASSWORD=wrong", "GOGC=1", "GOMAXPROCS=1", "GOMAXPROCS=64", "GODEBUG=madvdontneed=1", "HTTPS_PROXY=http://127.0.0.1:1", "HTTP_PROXY=nonsense"} {
		addEnv(kv, env(kv))
	}
	addEnv("XDG_CONFIG_HOME", func(r *Root, s *Run) { s.Env = append(s.Env, "XDG_CONFIG_HOME="+filepath.Join(r.Dir, "xdg")) })
	addEnv("no TERM and PATH", func(_ *Root, s *Run) { s.Unset = []string{"TERM", "PATH"} })
	addEnv("directory /", func(_ *Root, s *Run) { s.Dir = "/" })
	addEnv("directory elsewhere", func(r *Root, s *Run) { s.Dir = filepath.Join(r.Dir, "elsewhere") })
	addEnv("directory tmp", func(r *Root, s *Run) { s.Dir = filepath.Join(r.Dir, "tmp") })
	for _, u := range []string{"000", "077", "777"} {
		addEnv("umask "+u, func(_ *Root, s *Run) { s.Wrap = []string{"/bin/sh", "-c", "umask " + u + `; exec "$0" "$@"`} })
	}
	for _, z := range [][2]uint16{{1, 1}, {24, 80}, {24, 20}, {500, 1000}} {
		addEnv(fmt.Sprintf("terminal %dx%d", z[1], z[0]), func(_ *Root, s *Run) { s.Size = z })
	}
	for _, t := range []int64{1, 86400 * 365, 1 << 31, 4102444800} {
		addEnv(fmt.Sprint("clock ", t), func(_ *Root, s *Run) { s.Now = t })
	}
	cfgs := []string{cfgText("/nowhere", 30, 0, false), cfgText("/nowhere", 1, 365, false), plainCfg + "extra: 1\ntrashed: true\nname: zzz\n", "update-notification: false\n", cfgText("", 1, 1, true)}
	for i, t := range cfgs {
		addEnv(fmt.Sprint("settings ", i), func(r *Root, _ *Run) { r.Config(t) })
	}
	for _, n := range []string{"1pass.yml", "1pass.yaml", ".1pass.yml", "config.yml", "profile.js"} {
		addEnv("bystander "+n, func(r *Root, s *Run) {
			s.Dir = filepath.Join(r.Dir, "tmp")
			for _, d := range []string{"tmp", "home"} {
				r.Write(filepath.Join(r.Dir, d, n), "opvault: /nowhere\nupdate-notification: true\n")
			}
			r.Own()
		})
	}
	type job struct {
		vi   int
		args []string
		v    variant
		base string // expected
	}
	var jobs []job
	baseOf := map[string]string{}
	read := map[string]bool{} // environment variables the commands look at
	dirs := make([]string, len(vaults))
	for i, v := range vaults {
		dirs[i] = c.Dir("vaults") + fmt.Sprintf("/v%d.opvault", i)
		mk(v.items).write(dirs[i])
		for _, a := range cmds(v.items) {
			r := run(roots[0], dirs[i], a, nil)
			if r.Timeout || r.Panicked() || r.Killed {
				c.Fail("crash", obj{"vault": v.name, "args": a, "err": r.Err}, "%s, %v: crashed or hung", v.name, a)
			}
			baseOf[fmt.Sprint(i, a)] = sig(r)
			for _, l := range r.Log {
				if k, ok := strings.CutPrefix(l, "ENVREAD "); ok && k != "HOME" && k != "TZ" && k != "ZONEINFO" && !strings.HasPrefix(k, "VERIF_") && !strings.ContainsAny(k, "=\\") {
					read[k] = true
				}
			}
		}
	}
	var keys []string
	for k := range read {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		addEnv("without "+k, func(_ *Root, s *Run) { s.Unset = append(s.Unset, k) })
		for _, v := range []string{"", "0", "1", "true", "false", "20", "/nowhere", "en_US.UTF-8", "C", "json", "xterm"} {
			addEnv(k+"="+v, env(k+"="+v))
		}
	}
	c.Extra("variables_read", keys)
	add := func(i int, v variant) {
		for _, a := range cmds(vaults[i].items) {
			jobs = append(jobs, job{i, a, v, baseOf[fmt.Sprint(i, a)]})
		}
	}
	maps := func(seed int, o ...uint64) string {
		s := fmt.Sprint(seed)
		for _, x := range o {
			s += fmt.Sprint(" ", x)
		}
		return s
	}
	step := 8
	if c.Thorough {
		step = 1
	}
	orders := []string{}
	var p3 []uint64
	for _, p := range perms(5) {
		orders = append(orders, maps(1, order(p)))
	}
	for _, p := range perms(3) {
		p3 = append(p3, order(p))
	}
	for _, a := range p3 {
		for _, b := range p3 {
			if a != b {
				orders = append(orders, maps(2, a, b))
			}
		}
	}
	for i, v := range vaults {
		os := orders
		if v.name == "many" {
			os = nil
			for s := 0; s < 16; s++ {
				for k := 0; k < 64; k += step {
					os = append(os, maps(s*7919+3, order(nil)|uint64(k)<<32))
				}
			}
		}
		for _, o := range os {
			add(i, variant{name: "map order " + o, set: env("VERIF_MAPS=" + o), gui: o})
		}
	}
	// storage
	k := 0
	store := func(i int, items []VItem, how int, name string) {
		k++
		d := c.Dir("stored") + fmt.Sprintf("/s%d", k)
		v := mk(items)
		for n := range v.Items {
			if how > 0 {
				v.Items[n].Overview, v.Items[n].Details = backwards(v.Items[n].Overview, how), backwards(v.Items[n].Details, how)
			}
		}
		v.writeOrdered(d, how)
		add(i, variant{name: "stored: " + name, vault: d})
	}
	for i, v := range vaults {
		if v.name == "many" || len(v.items) == 1 {
			for how := 0; how < 3; how++ {
				store(i, v.items, how, fmt.Sprint("keys ", how))
			}
			continue
		}
		n := min(4, len(v.items))
		for pi, p := range perms(n) {
			items := append([]VItem(nil), v.items...)
			for x, y := range p {
				items[x] = v.items[y]
			}
			for x := range items {
				items[x].Band = 5
			}
			store(i, items, pi%3, fmt.Sprint("one band, order ", p))
		}
		for m := 0; m < 27; m++ {
			items := append([]VItem(nil), v.items...)
			for x, q := 0, m; x < 3; x, q = x+1, q/3 {
				items[x].Band = []int{0, 7, 15}[q%3]
			}
			store(i, items, m%3, fmt.Sprint("spread ", m))
		}
	}
	// the same directory elsewhere, of other age, without write permission, linked to
	for i, v := range vaults[:4] {
		d := c.Dir("copies")
		n := func(x string) string { return filepath.Join(d, fmt.Sprint(x, i)) }
		v1 := mk(v.items)
		v1.write(n("aged"))
		for x, f := range []string{"profile.js"} {
			t := time.Unix(int64(x), 0)
			os.Chtimes(filepath.Join(n("aged"), "default", f), t, t)
		}
		bs, _ := filepath.Glob(n("aged") + "/default/*")
		for x, f := range bs {
			t := time.Unix(int64(4000000000-x*1000000), 0)
			os.Chtimes(f, t, t)
		}
		add(i, variant{name: "aged", vault: n("aged")})
		v1.write(n("readonly"))
		bs, _ = filepath.Glob(n("readonly") + "/default/*")
		for _, f := range bs {
			os.Chmod(f, 0444)
		}
		os.Chmod(n("readonly")+"/default", 0555)
		os.Chmod(n("readonly"), 0555)
		add(i, variant{name: "read-only", vault: n("readonly")})
		os.Symlink(dirs[i], n("link"))
		add(i, variant{name: "link", vault: n("link")})
		add(i, variant{name: "slash", vault: dirs[i] + "/"})
		add(i, variant{name: "dots", vault: dirs[i] + "/../" + filepath.Base(dirs[i]) + "/."})
		v1.write(n("neigh/bours/v"))
		for _, f := range []string{"band_0.js~", "band_0.js.bak", "1.js", "folders.js", "x.js", ".band_1.js"} {
			os.WriteFile(filepath.Join(n("neigh/bours/v"), "default", f), []byte("ld({});"), 0644)
		}
		mk(vaults[(i+1)%4].items).write(n("neigh/bours/v") + "/default/inner")
		mk(vaults[(i+1)%4].items).write(n("neigh/bours/w"))
		add(i, variant{name: "neighbours", vault: n("neigh/bours/v")})
	}
	for _, i := range []int{0, 3} {
		for _, a := range [][]string{{"default", "list"}, {"default", "list", "-t"}, {"default", "details", vaults[i].items[0].Uid}} {
			b := sig(run(roots[0], dirs[i], a, nil))
			for _, e := range envs {
				if !strings.HasPrefix(e.name, "settings") {
					jobs = append(jobs, job{i, a, e, b})
				}
			}
		}
		for _, e := range envs {
			add(i, e)
		}
		if c.Thorough {
			for x, e := range envs {
				for _, f := range envs[x+1:] {
					add(i, variant{name: e.name + " + " + f.name, set: func(r *Root, s *Run) { e.set(r, s); f.set(r, s) }})
				}
			}
		}
	}
	// overview and details do not depend on the other items
	for _, i := range []int{0, 3, len(vaults) - 1} {
		all := vaults[i].items
		for keep := range all {
			for set := 0; set < 1<<len(all); set++ {
				if set>>keep&1 == 0 {
					continue
				}
				var items []VItem
				for x := range all {
					if set>>x&1 == 1 {
						items = append(items, all[x])
					}
				}
				d := c.Dir("subsets") + fmt.Sprintf("/v%d.%d", i, set)
				if _, err := os.Stat(d); err != nil {
					mk(items).write(d)
				}
				for _, a := range cmds(all) {
					if len(a) > 1 && a[1] == all[keep].Uid {
						jobs = append(jobs, job{i, a, variant{name: fmt.Sprintf("only items %b", set), vault: d}, baseOf[fmt.Sprint(i, a)]})
					}
				}
			}
		}
	}
	c.Par(len(jobs), func(w, n int) {
		j := jobs[n]
		root := roots[w]
		c.Eval(1)
		c.Distinct(1)
		for _, d := range []string{"tmp", "home"} {
			for _, f := range []string{"1pass.yml", "1pass.yaml", ".1pass.yml", "config.yml", "profile.js"} {
				os.Remove(filepath.Join(root.Dir, d, f))
			}
		}
		r := run(root, dirs[j.vi], j.args, &j.v)
		desc := obj{"vault": vaults[j.vi].name, "items": vaults[j.vi].items, "variant": j.v.name, "args": j.args, "expected": j.base, "got": sig(r)}
		if r.Timeout || r.Panicked() || r.Killed {
			c.Fail("crash", desc, "%s, %s, %v: crashed or hung: %s", vaults[j.vi].name, j.v.name, j.args, tail(r.Err, 300))
			return
		}
		if g := sig(r); g != j.base {
			c.Fail(strings.Fields(j.v.name)[0], desc, "vault %q, %s, %v: the answer differs from that in the plain case", vaults[j.vi].name, j.v.name, j.args)
		}
		if n%1000 == 0 {
			c.Sample(obj{"vault": vaults[j.vi].name, "variant": j.v.name, "args": j.args})
		}
	})
	// interactive mode
	c.NewServer("gh") // its certificate is what the sessions look for
	var script []Step
	press := func(e ...Ev) {
		for _, x := range e {
			script = append(script, one(x))
		}
	}
	for n := 0; n < 2; n++ {
		script = append(script, batch(typed("pw")...))
		press(key(kEnter), key(kEnter))
		for x := 0; x < 4; x++ {
			press(key(kTab), key(kTab), ch('j'))
		}
		press(ch('q'), ch('j'), key(kEnter), ch('j'), ch('j'), key(kCtrlL))
	}
	type gjob struct {
		vi   int
		o    string
		dir  string
		name string
	}
	var gj []gjob
	for i, v := range vaults {
		seen := map[string]bool{}
		for _, j := range jobs {
			if j.vi != i || j.args[0] != "list" || len(j.args) > 1 {
				continue
			}
			if j.v.gui != "" && !seen[j.v.gui] {
				seen[j.v.gui] = true
				gj = append(gj, gjob{i, j.v.gui, dirs[i], j.v.name})
			} else if strings.HasPrefix(j.v.name, "stored") && !seen[j.v.vault] {
				seen[j.v.vault] = true
				gj = append(gj, gjob{i, "", j.v.vault, j.v.name})
			}
		}
		_ = v
	}
	session := func(root *Root, g gjob) []Frame {
		root.Config(cfgText(g.dir, 1, 1, false))
		if g.o == "" {
			g.o = plainOrder
		}
		d := c.NewDriver(root, bin, "VERIF_MAPS="+g.o)
		defer d.Close()
		return d.Run(Sess{W: 100, H: 30, Dial: "block", Steps: script})
	}
	gbase := make([][]Frame, len(vaults))
	for i := range vaults {
		gbase[i] = session(roots[0], gjob{vi: i, dir: dirs[i]})
		if f := gbase[i][len(gbase[i])-1]; len(gbase[i]) < len(script) || f.Status != "" {
			c.Fail("session", obj{"vault": vaults[i].name, "status": f.Status}, "interactive session of %s: %s", vaults[i].name, f.Status)
			return
		}
	}
	c.Par(len(gj), func(w, n int) {
		g := gj[n]
		fs := session(roots[w], g)
		c.Eval(1)
		c.Distinct(1)
		c.AddExtra("sessions", 1)
		for x := range gbase[g.vi] {
			if x >= len(fs) || fs[x].Status != gbase[g.vi][x].Status || fs[x].Screen() != gbase[g.vi][x].Screen() {
				got := "ended"
				if x < len(fs) {
					got = fs[x].Screen()
				}
				c.Fail("screen", obj{"vault": vaults[g.vi].name, "variant": g.name, "step": x, "script": script[:x], "expected": gbase[g.vi][x].Screen(), "got": got}, "vault %q, %s, interactive, after %d steps: the screen differs from that in the plain case", vaults[g.vi].name, g.name, x)
				return
			}
		}
		c.Trans(len(fs))
	})
	c.Extra("environments", len(envs))
	c.Extra("map orders", len(orders))
	c.Extra("storage forms", k)
}

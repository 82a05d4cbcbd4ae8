package main

import (
	"fmt"
	"path/filepath"
	"strconv"
	"strings"
)

func init() { checks["C24"] = c24 }

// what a command line asks for
type asked24 struct {
	refuse, help, free bool // not a valid command line; asks for help; not claimed
	cmd                string
	vault, cat, name   string
	trash              bool
	args               []string
}

// parse24: the usual rules of POSIX and GNU options, for a command line that starts with the command
// or with the vault option in front of it.
func parse24(argv []string) (q asked24) {
	i := 0
	takeVault := func() bool {
		t := argv[i]
		switch {
		case t == "-v" || t == "--vault":
			if i+1 >= len(argv) {
				return false
			}
			q.vault = argv[i+1]
			i += 2
		case strings.HasPrefix(t, "--vault="):
			q.vault = t[len("--vault="):]
			i++
		default:
			return false
		}
		return true
	}
	for i < len(argv) && strings.HasPrefix(argv[i], "-") {
		if !takeVault() {
			q.free = true // options in front of the command: at most help or refusal, see check
			return
		}
		if q.vault == "" || strings.HasPrefix(q.vault, "-") || isCmd24(q.vault) {
			q.free = true
			return
		}
	}
	if i >= len(argv) {
		q.cmd = "gui"
		return
	}
	front := i > 0
	q.cmd = argv[i]
	if !isCmd24(q.cmd) {
		if q.cmd == "" || q.cmd == "help" || q.cmd == "completion" || strings.HasPrefix(q.cmd, "__") {
			q.free = true
		} else {
			q.refuse = true
		}
		return
	}
	str := map[string]*string{}
	flag := map[string]*bool{}
	hlp := false
	flag["h"], flag["help"] = &hlp, &hlp
	switch q.cmd {
	case "list":
		str["v"], str["vault"], str["c"], str["category"], str["n"], str["name"] = &q.vault, &q.vault, &q.cat, &q.cat, &q.name, &q.name
		flag["t"], flag["trashed"] = &q.trash, &q.trash
	case "overview", "details":
		str["v"], str["vault"] = &q.vault, &q.vault
		flag["t"], flag["trashed"] = &q.trash, &q.trash
	default:
		if front {
			q.free = true
			return
		}
	}
	rest := argv[i+1:]
	bad := func() asked24 { q.refuse = true; return q }
	for k := 0; k < len(rest); k++ {
		t := rest[k]
		if t == "--" {
			q.args = append(q.args, rest[k+1:]...)
			break
		}
		if t == "-" || !strings.HasPrefix(t, "-") {
			q.args = append(q.args, t)
			continue
		}
		if strings.HasPrefix(t, "--") {
			n, v, eq := strings.Cut(t[2:], "=")
			if n == "" || n[0] == '-' {
				return bad()
			}
			if p := str[n]; p != nil && len(n) > 1 {
				if !eq {
					k++
					if k >= len(rest) {
						return bad()
					}
					v = rest[k]
				}
				*p = v
			} else if p := flag[n]; p != nil && len(n) > 1 {
				*p = true
				if eq {
					b, err := strconv.ParseBool(v)
					if err != nil {
						return bad()
					}
					*p = b
				}
			} else {
				return bad()
			}
			continue
		}
		for s := t[1:]; s != ""; {
			n := s[:1]
			s = s[1:]
			if p := str[n]; p != nil {
				if s == "" {
					k++
					if k >= len(rest) {
						return bad()
					}
					*p = rest[k]
				} else {
					*p = strings.TrimPrefix(s, "=")
				}
				s = ""
			} else if p := flag[n]; p != nil {
				*p = true
				if strings.HasPrefix(s, "=") {
					b, err := strconv.ParseBool(s[1:])
					if err != nil {
						return bad()
					}
					*p = b
					s = ""
				}
			} else {
				return bad()
			}
		}
	}
	if hlp {
		q.help = true
		return
	}
	switch q.cmd {
	case "list":
		q.refuse = len(q.args) > 0
	case "overview", "details":
		q.refuse = len(q.args) != 1
	default:
		q.free = len(q.args) > 0 // arguments that mean nothing
	}
	return
}

func isCmd24(s string) bool {
	switch s {
	case "list", "overview", "details", "categories", "version", "configure", "update":
		return true
	}
	return false
}

func c24(c *Ctx) {
	c.Level = "exploration"
	c.Rule = "case = one command line, run as a process with a terminal, compared with a reference parser of the usual option rules and a reference of what the command shows. Enumerated: every command line of up to 3 words (thorough: 4) out of an alphabet of commands, options in every spelling, option values, item identifiers and junk; for list, overview and details every order of up to 4 options and arguments in all their spellings (short, attached, long, with equals sign, bundled, repeated), with and without a default vault. Non-trivial: every case"
	c.Assume = []string{"options other than the vault in front of the command, help texts, completion and meaningless arguments of commands without arguments are only required not to ask for a password without naming a vault command", "an explicitly empty -v counts as not given"}
	mk := func(n string) (dir string) {
		v := &VVault{Password: "pw", Seed: "c24" + n, Items: []VItem{
			simpleItem(1, "001", "LoginLive"+n, false, 1), simpleItem(2, "001", "LoginTrash"+n, true, 2), simpleItem(3, "003", "NoteLive"+n, false, 3), simpleItem(4, "003", "NoteTrash"+n, true, 4)}}
		dir = filepath.Join(c.Scratch, "vault"+n)
		v.write(dir)
		return
	}
	va, vb := mk("A"), mk("B")
	u := func(n int) string { return uid(n) }
	type item struct {
		uid, title, cat string
		trash           bool
	}
	items := []item{{u(1), "LoginLive", "login", false}, {u(2), "LoginTrash", "login", true}, {u(3), "NoteLive", "secure note", false}, {u(4), "NoteTrash", "secure note", true}}
	type job struct {
		argv []string
		def  bool // vault A is configured as default
	}
	var jobs []job
	seen := map[string]bool{}
	add := func(argv ...string) {
		k := strings.Join(argv, "\x00")
		if seen[k] {
			return
		}
		seen[k] = true
		jobs = append(jobs, job{append([]string{}, argv...), len(jobs)%2 == 0})
		if len(argv) > 0 && (argv[0] == "list" || argv[0] == "overview" || argv[0] == "details") {
			jobs = append(jobs, job{append([]string{}, argv...), len(jobs)%2 == 0})
		}
	}
	// all short command lines
	words := []string{"list", "overview", "details", "categories", "version", "lists", "bogus", "-v", vb, "--vault", "--vault=" + vb, "-v" + vb, "-t", "--trashed", "-t=false", "-n", "note", "-c", "Login", "-cLogin", u(1), u(2), "-h", "--", "--bogus", "-x", "", "-tv", "help"}
	depth := 3
	if c.Thorough {
		depth = 4
	}
	var rec func(p []string)
	rec = func(p []string) {
		add(p...)
		if len(p) == depth {
			return
		}
		for _, w := range words {
			rec(append(append([]string{}, p...), w))
		}
	}
	rec(nil)
	add("configure")
	add("configure", "--bogus")
	add("update", "--bogus")
	add("update", "-v", vb)
	add("configure", "-t")
	// options in every order and spelling
	vs := [][]string{{"-v", vb}, {"-v" + vb}, {"--vault", vb}, {"--vault=" + vb}, {"-v=" + vb}}
	ts := [][]string{{"-t"}, {"--trashed"}, {"--trashed=true"}, {"-t=0"}, {"--trashed=false"}, {"-t=maybe"}}
	cs := [][]string{{"-c", "login"}, {"--category", "Secure Note"}, {"-clogin"}, {"--category=LOGIN"}, {"-c", "nonsense"}, {"-c", " login "}, {"-c", ""}}
	ns := [][]string{{"-n", "live"}, {"--name", "NOTE"}, {"-nnote"}, {"--name=trash"}, {"-n", "zzz"}, {"-n", "-t"}, {"-n", ""}, {"-n", "list"}}
	var perm func(cmd string, done []string, rest [][]string)
	perm = func(cmd string, done []string, rest [][]string) {
		if len(rest) == 0 {
			add(append([]string{cmd}, done...)...)
			return
		}
		for i := range rest {
			r := append(append([][]string{}, rest[:i]...), rest[i+1:]...)
			perm(cmd, append(append([]string{}, done...), rest[i]...), r)
		}
	}
	none := [][]string{nil}
	for _, v := range append(none, vs...) {
		for _, t := range append(none, ts...) {
			for ci, ct := range append(none, cs...) {
				for ni, n := range append(none, ns...) {
					var g [][]string
					for _, x := range [][]string{v, t, ct, n} {
						if x != nil {
							g = append(g, x)
						}
					}
					if len(g) == 4 && !c.Thorough && (ci+ni+len(t[0])+len(v[0]))%4 != 0 {
						add(append([]string{"list"}, append(append(append(append([]string{}, n...), ct...), t...), v...)...)...)
						continue
					}
					perm("list", nil, g)
				}
			}
		}
	}
	for _, cmd := range []string{"overview", "details"} {
		for _, v := range append(none, vs...) {
			for _, t := range append(none, ts...) {
				for _, a := range []string{u(1), u(2), u(3), "00", strings.ToLower(u(1)), "list"} {
					var g [][]string
					for _, x := range [][]string{v, t, {a}} {
						if x != nil {
							g = append(g, x)
						}
					}
					perm(cmd, nil, g)
				}
			}
		}
		for _, a := range []string{u(1), u(2)} {
			add(cmd, "-tv", vb, a)
			add(cmd, "-tv"+vb, a)
			add(cmd, "-tv="+vb, a)
			add(cmd, "-v", va, "-v", vb, a)
			add(cmd, "-v", vb, "-v", va, a)
			add(cmd, "-t", "-t=false", a)
			add(cmd, "-t=false", "-t", a)
			add(cmd, "-v", vb, "--", a)
			add(cmd, "--", a)
			add(cmd, "--", a, "-v", vb)
			add(cmd, "-v", "", a)
			add(cmd, "--vault=", a)
			add("-v", vb, cmd, a)
			add("--vault="+vb, cmd, a)
			add("--vault", vb, cmd, "-t", a)
			add("-v", vb, cmd, "-v", va, a)
		}
	}
	add("-v", vb, "list")
	add("--vault="+vb, "list", "-t")
	// words that are nearly a command or an option
	near := func(n string) (r []string) {
		for i := 1; i < len(n); i++ {
			r = append(r, n[:i], n[i:], n[:i-1]+n[i:], n[:i]+n[i-1:])
		}
		return append(r, strings.ToUpper(n), strings.ToUpper(n[:1])+n[1:], n+"s", n+" ", " "+n, n+"=", n+"-", n+"\n", n+"/", "./"+n, n+".")
	}
	for _, cmd := range []string{"list", "overview", "details", "categories", "version", "configure", "update"} {
		for _, n := range near(cmd) {
			if isCmd24(n) {
				continue
			}
			for _, rest := range [][]string{{}, {u(1)}, {"-v", vb}, {u(1), "-v", vb}, {"-t"}} {
				add(append([]string{n}, rest...)...)
			}
		}
	}
	for _, o := range []string{"vault", "trashed", "category", "name"} {
		for _, n := range near(o) {
			if n == o || n == "" || strings.HasPrefix(n, "-") {
				continue
			}
			add("list", "--"+n, vb)
			add("list", "--"+n)
			add("list", "--"+n+"="+vb)
			add("details", u(1), "--"+n)
			add("overview", "--"+n, vb, u(1))
			add("list", "-"+o)
			add("details", u(1), "-"+o)
		}
	}
	roots := make([]*Root, NCPU)
	for w := range roots {
		roots[w] = c.NewRoot(fmt.Sprintf("r%d", w))
	}
	pw := "pw"
	c.Par(len(jobs), func(w, k int) {
		j := jobs[k]
		root := roots[w]
		def := ""
		if j.def {
			def = va
		}
		root.Config(cfgText(def, 1, 1, false))
		q := parse24(j.argv)
		c.Eval(1)
		c.Distinct(1)
		lines := ""
		if q.cmd == "configure" {
			lines = "\n\n\n\n"
		}
		r := root.Exec(Run{Args: j.argv, Pass: &pw, Lines: lines})
		desc := obj{"command line": j.argv, "default vault": def, "out": r.Out, "err": r.Err, "code": r.Code}
		bad := func(key, f string, x ...any) {
			c.Fail(key, desc, "%q (default vault %q): %s", j.argv, def, fmt.Sprintf(f, x...))
		}
		if r.Timeout || r.Panicked() || r.Killed {
			bad("crash", "crashed or hung: %s", r.Err)
			return
		}
		out := r.All()
		asks := r.Asked || strings.Contains(out, "Password:")
		gui := strings.Contains(out, "VERIF-GUI-STARTED") || r.Code == 42
		if m := r.Muts(); len(m) > 0 && q.cmd != "configure" && q.cmd != "update" {
			bad("changes", "changes files: %v", m)
		}
		if q.free {
			named := false
			for _, a := range j.argv {
				named = named || a == "list" || a == "overview" || a == "details"
			}
			if asks && !named {
				bad("asks", "asks for a password although no vault command is named")
			}
			return
		}
		shown := func() (s []string) {
			for _, v := range []string{"A", "B"} {
				for _, it := range items {
					if strings.Contains(out, it.title+v) {
						s = append(s, it.title+v)
					}
				}
			}
			return
		}
		if q.refuse || q.help {
			if asks || gui || len(shown()) > 0 {
				bad("not-refused", "must be refused (or only explained), but asks for a password or opens a vault")
			}
			if strings.TrimSpace(out) == "" {
				bad("silent", "nothing is said")
			}
			if q.refuse && r.Code == 0 {
				bad("status", "is refused with exit status 0")
			}
			return
		}
		var want []string
		vault := q.vault
		if vault == "" {
			vault = def
		}
		letter := "B"
		if vault == va {
			letter = "A"
		}
		known := vault == va || vault == vb
		switch q.cmd {
		case "version":
			if asks || gui || !strings.Contains(out, runningVersion) || r.Code != 0 {
				bad("version", "does not print the version: %d %q", r.Code, out)
			}
			return
		case "categories":
			if asks || gui || !strings.Contains(out, "Secure Note") || r.Code != 0 {
				bad("categories", "does not print the categories: %d %q", r.Code, out)
			}
			return
		case "configure":
			if asks || gui || !strings.Contains(out, "configured") {
				bad("configure", "%d %q", r.Code, out)
			}
			return
		case "update":
			return
		case "gui":
			if known && !gui || !known && (gui || asks || r.Code == 0) {
				bad("gui", "interactive mode started = %v with vault %q: %d %q", gui, vault, r.Code, out)
			}
			return
		}
		if gui {
			bad("gui", "the interactive mode is started")
			return
		}
		if !known {
			if asks || r.Code == 0 || len(shown()) > 0 {
				bad("vault", "no valid vault, but asked = %v, exit status %d", asks, r.Code)
			}
			return
		}
		if !asks {
			bad("not-asked", "no password is asked for: %d %q", r.Code, out)
			return
		}
		fail := false
		if q.cmd == "list" {
			cat := strings.TrimSpace(strings.ToLower(q.cat))
			if cat != "" && cat != "login" && cat != "secure note" {
				fail = true
			}
			for _, it := range items {
				if it.trash == q.trash && (q.cat == "" || it.cat == cat) && strings.Contains(strings.ToLower(it.title+letter), strings.ToLower(strings.TrimSpace(q.name))) && !fail {
					want = append(want, it.title+letter)
				}
			}
		} else {
			for _, it := range items {
				if it.trash == q.trash && it.uid == q.args[0] {
					want = append(want, it.title+letter)
				}
			}
		}
		if got := shown(); fmt.Sprint(got) != fmt.Sprint(want) {
			bad("shown", "shows %v, expected %v", got, want)
			return
		}
		if (r.Code != 0) != fail {
			bad("status", "exit status %d", r.Code)
		}
		if len(want) == 1 && q.cmd != "list" {
			n := 0
			for i, it := range items {
				if it.title+letter == want[0] {
					n = i + 1
				}
			}
			if sec := strings.Contains(out, fmt.Sprintf("note %d", n)); sec != (q.cmd == "details") {
				bad("command", "notes shown = %v", sec)
			}
		}
		if k%3000 == 11 {
			c.Sample(desc)
		}
	})
	c.Extra("command_lines", len(seen))
}

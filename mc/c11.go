package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"github.com/mashmb/1pass/1pass-core/core/domain"
)

func init() { checks["C11"] = c11; checks["C10"] = c10 }

type setting struct {
	Timeout, Period int
	Notify          bool
	Vault           string
}

func readSetting(dir string) (s setting, avail bool, out string) {
	out = guard(func() {
		f := newConfigFacade(dir)
		g := f.GetConfig()
		s = setting{g.Timeout, g.UpdatePeriod, g.UpdateNotify, g.Vault}
		avail = f.IsConfigAvailable()
	})
	return
}

// yes/no answers as documented: y or n in any case.
func refYN(a string) (val, valid bool) {
	switch a {
	case "y", "Y":
		return true, true
	case "n", "N":
		return false, true
	}
	return false, false
}

func refNum(a string, lo, hi int) (int, bool) {
	if a == "" || len(a) > 4 {
		return 0, false
	}
	n := 0
	for _, ch := range a {
		if ch < '0' || ch > '9' {
			return 0, false
		}
		n = n*10 + int(ch-'0')
	}
	return n, n >= lo && n <= hi
}

// answer applies the dialogue to a setting; the lines may end early.
func (s setting) answer(lines []string) setting {
	next := func() string {
		if len(lines) == 0 {
			return ""
		}
		l := lines[0]
		lines = lines[1:]
		return l
	}
	if y, ok := refYN(next()); ok && y {
		s.Vault = next()
	}
	if y, ok := refYN(next()); ok {
		s.Notify = y
	}
	if n, ok := refNum(next(), 1, 30); ok {
		s.Timeout = n
	}
	if n, ok := refNum(next(), 0, 365); ok {
		s.Period = n
	}
	return s
}

var defaults = setting{1, 1, true, ""}

type prior struct {
	name, text string
	none       bool
	set        setting
}

func priors() []prior {
	return []prior{{"none", "", true, defaults},
		{"set", cfgText("/old vault/x", 17, 99, false), false, setting{17, 99, false, "/old vault/x"}},
		{"partial", "timeout: 9\nextra: keep\n", false, setting{9, 1, true, ""}},
		{"empty", "", false, defaults}}
}

func (r *Root) prior(p prior) {
	os.RemoveAll(filepath.Join(r.Home(), ".config"))
	if !p.none {
		r.Config(p.text)
	}
}

func c11(c *Ctx) {
	c.Level = "exploration"
	c.Rule = "case = (previous configuration, one line per question): the configure command runs as a process and the saved configuration is compared with the reference dialogue. Enumerated: the product of answer classes for every question (valid, empty, out of range, not a number, several words, texts valid for another question) over 4 previous states; input ending after every line; first-run dialogue for every vault command and the interactive mode, absent, empty and present configuration. Non-trivial: at least one line is not empty"
	c.Assume = []string{"blanks around an answer and an empty vault path (which clears the default) follow the current behaviour and are not varied beyond that"}
	q1 := []string{"", "y", "Y", "n", "N", "yes", "maybe so", "1"}
	qp := []string{"/p", "/path with spaces/My Vault.opvault", "y", "7", "ünï ✓", "a: b # c", "\"q\" 'x' \\", "", "/x  y"}
	q2 := []string{"", "y", "n", "N", "Y", "not now", "true", "5"}
	q3 := []string{"", "1", "30", "15", "0", "31", "-1", "abc", "5 6", "2.5", "n", "9999", "1e1", "0x5"}
	q4 := []string{"", "0", "365", "42", "366", "-1", "abc", "1 2", "y", "99999", "1,5"}
	if !c.Thorough {
		q3 = []string{"", "1", "30", "0", "31", "-1", "7", "5 6", "n"}
		q4 = []string{"", "0", "365", "42", "366", "-1", "1 2", "y"}
	}
	type job struct {
		p     prior
		lines []string
		cut   bool // no newline at the end
	}
	var jobs []job
	ps := priors()
	add := func(lines ...string) {
		for i, p := range ps {
			if !c.Thorough && i > 1 && (len(jobs)/2)%5 != 0 {
				continue
			}
			jobs = append(jobs, job{p, lines, false})
		}
	}
	for _, a := range q1 {
		paths := []string{"\x00"}
		if y, ok := refYN(a); ok && y {
			paths = qp
		}
		for pi, p := range paths {
			for i, b := range q2 {
				for k, d := range q3 {
					for l, e := range q4 {
						if p == "\x00" {
							add(a, b, d, e)
						} else if c.Thorough || (pi+i+k+l)%3 == 0 {
							add(a, p, b, d, e)
						}
					}
				}
			}
		}
	}
	// each question alone with many more answers, the others empty or valid; more previous states
	xyn := []string{"ye", "yes", "Yes", "YES", "yeah", "no", "No", "NO", "nope", "true", "false", "on", "off", "0", "1", "t", "f", "yy", "nn", "y n", "y.", "n/a", "ok", "?", "j", "ÿ", "ｙ", "-", "y,n", strings.Repeat("y", 300), strings.Repeat("n", 5000)}
	xnum := []string{"2", "3", "5", "9", "10", "11", "19", "20", "29", "30", "31", "60", "100", "364", "365", "366", "1000", "5s", "5m", "5d", "1h", "5 s", "5.", "5.0", ".5", "5,", "1,000", "ten", "0x5", "0X5", "0b11", "0o7", "1_0", "1e1", "1E1", "--5", "-5", "-0x1", "٥", "５", "5%", "5/6", "2147483648", "4294967297", "4294967298", "4294967301", "9223372036854775807", "9223372036854775808", "18446744073709551617", "18446744073709551621", "36893488147419103239", "-9223372036854775809", "-18446744073709551611", "-4294967291", "y", "n", "/p", "'5'", "\"5\"", "(5)", "[1-30]", strings.Repeat("5", 400)}
	xpath := []string{"/", "x", "~", "~/Vault", "$HOME/v", "./rel", "../up", "/a/../b", "/a//b", "/trailing/", "/x.opvault/", "y", "Y", "n", "N", "yes", "no", "1", "30", "null", "true", "C:\\Users\\x", "'quoted path'", "\"quoted\"", "a\tb", "- x", "{a}", "[b]", "*", "&", "!x", "%d %s", "\\n", "/p?x=1&y=2", "file:///v", "é", "日本語/金庫", "/very" + strings.Repeat("/long", 100), strings.Repeat("p", 254), strings.Repeat("p", 255), strings.Repeat("p", 256), strings.Repeat("p q", 1365), strings.Repeat("/x", 2500)}
	more := append(append([]prior{}, ps...), prior{"one letter", cfgText("x", 30, 365, true), false, setting{30, 365, true, "x"}}, prior{"lowest", cfgText("", 1, 0, false), false, setting{1, 0, false, ""}}, prior{"long", cfgText(strings.Repeat("/old", 200), 2, 364, true), false, setting{2, 364, true, strings.Repeat("/old", 200)}})
	for _, p := range more {
		for b := 0; b < 3; b++ {
			base := [][]string{{"n", "", "", ""}, {"", "n", "12", "34"}, {"n", "y", "2", "3"}}[b]
			with := func(i int, a string) {
				l := append([]string{}, base...)
				l[i] = a
				jobs = append(jobs, job{p, l, false})
				if i == 3 {
					jobs = append(jobs, job{p, l, true})
				}
			}
			for _, a := range xyn {
				with(0, a)
				with(1, a)
			}
			for _, a := range xnum {
				with(2, a)
				with(3, a)
			}
			for _, a := range xpath {
				jobs = append(jobs, job{p, append([]string{"y", a}, base[1:]...), false})
			}
		}
		for n := 1; n <= 30; n++ {
			jobs = append(jobs, job{p, []string{"n", "", fmt.Sprint(n), ""}, false})
		}
		for n := 0; n <= 365; n++ {
			if c.Thorough || n%5 == 0 || p.name == "set" {
				jobs = append(jobs, job{p, []string{"n", "", "", fmt.Sprint(n)}, false})
			}
		}
	}
	full := []string{"y", "/new path", "n", "7", "8"}
	for n := 0; n <= len(full); n++ {
		for _, p := range ps {
			jobs = append(jobs, job{p, full[:n], false}, job{p, full[:n], true})
		}
	}
	roots := make([]*Root, NCPU)
	for w := range roots {
		roots[w] = c.NewRoot(fmt.Sprintf("r%d", w))
	}
	c.Par(len(jobs), func(w, k int) {
		j := jobs[k]
		root := roots[w]
		root.prior(j.p)
		in := strings.Join(j.lines, "\n")
		if !j.cut && len(j.lines) > 0 {
			in += "\n"
		}
		c.Eval(1)
		if strings.TrimSpace(in) != "" {
			c.Distinct(1)
		}
		r := root.Exec(Run{Args: []string{"configure"}, Stdin: in})
		want := j.p.set.answer(j.lines)
		got, avail, out := readSetting(root.Cfg())
		desc := obj{"previous": j.p.name, "answers": j.lines, "out": r.Out, "err": r.Err}
		switch {
		case r.Timeout || r.Panicked() || r.Killed || r.Code != 0:
			c.Fail("crash", desc, "%q: exit %d: %s", j.lines, r.Code, r.Err)
		case out != "" || !avail:
			c.Fail("unreadable", desc, "%q: the saved configuration cannot be read: %s available=%v", j.lines, out, avail)
		case got != want:
			c.Fail("wrong-setting", desc, "previous %+v, answers %q: saved %+v, expected %+v", j.p.set, j.lines, got, want)
		}
		if j.p.name == "partial" {
			if b, _ := os.ReadFile(root.CfgFile()); !strings.Contains(string(b), "extra") {
				c.Fail("lost-key", desc, "unrelated key lost: %q", b)
			}
		}
		if k%1500 == 7 {
			c.Sample(desc)
		}
	})
	c11first(c, roots)
}

func c11first(c *Ctx, roots []*Root) {
	v := &VVault{Password: "pw", Seed: "c11", Items: []VItem{simpleItem(1, "001", "TheTitle", false, 1)}}
	dir := filepath.Join(c.Scratch, "vault one")
	v.write(dir)
	u := v.Items[0].Uid
	type job struct {
		args  []string
		p     prior
		needs bool
		exp   bool // explicit vault
	}
	var jobs []job
	ps := priors()
	ps = append(ps, prior{"only-unknown", "extra: 1\n", false, defaults})
	for _, p := range ps {
		for _, exp := range []bool{true, false} {
			for _, cmd := range [][]string{{"list"}, {"overview", u}, {"details", u}, {}} {
				jobs = append(jobs, job{cmd, p, true, exp})
			}
		}
		jobs = append(jobs, job{[]string{"version"}, p, false, false}, job{[]string{"categories"}, p, false, false}, job{[]string{"help"}, p, false, false})
	}
	c.Par(len(jobs), func(w, k int) {
		j := jobs[k]
		root := roots[w]
		root.prior(j.p)
		conf := !j.p.none && j.p.name != "empty"
		args := append([]string(nil), j.args...)
		lines := "y\n" + dir + "\nn\n7\n8\n"
		want := setting{7, 8, false, dir}
		if j.exp {
			args = append(args, "-v", dir)
			lines = "n\nn\n7\n8\n"
			want = setting{7, 8, false, ""}
		} else if conf && j.needs {
			// configured default must exist for the command to go on
			root.Config(cfgText(dir, 3, 4, false))
		}
		if !j.needs || conf {
			lines = ""
			want, _, _ = readSetting(root.Cfg())
		}
		before, _ := os.ReadFile(root.CfgFile())
		c.Eval(1)
		c.Distinct(1)
		r := root.Exec(Run{Args: args, Pty: true, Lines: lines, Pass: strp("pw")})
		desc := obj{"args": args, "previous": j.p.name, "typed": lines, "out": r.Out, "err": r.Err, "code": r.Code}
		bad := func(key, f string, a ...any) {
			c.Fail("first-"+key, desc, "%v, configuration %s: %s", args, j.p.name, fmt.Sprintf(f, a...))
		}
		asks := strings.Contains(r.Out, "Do you want to set default OPVault path")
		if r.Timeout || r.Panicked() || r.Killed {
			bad("crash", "crashed or hung: %s%s", r.Out, r.Err)
			return
		}
		if asks != (j.needs && !conf) {
			bad("asks", "configuration dialogue shown = %v", asks)
			return
		}
		got, avail, out := readSetting(root.Cfg())
		if j.needs && (out != "" || !avail || got != want) {
			bad("saved", "configuration is %+v (available %v) %s, expected %+v", got, avail, out, want)
		}
		if !asks {
			if after, _ := os.ReadFile(root.CfgFile()); string(after) != string(before) {
				bad("touched", "configuration changed without dialogue")
			}
		}
		if j.needs && len(j.args) > 0 && (r.Code != 0 || !strings.Contains(r.Out, "TheTitle")) {
			bad("continues", "the command does not do its work afterwards: exit %d %q", r.Code, r.Out)
		}
		if j.needs && len(j.args) == 0 && r.Code != 42 {
			bad("continues", "the interactive mode does not start: exit %d %q", r.Code, r.Out)
		}
		c.Sample(desc)
	})
}

// ---------------------------------------------------------------- C10

func c10(c *Ctx) {
	c.Level = "fault_enumeration"
	c.Rule = "case = (previous state, new settings, fault sequence): every mutation of the file system that a save performs is hit by every fault kind (killed before it, killed half way through a write, refused, cut short), from every previous state; and every pair of faults in two successive saves. Afterwards the configuration read by a fresh start is the complete old or the complete new one, and a further save without fault works. Non-trivial: the fault was reached"
	c.Assume = []string{"faults are process death and failing or short system calls; loss of written data on power failure is not modelled", "one process saves at a time"}
	long := "/a/very/long/path/" + strings.Repeat("to/somewhere/", 60)
	ps := []prior{
		{"no-dir", "", true, defaults},
		{"set", cfgText("/old vault/x", 17, 99, false), false, setting{17, 99, false, "/old vault/x"}},
		{"long", cfgText(long, 17, 99, false), false, setting{17, 99, false, long}},
		{"partial", "timeout: 9\nextra: keep\n", false, setting{9, 1, true, ""}},
		{"empty", "", false, defaults},
		{"link", cfgText("/linked", 2, 3, true), false, setting{2, 3, true, "/linked"}},
		{"leftover", cfgText("/old", 2, 3, true), false, setting{2, 3, true, "/old"}},
	}
	setup := func(root *Root, p prior) {
		root.prior(p)
		switch p.name {
		case "link":
			must(os.MkdirAll(filepath.Join(root.Home(), "dot"), 0755))
			t := filepath.Join(root.Home(), "dot", "1pass.yml")
			must(os.WriteFile(t, []byte(p.text), 0644))
			os.Remove(root.CfgFile())
			must(os.Symlink(t, root.CfgFile()))
			root.Own()
		case "leftover":
			root.Write(root.CfgFile()+".tmp", "timeout: 99\nopva")
			root.Write(root.CfgFile()+"~", "x")
			root.Own()
		}
	}
	news := [][]string{{"y", "/n", "y", "5", "6"}, {"y", long + "x", "n", "30", "365"}, {"n", "y", "", "10"}}
	if c.Thorough {
		news = append(news, []string{"y", strings.Repeat("ü long ", 2000), "n", "1", "0"}, []string{"n", "n", "2", "2"})
	}
	kinds := []string{"crash", "half", "err", "short"}
	state := func(root *Root) (setting, bool, string) { return readSetting(root.Cfg()) }
	roots := make([]*Root, NCPU)
	for w := range roots {
		roots[w] = c.NewRoot(fmt.Sprintf("r%d", w))
	}
	// number of mutations of a save
	count := func(root *Root, p prior, lines []string) int {
		setup(root, p)
		r := root.Exec(Run{Args: []string{"configure"}, Stdin: strings.Join(lines, "\n") + "\n"})
		if r.Code != 0 {
			c.Fail("baseline", obj{"previous": p.name, "err": r.Err}, "configuring without faults failed: %s", r.Err)
		}
		if g, _, o := state(root); o != "" || g != p.set.answer(lines) {
			c.Fail("baseline", obj{"previous": p.name}, "configuring without faults saved %+v %s", g, o)
		}
		return len(r.Muts())
	}
	type job struct {
		p      prior
		faults []string
		lines  [][]string
	}
	var jobs []job
	// two faults in one save: what the code does after the first one is itself interrupted
	for _, p := range ps {
		for _, l := range news {
			in := strings.Join(l, "\n") + "\n"
			setup(roots[0], p)
			muts := roots[0].Exec(Run{Args: []string{"configure"}, Stdin: in}).Muts()
			for _, f := range softFaults(muts) {
				setup(roots[0], p)
				after := roots[0].Exec(Run{Args: []string{"configure"}, Stdin: in, Fault: f}).Muts()
				jobs = append(jobs, job{p, []string{f}, [][]string{l}})
				for _, g := range laterFaults(f, after) {
					jobs = append(jobs, job{p, []string{g}, [][]string{l}})
				}
			}
		}
	}
	c.Extra("soft_and_double_fault_cases", len(jobs))
	for _, p := range ps {
		for _, l := range news {
			n := count(roots[0], p, l)
			c.AddExtra("fault_points", n)
			if n == 0 {
				c.Fail("baseline", obj{"previous": p.name}, "no file system mutation seen while saving")
			}
			for i := 0; i < n; i++ {
				for _, k := range kinds {
					jobs = append(jobs, job{p, []string{fmt.Sprintf("%d:%s", i, k)}, [][]string{l}})
				}
			}
			for _, l2 := range news {
				for i := 0; i < n; i++ {
					for i2 := 0; i2 < n+1; i2++ {
						for _, k := range kinds {
							for _, k2 := range kinds {
								jobs = append(jobs, job{p, []string{fmt.Sprintf("%d:%s", i, k), fmt.Sprintf("%d:%s", i2, k2)}, [][]string{l, l2}})
							}
						}
					}
				}
			}
		}
	}
	c.Par(len(jobs), func(w, k int) {
		j := jobs[k]
		root := roots[w]
		setup(root, j.p)
		cur, curAvail := j.p.set, j.p.text != ""
		desc := obj{"previous": j.p.name, "faults": j.faults, "answers": j.lines}
		c.Eval(1)
		hit := false
		for i, f := range j.faults {
			r := root.Exec(Run{Args: []string{"configure"}, Stdin: strings.Join(j.lines[i], "\n") + "\n", Fault: f})
			if r.Killed || r.Code != 0 || strings.Contains(r.Err, "panic") {
				hit = true
			}
			if r.Timeout {
				c.Fail("hang", desc, "hangs")
				return
			}
			want := cur.answer(j.lines[i])
			got, avail, out := state(root)
			switch {
			case out != "":
				c.Fail("unreadable", desc, "after %v the next start aborts: %s", j.faults[:i+1], out)
				return
			case got == want && avail:
				cur, curAvail = want, true
			case got == cur && avail == curAvail:
				if r.Code == 0 && !r.Killed && want != cur {
					c.Fail("false-success", desc, "%v: success reported (%q) but the settings are still the old ones", j.faults[:i+1], r.Out)
					return
				}
			default:
				c.Fail("mixed", desc, "after %v the configuration is %+v (available %v): neither the old %+v nor the new %+v", j.faults[:i+1], got, avail, cur, want)
				return
			}
			// unrelated keys belong to the configuration
			if j.p.name == "partial" {
				if b, _ := os.ReadFile(root.CfgFile()); !strings.Contains(string(b), "extra: keep") {
					c.Fail("mixed", desc, "unrelated key lost after %v: %q", j.faults[:i+1], b)
					return
				}
			}
		}
		if hit {
			c.Distinct(1)
		}
		// the application itself starts, and a further save works
		last := []string{"y", "/final", "n", "12", "13"}
		r := root.Exec(Run{Args: []string{"configure"}, Stdin: strings.Join(last, "\n") + "\n"})
		got, _, out := state(root)
		if want := cur.answer(last); r.Code != 0 || out != "" || got != want {
			c.Fail("stuck", desc, "after %v a further save gives exit %d, %+v %s %s", j.faults, r.Code, got, out, r.Err)
		}
		if k%997 == 3 {
			c.Sample(desc)
		}
	})
	_ = domain.ConfigFile
}

// softFaults: faults that the process survives, one per mutation and kind; n+: the disk stays full.
func softFaults(muts []string) []string {
	var r []string
	for i, m := range muts {
		r = append(r, fmt.Sprintf("%d:err", i), fmt.Sprintf("%d:short", i), fmt.Sprintf("%d:perm", i), fmt.Sprintf("%d+:err", i), fmt.Sprintf("%d+:perm", i))
		if strings.Contains(m, " rename ") {
			r = append(r, fmt.Sprintf("%d:xdev", i), fmt.Sprintf("%d+:xdev", i))
		}
	}
	return r
}

// laterFaults: f followed by a further fault at every later mutation of the same run.
func laterFaults(f string, muts []string) []string {
	var at int
	fmt.Sscanf(f, "%d", &at)
	var r []string
	for i := at + 1; i < len(muts); i++ {
		for _, k := range []string{"crash", "half", "err", "short"} {
			r = append(r, fmt.Sprintf("%d:%s,%s", i, k, f))
		}
	}
	return r
}

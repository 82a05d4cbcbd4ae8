package main

import (
	"archive/tar"
	"fmt"
	"os"
	"path/filepath"
	"strings"
)

func init() { checks["C15"] = c15 }

func c15(c *Ctx) {
	c.Level = "exploration"
	c.Rule = "case = one archive, unpacked by a process run of the update command (as an unprivileged user, every write outside the run root refused and recorded) whose published checksum never matches. Enumerated: every entry name of up to 4 components out of {.., ., a, empty}, relative and absolute; every number of parent steps up to 10 towards every existing file and a new one; absolute paths into the run root and the system; every entry type for each name; every ordered pair (thorough: triple) of entries out of a hostile set including links followed by entries through them. Checked: the snapshot of everything outside the cache (contents, modes, links) is unchanged, nothing outside the root was attempted, every regular entry with a plain name was written with exactly its contents unless the archive was refused. Non-trivial: some entry name is not plain, or two entries interact"
	c.Assume = []string{"plain name: no slash, not . or ..", "which hostile archives are refused and which entries of them are skipped is free"}
	type arch struct {
		es   []tarEntry
		abs  bool // names contain %ROOT%
		want map[string]string
	}
	var as []arch
	types := []byte{tar.TypeReg, tar.TypeDir, tar.TypeSymlink, tar.TypeLink, tar.TypeFifo, tar.TypeChar, tar.TypeBlock}
	one := func(name string) {
		for _, t := range types {
			e := tarEntry{Name: name, Type: t, Data: "HOSTILE", Mode: 0777}
			if t == tar.TypeSymlink || t == tar.TypeLink {
				e.Link = "%ROOT%/home/precious"
				as = append(as, arch{es: []tarEntry{e}})
				e.Link = "../../../home/precious"
			}
			if t != tar.TypeReg {
				e.Data = ""
			}
			as = append(as, arch{es: []tarEntry{e}})
			// a good entry before and after
			if t == tar.TypeReg {
				as = append(as, arch{es: []tarEntry{{Name: "1pass", Data: newBinary}, e}}, arch{es: []tarEntry{e, {Name: "1pass", Data: newBinary}}})
			}
		}
	}
	comps := []string{"..", ".", "a", ""}
	names := map[string]bool{}
	var rec func(p []string)
	rec = func(p []string) {
		if len(p) > 0 {
			n := strings.Join(p, "/")
			for _, x := range []string{n, "/" + n} {
				if x != "" && !names[x] {
					names[x] = true
					one(x)
				}
			}
		}
		if len(p) == 4 || (len(p) == 3 && !c.Thorough) {
			return
		}
		for _, q := range comps {
			rec(append(append([]string{}, p...), q))
		}
	}
	rec(nil)
	targets := []string{"home/precious", "home/new", "home/.config/1pass/1pass.yml", "home/dir/inner", "home/dir", "bin/1pass", "tmp/other", "tmp/1passx", "new", "home", "tmp/1pass-evil/x", "tmp/1pass"}
	for up := 1; up <= 10; up++ {
		for _, t := range targets {
			n := strings.Repeat("../", up) + t
			one(n)
			one("a/" + n)
			one("./" + n)
			if c.Thorough || up < 6 {
				one("a/b/../../" + n)
				one(".." + strings.Repeat("/", 2) + n)
			}
		}
		one(strings.Repeat("../", up) + "etc/verif-must-not-exist")
		one(strings.Repeat("..\\", up) + "x")
	}
	for _, t := range targets {
		one("%ROOT%/" + t)
		one("/%ROOT%/" + t)
		one("a/../%ROOT%/" + t)
	}
	for _, n := range []string{"/etc/verif-must-not-exist", "//etc/verif-must-not-exist", "/tmp/1pass/../x", "/tmp/1pass/x", "/tmp/x", "/x", "..", "../", ".", "./", "/", "//", "...", "..a", "a..", "../1pass", "../1passx/y", "../extracted2/y", "../extracted/y", "../extractedX", "../extracted", "../extracted.md5", "../extracted-1pass", "../checksum.md5", "../1pass.tar.gz", "../1pass.md5", "./../checksum.md5", "a/../../checksum.md5", "../../1pass/checksum.md5", "../../1pass/1pass.tar.gz", "../new-file", "../../1pass/extracted/ok", "../../1passX/y",
		"a/../../x", "a/../../../x", "a/./../../../home/precious", "..//..//..//home/precious", "C:\\x", "~/x", "$HOME/x", strings.Repeat("long", 60), strings.Repeat("d/", 100) + "x", strings.Repeat("../", 100) + "x", "nl\nname", "sp ace", "ünï✓", "-rf", "*", "a\\..\\..\\x", "%2e%2e/x", "．．/x"} {
		one(n)
	}
	single := len(as)
	// pairs and triples
	hostile := []tarEntry{
		{Name: "lnk", Type: tar.TypeSymlink, Link: "%ROOT%/home"},
		{Name: "lnk", Type: tar.TypeSymlink, Link: "../../../home"},
		{Name: "lnk", Type: tar.TypeSymlink, Link: "../../home"},
		{Name: "lnk", Type: tar.TypeSymlink, Link: "%ROOT%/home/precious"},
		{Name: "lnk", Type: tar.TypeSymlink, Link: "../../../home/precious"},
		{Name: "lnk", Type: tar.TypeLink, Link: "%ROOT%/home/precious"},
		{Name: "lnk", Type: tar.TypeLink, Link: "../../../home/precious"},
		{Name: "lnk", Type: tar.TypeSymlink, Link: "lnk2"},
		{Name: "lnk2", Type: tar.TypeSymlink, Link: "%ROOT%/home"},
		{Name: "lnk2", Type: tar.TypeSymlink, Link: ".."},
		{Name: "lnk2", Type: tar.TypeSymlink, Link: "."},
		{Name: "a", Type: tar.TypeDir},
		{Name: "a/lnk", Type: tar.TypeSymlink, Link: "%ROOT%/home"},
		{Name: "..", Type: tar.TypeDir, Mode: 0777},
		{Name: "../..", Type: tar.TypeDir, Mode: 0777},
		{Name: "../../../home/newdir", Type: tar.TypeDir},
		{Name: "lnk", Data: "HOSTILE"},
		{Name: "lnk/precious", Data: "HOSTILE"},
		{Name: "lnk/new", Data: "HOSTILE"},
		{Name: "lnk/newdir", Type: tar.TypeDir},
		{Name: "lnk/1pass/other", Data: "HOSTILE"},
		{Name: "lnk/lnk/x", Data: "HOSTILE"},
		{Name: "lnk2/precious", Data: "HOSTILE"},
		{Name: "lnk2/lnk/precious", Data: "HOSTILE"},
		{Name: "a/x", Data: "inner"},
		{Name: "a/lnk/new", Data: "HOSTILE"},
		{Name: "1pass", Data: newBinary},
		{Name: "1pass", Type: tar.TypeSymlink, Link: "%ROOT%/bin/1pass"},
		{Name: "1pass", Type: tar.TypeDir},
		{Name: "1pass", Type: tar.TypeLink, Link: "%ROOT%/bin/1pass"},
		{Name: "b", Data: "plain b"},
		{Name: "b", Data: "second, longer b"},
		{Name: "../b", Data: "HOSTILE"},
		{Name: "checksum.md5", Data: "sum"},
		{Name: "1pass.tar.gz", Data: "zz"},
		{Name: "../1pass.tar.gz", Data: "zz"},
	}
	for i, x := range hostile {
		for k, y := range hostile {
			as = append(as, arch{es: []tarEntry{x, y}})
			for l, z := range hostile {
				if c.Thorough || ((i < 11 || i == 26) && (k > 6 && k < 27) && l > 15 && l < 27) {
					as = append(as, arch{es: []tarEntry{x, y, z}})
				}
			}
		}
	}
	// plain archives: contents exactly
	plain := func(es ...tarEntry) {
		w := map[string]string{}
		for _, e := range es {
			w[e.Name] = e.Data
		}
		as = append(as, arch{es: es, want: w})
	}
	sizes := []int{0, 1, 511, 512, 513, 1023, 1024, 32767, 32768, 32769, 65536, 100001}
	data := func(n, k int) string {
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(i*7 + k + i>>8)
		}
		return string(b)
	}
	pn := []string{"1pass", "README.md", "LICENSE", "a", "..a", "a..", "...", "sp ace", "ünï✓", "-x", ".hidden", "1pass.tar.gz", "checksum.md5", strings.Repeat("n", 200), "*", "%s%d", "~", "\\x", "con:"}
	for _, n := range sizes {
		plain(tarEntry{Name: "1pass", Data: data(n, 1)})
		for _, m := range sizes {
			plain(tarEntry{Name: "1pass", Data: data(n, 1)}, tarEntry{Name: "README", Data: data(m, 2)})
		}
	}
	for _, a := range pn {
		plain(tarEntry{Name: a, Data: data(700, 3)})
		for _, b := range pn {
			if a != b {
				plain(tarEntry{Name: a, Data: data(100, 1), Mode: 0600}, tarEntry{Name: b, Data: data(1200, 2), Mode: 0644})
			}
		}
	}
	// repeated names: the last entry counts
	for _, n := range sizes {
		for _, m := range sizes {
			plain(tarEntry{Name: "1pass", Data: data(n, 1)}, tarEntry{Name: "1pass", Data: data(m, 2)})
			plain(tarEntry{Name: "x", Data: data(n, 1)}, tarEntry{Name: "1pass", Data: data(3, 5)}, tarEntry{Name: "x", Data: data(m, 2)}, tarEntry{Name: "1pass", Data: data(2, 6)})
		}
	}
	for _, mb := range []int{12, 40, 130} {
		plain(tarEntry{Name: "1pass", Data: data(mb<<20+mb, 4)}, tarEntry{Name: "README", Data: "x"})
	}
	many := []tarEntry{}
	for i := 0; i < 60; i++ {
		many = append(many, tarEntry{Name: fmt.Sprintf("file%02d", i), Data: data(i*37, i)})
	}
	plain(many...)
	rigs := c.rigs()
	before := make([]map[string]string, NCPU)
	snap := func(r *rig) map[string]string {
		m := Snapshot(r.Dir)
		for k := range m {
			if k == "tmp/1pass" || strings.HasPrefix(k, "tmp/1pass/") || k == "home/.config/1pass/lastcheck" {
				delete(m, k)
			}
		}
		return m
	}
	reset := func(w int) {
		r := rigs[w]
		os.RemoveAll(r.Cache())
		r.Reset()
		r.Config(cfgText("", 5, 1, true))
		r.Write(filepath.Join(r.Home(), "precious"), "precious")
		r.Write(filepath.Join(r.Home(), "dir", "inner"), "inner")
		r.Write(filepath.Join(r.Dir, "tmp", "other"), "other")
		r.Write(filepath.Join(r.Dir, "tmp", "1passx"), "1passx")
		r.Own()
		before[w] = snap(r)
	}
	for w := range rigs {
		reset(w)
	}
	rel := asJSON([]release{stdRelease("9.9.9")})
	run := func(r *rig, es ...tarEntry) *Result {
		os.RemoveAll(r.Cache())
		r.S.Set(serve(rel, map[string][]byte{arPath: tarball(es...), csPath: []byte(strings.Repeat("0", 32) + "  1pass\n")}), nil)
		return r.Exec(Run{Args: []string{"update"}, Stdin: "y\n", Dial: r.S.Dial()})
	}
	// the destination directory and the files the update itself writes, learnt from harmless archives
	// (numbers in its name, as of the process, may differ from run to run)
	norm := func(p string) string { return digits.ReplaceAllString(p, "#") }
	dest, own := "", map[string]bool{}
	for p := range touched(run(rigs[0]), rigs[0].Cache()) {
		own[norm(strings.TrimPrefix(p, rigs[0].Cache()))] = true
	}
	for i := 0; i < 2; i++ {
		d := ""
		for p := range touched(run(rigs[1%NCPU], tarEntry{Name: "plainname.txt", Data: "x"}), rigs[1%NCPU].Cache()) {
			if filepath.Base(p) == "plainname.txt" {
				d = norm(strings.TrimPrefix(filepath.Dir(p), rigs[1%NCPU].Cache()))
			}
		}
		if i == 1 && d != dest {
			d = "" // not the same every time
		}
		dest = d
	}
	c.Extra("destination", "cache"+dest)
	c.Extra("single_entry_archives", single)
	c.Par(len(as), func(w, k int) {
		if c.Stop() {
			return
		}
		a := as[k]
		r := rigs[w]
		es := make([]tarEntry, len(a.es))
		for i, e := range a.es {
			e.Name = strings.ReplaceAll(e.Name, "%ROOT%", r.Dir)
			e.Link = strings.ReplaceAll(e.Link, "%ROOT%", r.Dir)
			es[i] = e
		}
		x := run(r, es...)
		c.Eval(1)
		if a.want == nil {
			c.Distinct(1)
		}
		var l []string
		for _, e := range a.es {
			l = append(l, fmt.Sprintf("type %q %q -> %q (%d bytes)", string(rune(e.Type)), e.Name, e.Link, len(e.Data)))
		}
		desc := obj{"entries": l, "out": x.Out, "err": x.Err}
		if x.Timeout {
			c.Fail("hang", desc, "%v: hangs", l)
			return
		}
		if d := x.Deny(); len(d) > 0 {
			c.Fail("outside", desc, "%v: tried %v", l, d)
		}
		if d := snapDiff(before[w], snap(r)); len(d) > 0 {
			c.Fail("outside", desc, "%v: outside the cache: %v", l, d)
			reset(w)
			return
		}
		if dest != "" {
			for p := range touched(x, r.Cache()) {
				if q := norm(strings.TrimPrefix(p, r.Cache())); !own[q] && !strings.HasPrefix(q, dest+"/") {
					c.Fail("destination", desc, "%v: wrote %s, outside the destination directory %s", l, q, dest)
				}
			}
			got := writtenFiles(x)
			for q, n := range map[string]string{"archive": string(tarball(es...)), "checksum": strings.Repeat("0", 32) + "  1pass\n"} {
				ok := false
				for p, g := range got {
					ok = ok || (g == n && !strings.HasPrefix(norm(strings.TrimPrefix(p, r.Cache())), dest+"/"))
				}
				if !ok {
					c.Fail("destination", desc, "%v: the downloaded %s was changed by unpacking", l, q)
				}
			}
		}
		if x.Code == 0 || strings.Contains(x.Out, "updated to version") {
			c.Fail("installed", desc, "%v: reported as installed", l)
		}
		if a.want != nil {
			got := writtenFiles(x)
			for n, want := range a.want {
				found := false
				for p, g := range got {
					if filepath.Base(p) == n && g == want {
						found = true
					}
				}
				if !found {
					c.Fail("contents", desc, "%v: %q was not unpacked with its contents (exit %d, %s)", l, n, x.Code, clip(x.Out))
				}
			}
		}
		if k%4000 == 77 {
			c.Sample(desc)
		}
	})
	for _, r := range rigs {
		os.RemoveAll(r.Cache())
	}
}

// writtenFiles: final contents by path of everything written during a run, from the log.
func writtenFiles(x *Result) map[string]string {
	m := map[string][]byte{}
	pos := map[string]int{}
	for _, l := range x.Muts() {
		op, p, data := mutation(l)
		switch op {
		case "open":
			pos[p] = 0
			if strings.Contains(string(data), "t") {
				m[p] = nil
			} else if strings.Contains(string(data), "a") {
				pos[p] = len(m[p])
			} else if _, ok := m[p]; !ok {
				m[p] = nil
			}
		case "truncate":
			m[p] = nil
		case "write":
			b := m[p]
			k := copy(b[min(pos[p], len(b)):], data)
			m[p] = append(b, data[k:]...)
			pos[p] += len(data)
		case "rename":
			m[p] = m[string(data)]
			delete(m, string(data))
		case "remove":
			// kept: what was unpacked may be cleaned up afterwards
		}
	}
	r := map[string]string{}
	for p, b := range m {
		r[p] = string(b)
	}
	return r
}

// touched: paths below dir that a run changed, except removals.
func touched(x *Result, dir string) map[string]bool {
	m := map[string]bool{}
	for _, l := range x.Muts() {
		if op, p, _ := mutation(l); op != "remove" && strings.HasPrefix(p, dir+"/") {
			m[p] = true
		}
	}
	return m
}

package main

import (
	"encoding/json"
	"fmt"
	"net/http"
	"os"
	"strconv"
	"strings"

	"github.com/mashmb/1pass/1pass-core/core/domain"
)

func init() { checks["C12"] = c12 }

// rig: one run root and one release server per worker.
type rig struct {
	*Root
	S *Server
}

func (c *Ctx) rigs() []*rig {
	rs := make([]*rig, NCPU)
	for w := range rs {
		rs[w] = &rig{c.NewRoot(fmt.Sprintf("r%d", w)), c.NewServer(fmt.Sprintf("s%d", w))}
	}
	return rs
}

func asJSON(x any) []byte {
	b, err := json.Marshal(x)
	must(err)
	return b
}

// serve answers the release list with body and the files from the map (by URL path).
func serve(body []byte, files map[string][]byte) http.HandlerFunc {
	return func(w http.ResponseWriter, q *http.Request) {
		if q.URL.Path == releasesPath {
			w.Header().Set("Content-Type", "application/json")
			w.Write(body)
			return
		}
		if b, ok := files[q.URL.Path]; ok {
			w.Write(b)
			return
		}
		w.WriteHeader(404)
		w.Write([]byte("not found"))
	}
}

const runningVersion = domain.Version

// refNewer: number by number; missing numbers count as 0.
func refNewer(tag string) bool {
	nums := func(s string) ([]uint64, bool) {
		var r []uint64
		for _, p := range strings.Split(s, ".") {
			if p == "" || len(p) > 19 || strings.Trim(p, "0123456789") != "" {
				return nil, false
			}
			n, _ := strconv.ParseUint(p, 10, 64)
			r = append(r, n)
		}
		return r, true
	}
	a, ok := nums(tag)
	if !ok {
		return false
	}
	b, _ := nums(runningVersion)
	for len(a) < len(b) {
		a = append(a, 0)
	}
	for len(b) < len(a) {
		b = append(b, 0)
	}
	for i := range a {
		if a[i] != b[i] {
			return a[i] > b[i]
		}
	}
	return false
}

const noticeText = "New version of 1pass is available"

func c12(c *Ctx) {
	c.Level = "exploration"
	c.Rule = "case = (command, release list served): a process run of the automatic check (categories command, period 0) and of the update command against a release server; version tags: every tuple of up to 4 numbers of the given set and the texts that are not dotted numbers; release lists of up to 3 releases with newer and older ones behind the first; every order of up to 5 assets. Compared: offered or not, version and changelog text reported, URLs requested after consent. Non-trivial: every case"
	c.Assume = []string{"the first release of the answer is the most recent one (order of the GitHub API)", "the running version is the one compiled in (" + runningVersion + ")", "a release offers at most one archive (.tar.gz) and one checksum (.md5)", "numbers of a version fit 64 bits", "a release without a list of assets is varied only where nothing may be offered"}
	nums := []string{"0", "1", "2", "3", "4", "9", "10", "11"}
	if c.Thorough {
		nums = append(nums, "01", "03", "99", "100", "000000001")
	}
	var tags []string
	var rec func(p []string)
	rec = func(p []string) {
		if len(p) > 0 {
			tags = append(tags, strings.Join(p, "."))
		}
		if len(p) == 4 {
			return
		}
		for _, n := range nums {
			rec(append(append([]string{}, p...), n))
		}
	}
	rec(nil)
	ntags := len(tags)
	tags = append(tags, "1.3.1.0.0.0", "1.3.1.0.0.1", "1.3.1.1.1.1", "1.03.1", "01.3.2", "0001.0004", "999999999", "0.999999999.999999999", "1.3.999999999",
		"1.3.2147483648", "1.3.4294967295", "1.3.4294967296", "1.3.4294967297", "1.4294967299.0", "4294967297.3.1", "4294967296.9.9", "20261231.0", "20261231235959", "1.20261231235959", "1.3.1.20261231235959", "0.20261231235959", "1.2.9223372036854775807", "1.3.9223372036854775807", "1.3.0.9999999999999999", "1.3.1.0.0.0.0.0.0.0.0.1", "1.3.1.0.0.0.0.0.0.0.0.0", "1.3.0.9.9.9.9.9.9.9.9.9", "1.3.0000000000000001", "1.3.0000000000000002")
	bad := []string{"", "v1.4.0", "V2.0", "1.4.0-beta", "2.0.0rc1", "beta", "latest", "1..4", "2..0", "2.", ".2", "2.0.", "2.0.0.", " 2.0.0", "2.0.0 ", "2 .0", "2,0,0", "2-0-0", "+2.0.0", "2.+1.0", "-2.0.0", "2.-1", "2.x", "2.0.x", "x.9.9", "1.x.9", "0x2.0", "2e3", "2_0.0", "٢.٠", "２.0", "2.0.0\n", "\t2.0", "2;0", "1.4.0+build", "2.0.0-1", "null", "true", "1.3.1-2", "a.b.c", ".", "..", "..."}
	tags = append(tags, bad...)
	type job struct {
		list   []release
		cmd    string // categories, no, yes
		expect []string
	}
	var jobs []job
	for _, t := range tags {
		jobs = append(jobs, job{[]release{stdRelease(t)}, "categories", nil})
	}
	for i, t := range tags {
		if i >= ntags || i%7 == 0 || strings.HasPrefix(t, "1.3") || strings.Count(t, ".") < 2 || c.Thorough {
			jobs = append(jobs, job{[]release{stdRelease(t)}, "no", nil})
			if !refNewer(t) {
				jobs = append(jobs, job{[]release{stdRelease(t)}, "yes", nil})
			}
		}
	}
	// several releases
	three := []string{"1.3.0", "1.3.1", "1.3.2", "1.4.0", "beta", "2.0.0"}
	for _, a := range three {
		for _, b := range three {
			for _, d := range append([]string{"-"}, three...) {
				l := []release{stdRelease(a), stdRelease(b)}
				if d != "-" {
					l = append(l, stdRelease(d))
				}
				jobs = append(jobs, job{l, "categories", nil}, job{l, "no", nil})
			}
		}
	}
	// assets missing or unrelated: the version alone decides
	for _, t := range append(three, "1.3.1.1", "0.9", "v9") {
		for _, as := range [][]asset{{}, {{"README", "https://github.com/other/readme"}}, {{"1pass-linux.tar.gz", "https://github.com/a/rchive?x=1"}}, {{"checksum.md5", "https://dl.example/c/hecksum"}}} {
			for _, b := range []string{"-", "1.0", "9.0"} {
				l := []release{{t, "The changes", as}}
				if b != "-" {
					l = append(l, stdRelease(b))
				}
				jobs = append(jobs, job{l, "categories", nil}, job{l, "no", nil})
				if !refNewer(t) {
					jobs = append(jobs, job{l, "yes", nil})
				}
			}
		}
		if !refNewer(t) {
			l := []release{{t, "x", nil}, stdRelease("9.0")}
			jobs = append(jobs, job{l, "categories", nil}, job{l, "no", nil}, job{l, "yes", nil})
		}
	}
	// long answers: many releases, long changelogs
	for _, n := range []int{4, 10, 30, 60, 200} {
		for _, t := range []string{"1.3.1", "1.2.9", "1.10.0", "0.1"} {
			for _, size := range []int{10, 3000, 20000} {
				l := []release{stdRelease(t)}
				l[0].Body = strings.Repeat("A line of the changelog\n", size/24+1) + "the last line"
				for i := 1; i < n; i++ {
					x := stdRelease([]string{"1.3.1", "9.9", "1.0.0", "beta"}[i%4])
					x.Body = strings.Repeat("text ", size/5)
					l = append(l, x)
				}
				jobs = append(jobs, job{l, "categories", nil}, job{l, "no", nil})
			}
		}
	}
	for _, b := range []string{"  - indented\n    - more\n\n\nlast", "a\r\nb", "\ttab\ttab", "%s %d %v %%", "<p>&amp;</p>", "**bold** `code` [x](http://y)", strings.Repeat("w", 70000), "ünï ✓ 😀", "\\n \\\" '", "no", "y\n", "1.0.0"} {
		l := []release{stdRelease("1.4"), stdRelease("9.0")}
		l[0].Body = b
		l[1].Body = "BEHIND"
		jobs = append(jobs, job{l, "no", nil}, job{l, "categories", nil})
	}
	// assets in every order
	ar := asset{"1pass-linux.tar.gz", "https://github.com/a/rchive?x=1"}
	cs := asset{"checksum.md5", "https://dl.example/c/hecksum"}
	others := []asset{{"1pass.deb", "https://github.com/other/deb"}, {"README", "https://github.com/other/readme"}, {"source.zip", "https://github.com/other/zip"}}
	for n := 0; n <= len(others); n++ {
		permute(append([]asset{ar, cs}, others[:n]...), func(p []asset) {
			for _, body := range []string{"Changes", "", "line 1\nline 2 %d %s ✓"} {
				if body != "Changes" && n != 1 {
					continue
				}
				// a release behind the first one with other locations
				l := []release{{"1.10.0", body, append([]asset{}, p...)}, {"3.0", "behind", []asset{{"x.tar.gz", "https://github.com/second/a"}, {"x.md5", "https://github.com/second/c"}}}}
				jobs = append(jobs, job{l, "yes", []string{"GET " + ar.Url, "GET " + cs.Url}})
			}
		})
	}
	rigs := c.rigs()
	files := map[string][]byte{"/a/rchive": []byte("x"), "/c/hecksum": []byte("y")}
	good := tarball(tarEntry{Name: "1pass", Data: newBinary})
	files["/a/rchive"], files["/c/hecksum"] = good, []byte(md5hex(newBinary)+"  1pass\n")
	c.Par(len(jobs), func(w, k int) {
		if c.Stop() {
			return
		}
		j := jobs[k]
		r := rigs[w]
		r.Reset()
		r.Config(cfgText("", 5, 0, true))
		r.S.Set(serve(asJSON(j.list), files), nil)
		first := j.list[0]
		want := refNewer(first.Tag)
		c.Eval(1)
		c.Distinct(1)
		var x *Result
		switch j.cmd {
		case "categories":
			x = r.Exec(Run{Args: []string{"categories"}, Dial: r.S.Dial()})
		case "no":
			x = r.Exec(Run{Args: []string{"update"}, Stdin: "n\n", Dial: r.S.Dial()})
		default:
			x = r.Exec(Run{Args: []string{"update"}, Stdin: "y\n", Dial: r.S.Dial()})
		}
		desc := obj{"command": j.cmd, "releases": j.list, "out": x.Out, "err": x.Err, "exit": x.Code, "requests": r.S.Reqs()}
		if x.Panicked() || x.Timeout || x.Killed {
			c.Fail("crash", desc, "tag %q: %s", first.Tag, x.Err)
			return
		}
		if !contains(r.S.Reqs(), "GET https://api.github.com"+releasesPath) {
			c.Fail("no-request", desc, "tag %q: the release list was not requested: %q", first.Tag, r.S.Reqs())
		}
		offered := strings.Contains(x.Out, noticeText)
		if offered != want {
			c.Fail("offer", desc, "%s: latest release %q, running %s: offered=%v, expected %v", j.cmd, first.Tag, runningVersion, offered, want)
			return
		}
		if want && j.cmd == "categories" && !strings.Contains(x.Out, "available: "+first.Tag+")") {
			c.Fail("version-text", desc, "the notice does not name version %q: %q", first.Tag, firstLine(x.Out))
		}
		if want && j.cmd != "categories" {
			if !strings.Contains(x.Out, "("+first.Tag+")") || !strings.Contains(x.Out, first.Body) {
				c.Fail("version-text", desc, "version %q or changelog missing in %q", first.Tag, x.Out)
			}
		}
		bin, _ := readFile(r.Exe())
		var dl []string
		for _, q := range r.S.Reqs() {
			if !strings.HasSuffix(q, releasesPath) {
				dl = append(dl, q)
			}
		}
		if j.cmd == "yes" && want {
			if fmt.Sprint(dl) != fmt.Sprint(j.expect) && !(len(dl) == 2 && dl[0] == j.expect[1] && dl[1] == j.expect[0]) {
				c.Fail("locations", desc, "assets %v: downloads %v, expected %v", first.Assets, dl, j.expect)
			}
			if bin != newBinary {
				c.Fail("locations", desc, "assets %v: not installed: %s", first.Assets, x.Out)
			}
		} else {
			if len(dl) > 0 || bin != oldBinary {
				c.Fail("unwanted", desc, "%s, tag %q: downloads %v, binary changed %v", j.cmd, first.Tag, dl, bin != oldBinary)
			}
			if j.cmd != "categories" && x.Code == 0 {
				c.Fail("exit", desc, "%s, tag %q: exit status 0 without an update", j.cmd, first.Tag)
			}
		}
		if k%1200 == 5 {
			c.Sample(desc)
		}
	})
	c.Extra("version_tags", len(tags))
}

func firstLine(s string) string { return strings.SplitN(s, "\n", 2)[0] }

func contains(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

func permute[T any](l []T, f func([]T)) {
	var rec func(int)
	rec = func(i int) {
		if i == len(l) {
			f(l)
			return
		}
		for k := i; k < len(l); k++ {
			l[i], l[k] = l[k], l[i]
			rec(i + 1)
			l[i], l[k] = l[k], l[i]
		}
	}
	rec(0)
}

func readFile(p string) (string, error) {
	b, err := os.ReadFile(p)
	return string(b), err
}

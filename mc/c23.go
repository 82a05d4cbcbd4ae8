package main

import (
	"crypto/md5"
	"encoding/hex"
	"fmt"
	"net/http"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync/atomic"
)

func init() { checks["C23"] = c23 }

func c23(c *Ctx) {
	c.Level = "model_checking"
	c.Rule = "case = (scenario, schedule): two processes of the real application run in one home and temporary directory, each stopped before every file-system mutation and every opening of a file for reading; every schedule with at most the stated number of preemptions is executed exactly once (stateless search). Scenarios: two configure dialogues from every previous state, a configure dialogue next to a list command, a killed configure dialogue next to another one, two updates, an update killed at every mutation next to another one, updates to different releases. In every intermediate state a fresh start must read a complete configuration, and the binary must be a complete executable one; at the end what is in place must agree with what was reported, and an undisturbed further run must work. States: distinct contents of home, temporary directory and binary"
	c.Assume = []string{"file-system operations are atomic; between two operations of one process any number of operations of the other may happen", "preemptions: quick at most 2 (5 for configure dialogues), thorough at most 3 (configure dialogues: all schedules)", "cache and binary on one file system"}
	c.pairConfig()
	c.pairUpdate()
}

var digits = regexp.MustCompile(`[0-9]{2,}`)

func (c *Ctx) stateOf(r *Root, scenario string) {
	m := Snapshot(r.Dir)
	keys := make([]string, 0, len(m))
	for k, v := range m {
		keys = append(keys, digits.ReplaceAllString(k, "#")+"="+v) // process numbers in names
	}
	sort.Strings(keys)
	s := md5.Sum([]byte(scenario + strings.ReplaceAll(strings.Join(keys, "\x00"), r.Dir, "")))
	c.State(hex.EncodeToString(s[:8]))
}

func (c *Ctx) pairConfig() {
	long := "/a/very/long/path/" + strings.Repeat("to/somewhere/", 60)
	bound := 5
	if c.Thorough {
		bound = 1000
	}
	type sc struct {
		name  string
		p     prior
		lines [2][]string
		fault string
		bound int
	}
	ps := []prior{
		{"set", cfgText("/old vault/x", 17, 99, false), false, setting{17, 99, false, "/old vault/x"}},
		{"none", "", true, defaults},
		{"link", cfgText("/linked", 2, 3, true), false, setting{2, 3, true, "/linked"}},
		{"other keys", cfgText("/k", 2, 3, true) + "extra: keep\n", false, setting{2, 3, true, "/k"}},
	}
	ans := [][]string{{"y", long, "n", "30", "365"}, {"y", "/b", "y", "5", "6"}}
	var scs []sc
	for i, p := range ps {
		b := bound
		if i > 0 && !c.Thorough {
			b = 3
		}
		scs = append(scs, sc{"two configure dialogues, " + p.name, p, [2][]string{ans[0], ans[1]}, "", b})
	}
	scs = append(scs, sc{"the same settings twice", ps[0], [2][]string{ans[1], ans[1]}, "", 2})
	for _, p := range ps[:2] {
		for n := 0; n < 8; n++ {
			for _, k := range []string{"crash", "half", "err"} {
				scs = append(scs, sc{fmt.Sprintf("configure dialogues, %s, first one %s at %d", p.name, k, n), p, [2][]string{ans[0], ans[1]}, fmt.Sprintf("%d:%s", n, k), 2})
			}
		}
	}
	roots := make([]*Root, NCPU)
	for w := range roots {
		roots[w] = c.NewRoot(fmt.Sprintf("p%d", w))
	}
	for _, s := range scs {
		setup := func(r *Root) {
			r.prior(s.p)
			if s.p.name == "link" {
				must(os.MkdirAll(filepath.Join(r.Home(), "dot"), 0755))
				t := filepath.Join(r.Home(), "dot", "1pass.yml")
				must(os.WriteFile(t, []byte(s.p.text), 0644))
				os.Remove(r.CfgFile())
				must(os.Symlink(t, r.CfgFile()))
				r.Own()
			}
		}
		want := [2]setting{s.p.set.answer(s.lines[0]), s.p.set.answer(s.lines[1])}
		var hit int64
		n := c.Schedules(s.bound, func(w int, choices []int) *history {
			r := roots[w]
			setup(r)
			runs := []Run{{Args: []string{"configure"}, Stdin: strings.Join(s.lines[0], "\n") + "\n", Fault: s.fault}, {Args: []string{"configure"}, Stdin: strings.Join(s.lines[1], "\n") + "\n"}}
			failed := false
			h := r.Together(runs, choices, func(h *history, _ []*Result) {
				c.Trans(1)
				c.stateOf(r, "c")
				got, avail, out := readSetting(r.Cfg())
				ok := out == "" && (got == want[0] && avail || got == want[1] && avail || got == s.p.set && avail == (s.p.text != ""))
				if s.p.name == "other keys" {
					if b, _ := os.ReadFile(r.CfgFile()); !strings.Contains(string(b), "extra: keep") {
						ok = false
					}
				}
				if !ok && !failed {
					failed = true
					c.Fail("config-torn", obj{"scenario": s.name, "schedule": h.Lines(r.Dir)}, "%s: a start at this moment reads %+v (available %v) %s: neither the old settings nor those of one of the dialogues", s.name, got, avail, out)
				}
			})
			c.Eval(1)
			c.Trace(1)
			if len(h.steps) > 0 && interleaved(h) {
				c.Distinct(1)
			}
			desc := obj{"scenario": s.name, "schedule": h.Lines(r.Dir)}
			if failed {
				return h
			}
			for i, x := range h.res {
				if x.Timeout || x.Panicked() || x.Killed && s.fault == "" {
					c.Fail("crash", desc, "%s: process %c crashed or hung: %s %s", s.name, 'A'+i, x.Out, clip(x.Err))
					return h
				}
			}
			if h.res[0].Killed {
				atomic.AddInt64(&hit, 1)
			}
			done := func(i int) bool { return h.res[i].Code == 0 && !h.res[i].Killed }
			got, _, _ := readSetting(r.Cfg())
			fits := false
			for i := range want {
				// what is in place was saved by a dialogue that did not report a failure
				fits = fits || got == want[i] && (done(i) || h.res[i].Killed)
			}
			// nobody succeeded: the old settings may be in place
			fits = fits || got == s.p.set && !done(0) && !done(1)
			// an error reported by the dialogue disturbed by a fault may come after the replacement
			fits = fits || s.fault != "" && got == want[0]
			if !fits {
				c.Fail("config-report", desc, "%s: the settings in place are %+v; exit statuses %d and %d: %s%s", s.name, got, h.res[0].Code, h.res[1].Code, h.res[0].Err, h.res[1].Err)
				return h
			}
			last := []string{"y", "/final", "n", "12", "13"}
			x := r.Exec(Run{Args: []string{"configure"}, Stdin: strings.Join(last, "\n") + "\n"})
			if g, _, out := readSetting(r.Cfg()); x.Code != 0 || out != "" || g != got.answer(last) {
				c.Fail("stuck", desc, "%s: a further save gives exit %d, %+v %s %s", s.name, x.Code, g, out, x.Err)
			}
			if h.bad != "" {
				c.AddExtra("schedules_not_followed", 1)
			}
			return h
		})
		c.AddExtra("schedules_configure", n)
		if s.fault != "" {
			c.AddExtra("schedules_with_fault", int(hit))
		}
		if n == 1 {
			c.Fail("baseline", obj{"scenario": s.name}, "%s: no scheduling points seen", s.name)
		}
	}
	c.pairList(roots)
}

func interleaved(h *history) bool {
	n := 0
	for i := 1; i < len(h.steps); i++ {
		if h.steps[i].who != h.steps[i-1].who {
			n++
		}
	}
	return n > 1
}

// a list command while the default vault is being changed
func (c *Ctx) pairList(roots []*Root) {
	mk := func(name string) string {
		v := &VVault{Password: "pw", Seed: "c23" + name}
		for i := 0; i < 3; i++ {
			v.Items = append(v.Items, simpleItem(i+1, "001", fmt.Sprintf("Title %s %d", name, i), false, i))
		}
		d := filepath.Join(c.Scratch, name+".opvault")
		v.write(d)
		return d
	}
	da, db := mk("alpha"), mk("beta")
	pass := "pw"
	bound := 3
	if c.Thorough {
		bound = 1000
	}
	n := c.Schedules(bound, func(w int, choices []int) *history {
		r := roots[w]
		r.Reset()
		r.Config(cfgText(da, 17, 99, false))
		runs := []Run{{Args: []string{"configure"}, Stdin: "y\n" + db + "\nn\n5\n6\n"}, {Args: []string{"list"}, Pass: &pass}}
		h := r.Together(runs, choices, func(h *history, _ []*Result) { c.Trans(1); c.stateOf(r, "l") })
		c.Eval(1)
		c.Trace(1)
		if interleaved(h) {
			c.Distinct(1)
		}
		desc := obj{"scenario": "list while the default vault changes", "schedule": h.Lines(r.Dir), "out": h.res[1].Out, "err": h.res[1].Err}
		a, b := strings.Count(h.res[1].Out, "Title alpha"), strings.Count(h.res[1].Out, "Title beta")
		if h.res[1].Code != 0 || !(a == 3 && b == 0 || a == 0 && b == 3) {
			c.Fail("list", desc, "list next to a configure dialogue: exit %d, %d items of the old and %d of the new vault: %s%s", h.res[1].Code, a, b, clip(h.res[1].Out), clip(h.res[1].Err))
		}
		if got, _, out := readSetting(r.Cfg()); h.res[0].Code != 0 || out != "" || got != (setting{5, 6, false, db}) {
			c.Fail("config-report", desc, "configure next to list: exit %d, settings %+v %s", h.res[0].Code, got, out)
		}
		return h
	})
	c.AddExtra("schedules_list", n)
}

func (c *Ctx) pairUpdate() {
	rigs := c.rigs()
	alt := make([]*Server, NCPU)
	for w := range alt {
		alt[w] = c.NewServer(fmt.Sprintf("x%d", w))
	}
	other := "#!NEW BINARY 9.9.8, " + strings.Repeat("a longer one ", 9) + "\n"
	tarA := tarball(tarEntry{Name: "1pass", Data: newBinary}, tarEntry{Name: "README.md", Data: "read me", Mode: 0644})
	tarB := tarball(tarEntry{Name: "1pass", Data: other})
	hA := serve(asJSON([]release{stdRelease("9.9.9")}), map[string][]byte{arPath: tarA, csPath: goodSum()})
	hB := serve(asJSON([]release{stdRelease("9.9.8")}), map[string][]byte{arPath: tarB, csPath: []byte(md5hex(other) + "  1pass\n")})
	hE := serve(asJSON([]release{stdRelease("9.9.9")}), map[string][]byte{arPath: tarball(tarEntry{Name: "1pass", Data: evilBinary}), csPath: goodSum()})
	hM := serve(asJSON([]release{stdRelease("9.9.9")}), map[string][]byte{arPath: tarA[:len(tarA)-9], csPath: goodSum()})
	type sc struct {
		name  string
		two   http.HandlerFunc // server of the second process
		fault string
		stale bool
		bound int
	}
	b := 2
	if c.Thorough {
		b = 3
	}
	scs := []sc{{"two updates", nil, "", false, b}, {"two updates to different releases", hB, "", false, b}, {"an update next to a tampered one", hE, "", false, b}, {"an update next to a cut one", hM, "", false, b - 1}, {"two updates over leftovers", nil, "", true, b - 1}}
	// number of mutations of an update
	rigs[0].S.Set(hA, nil)
	rigs[0].Reset()
	rigs[0].Config(cfgText("", 5, 1, true))
	n := len(rigs[0].Exec(Run{Args: []string{"update"}, Stdin: "y\n", Dial: rigs[0].S.Dial()}).Muts())
	for i := 0; i < n; i++ {
		for _, k := range []string{"crash", "half"} {
			scs = append(scs, sc{fmt.Sprintf("update %s at %d next to an update", k, i), nil, fmt.Sprintf("%d:%s", i, k), false, 1})
		}
	}
	for _, s := range scs {
		n := c.Schedules(s.bound, func(w int, choices []int) *history {
			r := rigs[w]
			r.Reset()
			r.Config(cfgText("", 5, 1, true))
			if s.stale {
				for _, d := range []string{"", "extracted/"} {
					r.Write(filepath.Join(r.Cache(), d+"1pass"), evilBinary)
					r.Write(filepath.Join(r.Cache(), d+"checksum.md5"), md5hex(evilBinary))
				}
				r.Own()
			}
			r.S.Set(hA, nil)
			if s.two != nil {
				alt[w].Set(s.two, nil)
			}
			d := r.S.Dial()
			if s.two != nil {
				d = alt[w].Dial()
			}
			runs := []Run{{Args: []string{"update"}, Stdin: "y\n", Dial: r.S.Dial(), Fault: s.fault}, {Args: []string{"update"}, Stdin: "y\n", Dial: d}}
			failed, was := false, "old"
			h := r.Together(runs, choices, func(h *history, ended []*Result) {
				c.Trans(1)
				c.stateOf(r.Root, "u")
				if failed {
					return
				}
				bad := func(key, f string, a ...any) {
					failed = true
					c.Fail(key, obj{"scenario": s.name, "schedule": h.Lines(r.Dir)}, "%s: %s", s.name, fmt.Sprintf(f, a...))
				}
				data, err := os.ReadFile(r.Exe())
				fi, err2 := os.Lstat(r.Exe())
				if err != nil || err2 != nil {
					bad("binary-gone", "at this moment there is no binary: %v", err)
					return
				}
				is := ""
				switch string(data) {
				case oldBinary:
					is = "old"
				case newBinary:
					is = "new"
				case other:
					is = "new" // only offered in one scenario
				}
				if is == "" || is == "old" && was == "new" {
					bad("binary-torn", "at this moment the binary is %q", clip(string(data)))
					return
				}
				if fi.Mode()&0555 != 0555 || !fi.Mode().IsRegular() {
					bad("not-executable", "at this moment the binary has mode %v", fi.Mode())
					return
				}
				was = is
				for i, x := range ended {
					if x != nil && (x.Code == 0 || strings.Contains(x.Out, "updated to version")) && !x.Killed && is == "old" {
						bad("false-success", "process %c reports success with the old binary in place", 'A'+i)
					}
				}
			})
			c.Eval(1)
			c.Trace(1)
			if interleaved(h) {
				c.Distinct(1)
			}
			if failed {
				return h
			}
			desc := obj{"scenario": s.name, "schedule": h.Lines(r.Dir), "outA": h.res[0].Out, "outB": h.res[1].Out}
			for i, x := range h.res {
				if x.Timeout || x.Panicked() || x.Killed && s.fault == "" {
					c.Fail("crash", desc, "%s: process %c crashed or hung: %s", s.name, 'A'+i, clip(x.Err))
					return h
				}
				if x.Killed {
					continue
				}
				if (x.Code == 0) != strings.Contains(x.Out, "updated to version") {
					c.Fail("report", desc, "%s: process %c ends with status %d and says %s", s.name, 'A'+i, x.Code, clip(x.Out))
					return h
				}
			}
			x := r.Exec(Run{Args: []string{"update"}, Stdin: "y\n", Dial: r.S.Dial()})
			if data, _ := os.ReadFile(r.Exe()); x.Code != 0 || string(data) != newBinary {
				c.Fail("stuck", desc, "%s: a further update ends with status %d: %s", s.name, x.Code, clip(x.Out))
			}
			if h.bad != "" {
				c.AddExtra("schedules_not_followed", 1)
			}
			return h
		})
		if s.fault == "" {
			c.AddExtra("schedules_update", n)
			c.Sample(obj{"scenario": s.name, "schedules": n, "preemptions": s.bound})
		} else {
			c.AddExtra("schedules_update_killed", n)
		}
	}
}

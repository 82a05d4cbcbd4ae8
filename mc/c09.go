package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"github.com/mashmb/1pass/1pass-core/core/domain"
	"gopkg.in/yaml.v2"
)

func init() { checks["C09"] = c09 }

func c09(c *Ctx) {
	c.Level = "exploration"
	c.Rule = "case = one history of saves, read back in the same process and after a restart (fresh repository). Enumerated: all vault texts of up to 3 symbols out of a YAML-hostile alphabet and a keyword list (alone, repeated, padded); all 30x2x366 settings; all subsets of the known keys in the file, with and without unknown keys; empty files of every form; every saved value replaced by each of its neighbours (case, blanks, path forms, one character more, less, other; digits); all histories of up to 4 saves out of 5 configurations with or without restart in between. Non-trivial: something was saved or read from a file"
	c.Assume = []string{"vault paths are valid UTF-8 without NUL", "the file holds what 1pass or a user following the documentation wrote"}
	same := func(a *domain.Config, t, p int, n bool, v string) bool {
		return a != nil && a.Timeout == t && a.UpdatePeriod == p && a.UpdateNotify == n && a.Vault == v
	}
	roundtrip := func(dir string, t, p int, n bool, v string) {
		c.Eval(1)
		c.Distinct(1)
		cs := obj{"timeout": t, "period": p, "notify": n, "vault": v}
		if out := guard(func() {
			f := newConfigFacade(dir)
			f.SaveConfig(domain.NewConfig(t, p, n, v))
			if g := f.GetConfig(); !same(g, t, p, n, v) || !f.IsConfigAvailable() {
				c.Fail("same-process", cs, "saved %v, read back in the same process %+v (available %v)", cs, *g, f.IsConfigAvailable())
			}
			f = newConfigFacade(dir)
			if g := f.GetConfig(); !same(g, t, p, n, v) || !f.IsConfigAvailable() {
				c.Fail("restart", cs, "saved %v, read back after a restart %+v (available %v)", cs, *g, f.IsConfigAvailable())
			}
		}); out != "" {
			c.Fail("aborted", cs, "saving or reading back %v aborted: %s", cs, out)
		}
	}
	sym := []string{"a", "1", "0", "-", ":", " ", "#", "'", "\"", "\\", "/", "~", "!", "&", "*", "?", "|", ">", "%", "@", "`", "{", "}", "[", "]", ",", "=", "<", ".", "\t", "\n", "\r", "ü", "✓", "😀", "\u0085", "\u2028", "\ufeff", "e", "y", "\x7f", "\x1b"}
	kw := []string{"null", "Null", "NULL", "~", "true", "True", "TRUE", "false", "yes", "Yes", "no", "NO", "on", "off", "y", "n", "1", "-1", "1.5", "0x1F", "0o17", "017", "1e3", "1_000", ".inf", "-.inf", ".nan", ".NaN", "2020-01-01", "2020-01-01T00:00:00Z", "12:30:45", "190:20:30", "- a", ": a", "a: b", "a : b", "# c", "a # c", "!!str x", "!!binary aGk=", "!tag", "&a b", "*a", "|", ">", ">-", "{}", "[]", "{a: b}", "[a, b]", "<<", "=", "---", "...", "%YAML 1.1", "? a", "@a", "`a`", "'", "''", "\"", "\"\"", "a\\nb", "a\nb", "\na", "a\n", " a", "a ", "  ", "/home/user/My Vault/1Password.opvault", "~/Dropbox/1Password.opvault", "/mnt/c/Users/x/ünï/✓.opvault", "$HOME/v", "C:\\x", strings.Repeat("long path ", 40), strings.Repeat("x", 5000), "opvault: evil\ntimeout: 9"}
	var texts []string
	for _, a := range sym {
		texts = append(texts, a)
		for _, b := range sym {
			texts = append(texts, a+b)
			for i, d := range sym {
				if c.Thorough || i%2 == 0 || a == b {
					texts = append(texts, a+b+d)
				}
			}
		}
	}
	for _, k := range kw {
		texts = append(texts, k, " "+k, k+" ", k+k, "/"+k, k+"/x", k+"\n", "x\n"+k)
	}
	if c.Thorough {
		for _, a := range sym {
			for _, b := range sym {
				for _, d := range sym {
					for _, e := range sym {
						texts = append(texts, a+b+d+e)
					}
				}
			}
		}
	}
	c.Par(len(texts), func(w, i int) {
		roundtrip(filepath.Join(c.Scratch, fmt.Sprintf("t%d", w)), 1+i%30, i%366, i%2 == 0, texts[i])
		if i%9001 == 17 {
			c.Sample(obj{"vault": texts[i]})
		}
	})
	c.Par(30*366*2, func(w, i int) {
		roundtrip(filepath.Join(c.Scratch, fmt.Sprintf("s%d", w)), 1+i%30, i/30%366, i/30/366 == 0, "/v")
	})
	// every saved value replaced by each of its neighbours
	type pair struct{ a, b domain.Config }
	var pairs []pair
	for a := 1; a <= 30; a++ {
		for b := 1; b <= 30; b++ {
			pairs = append(pairs, pair{domain.Config{Timeout: a, UpdatePeriod: b, UpdateNotify: a%2 == 0, Vault: "/v"}, domain.Config{Timeout: b, UpdatePeriod: a, UpdateNotify: b%2 == 0, Vault: "/v"}})
		}
	}
	for a := 0; a <= 365; a++ {
		for _, b := range []int{0, 1, a - 1, a + 1, a * 10, a / 10, a + 100, a % 10, a % 100, 365, 365 - a, a * 2} {
			if b >= 0 && b <= 365 {
				pairs = append(pairs, pair{domain.Config{Timeout: 5, UpdatePeriod: a, UpdateNotify: true, Vault: ""}, domain.Config{Timeout: 5, UpdatePeriod: b, UpdateNotify: a%2 == 0, Vault: ""}})
			}
		}
	}
	for _, a := range append([]string{"/Some/vault.opvault", "/some/väult/", "rel/./x/../y", "~/x", "/a b/c", "C:\\Users\\x"}, kw...) {
		near := []string{"", strings.ToLower(a), strings.ToUpper(a), strings.Title(a), a + "/", strings.TrimSuffix(a, "/"), filepath.Clean(a), a + " ", " " + a, strings.TrimSpace(a), a + a, filepath.Dir(a), filepath.Base(a), "./" + a, "\"" + a + "\"", "'" + a + "'", strings.ReplaceAll(a, " ", ""), strings.ReplaceAll(a, " ", "\t"), strings.ReplaceAll(a, "/", "//"), strings.ReplaceAll(a, "a", "b"), a + ".bak", a + "\n", strings.ReplaceAll(a, "ä", "a\u0308")}
		if len(a) < 60 {
			r := []rune(a)
			for i := range r {
				near = append(near, string(r[:i])+string(r[i+1:]), string(r[:i])+"x"+string(r[i+1:]), string(r[:i])+"x"+string(r[i:]), string(r[:i]))
				if i > 0 {
					near = append(near, string(r[:i-1])+string(r[i])+string(r[i-1])+string(r[i+1:]))
				}
			}
		}
		for _, b := range near {
			pairs = append(pairs, pair{domain.Config{Timeout: 2, UpdatePeriod: 3, UpdateNotify: true, Vault: a}, domain.Config{Timeout: 2, UpdatePeriod: 3, UpdateNotify: true, Vault: b}},
				pair{domain.Config{Timeout: 2, UpdatePeriod: 3, UpdateNotify: true, Vault: b}, domain.Config{Timeout: 2, UpdatePeriod: 3, UpdateNotify: true, Vault: a}})
		}
	}
	c.Par(len(pairs), func(w, i int) {
		for _, restart := range []bool{false, true} {
			dir := filepath.Join(c.Scratch, fmt.Sprintf("p%d", w))
			p := pairs[i]
			cs := obj{"saved": p.a, "then": p.b, "restart between": restart}
			c.Eval(1)
			c.Distinct(1)
			if out := guard(func() {
				f := newConfigFacade(dir)
				a, b := p.a, p.b
				f.SaveConfig(&a)
				if restart {
					f = newConfigFacade(dir)
				}
				f.SaveConfig(&b)
				if g := f.GetConfig(); *g != p.b {
					c.Fail("replace", cs, "saved %+v, then %+v (restart %v): read back %+v", p.a, p.b, restart, *g)
				}
				if g := newConfigFacade(dir).GetConfig(); *g != p.b {
					c.Fail("replace", cs, "saved %+v, then %+v (restart %v): read back after a restart %+v", p.a, p.b, restart, *g)
				}
			}); out != "" {
				c.Fail("replace-aborted", cs, "saving %+v, then %+v: %s", p.a, p.b, out)
			}
		}
	})
	// files with every subset of the keys
	lines := []string{"opvault: /some/vault", "timeout: 17", "update-notification: false", "update-period: 42"}
	unknown := []string{"", "extra: keep me\n", "nested:\n  a: 1\n  b: [x, y]\n", "zz: true\nother: 12.5\n",
		"Timeout: 3\nvault: /elsewhere\nupdateperiod: 9\nupdate_period: 8\nnotifications: true\n", "empty:\ntext: \"\"\nblank: \" \"\n", "a-very-long-name-of-a-setting-that-this-version-does-not-know: 1\nkey with blanks: 2\nk.e.y: 3\nümläut: 4\n",
		"list:\n- 1\n- two\n- {three: 3}\nmulti: |\n  line 1\n    line 2\nquoted: 'yes'\nnum: '007'\nbig: 12345678901\nneg: -5\nwhen: 2020-01-02\n", manyKeys(40), "deep:\n  a:\n    b:\n      c:\n        d: [1, [2, [3]]]\n"}
	for m := 0; m < 16; m++ {
		for _, u := range unknown {
			for order := 0; order < 2; order++ {
				dir := c.Dir("subset")
				text := ""
				t, p, n, v := 1, 1, true, ""
				for i, l := range lines {
					if m>>i&1 == 1 {
						if order == 0 {
							text += l + "\n"
						} else {
							text = l + "\n" + text
						}
					}
				}
				if m&1 != 0 {
					v = "/some/vault"
				}
				if m&2 != 0 {
					t = 17
				}
				if m&4 != 0 {
					n = false
				}
				if m&8 != 0 {
					p = 42
				}
				text += u
				file := filepath.Join(dir, domain.ConfigFile)
				must(os.WriteFile(file, []byte(text), 0644))
				c.Eval(1)
				c.Distinct(1)
				if out := guard(func() {
					f := newConfigFacade(dir)
					if g := f.GetConfig(); !same(g, t, p, n, v) {
						c.Fail("defaults", obj{"file": text}, "file %q read as %+v", text, *g)
					}
					if f.IsConfigAvailable() != (text != "") {
						c.Fail("available", obj{"file": text}, "file %q: available = %v", text, f.IsConfigAvailable())
					}
					for k := 0; k < 3; k++ {
						f.SaveConfig(domain.NewConfig(5+k, 6, k == 1, "/n"))
						if g := f.GetConfig(); !same(g, 5+k, 6, k == 1, "/n") {
							c.Fail("save-over", obj{"file": text}, "file %q, then saved: %+v", text, *g)
						}
						if k == 1 {
							f = newConfigFacade(dir)
						}
					}
					b, _ := os.ReadFile(file)
					var was, is map[string]any
					must(yaml.Unmarshal([]byte(u), &was))
					if err := yaml.Unmarshal(b, &is); err != nil {
						c.Fail("invalid-file", obj{"file": text}, "saved file is not YAML: %v", err)
					}
					for k, x := range was {
						if _, ok := is[k]; !ok || fmt.Sprintf("%T%v", is[k], is[k]) != fmt.Sprintf("%T%v", x, x) {
							c.Fail("unknown-key", obj{"file": text}, "key %s was %v, is %v after saving", k, x, is[k])
						}
					}
				}); out != "" {
					c.Fail("aborted-file", obj{"file": text}, "file %q: %s", text, out)
				}
			}
		}
	}
	// empty files; "-" stands for no file, "-d" for no directory
	for _, e := range []string{"-", "-d", "", "\n", "  \n", "# comment\n", "{}", "{}\n", "---\n", "null\n", "~\n", "---\n...\n", "\n\n# a\n\n# b\n"} {
		dir := filepath.Join(c.Scratch, "empty", fmt.Sprintf("%x", e), "x")
		if e != "-d" {
			must(os.MkdirAll(dir, 0755))
		}
		if e[:min(1, len(e))] != "-" || strings.HasPrefix(e, "---") {
			must(os.WriteFile(filepath.Join(dir, domain.ConfigFile), []byte(e), 0644))
		}
		c.Eval(1)
		c.Distinct(1)
		if out := guard(func() {
			f := newConfigFacade(dir)
			if f.IsConfigAvailable() || !same(f.GetConfig(), 1, 1, true, "") {
				c.Fail("empty", obj{"file": e}, "empty file %q: available=%v config=%+v", e, f.IsConfigAvailable(), *f.GetConfig())
			}
			f.SaveConfig(domain.NewConfig(3, 4, false, "/x"))
			if g := f.GetConfig(); !same(g, 3, 4, false, "/x") || !f.IsConfigAvailable() {
				c.Fail("empty-save", obj{"file": e}, "after saving over an empty file: %+v", *g)
			}
			if g := newConfigFacade(dir).GetConfig(); !same(g, 3, 4, false, "/x") {
				c.Fail("empty-save", obj{"file": e}, "after saving over an empty file and a restart: %+v", *g)
			}
		}); out != "" {
			c.Fail("empty-aborted", obj{"file": e}, "empty file %q: %s", e, out)
		}
	}
	// many saves, one after the other, without and with restarts
	for _, every := range []int{0, 1, 3, 7} {
		dir := c.Dir(fmt.Sprintf("many%d", every))
		if out := guard(func() {
			f := newConfigFacade(dir)
			for i := 0; i < 400; i++ {
				t, p, n, v := 1+i*7%30, i*11%366, i%3 == 0, strings.Repeat("/p", i*13%50)
				c.Eval(1)
				c.Distinct(1)
				f.SaveConfig(domain.NewConfig(t, p, n, v))
				if every > 0 && i%every == 0 {
					f = newConfigFacade(dir)
				}
				if g := f.GetConfig(); !same(g, t, p, n, v) {
					c.Fail("many", obj{"save": i, "restart_every": every}, "save number %d: read back %+v", i, *g)
					return
				}
			}
		}); out != "" {
			c.Fail("many-aborted", obj{"restart_every": every}, "many saves: %s", out)
		}
	}
	// histories
	cfgs := []domain.Config{{Timeout: 1, UpdatePeriod: 1, UpdateNotify: true, Vault: ""}, {Timeout: 30, UpdatePeriod: 365, UpdateNotify: false, Vault: "/very/long/path/to/a/vault/that/makes/the/file/long"},
		{Timeout: 2, UpdatePeriod: 0, UpdateNotify: true, Vault: "a"}, {Timeout: 9, UpdatePeriod: 10, UpdateNotify: false, Vault: ""}, {Timeout: 1, UpdatePeriod: 1, UpdateNotify: true, Vault: "null"}}
	depth := 4
	if c.Thorough {
		depth = 5
	}
	total := 1
	for i := 0; i < depth; i++ {
		total *= 2 * len(cfgs)
	}
	c.Par(total, func(w, i int) {
		dir := filepath.Join(c.Scratch, fmt.Sprintf("h%d", w))
		os.RemoveAll(dir)
		c.Eval(1)
		c.Distinct(1)
		hist := []string{}
		if out := guard(func() {
			f := newConfigFacade(dir)
			k := i
			for j := 0; j < depth; j++ {
				g := cfgs[k%len(cfgs)]
				k /= len(cfgs)
				restart := k%2 == 1
				k /= 2
				hist = append(hist, fmt.Sprintf("save %+v restart=%v", g, restart))
				f.SaveConfig(&domain.Config{Timeout: g.Timeout, UpdateNotify: g.UpdateNotify, UpdatePeriod: g.UpdatePeriod, Vault: g.Vault})
				if restart {
					f = newConfigFacade(dir)
				}
				if r := f.GetConfig(); *r != g || !f.IsConfigAvailable() {
					c.Fail("history", obj{"history": hist}, "%v: read back %+v", hist, *r)
				}
			}
		}); out != "" {
			c.Fail("history-aborted", obj{"history": hist}, "%v: %s", hist, out)
		}
	})
}

func manyKeys(n int) string {
	s := ""
	for i := 0; i < n; i++ {
		s += fmt.Sprintf("key%d: value %d\n", i, i)
	}
	return s
}

package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"github.com/mashmb/1pass/1pass-core/core/domain"
	"github.com/mashmb/1pass/1pass-core/core/facade"
)

func init() { checks["C01"] = c01 }

// hmacKey is the key HMAC-SHA512 really uses: passwords with the same key are the same
// password for PBKDF2 by definition of the standard (only possible with trailing NULs or
// beyond 128 bytes).
func sameHmacKey(a, b string) bool {
	return strings.TrimRight(a, "\x00") == strings.TrimRight(b, "\x00")
}

// nearMisses enumerates all passwords one edit away plus classic confusions.
func nearMisses(p string) []string {
	seen := map[string]bool{p: true}
	var out []string
	add := func(s string) {
		if !seen[s] && !sameHmacKey(s, p) {
			seen[s] = true
			out = append(out, s)
		}
	}
	rs := []rune(p)
	ins := []rune{'a', 'A', ' ', '0', '\n', '\t', 'é', '\x00'}
	add("")
	add(" ")
	for i := 0; i <= len(rs); i++ {
		for _, c := range ins {
			add(string(rs[:i]) + string(c) + string(rs[i:]))
		}
		if i < len(rs) {
			add(string(rs[:i]) + string(rs[i+1:]))
			for _, c := range append(ins, rs[i]^1, rs[i]^0x20, rs[i]+1) {
				add(string(rs[:i]) + string(c) + string(rs[i+1:]))
			}
			add(string(rs[:i])) // prefixes
			add(string(rs[i:])) // suffixes
		}
		if i+1 < len(rs) {
			add(string(rs[:i]) + string(rs[i+1]) + string(rs[i]) + string(rs[i+2:]))
		}
	}
	b := []byte(p)
	for i := range b {
		for k := 0; k < 8; k++ {
			x := append([]byte(nil), b...)
			x[i] ^= 1 << k
			add(string(x))
		}
	}
	for _, s := range []string{p + p, strings.ToUpper(p), strings.ToLower(p), strings.TrimSpace(p), strings.Title(p), p + "\r", "\ufeff" + p,
		strings.ReplaceAll(p, "ä", "a\u0308"), strings.ReplaceAll(p, "ä", "a"), strings.ReplaceAll(p, " ", "")} {
		add(s)
	}
	if len(p) > 16 {
		add(p[:8])
		add(p[:len(p)/2])
	}
	return out
}

// locked checks that nothing can be read.
func leaks(f facade.VaultFacade, uids []string) string {
	if f.IsUnlocked() {
		return "still reported as unlocked"
	}
	for _, tr := range []bool{false, true} {
		if n := f.CountItems(nil, tr); n != 0 {
			return fmt.Sprintf("count %d", n)
		}
		if l := f.GetItems(nil, "", tr); len(l) != 0 {
			return fmt.Sprintf("%d items listed", len(l))
		}
		for _, cat := range domain.ItemCategoryEnum.GetValues() {
			if f.CountItems(cat, tr) != 0 || len(f.GetItems(cat, "", tr)) != 0 {
				return "items of category " + cat.GetName()
			}
		}
		for _, u := range uids {
			if f.GetItem(u, tr) != nil {
				return "item " + u
			}
		}
	}
	return ""
}

func simpleItems(n int) []VItem {
	var r []VItem
	for i := 0; i < n; i++ {
		r = append(r, VItem{Uid: uid(i), Category: []string{"001", "003", "005"}[i%3], Created: 1, Updated: 2, Trashed: i%2 == 1,
			Overview: map[string]any{"title": fmt.Sprintf("Title%d", i), "url": fmt.Sprintf("http://u%d", i)},
			Details:  map[string]any{"notesPlain": fmt.Sprintf("notes %d", i)}, Band: i % 16})
	}
	return r
}

func c01(c *Ctx) {
	c.Rule = "case = (vault, attempt): every password at edit distance 1 (insert/delete/substitute/transpose, every bit of every byte) and common confusions of each master password; streaks of wrong attempts; every single-bit flip, every truncation and extension of salt, sealed master key and sealed overview key with the right password. Non-trivial: the attempt differs from the right one in password or key material (distinct by construction)"
	c.Level = "exploration"
	c.Assume = []string{"PBKDF2 key equivalence inherent in HMAC (trailing NULs, passwords above 128 bytes versus their digest) is not a different password", "AES, HMAC and SHA implementations of the Go distribution"}
	long := strings.Repeat("correct horse battery staple ", 10)
	type spec struct {
		pw   string
		salt int
		iter int
		full bool
	}
	specs := []spec{{"freddy", 16, 1, true}, {"Pässwörd ✓", 16, 2, true}, {"a", 16, 3, true}, {"", 16, 2, true}, {" lead trail ", 16, 1, true},
		{long[:127], 8, 2, false}, {long[:128], 16, 2, false}, {long[:129], 32, 2, false}, {long[:200], 16, 1, false}, {"\x01\xffbin", 16, 1, true}, {"freddy", 16, 1000, false}, {"freddy", 16, 7, true}}
	if c.Thorough {
		for _, p := range []string{"0", "12345678", "correct horse", "ŻÓŁW", "日本語パスワード", "p\tq", "\"'`$", "trailing\\", long[:64], long[:65]} {
			specs = append(specs, spec{p, 16, 1, true}, spec{p, 4, 5, true}, spec{p, 64, 2, true})
		}
		specs = append(specs, spec{"freddy", 16, 50000, false})
	}
	for _, n := range []int{10000, 50000, 99999, 100001, 131072, 250000, 650000} {
		specs = append(specs, spec{"only-right", 16, n, false})
	}
	for n := 0; n <= 40; n++ { // salt lengths
		specs = append(specs, spec{"salted", n, 1 + n, false})
	}
	type job struct {
		kind string
		v    *VVault
		dir  string
		arg  string
		mod  func() []byte
		full bool
	}
	var jobs []job
	noCfg := filepath.Join(c.Scratch, "nocfg")
	uids := []string{uid(0), uid(1), uid(2)}
	for si, s := range specs {
		v := &VVault{Password: s.pw, Iter: s.iter, Salt: (&detRand{seed: fmt.Sprint("s", si)}).bytes(s.salt), Items: simpleItems(3), Seed: fmt.Sprint("c01", si)}
		dir := c.Dir(fmt.Sprintf("v%d", si))
		v.write(dir)
		nm := nearMisses(s.pw)
		if s.iter >= 1000 && len(nm) > 60 {
			nm = nm[:60]
		}
		if s.iter >= 10000 && !c.Thorough {
			nm = nm[:2]
		}
		jobs = append(jobs, job{kind: "right", v: v, dir: dir, arg: s.pw})
		for _, p := range nm {
			jobs = append(jobs, job{kind: "wrong", v: v, dir: dir, arg: p})
		}
		if !s.full {
			continue
		}
		targets := []struct {
			n string
			b []byte
		}{{"salt", v.Salt}, {"masterKey", v.Keys.MasterBlob}, {"overviewKey", v.Keys.OverBlob}}
		for ti := range targets {
			t := targets[ti]
			prof := func(b []byte) []byte {
				m, o, sa := v.Keys.MasterBlob, v.Keys.OverBlob, v.Salt
				switch t.n {
				case "salt":
					sa = b
				case "masterKey":
					m = b
				default:
					o = b
				}
				return v.profile(m, o, sa)
			}
			for i := range t.b {
				for k := 0; k < 8; k++ {
					i, k := i, k
					jobs = append(jobs, job{"corrupt", v, dir, fmt.Sprintf("%s bit %d.%d", t.n, i, k), func() []byte {
						x := append([]byte(nil), t.b...)
						x[i] ^= 1 << k
						return prof(x)
					}, true})
				}
				i := i
				jobs = append(jobs, job{"corrupt", v, dir, fmt.Sprintf("%s cut to %d", t.n, i), func() []byte { return prof(t.b[:i]) }, true})
			}
			for _, n := range []int{1, 15, 16, 17, 32} {
				n := n
				if t.n == "salt" && s.pw == "" && n > 0 {
					// extension of the salt with non-zero bytes is a different salt
				}
				jobs = append(jobs, job{"corrupt", v, dir, fmt.Sprintf("%s extended by %d", t.n, n), func() []byte {
					return prof(append(append([]byte(nil), t.b...), (&detRand{seed: "ext"}).bytes(n)...))
				}, true})
			}
			if t.n != "salt" {
				// exchange of any two cipher blocks
				nb := (len(t.b) - 64) / 16
				for a := 0; a < nb; a++ {
					for b := a + 1; b < nb; b++ {
						a, b := a, b
						jobs = append(jobs, job{"corrupt", v, dir, fmt.Sprintf("%s blocks %d,%d exchanged", t.n, a, b), func() []byte {
							x := append([]byte(nil), t.b...)
							copy(x[32+16*a:48+16*a], t.b[32+16*b:48+16*b])
							copy(x[32+16*b:48+16*b], t.b[32+16*a:48+16*a])
							return prof(x)
						}, true})
					}
				}
			}
		}
	}
	// streaks of wrong attempts, then the right one
	streak := 40
	if c.Thorough {
		streak = 400
	}
	c.Par(len(specs), func(w, i int) {
		s := specs[i]
		if s.iter > 1000 {
			return
		}
		dir := filepath.Join(c.Scratch, fmt.Sprintf("v%d", i))
		nm := nearMisses(s.pw)
		f := newVaultFacade(noCfg)
		out := guard(func() {
			vv := domain.NewVault(dir)
			must(f.Validate(vv))
			for k := 0; k < streak; k++ {
				c.Eval(1)
				if e := f.Unlock(vv, nm[k%len(nm)]); e == nil || e.Error() != domain.ErrInvalidPass.Error() {
					c.Fail("streak", obj{"password": s.pw, "attempts": k + 1}, "wrong password after %d wrong ones: %v", k, e)
					return
				}
				if l := leaks(f, uids); l != "" {
					c.Fail("streak", obj{"password": s.pw, "attempts": k + 1}, "after %d wrong attempts: %s", k+1, l)
					return
				}
				if k < 5 || k%10 == 9 {
					if e := f.Unlock(vv, s.pw); e != nil {
						c.Fail("streak", obj{"password": s.pw, "attempts": k + 1}, "right password refused after %d wrong attempts: %v", k+1, e)
						return
					}
					f.Lock()
				}
			}
		})
		if out != "" {
			c.Fail("streak", obj{"password": s.pw}, "aborted: %s", out)
		}
	})
	dirs := make([]string, NCPU)
	for w := range dirs {
		dirs[w] = c.Dir(fmt.Sprintf("w%d/default", w))
	}
	check := func(w int, j job) {
		c.Eval(1)
		cas := map[string]any{"password": j.v.Password, "iterations": j.v.Iter, "attempt": j.kind, "what": j.arg}
		switch j.kind {
		case "right":
			f := newVaultFacade(noCfg)
			if l := leaks2(f, uids); l != "" {
				c.Fail("before-unlock", cas, "a fresh session shows %s", l)
			}
			out, err := openVault(f, j.dir, j.v.Password)
			if out != "" || err != nil {
				c.Fail("right-rejected", cas, "right password rejected: %s %v", out, err)
				return
			}
			if d := diffItems(j.v, f); d != "" || !f.IsUnlocked() {
				c.Fail("right-wrong-items", cas, "after the right password: %s unlocked=%v", d, f.IsUnlocked())
			}
		case "wrong":
			c.Distinct(1)
			f := newVaultFacade(noCfg)
			out, err := openVault(f, j.dir, j.arg)
			if out != "" || err == nil || err.Error() != domain.ErrInvalidPass.Error() {
				c.Fail("wrong-accepted", cas, "password %q: outcome %q, error %v", j.arg, out, err)
			}
			var l string
			if o := guard(func() { l = leaks(f, uids) }); o != "" {
				l = o
			}
			if l != "" {
				c.Fail("leak-after-failure", cas, "after password %q: %s", j.arg, l)
			}
			// a second wrong attempt, then the right one, without validating again
			var e2, e3 error
			o := guard(func() {
				vv := domain.NewVault(j.dir)
				e2 = f.Unlock(vv, j.arg)
				e3 = f.Unlock(vv, j.v.Password)
			})
			if o != "" || e2 == nil || e3 != nil {
				c.Fail("right-after-wrong", cas, "after wrong attempts: %q second wrong: %v right: %v", o, e2, e3)
			} else if d := diffItems(j.v, f); d != "" {
				c.Fail("right-after-wrong", cas, "items after wrong attempts: %s", d)
			}
		case "corrupt":
			c.Distinct(1)
			d := filepath.Dir(dirs[w])
			must(os.WriteFile(filepath.Join(dirs[w], "profile.js"), j.mod(), 0644))
			f := newVaultFacade(noCfg)
			out, err := openVault(f, d, j.v.Password)
			if out == "" && err == nil {
				c.Fail("corrupt-accepted", cas, "vault with corrupted key material opened: %s", j.arg)
			}
			if out == "" && err != nil && err.Error() != domain.ErrInvalidPass.Error() {
				c.Fail("corrupt-error", cas, "error is %v", err)
			}
			if out == "" {
				if l := leaks(f, uids); l != "" {
					c.Fail("leak-after-corrupt", cas, "readable after failed unlock: %s", l)
				}
			}
		}
	}
	// every worker has its own copy of the bands of the vault it is looking at
	c.Par(len(jobs), func(w, i int) {
		j := jobs[i]
		if j.kind == "corrupt" {
			src := filepath.Join(j.dir, "default")
			for n := 0; n < 3; n++ {
				b, _ := os.ReadFile(filepath.Join(src, bandName(n)))
				must(os.WriteFile(filepath.Join(dirs[w], bandName(n)), b, 0644))
			}
		}
		check(w, j)
		if i%4001 == 0 {
			c.Sample(map[string]any{"password": j.v.Password, "kind": j.kind, "attempt": j.arg})
		}
	})
}

func leaks2(f facade.VaultFacade, uids []string) (l string) {
	if o := guard(func() { l = leaks(f, uids) }); o != "" {
		return o
	}
	return
}

package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"time"

	"github.com/mashmb/1pass/1pass-core/core/domain"
	"github.com/mashmb/1pass/1pass-core/core/facade"
)

func init() { checks["C06"] = c06 }

// C06: all histories of the operations below on the real facade, in lockstep with a model.
//
//	VA VB VX   validate vault A, B, a path that is no vault
//	U W O      unlock the vault validated last with its password, a wrong one, the other vault's
//	L          lock
//	M          vault A gets other items on disk (or none: the three contents take turns)
//	P          vault A gets another password on disk (and is validated again if it was the last one)
//
// In a second enumeration the contents of vault A have band files of equal sizes, and
//
//	N          the band files are overwritten in place, file and directory times stay the same
//	R          the band files are replaced by others (new inodes), file and directory times stay the same
type c06model struct {
	cur     int // validated last: -1 none, 0 A, 1 B
	open    bool
	shown   string // which items are readable: "", "A0", "A1", "B"
	version int    // items of A on disk
	pw      int    // password of A on disk
	loaded  int    // password of A when validated last
}

func c06(c *Ctx) {
	ops := []string{"VA", "VB", "VX", "U", "W", "O", "L", "M", "P"}
	depth := 6
	if c.Thorough {
		depth = 7
	}
	small := []string{"VA", "VB", "U", "W", "L", "N", "R"}
	c.Rule = fmt.Sprintf("every history of up to %d operations out of %v, and every history of up to %d operations out of %v where the contents of the vault have band files of equal sizes and keep their times (N: overwritten in place, R: replaced), is executed on the real facade and file repositories in lockstep with a model (validated vault, open vault, readable items); after every operation the locked/unlocked indication and all readable items are compared. Non-trivial: the history contains an unlock", depth, ops, depth, small)
	c.Assume = []string{"unlocking refers to the vault validated last, as both controls do", "a vault's password is not changed between its validation and its unlocking"}
	pwA := []string{"alpha", "alpha2"}
	const pwB = "beta"
	va := [3]*VVault{
		{Password: pwA[0], Seed: "A", Items: []VItem{simpleItem(1, "001", "A one", false, 1), simpleItem(2, "003", "A two", true, 2), simpleItem(7, "005", "A seven", false, 3)}},
		{Password: pwA[0], Seed: "A", Items: []VItem{simpleItem(1, "001", "A one changed", false, 1), simpleItem(3, "110", "A three", false, 4)}}}
	va[1], va[2] = &VVault{Password: pwA[0], Seed: "A"}, va[1] // second: empty
	same := [3]*VVault{}
	for i := range same {
		a, b := simpleItem(1, "001", fmt.Sprintf("Title %d", i), false, 1), simpleItem(2, "003", fmt.Sprintf("Other %d", i), i == 1, 2)
		b.Category = []string{"003", "003", "005"}[i]
		a.Details = obj{"notesPlain": fmt.Sprintf("notes %d", i)}
		b.Trashed = true
		same[i] = &VVault{Password: pwA[0], Seed: "A", Items: []VItem{a, b}}
	}
	for i := range va {
		va[i].prepare()
		same[i].prepare()
	}
	vb := &VVault{Password: pwB, Seed: "B", Items: []VItem{simpleItem(1, "001", "B one", false, 1), simpleItem(11, "002", "B eleven", true, 9)}}
	vb.prepare()
	// the same keys wrapped for the second password
	alt := [3]*VVault{}
	for i := range alt {
		k := *va[i].Keys
		n := newKeys(&detRand{seed: "keysA"}, pwA[1], va[i].Salt, 1)
		k.MasterBlob, k.OverBlob = n.MasterBlob, n.OverBlob
		alt[i] = &VVault{Password: pwA[1], Seed: "A", Items: va[i].Items, Keys: &k, Salt: va[i].Salt, Iter: 1}
	}
	empty := &VVault{}
	noCfg := filepath.Join(c.Scratch, "nocfg")
	type disk struct{ a, b, x string }
	disks := make([]disk, NCPU)
	for w := range disks {
		disks[w] = disk{c.Dir(fmt.Sprintf("w%d/A", w)), c.Dir(fmt.Sprintf("w%d/B", w)), c.Dir(fmt.Sprintf("w%d/X", w))}
		vb.write(disks[w].b)
	}
	write := func(w int, m *c06model) {
		v := va[m.version]
		if m.pw == 1 {
			v = alt[m.version]
		}
		v.write(disks[w].a)
	}
	// the band files of the vault get the contents of another of `same`, without a trace in sizes and times
	stamp := time.Unix(1500000000, 0)
	quiet := func(w int, v *VVault, replace bool) {
		d := filepath.Join(disks[w].a, "default")
		for _, it := range v.Items {
			p := filepath.Join(d, bandName(it.Band))
			old, err := os.Stat(p)
			must(err)
			data := append(append([]byte("ld("), jsonDoc(map[string]any{it.Uid: v.seal(&it)})...), ");"...)
			if old.Size() != int64(len(data)) {
				panic("sizes of band files differ")
			}
			if replace {
				must(os.WriteFile(p+".new", data, 0644))
				must(os.Rename(p+".new", p))
			} else {
				must(os.WriteFile(p, data, 0644))
			}
			must(os.Chtimes(p, stamp, stamp))
		}
		must(os.Chtimes(d, stamp, stamp))
		must(os.Chtimes(disks[w].a, stamp, stamp))
	}
	vs := map[string]*VVault{"": empty, "A0": va[0], "A1": va[1], "A2": va[2], "B": vb}
	vsame := map[string]*VVault{"": empty, "A0": same[0], "A1": same[1], "A2": same[2], "B": vb}
	run := func(w int, ops []string, hist []int, vs map[string]*VVault) {
		m := &c06model{cur: -1}
		if vs["A0"] == same[0] {
			same[0].write(disks[w].a)
			quiet(w, same[0], false)
		} else {
			write(w, m)
		}
		f := newVaultFacade(noCfg)
		name := func(n int) string {
			s := []string{}
			for _, o := range hist[:n+1] {
				s = append(s, ops[o])
			}
			return strings.Join(s, " ")
		}
		validate := func(p string) (err error, out string) {
			out = guard(func() { err = f.Validate(domain.NewVault(p)) })
			return
		}
		unlocks := 0
		for n, o := range hist {
			c.Trans(1)
			bad := func(format string, a ...any) {
				c.Fail("history", obj{"history": name(n)}, "%s: %s", name(n), fmt.Sprintf(format, a...))
			}
			switch ops[o] {
			case "VA", "VB":
				p := disks[w].a
				m.cur = 0
				if ops[o] == "VB" {
					p, m.cur = disks[w].b, 1
				}
				m.loaded = m.pw
				if err, out := validate(p); err != nil || out != "" {
					bad("validation failed: %v %s", err, out)
					return
				}
			case "VX":
				if err, out := validate(disks[w].x); err == nil || out != "" {
					bad("a directory without profile was accepted (%s)", out)
					return
				}
			case "U", "W", "O":
				if m.cur < 0 {
					return // not a history of the application
				}
				unlocks++
				p, right, other := disks[w].a, pwA[m.loaded], pwB
				if m.cur == 1 {
					p, right, other = disks[w].b, pwB, pwA[m.pw]
				}
				pw := map[string]string{"U": right, "W": "wrong", "O": other}[ops[o]]
				var err error
				out := guard(func() { err = f.Unlock(domain.NewVault(p), pw) })
				if out != "" {
					bad("unlock aborted: %s", out)
					return
				}
				if ops[o] == "U" {
					if err != nil {
						bad("right password refused: %v", err)
						return
					}
					m.open = true
					m.shown = fmt.Sprint("A", m.version)
					if m.cur == 1 {
						m.shown = "B"
					}
				} else if err == nil {
					bad("wrong password accepted")
					return
				} else if err.Error() != domain.ErrInvalidPass.Error() {
					bad("wrong password reported as %q", err)
				}
			case "L":
				if out := guard(func() { f.Lock() }); out != "" {
					bad("lock aborted: %s", out)
					return
				}
				m.open, m.shown = false, ""
			case "N", "R":
				m.version = (m.version + 1) % 3
				quiet(w, same[m.version], ops[o] == "R")
			case "M":
				m.version = (m.version + 1) % 3
				write(w, m)
			case "P":
				m.pw ^= 1
				write(w, m)
				if m.cur == 0 {
					m.loaded = m.pw
					if err, out := validate(disks[w].a); err != nil || out != "" {
						bad("validation failed: %v %s", err, out)
						return
					}
				}
			}
			if !c06check(c, f, m, vs, bad) {
				return
			}
			if n == len(hist)-1 {
				c.Eval(1)
				if unlocks > 0 {
					c.Distinct(1)
				}
				c.Trace(1)
			}
		}
	}
	for _, e := range []struct {
		ops []string
		vs  map[string]*VVault
	}{{ops, vs}, {small, vsame}} {
		total := 1
		for i := 0; i < depth; i++ {
			total *= len(e.ops)
		}
		c.Par(total, func(w, i int) {
			hist := make([]int, depth)
			k := i
			for j := depth - 1; j >= 0; j-- {
				hist[j] = k % len(e.ops)
				k /= len(e.ops)
			}
			run(w, e.ops, hist, e.vs)
		})
	}
	c.Sample(obj{"history": "VA U VB O U L"})
}

func c06check(c *Ctx, f facade.VaultFacade, m *c06model, vs map[string]*VVault, bad func(string, ...any)) bool {
	c.State(fmt.Sprintf("%+v", *m))
	var un bool
	if out := guard(func() { un = f.IsUnlocked() }); out != "" {
		bad("IsUnlocked: %s", out)
		return false
	}
	if un != m.open {
		bad("IsUnlocked() = %v, expected %v", un, m.open)
		return false
	}
	if d := diffItems(vs[m.shown], f); d != "" {
		bad("readable items (expected those of %q): %s", m.shown, d)
		return false
	}
	// nothing of any other vault or state can be looked up
	for n, v := range vs {
		if n == m.shown {
			continue
		}
		for i := range v.Items {
			it := &v.Items[i]
			for _, tr := range []bool{false, true} {
				g := f.GetItem(it.Uid, tr)
				if g == nil {
					continue
				}
				ok := false
				for k := range vs[m.shown].Items {
					if vs[m.shown].Items[k].Uid == g.Uid {
						ok = diffItem(refItem(&vs[m.shown].Items[k]), g) == ""
					}
				}
				if !ok {
					bad("item %s of %q is readable", it.Uid, n)
					return false
				}
			}
		}
	}
	return true
}

package main

import (
	"fmt"
	"os"
	"path/filepath"
)

func init() { checks["C04"] = c04 }

func simpleItem(n int, cat, title string, trashed bool, band int) VItem {
	return VItem{Uid: uid(n), Category: cat, Created: int64(1000 + n), Updated: int64(2000 + n), Trashed: trashed, Band: band,
		Overview: obj{"title": title, "url": fmt.Sprintf("https://u%d.example", n)},
		Details:  obj{"notesPlain": fmt.Sprintf("note %d", n), "fields": []any{obj{"name": "username", "value": fmt.Sprintf("user%d", n), "type": "T"}}}}
}

func c04(c *Ctx) {
	c.Level = "exploration"
	c.Rule = "case = one vault directory, opened and compared item by item with the reference. Enumerated: all 16^3 spreads of three items over the bands; all sets of occupied bands; all sets of empty bands; all sets of 14 unusual item identifiers, with folders and favourites; all sets of up to 2 (thorough: 3) bystander files and all of them together; all directory names of up to 2 (thorough: 3) symbols out of a hostile alphabet, as vault and as parent directory, with sibling vaults whose names the path would match as a pattern; absolute, relative, trailing slash, dot steps and symbolic link forms. Non-trivial: at least one item of a known category"
	c.Assume = []string{"files named like bands other than band_0..band_F and the same UID in two bands are outside the claim", "items decode as decided by C03"}
	noCfg := filepath.Join(c.Scratch, "nocfg")
	base := &VVault{Password: "pw", Seed: "c04"}
	base.prepare()
	mk := func(items []VItem) *VVault {
		return &VVault{Password: "pw", Seed: "c04", Keys: base.Keys, Salt: base.Salt, Iter: 1, Items: items}
	}
	check := func(key string, v *VVault, path string, desc any) {
		c.Eval(1)
		c.Distinct(1)
		f := newVaultFacade(noCfg)
		out, err := openVault(f, path, "pw")
		if out != "" || err != nil {
			c.Fail(key+"-open", desc, "opening %q failed: %s %v", path, out, err)
			return
		}
		if d := diffItems(v, f); d != "" {
			c.Fail(key, desc, "%q: %s", path, d)
		}
	}
	items := func(n int) []VItem {
		cats := []string{"001", "003", "110", "005"}
		var r []VItem
		for i := 0; i < n; i++ {
			r = append(r, simpleItem(i, cats[i%4], fmt.Sprintf("Title %d", i), i%3 == 2, i%16))
		}
		return r
	}
	// spreads of three items (one trashed) plus one of unknown category
	c.Par(4096, func(w, i int) {
		its := items(3)
		its[0].Band, its[1].Band, its[2].Band = i&15, i>>4&15, i>>8&15
		x := simpleItem(99, "998", "unknown", false, (i*7)&15)
		v := mk(append(its, x))
		dir := c.Dir(fmt.Sprintf("a%d", w))
		v.write(dir)
		check("spread", v, dir, obj{"bands": []int{i & 15, i >> 4 & 15, i >> 8 & 15}})
	})
	// occupied bands
	nb := 12
	if c.Thorough {
		nb = 16
	}
	c.Par(1<<nb, func(w, m int) {
		var its []VItem
		for b := 0; b < nb; b++ {
			if m>>b&1 == 1 {
				its = append(its, simpleItem(b, "001", fmt.Sprintf("T%d", b), b%5 == 4, (b*5+3)%16))
			}
		}
		v := mk(its)
		dir := c.Dir(fmt.Sprintf("b%d", w))
		v.write(dir)
		check("occupied", v, dir, obj{"occupied": m})
	})
	// empty bands beside full ones
	c.Par(1<<14, func(w, m int) {
		its := items(3)
		its[0].Band, its[1].Band, its[2].Band = 3, 3, 10
		v := mk(its)
		v.Bands = map[int]string{}
		k := 0
		for b := 0; b < 16; b++ {
			if b == 3 || b == 10 {
				continue
			}
			if m>>k&1 == 1 {
				v.Bands[b] = "empty"
			}
			k++
		}
		dir := c.Dir(fmt.Sprintf("c%d", w))
		v.write(dir)
		check("empty-band", v, dir, obj{"empty": m})
	})
	for m := 1; m < 1<<8; m++ {
		v := mk(nil)
		v.Bands = map[int]string{}
		for b := 0; b < 8; b++ {
			if m>>b&1 == 1 {
				v.Bands[b*2+1] = "empty"
			}
		}
		dir := c.Dir("c0")
		v.write(dir)
		check("all-empty", v, dir, obj{"empty": m})
	}
	// large vaults
	for _, n := range []int{0, 1, 16, 17, 100, 600} {
		v := mk(items(n))
		dir := c.Dir("big")
		v.write(dir)
		check("large", v, dir, obj{"items": n})
	}
	// item identifiers as other clients write them, favourites and folders
	{
		us := []string{"abcdef0123456789abcdef0123456789", "ABCDEF0123456789ABCDEF0123456789", "AbCdEf0123456789aBcDeF0123456789", "a", "A", "0", "hy4vjqmf3zcvvjc2xqk7d5k3mi", "HY4VJQMF3ZCVVJC2XQK7D5K3MI", "with space", "ü", "12345678-1234-1234-1234-123456789012", "a.b", "null", "uuid"}
		for m := 1; m < 1<<len(us); m++ {
			var its []VItem
			for i, u := range us {
				if m>>i&1 == 1 {
					x := simpleItem(i, []string{"001", "003"}[i%2], fmt.Sprintf("T%d", i), i%3 == 1, (i+m)%16)
					x.Uid = u
					x.Extra = []obj{nil, {"fave": 1}, {"folder": uid(1)}, {"folder": "", "fave": 99999}}[(i+m)%4]
					its = append(its, x)
				}
			}
			v := mk(its)
			dir := c.Dir("uids")
			v.write(dir)
			check("uid", v, dir, obj{"uids": m})
		}
	}
	// bystanders
	by := []string{"band_0.js.bak", "xband_0.js", "band_0.json", "folders.js", "profile.js~", ".DS_Store", "BAND_1.JS", "band_0", "band0.js", ".band_1.js", "band_1.js.tmp",
		"0C4F27910A64488BB339AED63565D148_23F6167DC1FB457A8DE7033ACDCD06DB.attachment", "band_2.JS", "contents.js", "Band_0.js", "[band_0.js", "dir/"}
	junk := []string{"", "garbage", "ld({\"X\":{}});", "\x00\xff"}
	var sets [][]int
	for i := range by {
		sets = append(sets, []int{i})
		for j := 0; j < i; j++ {
			sets = append(sets, []int{j, i})
			if c.Thorough {
				for k := 0; k < j; k++ {
					sets = append(sets, []int{k, j, i})
				}
			}
		}
	}
	all := []int{}
	for i := range by {
		all = append(all, i)
	}
	sets = append(sets, all)
	c.Par(len(sets)*len(junk), func(w, i int) {
		s, content := sets[i/len(junk)], junk[i%len(junk)]
		v := mk(items(4))
		dir := filepath.Join(c.Scratch, fmt.Sprintf("d%d_%d", w, i))
		v.write(dir)
		names := []string{}
		for _, b := range s {
			n := by[b]
			names = append(names, n)
			p := filepath.Join(dir, "default", n)
			if n == "dir/" {
				must(os.MkdirAll(filepath.Join(p, "sub"), 0755))
				must(os.WriteFile(filepath.Join(p, "band_0.js"), []byte(content), 0644))
				continue
			}
			must(os.WriteFile(p, []byte(content), 0644))
			must(os.WriteFile(filepath.Join(dir, "band_9.js"), []byte(content), 0644))
		}
		check("bystander", v, dir, obj{"files": names, "content": content})
		os.RemoveAll(dir)
	})
	// paths
	sym := []string{"a", "B", " ", "*", "?", "[", "]", "[a]", "[^a]", "\\", "{", "}", "~", "$", "%", "'", "\"", "#", "-", ".", "ü", "✓", ",", ";", ":", "=", "+", "!", "(", "&", "|", "<", "\n", "\t", "$HOME", "%20"}
	max := 2
	if c.Thorough {
		max = 3
	}
	var names []string
	var rec func(p string, n int)
	rec = func(p string, n int) {
		if p != "" && p != "." && p != ".." {
			names = append(names, p)
		}
		if n < max {
			for _, s := range sym {
				rec(p+s, n+1)
			}
		}
	}
	rec("", 0)
	v := mk(items(3))
	other := &VVault{Password: "pw", Seed: "c04", Keys: base.Keys, Salt: base.Salt, Iter: 1, Items: []VItem{simpleItem(500, "001", "sibling", false, 0), simpleItem(501, "001", "sibling2", false, 7)}}
	must(os.Chdir(c.Scratch))
	tmplV, tmplO := filepath.Join(c.Scratch, "tmplV"), filepath.Join(c.Scratch, "tmplO")
	v.write(tmplV)
	other.write(tmplO)
	for w := 0; w < NCPU; w++ {
		root := filepath.Join(c.Scratch, fmt.Sprintf("p%d", w))
		for _, sib := range []string{"a", "b", "aa", "ab", "ba", "B", "aB", "Ba"} {
			for _, sub := range []string{"v", "w"} {
				must(os.MkdirAll(filepath.Join(root, sub, sib, "inner"), 0755))
				must(os.Symlink(filepath.Join(tmplO, "default"), filepath.Join(root, sub, sib, "default")))
				must(os.Symlink(filepath.Join(tmplO, "default"), filepath.Join(root, sub, sib, "inner", "default")))
			}
		}
	}
	c.Par(len(names), func(w, i int) {
		n := names[i]
		rel := fmt.Sprintf("p%d", w)
		root := filepath.Join(c.Scratch, rel)
		d := root + "/v/" + n
		existed := false
		if _, err := os.Lstat(d); err == nil {
			existed = true
		}
		if existed {
			return
		}
		must(os.Mkdir(d, 0755))
		must(os.Mkdir(d+"/default", 0755))
		fs, _ := os.ReadDir(tmplV + "/default")
		for _, e := range fs {
			must(os.Link(tmplV+"/default/"+e.Name(), d+"/default/"+e.Name()))
		}
		pd := root + "/w/" + n
		must(os.Mkdir(pd, 0755))
		must(os.Mkdir(pd+"/inner", 0755))
		must(os.Symlink(tmplV+"/default", pd+"/inner/default"))
		must(os.Symlink(d, root+"/l"+n))
		for _, p := range []string{d, d + "/", rel + "/v/" + n, "./" + rel + "/v/" + n + "/.", d + "/default/..", pd + "/inner", root + "/l" + n} {
			check("path", v, p, obj{"name": n, "path": p})
		}
		os.Remove(root + "/l" + n)
		os.RemoveAll(d)
		os.RemoveAll(pd)
		if i%2000 == 5 {
			c.Sample(obj{"name": n})
		}
	})
}

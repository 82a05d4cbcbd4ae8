package main

import (
	"fmt"
	"path/filepath"
	"sort"
	"strings"

	"github.com/mashmb/1pass/1pass-core/core/domain"
)

func init() { checks["C05"] = c05 }

func strp(s string) *string { return &s }

// refList: what a list query must show, as sets of equal (category, title) groups in order.
func refList(items []VItem, code, filter string, trashed bool) []*RItem {
	var r []*RItem
	for i := range items {
		it := refItem(&items[i])
		if it == nil || it.Trashed != trashed || (code != "" && it.Code != code) || !strings.Contains(strings.ToLower(it.Title), strings.ToLower(filter)) {
			continue
		}
		r = append(r, it)
	}
	sort.SliceStable(r, func(i, j int) bool {
		if r[i].Code != r[j].Code {
			return r[i].Code < r[j].Code
		}
		return r[i].Title < r[j].Title
	})
	return r
}

type entry struct{ Uid, Code, Title string }

// sameList: same entries in the same order, where entries with equal category and title may
// come in any order.
func sameList(want []*RItem, got []entry) bool {
	if len(want) != len(got) {
		return false
	}
	seen := map[string]int{}
	for i, g := range got {
		if g.Code != want[i].Code || g.Title != want[i].Title {
			return false
		}
		seen[g.Uid+"/"+g.Code+"/"+g.Title]++
	}
	for _, w := range want {
		if seen[w.Uid+"/"+w.Code+"/"+w.Title] != 1 {
			return false
		}
	}
	return true
}

func c05(c *Ctx) {
	c.Level = "exploration"
	c.Rule = "case = (vault, query): all vaults of up to 3 items out of 30 kinds (5 categories x 3 titles x trash state, and more titles) x all queries (no category and 6 categories, 14 title filters, both trash states), counts for all categories, lookups of every present and some absent UIDs in both trash states; and the list command on one vault with all 18 categories for all flag combinations. Non-trivial: the vault is not empty"
	c.Assume = []string{"entries with equal category and title may come in any order", "case folding is checked for letters whose upper and lower case are single runes"}
	noCfg := filepath.Join(c.Scratch, "nocfg")
	type kind struct {
		cat, title string
		tr         bool
	}
	var kinds []kind
	for _, cat := range []string{"001", "003", "111"} {
		for _, t := range []string{"alpha", "Beta", "bet"} {
			kinds = append(kinds, kind{cat, t, false}, kind{cat, t, true})
		}
	}
	kinds = append(kinds, kind{"001", "", false}, kind{"001", "", true}, kind{"110", "ÄÖÜ test", false}, kind{"002", "äöü", true}, kind{"005", "a b", false}, kind{"099", "ALPHA", false}, kind{"099", "x", true},
		kind{"100", "100%", false}, kind{"002", "Zed", false}, kind{"003", "aBc", false}, kind{"997", "alpha", false}, kind{"001", "Alpha", false})
	filters := []string{"", "a", "A", "alpha", "BETA", "et", "ä", "Ü", " ", "x", "0%", "zzz", "b", "alphabet", "*", "."}
	cats := []string{"", "001", "002", "003", "099", "111", "104"}
	var vaults [][]int
	vaults = append(vaults, nil)
	for i := range kinds {
		vaults = append(vaults, []int{i})
		for j := i; j < len(kinds); j++ {
			vaults = append(vaults, []int{i, j})
			for k := j; k < len(kinds); k++ {
				vaults = append(vaults, []int{i, j, k})
				if c.Thorough {
					for l := k; l < len(kinds); l++ {
						vaults = append(vaults, []int{i, j, k, l})
					}
				}
			}
		}
	}
	keys := &VVault{Password: "pw", Seed: "c05"}
	keys.prepare()
	query := func(w, n int, items []VItem) {
		v := &VVault{Password: "pw", Seed: "c05", Keys: keys.Keys, Salt: keys.Salt, Iter: 1, Items: items}
		dir := c.Dir(fmt.Sprintf("w%d", w))
		v.write(dir)
		f := newVaultFacade(noCfg)
		if out, err := openVault(f, dir, "pw"); out != "" || err != nil {
			c.Fail("open", items, "opening failed: %s %v", out, err)
			return
		}
		type lk struct {
			uid string
			tr  bool
		}
		refs := map[lk]*RItem{}
		for k := range items {
			if x := refItem(&items[k]); x != nil {
				refs[lk{x.Uid, x.Trashed}] = x
			}
		}
		filters, cats := filters, cats
		if len(items) > 8 { // the small vaults have all of them
			filters, cats = []string{"", "a", "BETA", "zzz", "1"}, []string{"", "001", "111"}
		}
		step := 1 + len(items)/40
		desc := func(x obj) obj { x["items"] = items; return x }
		if out := guard(func() {
			for _, tr := range []bool{false, true} {
				for _, code := range cats {
					var cat *domain.ItemCategory
					if code != "" {
						var err error
						cat, err = domain.ItemCategoryEnum.FromCode(code)
						if err != nil {
							c.Fail("category", obj{"code": code}, "category %s unknown", code)
							return
						}
					}
					for _, fl := range filters {
						c.Eval(1)
						if len(items) > 0 {
							c.Distinct(1)
						}
						var got []entry
						for _, s := range f.GetItems(cat, fl, tr) {
							if s.Trashed != tr {
								c.Fail("trash", desc(obj{"category": code, "filter": fl, "trashed": tr}), "entry of the other trash state")
							}
							got = append(got, entry{s.Uid, s.Category.GetCode(), s.Title})
						}
						want := refList(items, code, fl, tr)
						if !sameList(want, got) {
							c.Fail("list", desc(obj{"category": code, "filter": fl, "trashed": tr}), "category %q filter %q trashed %v: got %q, expected %d entries %s", code, fl, tr, got, len(want), rtitles(want))
						}
					}
				}
				for _, code := range append([]string{""}, categoryCodes()...) {
					var cat *domain.ItemCategory
					if code != "" {
						cat, _ = domain.ItemCategoryEnum.FromCode(code)
					}
					if g, e := f.CountItems(cat, tr), len(refList(items, code, "", tr)); g != e {
						c.Fail("count", desc(obj{"category": code, "trashed": tr}), "count of %q trashed %v is %d, expected %d", code, tr, g, e)
					}
				}
				for i := -1; i < len(items)+1; i++ {
					if i > 0 && i < len(items)-3 && i%step != 0 {
						continue
					}
					us := []string{"", "nope", strings.ToLower(uid(0)), uid(0)[:31], uid(0) + "0"}
					if i >= 0 {
						us = []string{uid(i)}
					}
					for _, u := range us {
						g := f.GetItem(u, tr)
						r := refs[lk{u, tr}]
						if r == nil && g != nil {
							c.Fail("lookup", desc(obj{"uid": u, "trashed": tr}), "lookup of %q trashed %v returned %q", u, tr, g.Title)
						} else if r != nil {
							if d := diffItem(r, g); d != "" {
								c.Fail("lookup", desc(obj{"uid": u, "trashed": tr}), "lookup of %q trashed %v: %s", u, tr, d)
							}
						}
					}
				}
			}
		}); out != "" {
			c.Fail("aborted", items, "query aborted: %s", out)
		}
		if n%997 == 3 {
			c.Sample(items)
		}
	}
	c.Par(len(vaults), func(w, n int) {
		var items []VItem
		for i, k := range vaults[n] {
			items = append(items, simpleItem(i, kinds[k].cat, kinds[k].title, kinds[k].tr, i))
		}
		query(w, n, items)
	})
	// large vaults: every kind many times
	sizes := []int{9, 10, 11, 32, 33, 49, 50, 51, 64, 65, 99, 100, 101, 127, 128, 129, 200, 255, 256, 257, 300, 500, 512, 513, 999, 1000, 1001, 1025}
	c.Par(len(sizes)*2, func(w, n int) {
		var items []VItem
		for i := 0; i < sizes[n/2]; i++ {
			k := kinds[i*7%len(kinds)]
			t := fmt.Sprintf("%s %d", k.title, i)
			if n%2 == 1 { // all in one entry
				k = kinds[0]
			}
			items = append(items, simpleItem(i, k.cat, t, k.tr, i%16))
		}
		query(w, n, items)
	})
	c.Extra("large_vaults", len(sizes)*2)
	c05cli(c)
}

func rtitles(r []*RItem) string {
	var s []string
	for _, x := range r {
		s = append(s, x.Code+"/"+x.Title)
	}
	return strings.Join(s, ", ")
}

// parseTable finds the rows of the list command: lines that hold a UID of the vault.
func parseTable(out string, items []VItem) (rows [][]string) {
	for _, l := range strings.Split(out, "\n") {
		for i := range items {
			if strings.Contains(l, items[i].Uid) {
				var cells []string
				for _, x := range strings.FieldsFunc(l, func(r rune) bool { return strings.ContainsRune("║│|┃", r) }) {
					cells = append(cells, strings.TrimSpace(x))
				}
				rows = append(rows, cells)
			}
		}
	}
	return
}

func c05cli(c *Ctx) {
	var items []VItem
	n := 0
	for _, code := range categoryCodes() {
		items = append(items, simpleItem(n, code, fmt.Sprintf("Entry of %s", code), false, n%16))
		n++
		if n%3 == 0 {
			items = append(items, simpleItem(100+n, code, "Alpha "+code, true, n%16), simpleItem(200+n, code, "alpha second", false, n%16))
		}
	}
	v := &VVault{Password: "pw", Seed: "c05cli", Items: items}
	dir := filepath.Join(c.Scratch, "clivault")
	v.write(dir)
	type q struct {
		cat    *string
		code   string // expected filter ("" none, "?" unknown)
		name   *string
		tr     int // 0 none, 1 -t, 2 --trashed
		long   bool
		dfltV  bool
		nofind string
	}
	var qs []q
	names := []*string{nil, strp(""), strp("ALPHA"), strp("alpha"), strp("Entry of 00"), strp("zzz"), strp(" second ")}
	var catq []q
	catq = append(catq, q{}, q{cat: strp("")}, q{cat: strp("nonsense"), code: "?"}, q{cat: strp("Logi"), code: "?"}, q{cat: strp("001"), code: "?"})
	for _, code := range categoryCodes() {
		nm := categoryNames[code]
		for _, x := range []string{nm, strings.ToLower(nm), strings.ToUpper(nm), " " + nm + " "} {
			catq = append(catq, q{cat: strp(x), code: code})
		}
	}
	for i, cq := range catq {
		for j, nm := range names {
			for tr := 0; tr < 2; tr++ {
				x := cq
				x.name = nm
				x.tr = tr
				if tr == 1 && (i+j)%2 == 0 {
					x.tr = 2
				}
				x.long = (i+j+tr)%2 == 1
				x.dfltV = (i+j)%3 == 0
				qs = append(qs, x)
			}
		}
	}
	roots := make([]*Root, NCPU)
	for w := range roots {
		roots[w] = c.NewRoot(fmt.Sprintf("r%d", w))
		roots[w].Config(cfgText(dir, 1, 1, false))
	}
	c.Par(len(qs), func(w, i int) {
		x := qs[i]
		args := []string{"list"}
		fl := func(s, l, val string) {
			if x.long {
				args = append(args, "--"+l+"="+val)
			} else {
				args = append(args, "-"+s, val)
			}
		}
		if !x.dfltV {
			fl("v", "vault", dir)
		}
		if x.cat != nil {
			fl("c", "category", *x.cat)
		}
		if x.name != nil {
			fl("n", "name", *x.name)
		}
		if x.tr == 1 {
			args = append(args, "-t")
		} else if x.tr == 2 {
			args = append(args, "--trashed")
		}
		c.Eval(1)
		c.Distinct(1)
		r := roots[w].Exec(Run{Args: args, Pass: strp("pw")})
		rows := parseTable(r.Out, items)
		bad := func(key, f string, a ...any) {
			c.Fail("cli-"+key, obj{"args": args, "out": r.Out, "err": r.Err}, "%v: %s", args, fmt.Sprintf(f, a...))
		}
		if r.Timeout || r.Panicked() || r.Killed {
			bad("crash", "crashed or hung: %s", r.Err)
			return
		}
		if x.code == "?" {
			if r.Code == 0 || len(rows) > 0 || !strings.Contains(r.All(), "unknown item category") {
				bad("unknown", "unknown category: exit %d, output %q", r.Code, r.Out)
			}
			return
		}
		filter := ""
		if x.name != nil {
			filter = strings.TrimSpace(*x.name)
		}
		want := refList(items, x.code, filter, x.tr != 0)
		if r.Code != 0 {
			bad("code", "exit status %d: %s%s", r.Code, r.Out, r.Err)
			return
		}
		if len(want) == 0 {
			if len(rows) != 0 || !strings.Contains(r.Out, "No results") {
				bad("empty", "expected no results, got %q", r.Out)
			}
			return
		}
		var got []entry
		for _, row := range rows {
			e := entry{}
			for k, cell := range row {
				for code, n := range categoryNames {
					if cell == n && e.Code == "" && k > 0 {
						e.Code = code
					}
				}
				for i := range items {
					if cell == items[i].Uid {
						e.Uid = cell
					}
				}
			}
			if len(row) > 0 {
				e.Title = row[len(row)-1]
			}
			got = append(got, e)
		}
		if !sameList(want, got) {
			bad("list", "got %q, expected %s", got, rtitles(want))
		}
		if strings.Contains(r.Out, "No results") {
			bad("list", "reports no results beside results")
		}
	})
	c.Extra("cli_runs", len(qs))
}

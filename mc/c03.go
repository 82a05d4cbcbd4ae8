package main

import (
	"fmt"
	"path/filepath"
	"strings"
)

func init() { checks["C03"] = c03 }

type obj = map[string]any

// shapes of section fields, form fields, sections
func sectionFieldKinds(thorough bool) []obj {
	var r []obj
	n := 0
	lab := func() string { n++; return fmt.Sprintf("field %d", n) }
	add := func(k string, v any) { r = append(r, obj{"k": k, "t": lab(), "n": "n", "v": v}) }
	for _, k := range []string{"string", "concealed", "URL", "phone", "email", "gender", "menu", "cctype", "reference", "x-unknown"} {
		add(k, "value of "+k)
	}
	add("string", "line1\nline2\ttab <&> \"quoted\" \\ ünï ✓")
	add("concealed", " spaces ")
	add("string", "1234567890")
	dates := []int64{0, 1, 86399, 86400, 999999, 1000000, 9999999, 10000000, 123456789, 946684800, 999999999, 1000000000, 1315224000, 1375300800, 2147483647, 2147483648, 4102444800, 253402300799, -1, -86400, -1000000, -315619200}
	for _, d := range dates {
		add("date", d)
	}
	for _, m := range []int64{201801, 201812, 199912, 209912, 2018, 0, 1999} {
		add("monthYear", m)
	}
	add("address", obj{"street": "1 Main St", "city": "Springfield", "zip": "12345", "state": "OR", "country": "us"})
	add("address", obj{"street": "two\nlines ", "city": ""})
	add("address", obj{"city": "X"})
	r = append(r, obj{"k": "string", "t": "no value", "n": "n"}, obj{"k": "date", "t": "no date", "n": "n"}, obj{"k": "address", "t": "no address", "n": "n"},
		obj{"k": "string", "t": "null", "n": "n", "v": nil}, obj{"k": "concealed", "t": "", "n": "n", "v": "unnamed"},
		obj{"k": "string", "t": "with attrs", "n": "n", "v": "v", "a": obj{"guarded": "yes", "multiline": "yes"}, "inputTraits": obj{"keyboard": "NumberPad"}})
	return r
}

func formFieldKinds() []obj {
	return []obj{
		{"type": "T", "name": "username", "value": "wendy", "designation": "username"},
		{"type": "P", "name": "password", "value": "pa ss\nword ✓ <&>", "designation": "password", "id": "x"},
		{"type": "E", "name": "email", "value": ""},
		{"type": "T", "name": "", "value": "nameless"},
		{"type": "T", "value": "no name key"},
		{"type": "C", "name": "remember"},
		{"type": "I", "name": "submit", "value": "Log in"},
	}
}

func c03(c *Ctx) {
	c.Level = "exploration"
	c.Rule = "case = one item document, compared field by field with an independent reference decoder. Details: all lists of up to 2 login form fields x all lists of sections (one section with up to 2 fields of every kind pair and every title form, and all lists of up to 3 section kinds); overview: all combinations of title, URL, notes, category, trash flag and times. Non-trivial: a document that stores at least one value"
	c.Assume = []string{"dates are rendered in UTC (the check sets TZ=UTC)", "field and section names are compared regardless of case (they are shown capitalised)", "fields carry the keys 1Password always writes (k, t)"}
	fk := sectionFieldKinds(c.Thorough)
	forms := [][]any{nil, {}}
	ff := formFieldKinds()
	for _, a := range ff {
		forms = append(forms, []any{a})
	}
	for _, a := range ff {
		for _, b := range ff {
			forms = append(forms, []any{a, b})
		}
	}
	titles := []any{nil, "", "main section", "Ünï & <b>"}
	mk := func(t any, fields any) obj {
		s := obj{"name": "sec"}
		if t != nil {
			s["title"] = t
		}
		if fields != nil {
			s["fields"] = fields
		}
		return s
	}
	var singles []any // single-section shapes
	for _, t := range titles {
		singles = append(singles, mk(t, nil), mk(t, []any{}))
		for _, f := range fk {
			singles = append(singles, mk(t, []any{f}))
		}
	}
	var pairs []any
	for i, a := range fk {
		for j, b := range fk {
			t := titles[(i+j)%len(titles)]
			pairs = append(pairs, mk(t, []any{a, b}))
		}
	}
	small := []any{mk(nil, nil), mk("", []any{}), mk("empty one", []any{}), mk("novalue", []any{obj{"k": "string", "t": "x", "n": "n"}}),
		mk("A", []any{fk[0]}), mk("", []any{fk[1], fk[13]}), mk(nil, []any{fk[20]}), mk("B", []any{fk[len(fk)-9], fk[2], fk[3]})}
	var secLists [][]any
	secLists = append(secLists, nil, []any{})
	for _, s := range singles {
		secLists = append(secLists, []any{s})
	}
	var wide [][]any
	for _, s := range pairs {
		wide = append(wide, []any{s})
	}
	for _, a := range small {
		for _, b := range small {
			wide = append(wide, []any{a, b})
			for _, d := range small {
				wide = append(wide, []any{a, b, d})
			}
		}
	}
	codes := categoryCodes()
	var items []VItem
	add := func(cat string, tr any, ov, det obj, cr, up int64) {
		items = append(items, VItem{Uid: uid(len(items)), Category: cat, Trashed: tr, Overview: ov, Details: det, Created: cr, Updated: up, Band: len(items) % 16})
	}
	det := func(form []any, secs []any, notes any) obj {
		d := obj{}
		if form != nil {
			d["fields"] = form
		}
		if secs != nil {
			d["sections"] = secs
		}
		if notes != nil {
			d["notesPlain"] = notes
		}
		return d
	}
	n := 0
	for _, f := range forms {
		for _, s := range secLists {
			n++
			add(codes[n%len(codes)], nil, obj{"title": "T"}, det(f, s, nil), 1, 2)
		}
	}
	fsub := forms
	if !c.Thorough {
		fsub = [][]any{nil, {}, {ff[0]}, {ff[2]}, {ff[0], ff[1]}}
	}
	for _, f := range fsub {
		for i, s := range wide {
			var notes any
			if i%3 == 1 {
				notes = "note"
			} else if i%3 == 2 {
				notes = ""
			}
			add("001", nil, obj{"title": "T"}, det(f, s, notes), 1, 2)
		}
	}
	tl := []any{nil, "", "Title", "Ünï ✓ <&> \"q\" \\", strings.Repeat("long ", 60), "two\nlines", "null", " ", " both ends ", "trailing\n", "\ttab", "a  b"}
	ul := []any{nil, "", "https://example.org/?a=1&b=<2>#x", "not a url", "https://example.org/", " https://spaced.example ", "HTTP://UPPER.example/%41?q=a+b%20c"}
	nl := []any{nil, "", "note", "multi\nline\r\n\ttext ünï", " both ends \n", "\n\nempty lines\n\n\n", " ", strings.Repeat("x", 3000)}
	dl := []obj{{}, {"fields": []any{ff[0]}}, {"sections": []any{small[4]}}, {"fields": []any{ff[0]}, "sections": []any{small[4]}}}
	times := [][2]int64{{0, 0}, {1325483949, 1370323483}, {4102444800, 253402300799}, {1, 2147483648}}
	k := 0
	for _, cat := range append(codes, "200", "", "1", "001 ") {
		for _, tr := range []any{nil, false, true} {
			for _, t := range tl {
				for _, u := range ul {
					for _, no := range nl {
						k++
						ov := obj{"ps": 0, "tags": []any{"x"}}
						if t != nil {
							ov["title"] = t
						}
						if u != nil {
							ov["url"] = u
							ov["URLs"] = []any{obj{"u": "http://other"}}
						}
						d := obj{}
						for a, b := range dl[k%len(dl)] {
							d[a] = b
						}
						if no != nil {
							d["notesPlain"] = no
						}
						add(cat, tr, ov, d, times[k%4][0], times[k%4][1])
						switch k % 5 {
						case 1:
							items[len(items)-1].Extra = obj{"fave": 1234567}
						case 2:
							items[len(items)-1].Extra = obj{"folder": uid(3), "fave": 0}
						}
					}
				}
			}
		}
	}
	// names that occur in practice, with every kind of field and every form field type
	vals := []string{"v", " ", "0", "true", "null", "<NO TITLE>", "**********", strings.Repeat("long value ", 2000), "a\rb", "%s %d %v", "{\"a\":1}", "\u0000", "🔑"}
	for li, l := range labels() {
		var fl, gl []any
		for ki, kd := range []string{"string", "concealed", "URL", "email", "phone", "menu", "gender", "cctype", "reference", "STRING", "Concealed"} {
			fl = append(fl, obj{"k": kd, "t": l, "n": l, "v": vals[(li+ki)%len(vals)]})
			add(codes[li%len(codes)], nil, obj{"title": l}, obj{"sections": []any{mk(l, []any{obj{"k": kd, "t": l, "n": l, "v": vals[(li+ki)%len(vals)]}})}, "notesPlain": l}, 1, 2)
		}
		for ti, ty := range []string{"T", "P", "E", "U", "N", "TEL", "C", "I", "A", "", "B"} {
			f := obj{"type": ty, "name": l, "value": vals[(li+ti)%len(vals)], "designation": l, "id": l}
			gl = append(gl, f)
			add(codes[(li+ti)%len(codes)], nil, obj{"title": l, "url": l}, obj{"fields": []any{f}}, 1, 2)
		}
		add(codes[li%len(codes)], nil, obj{"title": l}, obj{"fields": gl, "sections": []any{mk(l, fl), mk("", gl[:0]), mk("Other", append(append([]any{}, fl...), fl...))}, "notesPlain": l}, 1, 2)
	}
	// the same name or value several times, and many of everything
	for _, n := range []int{3, 9, 10, 11, 31, 64, 100} {
		var gl, sl []any
		for i := 0; i < n; i++ {
			gl = append(gl, obj{"type": "T", "name": "n", "value": fmt.Sprint(i % 2)})
			var fl []any
			for j := 0; j < n; j++ {
				fl = append(fl, obj{"k": "string", "t": "t", "n": "n", "v": fmt.Sprint(j % 2)})
			}
			sl = append(sl, mk([]any{nil, "same", "same", ""}[i%4], fl))
		}
		add("001", nil, obj{"title": "many"}, obj{"fields": gl, "sections": sl}, 1, 2)
	}
	const per = 250
	nb := (len(items) + per - 1) / per
	noCfg := filepath.Join(c.Scratch, "nocfg")
	keys := &VVault{Password: "pw", Seed: "c03"}
	keys.prepare()
	var one func(w int, its []VItem)
	one = func(w int, its []VItem) {
		v := &VVault{Password: "pw", Seed: "c03", Items: its, Keys: keys.Keys, Salt: keys.Salt, Iter: 1}
		dir := c.Dir(fmt.Sprintf("w%d", w))
		v.write(dir)
		f := newVaultFacade(noCfg)
		out, err := openVault(f, dir, "pw")
		if out != "" || err != nil {
			if len(its) == 1 {
				c.Fail("open-failed", its[0], "opening the vault failed: %s %v", out, err)
				return
			}
			if c.NFail() < 20 {
				one(w, its[:len(its)/2])
				one(w, its[len(its)/2:])
			} else {
				c.Fail("open-failed", nil, "opening the vault failed: %s %v", out, err)
			}
			return
		}
		for i := range its {
			r := refItem(&its[i])
			if r == nil {
				if f.GetItem(its[i].Uid, false) != nil || f.GetItem(its[i].Uid, true) != nil {
					c.Fail("unknown-category", its[i], "item of unknown category shown")
				}
				continue
			}
			var d string
			if o := guard(func() { d = diffItem(r, f.GetItem(r.Uid, r.Trashed)) }); o != "" {
				d = o
			}
			if d != "" {
				c.Fail("item-differs", its[i], "%s", d)
			}
		}
	}
	c.Par(nb, func(w, b int) {
		hi := (b + 1) * per
		if hi > len(items) {
			hi = len(items)
		}
		its := items[b*per : hi]
		c.Eval(len(its))
		for i := range its {
			if r := refItem(&its[i]); r != nil && (r.Title != "" || r.Url != "" || r.Notes != "" || len(r.Sections) > 0) {
				c.Distinct(1)
			}
		}
		one(w, its)
		if b%40 == 0 {
			c.Sample(its[0])
		}
	})
}

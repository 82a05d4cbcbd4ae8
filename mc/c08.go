package main

import (
	"fmt"
	"path/filepath"
	"strings"
	"time"
)

func init() { checks["C08"] = c08 }

// tokens hands out texts that occur nowhere else.
type tokens struct {
	n    int
	vals []string
}

func (t *tokens) next(p string) string { t.n++; return fmt.Sprintf("%sq%dz", p, t.n) }

// tokenItem builds an item whose every text is unique. secret: texts that only details may
// show; open: texts both show.
type tokenItem struct {
	VItem
	secret, open []string
	pairs        [][2]string // field name, first line of value
	exact        []string    // values and notes with all blanks and line ends
}

func tokenItems(thorough bool) []tokenItem {
	var r []tokenItem
	t := &tokens{}
	kinds := []string{"string", "concealed", "URL", "phone", "email", "menu", "date", "monthYear", "address", "other"}
	secShapes := [][][]string{nil, {{}}, {{"concealed"}}, {{"string", "address"}}, {{"date", "monthYear", "concealed"}, {"URL", "other"}}, {kinds}, {{"novalue"}, {"concealed"}}, {{"concealed", "concealed", "concealed"}}}
	formShapes := [][]string{nil, {"P"}, {"T", "P"}, {"T", "P", "novalue", "noname"}}
	noteShapes := []int{0, 1, 3}
	day := int64(86400)
	codes := categoryCodes()
	for fi, fs := range formShapes {
		for si, ss := range secShapes {
			for _, nl := range noteShapes {
				if !thorough && nl == 1 && (fi+si)%2 == 0 {
					continue
				}
				k := len(r)
				var it tokenItem
				it.Uid = uid(1000 + k)
				it.Category = codes[k%len(codes)]
				it.Trashed = k%3 == 1
				it.Created, it.Updated = int64(1300000000+k*100003), int64(1400000000+k*100003)
				it.Band = k % 16
				ov := obj{"title": t.next("Title")}
				it.open = append(it.open, ov["title"].(string), categoryNames[it.Category], time.Unix(it.Created, 0).UTC().Format("2006-01-02 15:04:05"), time.Unix(it.Updated, 0).UTC().Format("2006-01-02 15:04:05"))
				if k%2 == 0 {
					ov["url"] = "https://" + t.next("url") + ".example/"
					it.open = append(it.open, ov["url"].(string))
				}
				ov["ainfo"] = t.next("Ainfo")
				det := obj{}
				if fs != nil {
					var l []any
					for _, f := range fs {
						n, v := t.next("Form"), t.next("formval")
						switch f {
						case "novalue":
							l = append(l, obj{"name": n, "value": "", "type": "T"})
						case "noname":
							l = append(l, obj{"name": "", "value": v, "type": "T"})
						default:
							l = append(l, obj{"name": n, "value": v, "type": f})
							it.open = append(it.open, n)
							it.secret = append(it.secret, v)
							it.pairs = append(it.pairs, [2]string{n, v})
						}
					}
					det["fields"] = l
				}
				if ss != nil {
					var l []any
					for sn, s := range ss {
						m := obj{"name": "internal"}
						if sn != 1 || k%2 == 0 {
							m["title"] = t.next("Section")
							if len(s) > 0 {
								it.open = append(it.open, m["title"].(string))
							}
						}
						var fl []any
						for _, kd := range s {
							n := t.next("Field")
							f := obj{"k": kd, "t": n, "n": "x"}
							switch kd {
							case "novalue":
								f["k"] = "string"
								fl = append(fl, f)
								continue
							case "date":
								d := int64(40000+t.n) * day
								f["v"] = d
								s := time.Unix(d, 0).UTC().Format("2006-01-02")
								it.secret = append(it.secret, s)
								it.pairs = append(it.pairs, [2]string{n, s})
							case "monthYear":
								t.n++
								y := 3000 + t.n
								f["v"] = y*100 + 7
								it.secret = append(it.secret, fmt.Sprintf("%d-07", y))
								it.pairs = append(it.pairs, [2]string{n, fmt.Sprintf("%d-07", y)})
							case "address":
								a, b := t.next("street"), t.next("town")
								f["v"] = obj{"street": a, "city": b}
								it.secret = append(it.secret, a, b)
								it.pairs = append(it.pairs, [2]string{n, ""})
							default:
								v := t.next("val")
								if kd == "concealed" {
									v += " %s\twith &<> " + t.next("tail")
								}
								f["v"] = v
								it.secret = append(it.secret, v)
								it.pairs = append(it.pairs, [2]string{n, v})
							}
							it.open = append(it.open, n)
							fl = append(fl, f)
						}
						if fl == nil {
							fl = []any{}
						}
						m["fields"] = fl
						l = append(l, m)
					}
					det["sections"] = l
				}
				if nl > 0 {
					var ls []string
					for i := 0; i < nl; i++ {
						x := t.next("noteline")
						ls = append(ls, x)
						it.secret = append(it.secret, x)
					}
					det["notesPlain"] = strings.Join(ls, "\n")
				}
				it.Overview, it.Details = ov, det
				r = append(r, it)
			}
		}
	}
	// names of fields and sections as 1Password and web forms write them, with every kind of field
	for _, kd := range []string{"string", "concealed", "URL", "email", "phone", "menu", "form"} {
		for gi, group := range labelGroups() {
			var it tokenItem
			k := len(r)
			it.Uid, it.Category, it.Band, it.Created, it.Updated = uid(1000+k), codes[k%len(codes)], k%16, int64(1300000000+k*100003), int64(1400000000+k*100003)
			ov := obj{"title": t.next("Title")}
			it.open = append(it.open, ov["title"].(string))
			var fl []any
			for _, l := range group {
				v := t.next("labv")
				it.secret = append(it.secret, v)
				it.pairs = append(it.pairs, [2]string{l, v})
				if kd == "form" {
					fl = append(fl, obj{"name": l, "value": v, "type": []string{"T", "P", "E", "U", "N", "TEL", "C", "I"}[len(fl)%8], "designation": l})
				} else {
					fl = append(fl, obj{"k": kd, "t": l, "n": l, "v": v})
				}
			}
			x := t.next("noteline")
			it.secret = append(it.secret, x)
			it.Overview = ov
			if kd == "form" {
				it.Details = obj{"fields": fl, "notesPlain": x}
			} else {
				it.Details = obj{"sections": []any{obj{"name": "linked items", "title": []string{"Related Items", "Extras", "Misc", "More"}[gi%4], "fields": fl}}, "notesPlain": x}
			}
			r = append(r, it)
		}
	}
	// sizes: numbers of sections and of fields, lengths of values and notes, blanks and line ends, empty names
	add := func(det obj, f func(it *tokenItem)) {
		var it tokenItem
		k := len(r)
		it.Uid, it.Category, it.Band, it.Created, it.Updated = uid(1000+k), codes[k%len(codes)], k%16, int64(1300000000+k*100003), int64(1400000000+k*100003)
		it.Trashed = k%3 == 1
		it.Overview, it.Details = obj{"title": t.next("Title")}, det
		it.open = []string{it.Overview.(obj)["title"].(string)}
		f(&it)
		r = append(r, it)
	}
	for _, ns := range []int{0, 1, 2, 3, 4, 5, 6, 8, 11, 20} {
		for _, nf := range []int{1, 2, 3, 5, 10, 11, 20, 21, 33, 64} {
			if ns > 4 && nf > 5 {
				continue
			}
			for _, form := range []bool{false, true} {
				if form && ns > 3 || ns == 0 && !form {
					continue
				}
				det := obj{}
				add(det, func(it *tokenItem) {
					var secs []any
					if form {
						var fl []any
						for i := 0; i < nf; i++ {
							n, v := t.next("Form"), t.next("formval")
							fl = append(fl, obj{"name": n, "value": v, "type": "T"})
							it.open, it.secret, it.pairs = append(it.open, n), append(it.secret, v), append(it.pairs, [2]string{n, v})
						}
						det["fields"] = fl
					}
					for k := 0; k < ns; k++ {
						var fl []any
						for i := 0; i < nf; i++ {
							n, v := t.next("Field"), t.next("val")
							fl = append(fl, obj{"k": []string{"string", "concealed"}[i%2], "t": n, "n": "x", "v": v})
							it.open, it.secret, it.pairs = append(it.open, n), append(it.secret, v), append(it.pairs, [2]string{n, v})
						}
						secs = append(secs, obj{"name": "x", "title": t.next("Section"), "fields": fl})
					}
					if ns > 0 {
						det["sections"] = secs
					}
					x := t.next("noteline")
					det["notesPlain"] = x
					it.secret = append(it.secret, x)
				})
			}
		}
	}
	for _, kd := range []string{"string", "concealed", "URL", "email", "phone", "menu"} {
		det := obj{}
		add(det, func(it *tokenItem) { // fields without a name, alone and between others
			a, b, d := t.next("unnamed"), t.next("val"), t.next("unnamed")
			n := t.next("Field")
			det["sections"] = []any{obj{"name": "x", "title": "", "fields": []any{obj{"k": kd, "t": "", "n": "x", "v": a}}}, obj{"name": "y", "title": t.next("Section"), "fields": []any{obj{"k": kd, "t": n, "n": "x", "v": b}, obj{"k": kd, "t": "", "n": "x", "v": d}}}}
			it.secret = append(it.secret, a, b, d)
			it.open, it.pairs = append(it.open, n), append(it.pairs, [2]string{n, b})
		})
	}
	for _, l := range []int{60, 79, 80, 81, 127, 128, 129, 255, 256, 257, 500, 1000, 1024, 4096, 10000} {
		det := obj{}
		add(det, func(it *tokenItem) {
			n, v, x := t.next("Field"), t.next("long")+strings.Repeat("k", l)+t.next("tail"), t.next("noteline")+strings.Repeat("m", l)+t.next("tail")
			n2, v2 := t.next("Form"), t.next("long")+strings.Repeat("w ", l/2)+t.next("tail")
			det["sections"] = []any{obj{"name": "x", "title": t.next("Section"), "fields": []any{obj{"k": "concealed", "t": n, "n": "x", "v": v}}}}
			det["fields"] = []any{obj{"name": n2, "value": v2, "type": "P"}}
			det["notesPlain"] = x
			it.secret = append(it.secret, v, v2, x)
			it.open, it.pairs = append(it.open, n, n2), append(it.pairs, [2]string{n2, v2}, [2]string{n, v})
		})
	}
	for _, f := range []string{"  %s", "%s  ", "\n%s", "%s\n\n", "\n\n %s\n\n\n  %s\n", "\t%s\t", "%s\r\n%s", "%s\r%s", "%s %%s %%d %%%% %s", "%s\\n%s", "%s\"%s\"", "<b>%s</b>&amp;%s", "%s ✓ü😀 %s", "- %s\n- %s", "# %s\n---\n%s", "%s\n\n\n\n\n%s"} {
		det := obj{}
		fill := func(it *tokenItem, p string) string {
			x := f
			for strings.Contains(strings.ReplaceAll(x, "%%s", ""), "%s") {
				i := strings.Index(x, "%s")
				if i > 0 && x[i-1] == '%' {
					break
				}
				y := t.next(p)
				it.secret = append(it.secret, y)
				x = strings.Replace(x, "%s", y, 1)
			}
			x = strings.ReplaceAll(x, "%%", "%")
			it.exact = append(it.exact, x)
			return x
		}
		add(det, func(it *tokenItem) {
			n, n2 := t.next("Field"), t.next("Form")
			det["fields"] = []any{obj{"name": n2, "value": fill(it, "val"), "type": "P"}}
			det["sections"] = []any{obj{"name": "x", "title": t.next("Section"), "fields": []any{obj{"k": "concealed", "t": n, "n": "x", "v": fill(it, "val")}}}}
			det["notesPlain"] = fill(it, "noteline")
			it.open = append(it.open, n, n2)
		})
		det2 := obj{}
		add(det2, func(it *tokenItem) { det2["notesPlain"] = fill(it, "noteline") })
	}
	return r
}

func labelGroups() [][]string {
	var r [][]string
	l := labels()
	for len(l) > 0 {
		n := min(12, len(l))
		r = append(r, l[:n])
		l = l[n:]
	}
	return r
}

// labels: field names that occur in practice.
func labels() []string {
	return []string{"username", "password", "email", "e-mail", "url", "URL", "website", "login", "user", "pass", "pin", "PIN", "phone", "telephone", "number", "account number", "cvv", "verification number",
		"expiry date", "valid from", "cardholder name", "type", "name", "first name", "last name", "initial", "sex", "birth date", "occupation", "company", "department", "job title", "address", "default phone",
		"hint", "note", "notes", "notesPlain", "title", "comment", "description", "one-time password", "TOTP", "totp", "secret", "secret question", "answer", "reminder question", "token", "key", "license key", "version", "licensed to",
		"server", "hostname", "port", "database", "SID", "alias", "console password", "admin console username", "base station name", "wireless security", "bank name", "routing number", "SWIFT", "IBAN",
		"id", "uuid", "trashed", "updated", "created", "category", "section", "x", "ключ", "пароль", "密码", "a:b", "field: with colon", "**********", "100% sure", "%s", "%v %d"}
}

func containsFold(s, x string) bool { return strings.Contains(strings.ToLower(s), strings.ToLower(x)) }

func c08(c *Ctx) {
	c.Level = "exploration"
	c.Rule = "case = one run of the application as a process with a terminal: every item of a vault with all shapes of form fields, sections, value kinds and notes x {overview, details} x {right, wrong trash state} x {right, wrong, empty password}, and absent UIDs; overviews of items differing only in values and notes are compared. Every text of every item is unique, so any text on any output is attributed. Non-trivial: the item has at least one value or note, or the run must print nothing"
	c.Assume = []string{"field and section names may be shown capitalised", "nothing is typed before the password is asked for"}
	its := tokenItems(c.Thorough)
	v := &VVault{Password: "pw-RightOne_7", Seed: "c08"}
	for i := range its {
		v.Items = append(v.Items, its[i].VItem)
	}
	dir := filepath.Join(c.Scratch, "vault")
	v.write(dir)
	type job struct {
		i   int // -1: absent UID
		uid string
		cmd string
		tr  bool
		pw  string
	}
	var jobs []job
	wrong := []string{"pw-RightOne_8", "", "pw-RightOne_7 ", "PW-RIGHTONE_7"}
	for i := range its {
		for _, cmd := range []string{"overview", "details"} {
			tr := its[i].Trashed == true
			jobs = append(jobs, job{i, its[i].Uid, cmd, tr, v.Password}, job{-1, its[i].Uid, cmd, !tr, v.Password}, job{i, its[i].Uid, cmd, tr, wrong[i%len(wrong)]})
		}
	}
	for _, u := range []string{"nope", "0", strings.ToLower(its[0].Uid), its[0].Uid[:31], its[0].Uid + "A", "*"} {
		for _, cmd := range []string{"overview", "details"} {
			for _, tr := range []bool{false, true} {
				jobs = append(jobs, job{-1, u, cmd, tr, v.Password}, job{-1, u, cmd, tr, "x"})
			}
		}
	}
	roots := make([]*Root, NCPU)
	for w := range roots {
		roots[w] = c.NewRoot(fmt.Sprintf("r%d", w))
		roots[w].Config(cfgText(dir, 1, 1, false))
	}
	c.independent(its, roots)
	c.Par(len(jobs), func(w, k int) {
		j := jobs[k]
		args := []string{j.cmd}
		if k%2 == 0 {
			args = append(args, "-v", dir)
		}
		if j.tr {
			args = append(args, "-t")
		}
		args = append(args, j.uid)
		r := roots[w].Exec(Run{Args: args, Pass: &j.pw})
		c.Eval(1)
		if j.i < 0 || len(its[j.i].secret) > 0 {
			c.Distinct(1)
		}
		out := r.Out + r.Err + r.Echo
		bad := func(key, f string, a ...any) {
			c.Fail(key, obj{"args": args, "password": j.pw, "out": r.Out, "err": r.Err, "terminal": r.Echo}, "%v: %s", args, fmt.Sprintf(f, a...))
		}
		if r.Timeout || r.Panicked() || r.Killed {
			bad("crash", "crashed or hung: %s", r.Err)
			return
		}
		if j.pw != "" && strings.Contains(r.Echo+r.Err+r.Out, strings.TrimSpace(j.pw)) && len(j.pw) > 3 {
			bad("echo", "the typed password is visible: %q", out)
		}
		show := j.i >= 0 && j.pw == v.Password
		for i := range its {
			if show && i == j.i {
				continue
			}
			for _, s := range append(append([]string(nil), its[i].secret...), its[i].open...) {
				if !strings.Contains(s, "q") && !strings.Contains(s, "-") || categoryNames[its[i].Category] == s {
					continue
				}
				if containsFold(out, s) {
					bad("leak", "text %q of item %s is printed", s, its[i].Uid)
					return
				}
			}
		}
		if j.pw != v.Password {
			if r.Code == 0 || !strings.Contains(out, "invalid password") {
				bad("wrong-password", "wrong password: exit %d, output %q", r.Code, out)
			}
			return
		}
		if j.i < 0 {
			if strings.Contains(out, "Updated") || !containsFold(out, "do not exist") {
				bad("absent", "absent item: output %q", out)
			}
			return
		}
		it := its[j.i]
		if r.Code != 0 {
			bad("status", "exit status %d", r.Code)
		}
		pos := 0
		for _, s := range it.open {
			if !containsFold(r.Out, s) {
				bad("missing", "%q is not printed: %q", s, r.Out)
				return
			}
		}
		if !containsFold(r.Out, fmt.Sprintf("Trashed: %v", it.Trashed == true)) {
			bad("missing", "trash flag is not printed: %q", r.Out)
		}
		for _, s := range it.secret {
			if j.cmd == "overview" && containsFold(out, s) {
				bad("concealed", "overview prints the value %q", s)
				return
			}
			for _, part := range strings.Fields(s) {
				if j.cmd == "overview" && len(part) > 4 && containsFold(out, part) {
					bad("concealed", "overview prints %q of the value %q", part, s)
					return
				}
			}
			if j.cmd == "details" && !strings.Contains(r.Out, s) {
				bad("value-missing", "details do not print the value %q: %q", s, r.Out)
				return
			}
		}
		for _, s := range it.exact {
			if j.cmd == "details" && !strings.Contains(r.Out, s) {
				bad("inexact", "details do not print %q exactly: %q", s, r.Out)
				return
			}
		}
		// every field on its own line, in stored order, with its own value
		low := strings.ToLower(r.Out)
		for _, p := range it.pairs {
			i := strings.Index(low[pos:], strings.ToLower(p[0]))
			if i < 0 {
				bad("order", "field %q is missing or out of order: %q", p[0], r.Out)
				return
			}
			pos += i + len(p[0])
			line, _, _ := strings.Cut(r.Out[pos:], "\n")
			if j.cmd == "details" && p[1] != "" && !strings.Contains(line, strings.SplitN(p[1], "\n", 2)[0]) {
				bad("pairing", "field %q is not shown with its value %q: %q", p[0], p[1], line)
				return
			}
		}
		if n, _ := it.Details.(obj)["notesPlain"].(string); n != "" && j.cmd == "details" && !strings.Contains(r.Out, n) {
			bad("notes", "notes are not printed in full: %q", r.Out)
		}
		if k%200 == 1 {
			c.Sample(obj{"args": args, "out": r.Out})
		}
	})
}

// vary returns the details with every value and the notes replaced.
func vary(x any, str string, num int64) any {
	switch d := x.(type) {
	case obj:
		r := obj{}
		for k, v := range d {
			switch k {
			case "value", "v", "notesPlain":
				switch o := v.(type) {
				case string:
					if o != "" {
						v = str
					}
				case int, int64:
					v = num
				case obj:
					a := obj{}
					for q := range o {
						a[q] = str
					}
					if len(str)%2 == 1 {
						a["zip"] = str
					}
					v = a
				}
			default:
				v = vary(v, str, num)
			}
			r[k] = v
		}
		return r
	case []any:
		r := []any{}
		for _, v := range d {
			r = append(r, vary(v, str, num))
		}
		return r
	}
	return x
}

var variants = []struct {
	s string
	n int64
}{{"0", 0}, {"no", 86400}, {" ", 199912}, {"**********", 201001}, {"true", 1}, {"first line\nsecond line\n\nlast line", -86400}, {"ünïcødé ✓", 99999999999}, {strings.Repeat("long value ", 8), 12}, {strings.Repeat("k", 300), 4102444800}, {strings.Repeat("m", 5000), 209912},
	{"http://value.example/?a=b", 1234}, {"someone@value.example", 12345}, {"%s%d%v", 123456}, {"-----BEGIN KEY-----\r\nabc\r\n", 20}, {"{\"a\":1}", 7}, {"1234567890", 1234567890}}

// independent: the overview of items that differ only in values and notes is the same.
func (c *Ctx) independent(its []tokenItem, roots []*Root) {
	n := 0
	for n < len(its) && len(its[n].exact) == 0 && n < 60 {
		n++
	}
	if c.Thorough {
		n = len(its)
	}
	dirs := make([]string, len(variants))
	for k, x := range variants {
		v := &VVault{Password: "pw", Seed: "c08ind"}
		for _, it := range its[:n] {
			it.VItem.Details = vary(it.Details, x.s, x.n)
			v.Items = append(v.Items, it.VItem)
		}
		dirs[k] = filepath.Join(c.Scratch, fmt.Sprintf("ind%d", k))
		v.write(dirs[k])
	}
	pw := "pw"
	outs := make([]string, n*len(dirs))
	c.Par(len(outs), func(w, k int) {
		it := its[k/len(dirs)]
		args := []string{"overview", "-v", dirs[k%len(dirs)], it.Uid}
		if it.Trashed == true {
			args = append(args, "-t")
		}
		r := roots[w].Exec(Run{Args: args, Pass: &pw})
		c.Eval(1)
		c.Distinct(1)
		outs[k] = fmt.Sprintf("exit %d\n%s%s", r.Code, r.Out, r.Err)
	})
	for i := 0; i < n; i++ {
		for k := range dirs {
			if a, b := outs[i*len(dirs)], outs[i*len(dirs)+k]; a != b {
				c.Fail("depends", obj{"item": its[i].Uid, "value": clip(variants[k].s), "number": variants[k].n, "out": clip(b), "other": clip(a)}, "the overview depends on values or notes: with %q it is %q, with %q it is %q", variants[0].s, clip(a), clip(variants[k].s), clip(b))
				break
			}
		}
	}
	c.AddExtra("value_variants", len(variants))
}

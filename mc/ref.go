package main

import (
	"encoding/json"
	"fmt"
	"sort"
	"strings"
	"time"

	"github.com/mashmb/1pass/1pass-core/core/domain"
	"github.com/mashmb/1pass/1pass-core/core/facade"
)

// Reference model: what an item shows, computed from its plain documents (never from the
// code under test).

var categoryNames = map[string]string{"001": "Login", "002": "Credit Card", "003": "Secure Note", "004": "Identity", "005": "Password",
	"099": "Tombstone", "100": "Software License", "101": "Bank Account", "102": "Database", "103": "Driver License", "104": "Outdoor License",
	"105": "Membership", "106": "Passport", "107": "Rewards", "108": "SSN", "109": "Router", "110": "Server", "111": "Email"}

func categoryCodes() []string {
	var r []string
	for k := range categoryNames {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

type RField struct{ Name, Value string }
type RSection struct {
	Title  string
	Fields []RField
}
type RItem struct {
	Uid, Code, Title, Url, Notes string
	Created, Updated             int64
	Trashed                      bool
	Sections                     []RSection
}

func generic(x any) map[string]any {
	var m map[string]any
	d := json.NewDecoder(strings.NewReader(string(jsonDoc(x))))
	d.UseNumber()
	must(d.Decode(&m))
	return m
}

func str(x any) string {
	s, _ := x.(string)
	return s
}

func refItem(it *VItem) *RItem {
	if _, ok := categoryNames[it.Category]; !ok {
		return nil
	}
	r := &RItem{Uid: it.Uid, Code: it.Category, Created: it.Created, Updated: it.Updated, Trashed: it.Trashed == true}
	o, d := generic(it.Overview), generic(it.Details)
	r.Title, r.Url, r.Notes = str(o["title"]), str(o["url"]), str(d["notesPlain"])
	if fs, ok := d["fields"].([]any); ok {
		var s RSection
		for _, f := range fs {
			m := f.(map[string]any)
			n, v := str(m["name"]), str(m["value"])
			if n != "" && v != "" {
				s.Fields = append(s.Fields, RField{n, v})
			}
		}
		if len(s.Fields) > 0 {
			r.Sections = append(r.Sections, s)
		}
	}
	if ss, ok := d["sections"].([]any); ok {
		for _, x := range ss {
			m := x.(map[string]any)
			s := RSection{Title: str(m["title"])}
			fs, _ := m["fields"].([]any)
			for _, f := range fs {
				fm := f.(map[string]any)
				if fm["v"] == nil {
					continue
				}
				s.Fields = append(s.Fields, RField{str(fm["t"]), refValue(str(fm["k"]), fm["v"])})
			}
			if s.Title != "" || len(s.Fields) > 0 {
				r.Sections = append(r.Sections, s)
			}
		}
	}
	return r
}

func refValue(kind string, v any) string {
	switch strings.ToLower(kind) {
	case "date":
		n, err := v.(json.Number).Int64()
		must(err)
		return time.Unix(n, 0).UTC().Format("2006-01-02")
	case "monthyear":
		s := v.(json.Number).String()
		if len(s) > 4 {
			return s[:4] + "-" + s[4:]
		}
		return s
	case "address":
		m := v.(map[string]any)
		var ks []string
		for k := range m {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		out := ""
		for _, k := range ks {
			out += fmt.Sprintf("\n  %s: %s", k, strings.ReplaceAll(strings.TrimSpace(str(m[k])), "\n", " "))
		}
		return out
	}
	return v.(string)
}

// diffItem compares a presented item with the reference ("" = equal). Names and titles of
// fields and sections are shown capitalised, so their case is not compared.
func diffItem(r *RItem, it *domain.Item) string {
	if it == nil {
		return "item missing"
	}
	if it.Uid != r.Uid {
		return fmt.Sprintf("uid %q, expected %q", it.Uid, r.Uid)
	}
	if it.Category == nil || it.Category.GetCode() != r.Code || it.Category.GetName() != categoryNames[r.Code] {
		return fmt.Sprintf("category %v, expected %s", it.Category, r.Code)
	}
	if it.Title != r.Title || it.Url != r.Url || it.Notes != r.Notes {
		return fmt.Sprintf("title/url/notes %q %q %q, expected %q %q %q", it.Title, it.Url, it.Notes, r.Title, r.Url, r.Notes)
	}
	if it.Created != r.Created || it.Updated != r.Updated || it.Trashed != r.Trashed {
		return fmt.Sprintf("created/updated/trashed %d %d %v, expected %d %d %v", it.Created, it.Updated, it.Trashed, r.Created, r.Updated, r.Trashed)
	}
	var got []RSection
	for _, s := range it.Sections {
		g := RSection{Title: s.Title}
		for _, f := range s.Fields {
			g.Fields = append(g.Fields, RField{f.Name, f.Value})
		}
		got = append(got, g)
	}
	bad := fmt.Sprintf("sections %q, expected %q", got, r.Sections)
	if len(got) != len(r.Sections) {
		return bad
	}
	for i, s := range got {
		e := r.Sections[i]
		if !strings.EqualFold(s.Title, e.Title) || len(s.Fields) != len(e.Fields) {
			return bad
		}
		for k := range s.Fields {
			if !strings.EqualFold(s.Fields[k].Name, e.Fields[k].Name) || s.Fields[k].Value != e.Fields[k].Value {
				return bad
			}
		}
	}
	return ""
}

// diffItems: does the open vault present exactly the items of v?
func diffItems(v *VVault, f facade.VaultFacade) (d string) {
	if o := guard(func() { d = diffItems1(v, f) }); o != "" {
		return o
	}
	return
}

func diffItems1(v *VVault, f facade.VaultFacade) string {
	want := map[string]*RItem{}
	n := map[bool]int{}
	for i := range v.Items {
		if r := refItem(&v.Items[i]); r != nil {
			want[r.Uid] = r
			n[r.Trashed]++
		}
	}
	for _, tr := range []bool{false, true} {
		if k := f.CountItems(nil, tr); k != n[tr] {
			return fmt.Sprintf("count(trashed=%v) = %d, expected %d", tr, k, n[tr])
		}
		l := f.GetItems(nil, "", tr)
		if len(l) != n[tr] {
			return fmt.Sprintf("%d items listed (trashed=%v), expected %d", len(l), tr, n[tr])
		}
		seen := map[string]bool{}
		for _, s := range l {
			r := want[s.Uid]
			if r == nil || seen[s.Uid] || r.Trashed != tr || s.Title != r.Title {
				return fmt.Sprintf("unexpected entry %q %q (trashed=%v)", s.Uid, s.Title, tr)
			}
			seen[s.Uid] = true
		}
	}
	for u, r := range want {
		if d := diffItem(r, f.GetItem(u, r.Trashed)); d != "" {
			return "item " + u + ": " + d
		}
		if f.GetItem(u, !r.Trashed) != nil {
			return "item " + u + " found in the wrong trash state"
		}
	}
	return ""
}

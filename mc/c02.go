package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"github.com/mashmb/1pass/1pass-core/core/domain"
)

func init() { checks["C02"] = c02 }

// rawParts returns the intact sealed parts of an item.
func rawParts(v *VVault, it *VItem) (o, d, k []byte) {
	m := v.seal(it)
	return unb64(m["o"]), unb64(m["d"]), unb64(m["k"])
}

func c02(c *Ctx) {
	c.Level = "exploration"
	c.Rule = "case = (vault, target item, sealed part, change): every single-bit flip, every truncation, extensions, every exchange and every duplication of two cipher blocks, and transplants of details between items; for long texts one bit per block. Non-trivial: the sealed bytes differ from the intact ones"
	c.Assume = []string{"re-sealed data and overviews exchanged between items (same overview key) are outside the claim: the item HMAC over all fields is not part of this guarantee"}
	details := []any{
		map[string]any{"notesPlain": "secret note", "fields": []any{map[string]any{"name": "username", "value": "wendy", "type": "T"}, map[string]any{"name": "password", "value": "hunter2", "type": "P"}}},
		map[string]any{"sections": []any{map[string]any{"title": "main", "name": "main", "fields": []any{map[string]any{"k": "string", "t": "server", "v": "db.example.org", "n": "s"}}}}},
		map[string]any{"notesPlain": "x"},
		map[string]any{"notesPlain": "a very long note that fills several blocks of the cipher, so that single blocks can be damaged in the middle of it without touching either end of the text"},
	}
	var items []VItem
	for i, d := range details {
		items = append(items, VItem{Uid: uid(i), Category: []string{"001", "110", "003", "003"}[i], Created: int64(100 + i), Updated: int64(200 + i), Trashed: i == 2,
			Overview: map[string]any{"title": fmt.Sprintf("Title %d", i), "url": fmt.Sprintf("https://example.org/%d", i), "ainfo": "x"}, Details: d, Band: i})
	}
	small := len(items)
	for i, n := range []int{1000, 4000, 5000, 9000, 70000} {
		var sb strings.Builder
		for k := 0; sb.Len() < n; k++ {
			fmt.Fprintf(&sb, "line %05d ", k)
		}
		items = append(items, VItem{Uid: uid(20 + i), Category: "003", Created: 1, Updated: 2, Trashed: i%2 == 0, Overview: map[string]any{"title": "Long " + sb.String()[:n/20], "url": "https://long"}, Details: map[string]any{"notesPlain": sb.String()}, Band: 6 + i})
	}
	type job struct {
		t    int
		part string
		what string
		data []byte
	}
	var jobs []job
	vs := []*VVault{{Password: "pw", Seed: "c02a", Items: items}}
	if c.Thorough {
		for i := 0; i < 12; i++ {
			vs = append(vs, &VVault{Password: "pw", Seed: fmt.Sprint("c02", i), Items: items})
		}
	}
	for vi, v := range vs {
		jobs = nil
		v.prepare()
		for t := range items {
			o, d, k := rawParts(v, &items[t])
			for _, p := range []struct {
				n string
				b []byte
			}{{"o", o}, {"d", d}, {"k", k}} {
				add := func(what string, b []byte) {
					jobs = append(jobs, job{t, p.n, what, b})
				}
				if t >= small { // long texts: one bit per block, all bytes at both ends and around powers of two
					for i := range p.b {
						pow := false
						for q := 64; q <= 65536; q *= 2 {
							pow = pow || i >= q-40 && i <= q+40
						}
						if i%16 == (i/16)%16 && (len(p.b) < 20000 || i%256 < 16) || i < 64 || i >= len(p.b)-64 || pow && len(p.b) < 20000 {
							x := append([]byte(nil), p.b...)
							x[i] ^= 1 << (i % 8)
							add(fmt.Sprintf("bit %d.%d", i, i%8), x)
						}
						if i%256 == 0 {
							add(fmt.Sprintf("cut to %d", i), p.b[:i])
						}
					}
					continue
				}
				for i := range p.b {
					for b := 0; b < 8; b++ {
						x := append([]byte(nil), p.b...)
						x[i] ^= 1 << b
						add(fmt.Sprintf("bit %d.%d", i, b), x)
					}
					add(fmt.Sprintf("cut to %d", i), p.b[:i])
					add(fmt.Sprintf("first %d cut", i+1), p.b[i+1:])
				}
				for _, n := range []int{1, 15, 16, 17, 32, 48} {
					add(fmt.Sprintf("extended by %d", n), append(append([]byte(nil), p.b...), (&detRand{seed: "e"}).bytes(n)...))
				}
				nb := len(p.b) / 16
				for a := 0; a < nb; a++ {
					for b := 0; b < nb; b++ {
						if a == b {
							continue
						}
						x := append([]byte(nil), p.b...)
						copy(x[16*a:16*a+16], p.b[16*b:16*b+16])
						add(fmt.Sprintf("block %d overwritten by %d", a, b), x)
						if a < b {
							y := append([]byte(nil), x...)
							copy(y[16*b:16*b+16], p.b[16*a:16*a+16])
							add(fmt.Sprintf("blocks %d,%d exchanged", a, b), y)
						}
					}
				}
				if p.n == "d" {
					for u := range items {
						if u != t {
							_, d2, _ := rawParts(v, &items[u])
							add(fmt.Sprintf("details of item %d", u), d2)
						}
					}
					add("overview in place of details", o)
				}
				if p.n == "o" {
					add("details in place of overview", d)
				}
				if p.n == "k" {
					for u := range items {
						if u != t {
							_, _, k2 := rawParts(v, &items[u])
							add(fmt.Sprintf("key of item %d", u), k2)
						}
					}
				}
			}
		}
		base := make([]string, NCPU)
		for w := range base {
			base[w] = c.Dir(fmt.Sprintf("v%d/w%d", vi, w))
			v.write(base[w])
		}
		orig := make([]*RItem, len(items))
		for i := range items {
			orig[i] = refItem(&items[i])
		}
		noCfg := filepath.Join(c.Scratch, "nocfg")
		c.Par(len(jobs), func(w, i int) {
			j := jobs[i]
			c.Eval(1)
			c.Distinct(1)
			it := items[j.t]
			switch j.part {
			case "o":
				it.O = append([]byte{}, j.data...)
			case "d":
				it.D = append([]byte{}, j.data...)
			case "k":
				it.K = append([]byte{}, j.data...)
			}
			band := filepath.Join(base[w], "default", bandName(it.Band))
			must(os.WriteFile(band, append(append([]byte("ld("), jsonDoc(map[string]any{it.Uid: v.seal(&it)})...), ");"...), 0644))
			defer v.restoreBand(base[w], it.Band)
			cas := map[string]any{"item": it.Uid, "part": j.part, "change": j.what}
			if i%3001 == 0 {
				c.Sample(cas)
			}
			f := newVaultFacade(noCfg)
			out, err := openVault(f, base[w], "pw")
			if out != "" || err != nil {
				c.AddExtra("aborted", 1)
				return // opening aborts: withheld
			}
			for u := range items {
				got := f.GetItem(items[u].Uid, items[u].Trashed == true)
				if u != j.t {
					if d := diffItem(orig[u], got); d != "" {
						c.Fail("other-item-"+j.part, cas, "another item changed: %s", d)
					}
					continue
				}
				if got == nil {
					c.AddExtra("item_absent", 1)
					continue
				}
				o := orig[u]
				switch j.part {
				case "o":
					if got.Title != "" || got.Url != "" {
						c.Fail("overview-shown", cas, "title %q url %q shown from a tampered overview", got.Title, got.Url)
					}
					e := *o
					e.Title, e.Url = "", ""
					if d := diffItem(&e, got); d != "" && (got.Notes != "" || len(got.Sections) != 0) {
						c.Fail("overview-details-altered", cas, "details altered: %s", d)
					}
				case "d":
					if got.Notes != "" || len(got.Sections) != 0 {
						c.Fail("details-shown", cas, "notes %q sections %s shown from tampered details", got.Notes, secs(got))
					}
					if got.Title != o.Title && got.Title != "" || got.Url != o.Url && got.Url != "" {
						c.Fail("details-overview-altered", cas, "title %q url %q", got.Title, got.Url)
					}
				case "k":
					if got.Notes != "" || len(got.Sections) != 0 {
						if d := diffItem(o, got); d != "" {
							c.Fail("key-altered", cas, "altered details shown: %s", d)
						}
						c.AddExtra("key_original", 1)
					}
				}
			}
		})
	}
}

func secs(it *domain.Item) string {
	s := ""
	for _, x := range it.Sections {
		s += x.Title + "{"
		for _, f := range x.Fields {
			s += f.Name + "=" + f.Value + ";"
		}
		s += "}"
	}
	return s
}

func (v *VVault) restoreBand(dir string, n int) {
	m := map[string]any{}
	for i := range v.Items {
		if v.Items[i].Band == n {
			m[v.Items[i].Uid] = v.seal(&v.Items[i])
		}
	}
	must(os.WriteFile(filepath.Join(dir, "default", bandName(n)), append(append([]byte("ld("), jsonDoc(m)...), ");"...), 0644))
}

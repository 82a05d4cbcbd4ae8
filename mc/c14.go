package main

import (
	"archive/tar"
	"fmt"
	"net"
	"net/http"
	"os"
	"path/filepath"
	"strconv"
	"strings"
)

func init() { checks["C14"] = c14 }

const evilBinary = "#!EVIL BINARY: not what was published\n"

type up14 struct {
	name    string
	archive []byte
	sum     []byte
	answer  string   // input of the update command; default "y\n"
	tag     string   // default 9.9.9
	good    []string // contents that may be installed (their MD5 is the published one); default newBinary
	expect  string   // ok, fail, any
	faults  []string // one update run per entry, then one without fault (which must succeed if rerun)
	rerun   bool
	setup   func(r *rig)
	check   func(r *rig) string
	http    func(ok http.HandlerFunc) http.HandlerFunc
	raw     func(n int, c net.Conn) bool
}

const (
	arPath = "/dl/1pass.tar.gz"
	csPath = "/dl/checksum.md5"
)

func goodSum() []byte { return []byte(md5hex(newBinary) + "  1pass\n") }

func c14(c *Ctx) {
	c.Level = "fault_enumeration"
	c.Rule = "case = (initial cache and file system, archive bytes, checksum bytes, answer, server behaviour per request, fault sequence): one or more process runs of the update command against a release server, followed by inspection of the binary, its mode, the cache, output and exit status. Enumerated: every file-system mutation of an update x every fault kind (killed before, killed half way through a write, refused, cut short), singly and in pairs over two successive updates, each followed by an update without fault; every single-bit flip and truncation of archive and checksum file; archive layouts; checksum file layouts; answers; server faults for each of the four requests; leftovers in the cache. Non-trivial: every case; distinct by construction"
	c.Assume = []string{"cache and binary on one file system; rename is atomic", "process death and failing system calls, no power loss", "answers with blanks around them, upper-case checksums and stalled downloads are outside the claim"}
	rigs := c.rigs()
	plain := tarball(tarEntry{Name: "1pass", Data: newBinary}, tarEntry{Name: "README.md", Data: "read me", Mode: 0644})
	var cs []up14
	base := up14{archive: plain, sum: goodSum(), expect: "ok"}
	with := func(name, expect string, f func(u *up14)) {
		u := base
		u.name, u.expect = name, expect
		f(&u)
		cs = append(cs, u)
	}
	// answers
	for _, a := range []string{"y\n", "Y\n", "y"} {
		with("answer", "ok", func(u *up14) { u.answer = a })
	}
	for _, a := range []string{"\n", "n\n", "N\n", "no\n", "yes\n", "yy\n", "1\n", "true\n", "ok\n", "ye\n", "n\ny\n", "\ny\n", "q\n", "EOF"} {
		with("answer", "fail", func(u *up14) { u.answer = a })
	}
	// versions that are not newer
	for _, t := range []string{runningVersion, "0.9", "beta", ""} {
		with("version", "fail", func(u *up14) { u.tag = t; u.tag += "" })
	}
	// modes of the entry
	for _, m := range []int64{0755, 0644, 0600, 0400, 0111, 0001, 04755, 0777} {
		with("entry mode", "ok", func(u *up14) {
			u.archive = tarball(tarEntry{Name: "1pass", Data: newBinary, Mode: m})
		})
	}
	// layouts
	layouts := []struct {
		es     []tarEntry
		expect string
	}{
		{[]tarEntry{{Name: "./1pass", Data: newBinary}}, "any"},
		{[]tarEntry{{Name: "README", Data: "x"}, {Name: "1pass", Data: newBinary}}, "ok"},
		{[]tarEntry{{Name: "README", Data: "x"}, {Name: "LICENSE", Data: strings.Repeat("y", 70000)}, {Name: "1pass", Data: newBinary}, {Name: "empty", Data: ""}}, "ok"},
		{[]tarEntry{{Name: "README", Data: "x"}}, "fail"},
		{[]tarEntry{}, "fail"},
		{[]tarEntry{{Name: "1pass", Data: evilBinary}}, "fail"},
		{[]tarEntry{{Name: "1pass", Data: ""}}, "fail"},
		{[]tarEntry{{Name: "1pass", Data: newBinary + "x"}}, "fail"},
		{[]tarEntry{{Name: "1pass", Data: newBinary[:len(newBinary)-1]}}, "fail"},
		{[]tarEntry{{Name: "1PASS", Data: newBinary}}, "fail"},
		{[]tarEntry{{Name: "1pass.sh", Data: newBinary}}, "fail"},
		{[]tarEntry{{Name: "bin/1pass", Data: newBinary}}, "any"},
		{[]tarEntry{{Name: "1pass", Data: newBinary}, {Name: "1pass", Data: evilBinary}}, "any"},
		{[]tarEntry{{Name: "1pass", Data: evilBinary}, {Name: "1pass", Data: newBinary}}, "any"},
		{[]tarEntry{{Name: "1pass", Data: evilBinary + evilBinary}, {Name: "1pass", Data: newBinary}}, "any"},
		{[]tarEntry{{Name: "1pass", Type: tar.TypeDir}}, "fail"},
		{[]tarEntry{{Name: "1pass", Type: tar.TypeDir}, {Name: "1pass/1pass", Data: newBinary}}, "any"},
		{[]tarEntry{{Name: "other", Data: newBinary}, {Name: "1pass", Type: tar.TypeSymlink, Link: "other"}}, "any"},
		{[]tarEntry{{Name: "1pass", Type: tar.TypeSymlink, Link: "/proc/self/exe"}}, "fail"},
		{[]tarEntry{{Name: "other", Data: newBinary}, {Name: "1pass", Type: tar.TypeLink, Link: "other"}}, "any"},
		{[]tarEntry{{Name: "1pass", Type: tar.TypeFifo}}, "fail"},
		// the archive brings its own checksum file, archive, cache
		{[]tarEntry{{Name: "checksum.md5", Data: md5hex(evilBinary) + "  1pass\n"}, {Name: "1pass", Data: evilBinary}}, "fail"},
		{[]tarEntry{{Name: "1pass", Data: evilBinary}, {Name: "checksum.md5", Data: md5hex(evilBinary) + "  1pass\n"}}, "fail"},
		{[]tarEntry{{Name: "1pass", Data: evilBinary}, {Name: "../checksum.md5", Data: md5hex(evilBinary) + "  1pass\n"}}, "fail"},
		{[]tarEntry{{Name: "1pass", Data: evilBinary}, {Name: "./../checksum.md5", Data: md5hex(evilBinary)}, {Name: "checksum.md5", Data: md5hex(evilBinary)}}, "fail"},
		{[]tarEntry{{Name: "1pass", Data: evilBinary}, {Name: "/tmp/1pass/checksum.md5", Data: md5hex(evilBinary)}, {Name: "tmp/1pass/checksum.md5", Data: md5hex(evilBinary)}}, "fail"},
		{[]tarEntry{{Name: "checksum.md5", Data: md5hex(evilBinary) + "  1pass\n"}, {Name: "1pass", Data: newBinary}}, "ok"},
		{[]tarEntry{{Name: "1pass.tar.gz", Data: "zzzz"}, {Name: "1pass", Data: newBinary}}, "ok"},
		{[]tarEntry{{Name: "1pass", Data: newBinary}, {Name: "1pass.tar.gz", Data: string(tarball(tarEntry{Name: "1pass", Data: evilBinary}))}}, "ok"},
	}
	for i, l := range layouts {
		with(fmt.Sprintf("layout %d", i), l.expect, func(u *up14) { u.archive = tarball(l.es...) })
	}
	big := strings.Repeat("\x7fELF big binary \x00\x01", 11000) // several write calls
	with("big", "ok", func(u *up14) {
		u.archive, u.sum, u.good = tarball(tarEntry{Name: "1pass", Data: big}), []byte(md5hex(big)+"  1pass\n"), []string{big}
	})
	with("empty binary", "any", func(u *up14) {
		u.archive, u.sum, u.good = tarball(tarEntry{Name: "1pass", Data: ""}), []byte(md5hex("")+"  1pass\n"), []string{""}
	})
	// checksum layouts
	g, e := md5hex(newBinary), md5hex(evilBinary)
	for _, s := range []struct{ s, expect string }{
		{g, "ok"}, {g + "\n", "ok"}, {g + " *1pass\n", "ok"}, {g + "\t1pass", "ok"}, {g + "  1pass\r\n", "ok"}, {"\n" + g + "  1pass\n", "ok"}, {"  " + g + "  1pass", "ok"},
		{g + "  1pass\n" + e + "  1pass.tar.gz\n", "ok"}, {g + "  1pass\n" + e + "  1pass\n", "ok"},
		{e + "  1pass.tar.gz\n" + g + "  1pass\n", "fail"}, {e + "  1pass\n" + g + "  1pass\n", "fail"}, {e + " " + g, "fail"}, {"1pass " + g, "fail"}, {"MD5 (1pass) = " + g, "fail"},
		{"", "fail"}, {" ", "fail"}, {"\n\n", "fail"}, {g[:31], "fail"}, {g + "0", "fail"}, {g[1:], "fail"}, {"0" + g, "fail"}, {g[:16], "fail"}, {g[:16] + " " + g[16:], "fail"}, {"x" + g + "  1pass", "fail"}, {g + "x  1pass", "fail"},
		{"d41d8cd98f00b204e9800998ecf8427e", "fail"}, {"*", "fail"}, {strings.Repeat("0", 32), "fail"}, {"<html>Not found</html>", "fail"}, {"#" + g, "fail"}, {g + g, "fail"}, {"\x00" + g, "fail"},
	} {
		with(fmt.Sprintf("checksum %q", s.s), s.expect, func(u *up14) { u.sum = []byte(s.s) })
	}
	// bit flips and truncations
	flips := func(b []byte, f func(name string, b []byte)) {
		for i := range b {
			for k := 0; k < 8; k++ {
				n := append([]byte{}, b...)
				n[i] ^= 1 << k
				f(fmt.Sprintf("bit %d of byte %d", k, i), n)
			}
		}
		for i := 0; i < len(b); i++ {
			f(fmt.Sprintf("cut to %d", i), b[:i])
		}
	}
	small := tarball(tarEntry{Name: "1pass", Data: newBinary})
	flips(small, func(n string, b []byte) { with("archive "+n, "any", func(u *up14) { u.archive = b }) })
	flips(tarOf(tarEntry{Name: "1pass", Data: newBinary})[:640], func(n string, b []byte) {
		if c.Thorough || strings.Contains(n, "byte 5") || strings.Contains(n, "cut to 6") || strings.Contains(n, "byte 12") {
			with("tar "+n, "any", func(u *up14) { u.archive = gz(append(append([]byte{}, b...), make([]byte, 1408)...)) })
		}
	})
	flips(goodSum(), func(n string, b []byte) {
		with("checksum "+n, "any", func(u *up14) {
			u.sum = b
			f := strings.Fields(string(b))
			if len(f) > 0 && f[0] == g {
				u.expect = "ok"
			} else if len(f) == 0 || !strings.EqualFold(f[0], g) {
				u.expect = "fail"
			}
		})
	})
	c.http14(with)
	c.stale14(with, base)
	c.Par(len(cs), func(w, k int) {
		if c.Stop() {
			return
		}
		c.run14(rigs[w], cs[k])
		if k%700 == 20 {
			c.Sample(obj{"case": cs[k].name, "expect": cs[k].expect})
		}
	})
	c.faults14(rigs, base, big)
}

// server faults for every request
func (c *Ctx) http14(with func(string, string, func(*up14))) {
	type fault struct {
		name   string
		expect string
		f      http.HandlerFunc
	}
	abort := func(w http.ResponseWriter, q *http.Request) { panic(http.ErrAbortHandler) }
	faults := func(data []byte) []fault {
		return []fault{
			{"404", "fail", func(w http.ResponseWriter, q *http.Request) { w.WriteHeader(404); w.Write([]byte("Not Found")) }},
			{"500 empty", "fail", func(w http.ResponseWriter, q *http.Request) { w.WriteHeader(500) }},
			{"empty", "fail", func(w http.ResponseWriter, q *http.Request) {}},
			{"abort", "fail", abort},
			{"announced longer, cut", "fail", func(w http.ResponseWriter, q *http.Request) {
				w.Header().Set("Content-Length", strconv.Itoa(len(data)+10))
				w.Write(data)
			}},
			{"announced, half sent", "fail", func(w http.ResponseWriter, q *http.Request) {
				w.Header().Set("Content-Length", strconv.Itoa(len(data)))
				w.Write(data[:len(data)/2])
			}},
			{"chunked, all sent, not ended", "fail", func(w http.ResponseWriter, q *http.Request) {
				w.Write(data)
				w.(http.Flusher).Flush()
				panic(http.ErrAbortHandler)
			}},
			{"chunked, half sent, not ended", "fail", func(w http.ResponseWriter, q *http.Request) {
				w.Write(data[:len(data)/2])
				w.(http.Flusher).Flush()
				panic(http.ErrAbortHandler)
			}},
			{"half sent, ended", "fail", func(w http.ResponseWriter, q *http.Request) { w.Write(data[:len(data)/2]) }},
			{"redirect loop", "fail", func(w http.ResponseWriter, q *http.Request) { http.Redirect(w, q, q.URL.Path, 302) }},
			{"redirect nowhere", "fail", func(w http.ResponseWriter, q *http.Request) { http.Redirect(w, q, "https://github.com/gone", 302) }},
			{"one byte at a time", "ok", func(w http.ResponseWriter, q *http.Request) {
				for _, b := range data {
					w.Write([]byte{b})
					w.(http.Flusher).Flush()
				}
			}},
			{"redirect", "ok", func(w http.ResponseWriter, q *http.Request) {
				if q.URL.RawQuery == "" {
					http.Redirect(w, q, "https://dl.example"+q.URL.Path+"?r", 302)
					return
				}
				w.Write(data)
			}},
		}
	}
	rel := asJSON([]release{stdRelease("9.9.9")})
	for nth := 0; nth < 4; nth++ {
		data := [][]byte{rel, rel, tarball(tarEntry{Name: "1pass", Data: newBinary}, tarEntry{Name: "README.md", Data: "read me", Mode: 0644}), goodSum()}[nth]
		name := []string{"first release list", "second release list", "archive", "checksum"}[nth]
		for _, f := range faults(data) {
			exp := f.expect
			if nth < 2 && (strings.HasPrefix(f.name, "redirect") || f.name == "one byte at a time") {
				exp = "any"
			}
			if nth == 3 && (f.name == "chunked, all sent, not ended" || f.name == "announced longer, cut") {
				exp = "any" // the whole checksum has arrived
			}
			with(name+": "+f.name, exp, func(u *up14) {
				u.http = func(ok http.HandlerFunc) http.HandlerFunc {
					seen := 0
					return func(w http.ResponseWriter, q *http.Request) {
						hit := false
						switch q.URL.Path {
						case releasesPath:
							if q.URL.RawQuery == "" {
								seen++
							}
							hit = (nth == 0 && seen == 1) || (nth == 1 && seen == 2)
						case arPath:
							hit = nth == 2
						case csPath:
							hit = nth == 3
						}
						if hit {
							f.f(w, q)
						} else {
							ok(w, q)
						}
					}
				}
			})
		}
		// connection level: the nth connection is closed, answered with garbage, closed after the hello
		for _, k := range []string{"closed", "garbage", "closed after hello"} {
			with(fmt.Sprintf("connection %d %s", nth, k), "any", func(u *up14) {
				u.raw = func(n int, conn net.Conn) bool {
					if n != nth {
						return false
					}
					switch k {
					case "garbage":
						conn.Write([]byte("HTTP/1.0 400 Bad Request\r\n\r\n"))
					case "closed after hello":
						b := make([]byte, 64)
						conn.Read(b)
					}
					conn.Close()
					return true
				}
			})
		}
	}
	// incomplete releases
	for _, as := range [][]asset{nil, {}, {{"1pass.tar.gz", "https://github.com" + arPath}}, {{"checksum.md5", "https://github.com" + csPath}},
		{{"1pass.tar.gz", ""}, {"checksum.md5", ""}}, {{"1pass.tar.gz", "::bad::"}, {"checksum.md5", "https://github.com" + csPath}},
		{{"1pass.tar.gz", "https://github.com" + arPath}, {"checksum.md5", "https://github.com/gone"}},
		{{"1pass.tar.gz", "https://github.com" + csPath}, {"checksum.md5", "https://github.com" + arPath}}} {
		with(fmt.Sprintf("assets %v", as), "fail", func(u *up14) {
			u.http = func(ok http.HandlerFunc) http.HandlerFunc {
				b := asJSON([]release{{"9.9.9", "x", as}})
				return func(w http.ResponseWriter, q *http.Request) {
					if q.URL.Path == releasesPath {
						w.Write(b)
						return
					}
					ok(w, q)
				}
			}
		})
	}
	// the second answer of the release server differs
	for _, t := range []string{"1.0.0", runningVersion, "beta"} {
		with("second list "+t, "fail", func(u *up14) {
			u.http = func(ok http.HandlerFunc) http.HandlerFunc {
				n := 0
				return func(w http.ResponseWriter, q *http.Request) {
					if q.URL.Path == releasesPath {
						if n++; n > 1 {
							w.Write(asJSON([]release{stdRelease(t)}))
							return
						}
					}
					ok(w, q)
				}
			}
			u.expect = "any"
		})
	}
}

// leftovers in the cache
func (c *Ctx) stale14(with func(string, string, func(*up14)), base up14) {
	evilTar := tarball(tarEntry{Name: "1pass", Data: evilBinary})
	esum := md5hex(evilBinary) + "  1pass\n"
	w := func(r *rig, rel, text string) { r.Write(filepath.Join(r.Cache(), rel), text) }
	type st struct {
		name   string
		expect string
		f      func(r *rig)
		check  func(r *rig) string
	}
	precious := func(r *rig) string { return filepath.Join(r.Home(), "precious") }
	kept := func(r *rig) string {
		if s, _ := readFile(precious(r)); s != "precious" {
			return "a file outside the cache was changed: " + s
		}
		if s, _ := readFile(filepath.Join(r.Home(), "dir", "inner")); s != "inner" {
			return "a directory outside the cache was changed"
		}
		return ""
	}
	prec := func(r *rig) {
		r.Write(precious(r), "precious")
		r.Write(filepath.Join(r.Home(), "dir", "inner"), "inner")
	}
	states := []st{
		{"evil everywhere", "ok", func(r *rig) {
			for _, d := range []string{"", "extracted/", "tmp/", "bin/"} {
				w(r, d+"1pass", evilBinary)
				w(r, d+"checksum.md5", esum)
				w(r, d+"1pass.tar.gz", string(evilTar))
			}
		}, nil},
		{"longer files", "ok", func(r *rig) {
			for _, d := range []string{"", "extracted/"} {
				w(r, d+"1pass", strings.Repeat("z", 100000))
				w(r, d+"checksum.md5", md5hex(newBinary)+"  1pass\n"+strings.Repeat("z", 100000))
				w(r, d+"1pass.tar.gz", strings.Repeat("z", 100000))
			}
		}, nil},
		{"read-only files", "ok", func(r *rig) {
			for _, d := range []string{"", "extracted/"} {
				for _, f := range []string{"1pass", "checksum.md5", "1pass.tar.gz"} {
					w(r, d+f, "old")
					os.Chmod(filepath.Join(r.Cache(), d+f), 0444)
				}
			}
		}, nil},
		{"directories in place of files", "ok", func(r *rig) {
			for _, d := range []string{"", "extracted/"} {
				for _, f := range []string{"1pass/x", "checksum.md5/x", "1pass.tar.gz/x"} {
					w(r, d+f, "old")
				}
			}
		}, nil},
		{"files in place of directories", "ok", func(r *rig) { w(r, "extracted", "x") }, nil},
		{"cache is a file", "ok", func(r *rig) { r.Write(r.Cache(), "x") }, nil},
		{"good leftovers", "ok", func(r *rig) {
			w(r, "1pass", newBinary)
			w(r, "extracted/1pass", newBinary)
			w(r, "checksum.md5", string(goodSum()))
		}, nil},
		{"links to outside", "ok", func(r *rig) {
			prec(r)
			w(r, "x", "x")
			for _, d := range []string{"", "extracted/"} {
				for _, f := range []string{"1pass", "checksum.md5", "1pass.tar.gz", "README.md"} {
					os.MkdirAll(filepath.Join(r.Cache(), d), 0755)
					os.Symlink(precious(r), filepath.Join(r.Cache(), d+f))
				}
			}
		}, kept},
		{"linked directory", "ok", func(r *rig) {
			prec(r)
			w(r, "x", "x")
			os.Symlink(filepath.Join(r.Home(), "dir"), filepath.Join(r.Cache(), "extracted"))
		}, kept},
		{"cache is a link to a directory", "ok", func(r *rig) {
			prec(r)
			os.Symlink(filepath.Join(r.Home(), "dir"), r.Cache())
		}, kept},
		{"unremovable", "fail", func(r *rig) {
			w(r, "sub/x", "x")
			w(r, "1pass", evilBinary)
			w(r, "checksum.md5", esum)
			r.Own()
			os.Chmod(filepath.Join(r.Cache(), "sub"), 0555)
		}, nil},
		{"binary directory read-only", "fail", func(r *rig) { r.Own(); os.Chmod(filepath.Join(r.Dir, "bin"), 0555) }, nil},
		{"no temporary directory", "any", func(r *rig) { os.RemoveAll(filepath.Join(r.Dir, "tmp")) }, nil},
		{"binary not writable", "ok", func(r *rig) { r.Own(); os.Chmod(r.Exe(), 0555) }, nil},
	}
	for _, s := range states {
		with("leftover: "+s.name, s.expect, func(u *up14) { u.setup, u.check = s.f, s.check })
		for _, v := range []struct {
			n string
			f func(u *up14)
		}{
			{"no binary in the archive", func(u *up14) { u.archive = tarball(tarEntry{Name: "README", Data: "x"}) }},
			{"empty archive", func(u *up14) { u.archive = tarball() }},
			{"broken archive", func(u *up14) { u.archive = u.archive[:20] }},
			{"evil archive", func(u *up14) { u.archive = evilTar }},
			{"empty checksum", func(u *up14) { u.sum = nil }},
			{"checksum not found", func(u *up14) {
				u.http = func(ok http.HandlerFunc) http.HandlerFunc {
					return func(w http.ResponseWriter, q *http.Request) {
						if q.URL.Path == csPath {
							w.WriteHeader(404)
							return
						}
						ok(w, q)
					}
				}
			}},
			{"evil archive, checksum not found", func(u *up14) {
				u.archive = evilTar
				u.http = func(ok http.HandlerFunc) http.HandlerFunc {
					return func(w http.ResponseWriter, q *http.Request) {
						if q.URL.Path == csPath {
							panic(http.ErrAbortHandler)
						}
						ok(w, q)
					}
				}
			}},
			{"archive not found", func(u *up14) {
				u.http = func(ok http.HandlerFunc) http.HandlerFunc {
					return func(w http.ResponseWriter, q *http.Request) {
						if q.URL.Path == arPath {
							panic(http.ErrAbortHandler)
						}
						ok(w, q)
					}
				}
			}},
		} {
			if s.name == "good leftovers" {
				continue // the leftover binary matches the published checksum
			}
			with("leftover: "+s.name+", "+v.n, "fail", func(u *up14) { u.setup, u.check = s.f, s.check; v.f(u) })
		}
		with("leftover: "+s.name+", refused", "fail", func(u *up14) { u.setup, u.check, u.answer = s.f, s.check, "n\n" })
	}
}

// faults14: every mutation x every fault kind, singly and in pairs.
func (c *Ctx) faults14(rigs []*rig, base up14, big string) {
	bigU := base
	bigU.archive, bigU.sum, bigU.good = tarball(tarEntry{Name: "1pass", Data: big}), []byte(md5hex(big)+"  1pass\n"), []string{big}
	stale := base
	stale.setup = func(r *rig) {
		for _, d := range []string{"", "extracted/"} {
			r.Write(filepath.Join(r.Cache(), d+"1pass"), evilBinary)
			r.Write(filepath.Join(r.Cache(), d+"checksum.md5"), md5hex(evilBinary))
		}
	}
	kinds := []string{"crash", "half", "err", "short"}
	var cs []up14
	for i, b := range []up14{base, bigU, stale} {
		r := rigs[0]
		x := c.exec14(r, b, "")
		n := len(x.Muts())
		c.AddExtra("fault_points", n)
		if n < 3 {
			c.Fail("baseline", obj{"out": x.Out}, "only %d file-system mutations seen during an update", n)
		}
		soft := softFaults(x.Muts())
		more := make([][]string, len(soft))
		c.Par(len(soft), func(w, k int) {
			more[k] = append([]string{soft[k]}, laterFaults(soft[k], c.exec14(rigs[w], b, soft[k]).Muts())...)
		})
		for _, l := range more {
			for _, f := range l {
				u := b
				u.name, u.expect, u.faults, u.rerun = "faults in one run", "any", []string{f}, true
				cs = append(cs, u)
				c.AddExtra("soft_and_double_fault_cases", 1)
			}
		}
		var single []string
		for k := 0; k < n; k++ {
			for _, f := range kinds {
				single = append(single, fmt.Sprintf("%d:%s", k, f))
			}
		}
		for _, f := range single {
			u := b
			u.name, u.expect, u.faults, u.rerun = "fault", "any", []string{f}, true
			cs = append(cs, u)
			if i > 0 && !c.Thorough {
				continue
			}
			for k := 0; k < n+4; k++ {
				for _, g := range kinds {
					u.name, u.faults = "fault pair", []string{f, fmt.Sprintf("%d:%s", k, g)}
					cs = append(cs, u)
				}
			}
		}
	}
	c.Par(len(cs), func(w, k int) {
		if c.Stop() {
			return
		}
		c.run14(rigs[w], cs[k])
		if k%1500 == 20 {
			c.Sample(obj{"case": cs[k].name, "faults": cs[k].faults})
		}
	})
}

func (c *Ctx) prepare14(r *rig, u up14) {
	os.Chmod(filepath.Join(r.Cache(), "sub"), 0755)
	r.Reset()
	r.Config(cfgText("", 5, 1, true))
	if u.setup != nil {
		u.setup(r)
		r.Own()
	}
	tag := u.tag
	if tag == "" && u.name != "version" {
		tag = "9.9.9"
	}
	ok := serve(asJSON([]release{stdRelease(tag)}), map[string][]byte{arPath: u.archive, csPath: u.sum})
	h := ok
	if u.http != nil {
		h = u.http(ok)
	}
	var raw func(net.Conn) bool
	if u.raw != nil {
		n := -1
		raw = func(cn net.Conn) bool { n++; return u.raw(n, cn) }
	}
	r.S.Set(h, raw)
}

func (c *Ctx) exec14(r *rig, u up14, fault string) *Result {
	c.prepare14(r, u)
	return r.exec14(u, fault)
}

func (r *rig) exec14(u up14, fault string) *Result {
	a := u.answer
	if a == "" {
		a = "y\n"
	}
	if a == "EOF" {
		a = ""
	}
	return r.Exec(Run{Args: []string{"update"}, Stdin: a, Dial: r.S.Dial(), Fault: fault})
}

func (c *Ctx) run14(r *rig, u up14) {
	c.prepare14(r, u)
	fi0, err := os.Stat(r.Exe())
	must(err)
	good := u.good
	if good == nil {
		good = []string{newBinary}
	}
	c.Distinct(1)
	runs := append([]string{}, u.faults...)
	if len(runs) == 0 || u.rerun {
		runs = append(runs, "")
	}
	installed := false
	for i, f := range runs {
		x := r.exec14(u, f)
		c.Eval(1)
		desc := obj{"case": u.name, "faults": runs[:i+1], "out": x.Out, "err": x.Err, "exit": x.Code, "killed": x.Killed}
		at := fmt.Sprintf("%s %v", u.name, runs[:i+1])
		if x.Timeout {
			c.Fail("hang", desc, "%s: hangs", at)
			return
		}
		b, err := os.ReadFile(r.Exe())
		fi, err2 := os.Lstat(r.Exe())
		if err != nil || err2 != nil {
			c.Fail("binary-gone", desc, "%s: the binary is gone: %v", at, err)
			return
		}
		isOld := string(b) == oldBinary && fi.Mode() == fi0.Mode()
		isNew := false
		for _, g := range good {
			if string(b) == g {
				isNew = true
			}
		}
		success := x.Code == 0 && !x.Killed
		says := strings.Contains(x.Out, "updated to version")
		switch {
		case !isOld && !isNew:
			c.Fail("binary-torn", desc, "%s: the binary in place is neither the old nor the published one: %q mode %v", at, clip(string(b)), fi.Mode())
			return
		case isNew && (fi.Mode()&0555 != 0555 || !fi.Mode().IsRegular()):
			c.Fail("not-executable", desc, "%s: installed with mode %v", at, fi.Mode())
			return
		case isOld && installed:
			c.Fail("rolled-back", desc, "%s: the old binary is back", at)
			return
		case isNew && !installed && u.expect == "fail":
			c.Fail("installed", desc, "%s: installed although it must not be", at)
			return
		case (success || says) && !isNew:
			c.Fail("false-success", desc, "%s: success reported (exit %d) but the old binary is in place", at, x.Code)
			return
		case says && !success && !x.Killed:
			c.Fail("false-success", desc, "%s: success reported but exit %d", at, x.Code)
			return
		case success && !says:
			c.Fail("silent", desc, "%s: exit 0 without success message: %q", at, x.Out)
			return
		case !success && !x.Killed && x.Panicked():
			c.Fail("crash", desc, "%s: crashes: %s", at, clip(x.Err))
			return
		}
		if isNew {
			installed = true
		}
		if success {
			if _, err := os.Lstat(r.Cache()); err == nil {
				c.Fail("cache-left", desc, "%s: the cache directory is still there after a success", at)
				return
			}
		}
		if (u.expect == "ok" || f == "" && u.rerun) && !success {
			c.Fail("not-installed", desc, "%s: the update failed: exit %d %s", at, x.Code, clip(x.Out))
			return
		}
		if u.expect == "fail" && success {
			c.Fail("installed", desc, "%s: success reported although the update must fail", at)
			return
		}
		if len(x.Deny()) > 0 {
			c.Fail("outside", desc, "%s: tried to write outside: %v", at, x.Deny())
		}
	}
	if u.check != nil {
		if s := u.check(r); s != "" {
			c.Fail("outside", obj{"case": u.name}, "%s: %s", u.name, s)
		}
	}
}

func clip(s string) string {
	if len(s) > 300 {
		return s[:300] + "..."
	}
	return s
}

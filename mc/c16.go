package main

import (
	"encoding/json"
	"fmt"
	"net"
	"net/http"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"time"
)

func init() { checks["C16"] = c16 }

// mutateJSON calls f with every document that differs from doc in one node (replaced, removed,
// doubled) or one key (removed, renamed).
func mutateJSON(doc any, f func(name string, d any)) {
	repl := []any{nil, true, false, 0, -1, 1.5, 1e300, "", "x", "9.9.9", []any{}, obj{}, []any{nil}, []any{"x"}, obj{"a": 1}, []any{[]any{}}, []any{obj{}}}
	var walk func(d any, path string, put func(any) any)
	walk = func(d any, path string, put func(any) any) {
		for i, r := range repl {
			f(fmt.Sprintf("%s := #%d", path, i), put(r))
		}
		switch t := d.(type) {
		case []any:
			for i := range t {
				walk(t[i], fmt.Sprintf("%s[%d]", path, i), func(x any) any {
					n := append([]any{}, t...)
					n[i] = x
					return put(n)
				})
				f(fmt.Sprintf("%s - [%d]", path, i), put(append(append([]any{}, t[:i]...), t[i+1:]...)))
				f(fmt.Sprintf("%s ++ [%d]", path, i), put(append(append(append([]any{}, t[:i]...), t[i]), t[i:]...)))
			}
		case map[string]any:
			for k := range t {
				cp := func() map[string]any {
					n := map[string]any{}
					for a, b := range t {
						n[a] = b
					}
					return n
				}
				walk(t[k], path+"."+k, func(x any) any {
					n := cp()
					n[k] = x
					return put(n)
				})
				n := cp()
				delete(n, k)
				f(path+" - ."+k, put(n))
				n = cp()
				n[strings.ToUpper(k)+"x"] = n[k]
				delete(n, k)
				f(path+" ren ."+k, put(n))
			}
		}
	}
	walk(doc, "$", func(x any) any { return x })
}

type srv16 struct {
	name  string
	h     http.HandlerFunc
	raw   func(net.Conn) bool
	dial  string
	slow  bool
	class bool // run with every command
	long  bool // run with a timeout of 6 s
}

func onceThenHold(first http.HandlerFunc) http.HandlerFunc {
	var mu sync.Mutex
	seen := false
	return func(w http.ResponseWriter, q *http.Request) {
		mu.Lock()
		again := seen
		seen = true
		mu.Unlock()
		if again {
			<-q.Context().Done()
			return
		}
		first(w, q)
	}
}

func c16srv(c *Ctx) []srv16 {
	var l []srv16
	body := func(name string, b []byte, class bool) {
		l = append(l, srv16{name: name, h: serve(b, nil), class: class})
	}
	var doc any
	std := asJSON([]release{stdRelease("9.9.9"), stdRelease("1.0")})
	must(json.Unmarshal(std, &doc))
	mutateJSON(doc, func(n string, d any) {
		body(n, asJSON(d), strings.HasPrefix(n, "$ ") || strings.HasPrefix(n, "$[0] ") || strings.HasPrefix(n, "$[0].assets "))
	})
	for i := 0; i < len(std); i++ {
		body(fmt.Sprintf("cut to %d", i), std[:i], false)
	}
	for i, b := range []string{"", " ", "null", "[]", "{}", "[[]]", "\"x\"", "5", "[null]", "[{}]", "[null,null]", "[{},{}]", strings.Repeat("[", 20000), strings.Repeat("[", 3000) + strings.Repeat("]", 3000), strings.Repeat(`{"a":`, 20000), "\xff\xfe", "\x00", "\ufeff[]", "[1e999]", `[{"tag_name":1e999}]`, "<html></html>", `[{"tag_name":"9.9.9","assets":[]}]`, `[{"tag_name":"9.9.9"}]`, `[{"tag_name":"9.9.9","assets":null}]`, `[{"tag_name":"9.9.9","assets":[{}]}]`, `[{"tag_name":"9.9.9","assets":[null]}]`, `[{"assets":[{"name":"x.tar.gz"}]}]`,
		`[{"tag_name":"9.9.9","body":"` + strings.Repeat("x", 2000000) + `","assets":[]}]`, `[{"tag_name":"` + strings.Repeat("9.", 100000) + `9","body":"","assets":[]}]`, `[{"tag_name":".","assets":[]}]`, `[{"tag_name":"99999999999999999999999999.1","assets":[]}]`, `[{"tag_name":"-1","assets":[]}]`, `{"message":"API rate limit exceeded","documentation_url":"x"}`} {
		body(fmt.Sprintf("text %d", i), []byte(b), true)
	}
	for _, code := range []int{199, 201, 204, 206, 300, 301, 302, 304, 307, 400, 401, 403, 404, 429, 451, 500, 502, 503, 504, 599, 999} {
		for _, b := range []string{"", "text", string(std), "{}", "[]"} {
			if code < 200 {
				continue
			}
			l = append(l, srv16{name: fmt.Sprintf("status %d %.5q", code, b), class: b == "text" || b == "", h: func(w http.ResponseWriter, q *http.Request) {
				w.WriteHeader(code)
				if code != 204 && code != 304 {
					w.Write([]byte(b))
				}
			}})
		}
	}
	h := func(name string, f http.HandlerFunc) { l = append(l, srv16{name: name, h: f, class: true}) }
	h("redirect loop", func(w http.ResponseWriter, q *http.Request) { http.Redirect(w, q, q.URL.Path, 302) })
	h("redirect nowhere", func(w http.ResponseWriter, q *http.Request) { http.Redirect(w, q, "https://unknown.example/x", 302) })
	h("redirect other scheme", func(w http.ResponseWriter, q *http.Request) { http.Redirect(w, q, "ftp://x/", 302) })
	h("redirect bad", func(w http.ResponseWriter, q *http.Request) { w.Header().Set("Location", "::%zz"); w.WriteHeader(302) })
	h("abort", func(w http.ResponseWriter, q *http.Request) { panic(http.ErrAbortHandler) })
	h("announced longer", func(w http.ResponseWriter, q *http.Request) {
		w.Header().Set("Content-Length", strconv.Itoa(len(std)+5))
		w.Write(std)
	})
	h("half", func(w http.ResponseWriter, q *http.Request) {
		w.Write(std[:len(std)/2])
		w.(http.Flusher).Flush()
		panic(http.ErrAbortHandler)
	})
	h("gzip garbage", func(w http.ResponseWriter, q *http.Request) {
		w.Header().Set("Content-Encoding", "gzip")
		w.Write([]byte("not gzip"))
	})
	rawAnswer := func(name, text string) {
		h("raw "+name, func(w http.ResponseWriter, q *http.Request) {
			cn, _, err := w.(http.Hijacker).Hijack()
			if err == nil {
				cn.Write([]byte(text))
				cn.Close()
			}
		})
	}
	rawAnswer("garbage", "\x00\x01\x02garbage\r\n\r\n")
	rawAnswer("no status", "HTTP/1.1\r\n\r\n")
	rawAnswer("bad length", "HTTP/1.1 200 OK\r\nContent-Length: -5\r\n\r\n[]")
	rawAnswer("bad chunk", "HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\nZZ\r\n")
	rawAnswer("nothing", "")
	raw := func(name string, f func(net.Conn)) {
		l = append(l, srv16{name: name, class: true, h: serve(std, nil), raw: func(cn net.Conn) bool { f(cn); return true }})
	}
	raw("conn closed", func(cn net.Conn) { cn.Close() })
	raw("conn garbage", func(cn net.Conn) { cn.Write([]byte("garbage garbage garbage")); cn.Close() })
	raw("conn plain http", func(cn net.Conn) {
		cn.Write([]byte("HTTP/1.0 400 Bad Request\r\n\r\nClient sent an HTTPS request"))
		cn.Close()
	})
	raw("conn hello then closed", func(cn net.Conn) { b := make([]byte, 10); cn.Read(b); cn.Close() })
	raw("conn alert", func(cn net.Conn) { cn.Write([]byte{21, 3, 3, 0, 2, 2, 40}); cn.Close() })
	l = append(l, srv16{name: "refused", dial: "refuse", class: true})
	// stalls: the connection is held for as long as the client wants
	hold := func(w http.ResponseWriter, q *http.Request) { <-q.Context().Done() }
	s := func(name string, x srv16) { x.name, x.slow, x.class = "stall "+name, true, true; l = append(l, x) }
	s("dial", srv16{dial: "stall"})
	s("after connect", srv16{h: serve(std, nil), raw: func(cn net.Conn) bool {
		go func() {
			b := make([]byte, 1<<16)
			for {
				if _, e := cn.Read(b); e != nil {
					cn.Close()
					return
				}
			}
		}()
		return true
	}})
	s("before headers", srv16{h: hold})
	s("after headers", srv16{h: func(w http.ResponseWriter, q *http.Request) {
		w.WriteHeader(200)
		w.(http.Flusher).Flush()
		hold(w, q)
	}})
	s("in the body", srv16{h: func(w http.ResponseWriter, q *http.Request) {
		w.Write(std[:len(std)-3])
		w.(http.Flusher).Flush()
		hold(w, q)
	}})
	s("announced, one byte missing", srv16{h: func(w http.ResponseWriter, q *http.Request) {
		w.Header().Set("Content-Length", strconv.Itoa(len(std)))
		w.Write(std[:len(std)-1])
		w.(http.Flusher).Flush()
		hold(w, q)
	}})
	drip := func(d time.Duration, max int) http.HandlerFunc {
		return func(w http.ResponseWriter, q *http.Request) {
			w.Write([]byte(`[{"tag_name":"`))
			for i := 0; i < max; i++ {
				if _, err := w.Write([]byte("9")); err != nil {
					return
				}
				w.(http.Flusher).Flush()
				select {
				case <-q.Context().Done():
					return
				case <-time.After(d):
				}
			}
		}
	}
	// a first answer of every kind, and nothing after it
	for _, code := range []int{200, 301, 302, 304, 401, 403, 404, 408, 425, 429, 500, 502, 503, 504} {
		l = append(l, srv16{name: fmt.Sprintf("status %d, then stalled", code), long: true, h: onceThenHold(func(w http.ResponseWriter, q *http.Request) {
			w.Header().Set("Retry-After", "1")
			w.Header().Set("X-RateLimit-Remaining", "0")
			if code == 301 || code == 302 {
				w.Header().Set("Location", releasesPath+"?again")
			}
			w.WriteHeader(code)
		})})
	}
	for i, b := range []string{"", "[]", "null", "{}", "<html>", `[{"tag_name":"9.9.9"}]`, string(std[:40]), string(std)} {
		l = append(l, srv16{name: fmt.Sprintf("answer %d, then stalled", i), long: true, h: onceThenHold(func(w http.ResponseWriter, q *http.Request) { w.Write([]byte(b)) })})
	}
	l = append(l, srv16{name: "abort, then stalled", long: true, h: onceThenHold(func(w http.ResponseWriter, q *http.Request) { panic(http.ErrAbortHandler) })})
	for _, ph := range []struct {
		n string
		h http.HandlerFunc
	}{{"before headers", hold}, {"after headers", func(w http.ResponseWriter, q *http.Request) {
		w.WriteHeader(200)
		w.(http.Flusher).Flush()
		hold(w, q)
	}}, {"in the body", func(w http.ResponseWriter, q *http.Request) {
		w.Write(std[:len(std)-3])
		w.(http.Flusher).Flush()
		hold(w, q)
	}}, {"drip", drip(500*time.Millisecond, 100)}} {
		l = append(l, srv16{name: "long stall " + ph.n, long: true, h: ph.h})
	}
	l = append(l, srv16{name: "long stall dial", long: true, dial: "stall"})
	for _, n := range []int{1 << 16, 1 << 20, 3 << 20, 12 << 20} {
		for _, tag := range []string{"9.9.9", "1.0"} {
			for _, cl := range []bool{false, true} {
				b := []byte(`[{"tag_name":"` + tag + `","body":"` + strings.Repeat("x", n) + `","assets":[]}]`)
				l = append(l, srv16{name: fmt.Sprintf("%d bytes, length announced %v", n, cl), h: func(w http.ResponseWriter, q *http.Request) {
					if cl {
						w.Header().Set("Content-Length", strconv.Itoa(len(b)))
					}
					w.Write(b)
				}})
			}
		}
	}
	s("drip", srv16{h: drip(100*time.Millisecond, 1000)})
	s("slow drip", srv16{h: drip(700*time.Millisecond, 1000)})
	s("status answer held", srv16{h: func(w http.ResponseWriter, q *http.Request) {
		w.WriteHeader(503)
		w.(http.Flusher).Flush()
		hold(w, q)
	}})
	s("redirect then held", srv16{h: func(w http.ResponseWriter, q *http.Request) {
		if q.URL.RawQuery == "" {
			http.Redirect(w, q, "?x", 302)
			return
		}
		hold(w, q)
	}})
	s("redirects, each slow", srv16{h: func(w http.ResponseWriter, q *http.Request) {
		select {
		case <-q.Context().Done():
		case <-time.After(600 * time.Millisecond):
		}
		n, _ := strconv.Atoi(q.URL.RawQuery)
		http.Redirect(w, q, fmt.Sprintf("?%d", n+1), 302)
	}})
	s("headers without end", srv16{h: func(w http.ResponseWriter, q *http.Request) {
		cn, _, err := w.(http.Hijacker).Hijack()
		if err != nil {
			return
		}
		cn.Write([]byte("HTTP/1.1 200 OK\r\n"))
		for i := 0; i < 600; i++ {
			if _, err := cn.Write([]byte(fmt.Sprintf("X-H%d: v\r\n", i))); err != nil {
				break
			}
			time.Sleep(100 * time.Millisecond)
		}
		cn.Close()
	}})
	return l
}

func c16(c *Ctx) {
	c.Level = "fault_enumeration"
	c.Rule = "case = (command, behaviour of the release server): a process run with an automatic check due, compared in output and exit status with the run without a check; the only difference allowed is the update notice before the output. Behaviours: every single-node mutation of a release document (replacement by every JSON type, removal, doubling, renaming), every truncation of it, hostile texts, HTTP states x bodies, aborted, cut, wrongly framed and redirected answers, TLS-level failures, refused connections, stalls in every phase, also after a first complete answer (timeouts 1 and 6 s; at most the timeout plus 3 s of slack are allowed). Non-trivial: the server does not give a complete well-formed answer"
	c.Assume = []string{"slack of 3 s on the time limit, for loaded machines", "the interactive session under the same answers is explored by C21"}
	v := &VVault{Password: "pw", Seed: "c16", Items: simpleItems(6)}
	rigs := c.rigs()
	for _, r := range rigs {
		v.write(filepath.Join(r.Home(), "v"))
	}
	u := v.Items[0].Uid
	cmds := []struct {
		name  string
		args  []string
		pass  string
		stdin string
		first bool
	}{
		{"categories", []string{"categories"}, "", "", false},
		{"list", []string{"list", "-v", "VAULT"}, "pw", "", false},
		{"overview", []string{"overview", u, "-v", "VAULT"}, "pw", "", false},
		{"details", []string{"details", u, "-v", "VAULT"}, "pw", "", false},
		{"configure", []string{"configure"}, "", "y\n/x y\nn\n3\n4\n", false},
		{"configure first", []string{"configure"}, "", "y\n/x y\nn\n3\n4\n", true},
		{"list wrong", []string{"list", "-v", "VAULT"}, "no", "", false},
		{"list invalid", []string{"list", "-v", "/nonexistent"}, "", "", false},
	}
	run := func(r *rig, k int, s srv16, notify bool) *Result {
		cm := cmds[k]
		os.RemoveAll(filepath.Join(r.Home(), ".config"))
		if !cm.first {
			t := 1
			if s.long {
				t = 6
			}
			r.Config(cfgText("/d", t, 0, notify))
		}
		h := s.h
		if h == nil {
			h = serve(nil, nil)
		}
		r.S.Set(h, s.raw)
		d := s.dial
		if d == "" {
			d = r.S.Dial()
		}
		args := append([]string{}, cm.args...)
		for i := range args {
			if args[i] == "VAULT" {
				args[i] = filepath.Join(r.Home(), "v")
			}
		}
		x := Run{Args: args, Stdin: cm.stdin, Dial: d, Timeout: 25 * time.Second}
		if cm.pass != "" {
			x.Pass = &cm.pass
		}
		return r.Exec(x)
	}
	// output with the run root left out; the dialogue shows the previous notification setting
	norm := func(r *rig, o string) string {
		o = strings.ReplaceAll(o, r.Dir, "ROOT")
		return strings.ReplaceAll(o, "notifications? (n)", "notifications? (y)")
	}
	base := make([]*Result, len(cmds))
	basecfg := make([]setting, len(cmds))
	for k := range cmds {
		s := srv16{name: "baseline", h: serve(asJSON([]release{stdRelease("0.1")}), nil)}
		base[k] = run(rigs[0], k, s, false)
		base[k].Out = norm(rigs[0], base[k].Out)
		if base[k].Panicked() || base[k].Timeout {
			c.Fail("baseline", obj{"cmd": cmds[k].name}, "baseline run of %s: %s", cmds[k].name, base[k].Err)
		}
		basecfg[k], _, _ = readSetting(rigs[0].Cfg())
	}
	srvs := c16srv(c)
	type job struct {
		k int
		s srv16
	}
	var slow, jobs []job
	for _, s := range srvs {
		for k := range cmds {
			if k == 0 || s.class || c.Thorough && !s.long {
				if s.slow || s.long {
					slow = append(slow, job{k, s})
				} else {
					jobs = append(jobs, job{k, s})
				}
			}
		}
	}
	jobs = append(slow, jobs...)
	c.Extra("server_behaviours", len(srvs))
	c.Par(len(jobs), func(w, i int) {
		if c.Stop() {
			return
		}
		j := jobs[i]
		r := rigs[w]
		x := run(r, j.k, j.s, true)
		c.Eval(1)
		c.Distinct(1)
		cm := cmds[j.k]
		desc := obj{"command": cm.name, "server": j.s.name, "out": clip(x.Out), "err": clip(x.Err), "exit": x.Code, "seconds": x.Wall.Seconds()}
		limit := 1*time.Second + 3*time.Second
		if j.s.long {
			limit = 9 * time.Second
		}
		if x.Timeout || x.Wall > limit {
			c.Fail("late", desc, "%s, server %s: took %.1f s with a slack of 3 s on the timeout", cm.name, j.s.name, x.Wall.Seconds())
			return
		}
		if x.Panicked() || x.Killed {
			c.Fail("crash", desc, "%s, server %s: crashed: %s", cm.name, j.s.name, clip(x.Err))
			return
		}
		if x.Dials() == 0 {
			c.Fail("no-check", desc, "%s, server %s: no check was made", cm.name, j.s.name)
			return
		}
		out := norm(r, x.Out)
		if strings.HasPrefix(out, noticeText) {
			if n := strings.Index(out, "\n\n"); n >= 0 {
				out = out[n+2:]
			}
		}
		if out != base[j.k].Out || x.Code != base[j.k].Code || x.Err != base[j.k].Err {
			c.Fail("differs", desc, "%s, server %s: exit %d (expected %d), output %q, expected %q", cm.name, j.s.name, x.Code, base[j.k].Code, clip(out), clip(base[j.k].Out))
			return
		}
		if strings.HasPrefix(cm.name, "configure") {
			if g, _, o := readSetting(r.Cfg()); g != basecfg[j.k] || o != "" {
				c.Fail("differs", desc, "%s, server %s: saved %+v, expected %+v", cm.name, j.s.name, g, basecfg[j.k])
			}
		}
		if i%800 == 30 {
			c.Sample(desc)
		}
	})
}

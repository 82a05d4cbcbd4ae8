package main

import (
	"fmt"
	"net"
	"os"
	"path/filepath"
	"strings"
	"syscall"
)

func init() { checks["C22"] = c22 }

type vpath struct {
	name, path string
	ok         bool
	vault      string // which vault: "A" or "B"
	cause      string // must be named
}

// vaultPaths creates every kind of file system object a vault path can denote.
func vaultPaths(c *Ctx) (ps []vpath, a, b *VVault) {
	base := c.Dir("objects")
	a = &VVault{Password: "pw-a", Seed: "c22a", Items: []VItem{simpleItem(1, "001", "TitleOfA", false, 1)}}
	b = &VVault{Password: "pw-b", Seed: "c22b", Items: []VItem{simpleItem(2, "001", "TitleOfB", false, 1)}}
	p := func(n string) string { return filepath.Join(base, n) }
	a.write(p("vaultA.opvault"))
	b.write(p("vaultB.opvault"))
	a.write(p("with space"))
	a.write(p("ünï [x] *"))
	A := p("vaultA.opvault")
	add := func(name, path string, ok bool) { ps = append(ps, vpath{name, path, ok, "A", path}) }
	add("valid", A, true)
	ps = append(ps, vpath{"valid-B", p("vaultB.opvault"), true, "B", ""})
	add("valid-slash", A+"/", true)
	add("valid-dots", A+"/default/../.", true)
	add("valid-space", p("with space"), true)
	add("valid-special", p("ünï [x] *"), true)
	add("valid-relative", "../../objects/vaultA.opvault", true)
	add("valid-relative-dot", "./../../objects/../objects/vaultA.opvault/", true)
	ln := func(target, n string) string { must(os.Symlink(target, p(n))); return p(n) }
	add("link", ln(A, "link"), true)
	add("link-link", ln("link", "link2"), true)
	add("link-relative", ln("vaultA.opvault", "link3"), true)
	must(os.MkdirAll(p("linkdefault"), 0755))
	ln(A+"/default", "linkdefault/default")
	add("link-default", p("linkdefault"), true)
	must(os.MkdirAll(p("linkprofile/default"), 0755))
	for _, f := range []string{"profile.js", "band_1.js"} {
		ln(A+"/default/"+f, "linkprofile/default/"+f)
	}
	add("link-profile", p("linkprofile"), true)
	add("absent", p("absent"), false)
	add("absent-deep", p("absent/x/y"), false)
	add("relative-absent", "nowhere", false)
	must(os.WriteFile(p("file"), []byte("x"), 0644))
	must(os.WriteFile(p("empty"), nil, 0644))
	add("file", p("file"), false)
	add("empty-file", p("empty"), false)
	add("below-file", p("file/x"), false)
	add("link-to-file", ln("file", "linkfile"), false)
	add("dangling", ln("gone", "dangling"), false)
	add("loop", ln("loop", "loop"), false)
	must(syscall.Mkfifo(p("fifo"), 0666))
	add("fifo", p("fifo"), false)
	l, err := net.Listen("unix", p("sock"))
	must(err)
	_ = l
	add("socket", p("sock"), false)
	add("device", "/dev/null", false)
	must(os.MkdirAll(p("emptydir"), 0755))
	add("empty-dir", p("emptydir"), false)
	must(os.MkdirAll(p("defaultfile"), 0755))
	must(os.WriteFile(p("defaultfile/default"), []byte("x"), 0644))
	add("default-is-file", p("defaultfile"), false)
	must(os.MkdirAll(p("emptydefault/default"), 0755))
	add("default-empty", p("emptydefault"), false)
	must(os.MkdirAll(p("profdir/default/profile.js"), 0755))
	add("profile-is-dir", p("profdir"), false)
	must(os.MkdirAll(p("proflinkdir/default"), 0755))
	ln(p("emptydir"), "proflinkdir/default/profile.js")
	add("profile-links-to-dir", p("proflinkdir"), false)
	must(os.MkdirAll(p("profdangling/default"), 0755))
	ln("gone", "profdangling/default/profile.js")
	add("profile-dangling", p("profdangling"), false)
	must(os.MkdirAll(p("profcase/default"), 0755))
	must(os.WriteFile(p("profcase/default/Profile.js"), []byte("x"), 0644))
	must(os.WriteFile(p("profcase/default/profile.js~"), []byte("x"), 0644))
	must(os.WriteFile(p("profcase/profile.js"), a.profile(a.Keys.MasterBlob, a.Keys.OverBlob, a.Salt), 0644))
	add("profile-elsewhere", p("profcase"), false)
	must(os.MkdirAll(p("bandsonly/default"), 0755))
	must(os.WriteFile(p("bandsonly/default/band_0.js"), []byte("ld({});"), 0644))
	add("bands-only", p("bandsonly"), false)
	add("the-default-dir", A+"/default", false)
	add("the-profile-file", A+"/default/profile.js", false)
	add("parent", base, false)
	// a path means what it says: nothing in it is expanded, cut off or guessed
	for _, n := range []string{"$HOME", "${PATH}", "$", "~", "~root", "blank ", " blank", "a\ttab", "new\nline", "100%25", "q'uote", "q\"uote", "back\\slash", "-dash", "a,b;c", "#hash", "{a,b}", "dot.", "...", "UPPER", "Mixed.OPVault", "ne\u0301e", "default"} {
		a.write(p("lit/" + n))
		add(fmt.Sprintf("literal %q", n), p("lit/"+n), true)
		ps[len(ps)-1].cause = ""
	}
	for _, x := range []string{" ", "\t", "  /", "~", "~/", "$HOME", "$HOME/..", ".", "..", "/", "//", A + " ", " " + A, A + "\n", "'" + A + "'", "\"" + A + "\"", "file://" + A, strings.ToUpper(A), p("vaulta.opvault"), p("vaultA.opvaul?"), p("vault*"), p("vaultA"), p("vaultA.opvault.bak"), A + ".opvault", A + "/default/default", A + "/..", p("lit"), p("lit/blank"), p("lit/upper"), p("lit/dot"), p("lit/n\u00e9e"), A + "," + A, A + ":" + A, p("file") + "/", A + "/default/profile.js/", p("vaultA.opvault\\default"), p("absent") + "/../vaultA.opvault"} {
		add(fmt.Sprintf("not %q", x), x, false)
		ps[len(ps)-1].cause = ""
	}
	if canSetid() {
		a.write(p("locked"))
		must(os.Chmod(p("locked"), 0))
		add("no-access", p("locked"), false)
		a.write(p("lockeddefault"))
		must(os.Chmod(p("lockeddefault/default"), 0))
		add("no-access-default", p("lockeddefault"), false)
	}
	return
}

func c22(c *Ctx) {
	c.Level = "exploration"
	c.Rule = "case = (explicit path or none, configured default, command): 100 kinds of file system objects and path forms (symbolic links, special files, permissions, blanks, quotes, variables and patterns that must be taken literally) as explicit vault x 3 defaults, and each as the configured default, for list, overview, details and the interactive mode. Non-trivial: every case"
	c.Assume = []string{"an explicitly empty -v counts as not given"}
	ps, a, b := vaultPaths(c)
	none := vpath{name: "none"}
	type job struct {
		exp, def vpath
		cmd      string
	}
	var jobs []job
	find := func(n string) vpath {
		for _, p := range ps {
			if p.name == n {
				return p
			}
		}
		panic("harness: " + n)
	}
	for _, cmd := range []string{"list", "overview", "details", "gui"} {
		defs := []vpath{none, find("valid-B"), find("absent"), find("file")}
		for _, e := range ps {
			for _, d := range defs {
				jobs = append(jobs, job{e, d, cmd})
			}
		}
		for _, d := range append(ps, none) {
			jobs = append(jobs, job{none, d, cmd})
		}
		if c.Thorough {
			for _, e := range ps {
				for _, d := range ps {
					jobs = append(jobs, job{e, d, cmd})
				}
			}
		}
	}
	roots := make([]*Root, NCPU)
	for w := range roots {
		roots[w] = c.NewRoot(fmt.Sprintf("r%d", w))
	}
	c.Par(len(jobs), func(w, k int) {
		j := jobs[k]
		root := roots[w]
		root.Config(cfgText(j.def.path, 1, 1, false))
		use := j.exp
		var args []string
		if j.cmd != "gui" {
			args = append(args, j.cmd)
		}
		if j.exp.name != "none" {
			switch k % 3 {
			case 0:
				args = append(args, "-v", j.exp.path)
			case 1:
				args = append(args, "--vault", j.exp.path)
			default:
				args = append(args, "--vault="+j.exp.path)
			}
		} else {
			use = j.def
		}
		v := a
		if use.vault == "B" {
			v = b
		}
		if j.cmd == "overview" || j.cmd == "details" {
			args = append(args, v.Items[0].Uid)
		}
		c.Eval(1)
		c.Distinct(1)
		r := root.Exec(Run{Args: args, Pass: &v.Password})
		desc := obj{"explicit": j.exp.name, "default": j.def.name, "args": args, "config vault": j.def.path, "out": r.Out, "err": r.Err, "code": r.Code}
		bad := func(key, f string, x ...any) {
			c.Fail(key, desc, "explicit %s, default %s, %s: %s", j.exp.name, j.def.name, j.cmd, fmt.Sprintf(f, x...))
		}
		if r.Timeout || r.Panicked() || r.Killed {
			bad("crash", "crashed or hung: %s", r.Err)
			return
		}
		out := r.All()
		asked := r.Asked || strings.Contains(out, "Password") || strings.Contains(out, "VERIF-GUI-STARTED")
		if !use.ok {
			if asked {
				bad("asked", "a password is asked for although the vault path is invalid")
			}
			if r.Code == 0 || r.Code == 42 {
				bad("status", "exit status %d for an invalid vault path", r.Code)
			}
			if !strings.Contains(out, "invalid vault") {
				bad("message", "no \"invalid vault\" error: %q", out)
			} else if use.cause != "" && !strings.Contains(filepathClean(out), filepath.Clean(use.cause)) {
				bad("cause", "the error does not name the path: %q", out)
			}
			return
		}
		if !asked {
			bad("refused", "valid vault path is refused: %q", out)
			return
		}
		if j.cmd == "gui" {
			if r.Code != 42 {
				bad("gui", "exit status %d, output %q", r.Code, out)
			}
			return
		}
		if r.Code != 0 || !strings.Contains(r.Out, "TitleOf"+use.vault) {
			bad("wrong-vault", "expected the item of vault %s, got exit %d: %q", use.vault, r.Code, out)
		}
		if k%100 == 0 {
			c.Sample(desc)
		}
	})
}

func filepathClean(s string) string { return strings.ReplaceAll(s, "//", "/") }

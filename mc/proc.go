package main

import (
	"bytes"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/hex"
	"encoding/pem"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"log"
	"math/big"
	"net"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"slices"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"
	"unsafe"
)

// Runs of the instrumented application as a process of its own: unprivileged user, its own
// run root (home, tmp, bin), mutations outside of the root refused by the os overlay,
// network answered by a TLS server of the harness.

const runUid = 65534

var (
	procMu   sync.Mutex
	procs    = map[int]bool{}
	canSetid = sync.OnceValue(func() bool {
		cmd := exec.Command("/bin/true")
		cmd.SysProcAttr = &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: runUid, Gid: runUid}}
		return cmd.Run() == nil
	})
)

func killAll() {
	procMu.Lock()
	defer procMu.Unlock()
	for p := range procs {
		syscall.Kill(-p, syscall.SIGKILL)
		syscall.Kill(p, syscall.SIGKILL)
	}
}

type Root struct {
	Dir string
	C   *Ctx
}

// NewRoot creates an empty run root.
func (c *Ctx) NewRoot(name string) *Root {
	r := &Root{filepath.Join(c.Scratch, name), c}
	r.Reset()
	return r
}

func (r *Root) Reset() {
	must(os.RemoveAll(r.Dir))
	for _, d := range []string{"home", "tmp", "bin"} {
		must(os.MkdirAll(filepath.Join(r.Dir, d), 0755))
	}
	must(os.WriteFile(r.Exe(), []byte(oldBinary), 0755))
	r.Own()
}

const oldBinary = "#!OLD BINARY 1.3.1\n"

func (r *Root) Exe() string     { return filepath.Join(r.Dir, "bin", "1pass") }
func (r *Root) Home() string    { return filepath.Join(r.Dir, "home") }
func (r *Root) Cfg() string     { return filepath.Join(r.Dir, "home", ".config", "1pass") }
func (r *Root) CfgFile() string { return filepath.Join(r.Cfg(), "1pass.yml") }
func (r *Root) Last() string    { return filepath.Join(r.Cfg(), "lastcheck") }
func (r *Root) Cache() string   { return filepath.Join(r.Dir, "tmp", "1pass") }

// Own gives everything below the root to the unprivileged user.
func (r *Root) Own() {
	if !canSetid() {
		return
	}
	filepath.WalkDir(r.Dir, func(p string, _ fs.DirEntry, err error) error {
		if err == nil {
			os.Lchown(p, runUid, runUid)
		}
		return nil
	})
}

func (r *Root) Write(path, text string) {
	must(os.MkdirAll(filepath.Dir(path), 0755))
	must(os.WriteFile(path, []byte(text), 0644))
}

// Config writes a configuration file.
func (r *Root) Config(text string) { r.Write(r.CfgFile(), text); r.Own() }

func cfgText(vault string, timeout, period int, notify bool) string {
	return fmt.Sprintf("opvault: %q\ntimeout: %d\nupdate-notification: %v\nupdate-period: %d\n", vault, timeout, notify, period)
}

type Run struct {
	Args    []string
	Stdin   string // plain input (pipe)
	Pty     bool   // terminal on stdin
	Lines   string // typed on the terminal at once
	Pass    *string
	Dial    string
	Fault   string
	Now     int64  // frozen wall clock (unix seconds), 0: real
	Dir     string // working directory
	Bin     string
	Timeout time.Duration
	OnOut   func(sofar string) // called while output arrives
	Gate    *Gate
	Tag     string // distinguishes simultaneous runs in one root
	Env     []string
	Unset   []string  // environment variables taken away
	Size    [2]uint16 // rows and columns of the terminal
	Wrap    []string  // command in front of the application
}

type Result struct {
	Out, Err, Echo string
	Code           int
	Killed         bool // died from a signal
	Timeout        bool
	Asked          bool // echo was switched off (a password was asked for)
	Log            []string
	Wall           time.Duration
}

func (r *Result) All() string { return r.Out + r.Err }
func (r *Result) Panicked() bool {
	return strings.Contains(r.Err, "panic:") || strings.Contains(r.Err, "goroutine ") || strings.Contains(r.Err, "fatal error:")
}
func (r *Result) Dials() int {
	n := 0
	for _, l := range r.Log {
		if strings.HasPrefix(l, "DIAL ") {
			n++
		}
	}
	return n
}
func (r *Result) Muts() []string {
	var m []string
	for _, l := range r.Log {
		if strings.HasPrefix(l, "MUT ") {
			m = append(m, l)
		}
	}
	return m
}
func (r *Result) Deny() []string {
	var m []string
	for _, l := range r.Log {
		if strings.HasPrefix(l, "DENY ") {
			m = append(m, l)
		}
	}
	return m
}

// mutation returns op, path and data of a MUT or DENY log line.
func mutation(l string) (op, path string, data []byte) {
	f := strings.SplitN(l, " ", 4)
	if len(f) < 4 {
		return
	}
	op = f[2]
	rest := f[3]
	if strings.HasPrefix(l, "MUT ") {
		i := strings.LastIndex(rest, " ")
		data, _ = hex.DecodeString(rest[i+1:])
		rest = rest[:i]
	}
	return op, rest, data
}

func ioctl(fd uintptr, req, arg uintptr) error {
	_, _, e := syscall.Syscall(syscall.SYS_IOCTL, fd, req, arg)
	if e != 0 {
		return e
	}
	return nil
}

func openPty() (master, slave *os.File, err error) {
	master, err = os.OpenFile("/dev/ptmx", os.O_RDWR|syscall.O_NOCTTY, 0)
	if err != nil {
		return
	}
	var n, z int32
	if err = ioctl(master.Fd(), syscall.TIOCSPTLCK, uintptr(unsafe.Pointer(&z))); err != nil {
		return
	}
	if err = ioctl(master.Fd(), syscall.TIOCGPTN, uintptr(unsafe.Pointer(&n))); err != nil {
		return
	}
	slave, err = os.OpenFile(fmt.Sprintf("/dev/pts/%d", n), os.O_RDWR|syscall.O_NOCTTY, 0)
	return
}

func echoOff(m *os.File) bool {
	var t syscall.Termios
	if ioctl(m.Fd(), syscall.TCGETS, uintptr(unsafe.Pointer(&t))) != nil {
		return false
	}
	return t.Lflag&syscall.ECHO == 0
}

type syncBuf struct {
	mu sync.Mutex
	b  bytes.Buffer
	f  func(string)
}

func (s *syncBuf) Write(p []byte) (int, error) {
	s.mu.Lock()
	s.b.Write(p)
	t := ""
	if s.f != nil {
		t = s.b.String()
	}
	s.mu.Unlock()
	if s.f != nil {
		s.f(t)
	}
	return len(p), nil
}
func (s *syncBuf) String() string {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.b.String()
}

// Exec runs the application once.
func (r *Root) Exec(s Run) *Result {
	c := r.C
	res := &Result{Code: -1}
	logf := r.Dir + s.Tag + ".log"
	os.Remove(logf)
	lf, err := os.OpenFile(logf, os.O_CREATE|os.O_WRONLY|os.O_TRUNC, 0666)
	must(err)
	lf.Chmod(0666)
	lf.Close()
	bin := s.Bin
	if bin == "" {
		bin = c.App
	}
	argv := append(append(append([]string(nil), s.Wrap...), bin), s.Args...)
	cmd := exec.Command(argv[0], argv[1:]...)
	cmd.Dir = r.Home()
	if s.Dir != "" {
		cmd.Dir = s.Dir
	}
	if s.Dial == "" {
		s.Dial = "refuse"
	}
	cmd.Env = []string{"HOME=" + r.Home(), "TZ=UTC", "TERM=xterm", "PATH=/usr/bin:/bin", "GOMAXPROCS=2", "SSL_CERT_DIR=/nonexistent", "SSL_CERT_FILE=" + filepath.Join(c.Scratch, "ca.pem"),
		"VERIF_ROOT=" + r.Dir, "VERIF_LOG=" + logf, "VERIF_EXE=" + r.Exe(), "VERIF_DIAL=" + s.Dial}
	if s.Now != 0 {
		cmd.Env = append(cmd.Env, fmt.Sprintf("VERIF_NOW=%d", s.Now))
	}
	if s.Fault != "" {
		cmd.Env = append(cmd.Env, "VERIF_FAULT="+s.Fault)
	}
	cmd.Env = append(cmd.Env, s.Env...)
	for _, u := range s.Unset {
		cmd.Env = slices.DeleteFunc(cmd.Env, func(e string) bool { return strings.HasPrefix(e, u+"=") })
	}
	cmd.SysProcAttr = &syscall.SysProcAttr{Setsid: true}
	if canSetid() {
		cmd.SysProcAttr.Credential = &syscall.Credential{Uid: runUid, Gid: runUid}
	}
	out, errb := &syncBuf{f: s.OnOut}, &syncBuf{}
	cmd.Stdout, cmd.Stderr = out, errb
	var master, slave *os.File
	echo := &syncBuf{}
	echoDone := make(chan struct{})
	if s.Pty || s.Pass != nil {
		master, slave, err = openPty()
		must(err)
		if s.Size[0] != 0 {
			ws := [4]uint16{s.Size[0], s.Size[1]}
			must(ioctl(master.Fd(), syscall.TIOCSWINSZ, uintptr(unsafe.Pointer(&ws))))
		}
		cmd.Stdin = slave
		cmd.SysProcAttr.Setctty = true
		cmd.SysProcAttr.Ctty = 0
	} else {
		cmd.Stdin = strings.NewReader(s.Stdin)
		if s.Stdin == "" {
			cmd.Stdin = nil
		}
	}
	cmd.WaitDelay = 2 * time.Second
	if s.Gate != nil {
		cmd.ExtraFiles = []*os.File{s.Gate.childR, s.Gate.childW}
		cmd.Env = append(cmd.Env, "VERIF_GATE=3,4")
	}
	start := time.Now()
	must(cmd.Start())
	if s.Gate != nil {
		s.Gate.childR.Close()
		s.Gate.childW.Close()
	}
	pid := cmd.Process.Pid
	procMu.Lock()
	procs[pid] = true
	procMu.Unlock()
	done := make(chan struct{})
	if master != nil {
		slave.Close()
		go func() { io.Copy(echo, master); close(echoDone) }()
		if s.Lines != "" {
			master.Write([]byte(s.Lines))
		}
		if s.Pass != nil {
			go func() {
				var shown time.Time
				for {
					select {
					case <-done:
						return
					default:
					}
					if echoOff(master) {
						procMu.Lock()
						res.Asked = true
						procMu.Unlock()
						break
					}
					if shown.IsZero() && strings.Contains(out.String(), "assword") {
						shown = time.Now()
					}
					if !shown.IsZero() && time.Since(shown) > 2*time.Second {
						break // asked without switching the echo off
					}
					time.Sleep(150 * time.Microsecond)
				}
				master.Write([]byte(*s.Pass + "\n"))
			}()
		}
	}
	if s.Timeout == 0 {
		s.Timeout = 30 * time.Second
	}
	timer := time.AfterFunc(s.Timeout, func() {
		procMu.Lock()
		res.Timeout = true
		procMu.Unlock()
		syscall.Kill(-pid, syscall.SIGKILL)
		syscall.Kill(pid, syscall.SIGKILL)
	})
	err = cmd.Wait()
	timer.Stop()
	close(done)
	res.Wall = time.Since(start)
	procMu.Lock()
	delete(procs, pid)
	procMu.Unlock()
	if master != nil {
		select {
		case <-echoDone:
		case <-time.After(2 * time.Second):
		}
		master.Close()
		res.Echo = echo.String()
	}
	var ee *exec.ExitError
	switch {
	case err == nil:
		res.Code = 0
	case errors.As(err, &ee):
		if ws, ok := ee.Sys().(syscall.WaitStatus); ok && ws.Signaled() {
			res.Killed = true
		} else {
			res.Code = ee.ExitCode()
		}
	default:
		if cmd.ProcessState != nil {
			res.Code = cmd.ProcessState.ExitCode()
		} else {
			must(err)
		}
	}
	res.Out, res.Err = out.String(), errb.String()
	b, _ := os.ReadFile(logf)
	if t := strings.TrimSuffix(string(b), "\n"); t != "" {
		res.Log = strings.Split(t, "\n")
	}
	os.Remove(logf)
	return res
}

// Snapshot: every entry below dir with type, mode, owner-independent, and contents.
func Snapshot(dir string) map[string]string {
	m := map[string]string{}
	filepath.WalkDir(dir, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return nil
		}
		rel, _ := filepath.Rel(dir, p)
		i, e := d.Info()
		if e != nil {
			return nil
		}
		switch {
		case d.IsDir():
			m[rel] = fmt.Sprintf("dir %o", i.Mode().Perm())
		case i.Mode()&fs.ModeSymlink != 0:
			t, _ := os.Readlink(p)
			m[rel] = "link " + t
		case i.Mode().IsRegular():
			b, _ := os.ReadFile(p)
			m[rel] = fmt.Sprintf("file %o %s", i.Mode().Perm(), b)
		default:
			m[rel] = "other " + i.Mode().String()
		}
		return nil
	})
	return m
}

func snapDiff(a, b map[string]string) []string {
	var d []string
	for k, v := range a {
		if w, ok := b[k]; !ok {
			d = append(d, "removed "+k)
		} else if w != v {
			d = append(d, "changed "+k)
		}
	}
	for k := range b {
		if _, ok := a[k]; !ok {
			d = append(d, "created "+k)
		}
	}
	sort.Strings(d)
	return d
}

// ---------------------------------------------------------------- release server

type Server struct {
	Sock    string
	mu      sync.Mutex
	handler http.HandlerFunc
	raw     func(net.Conn) bool // takes over a connection before TLS
	reqs    []string
	conns   int
	tls     *tls.Config
	ch      chan net.Conn
	ln      net.Listener
}

func (c *Ctx) certs() (certPEM, keyPEM []byte) {
	mk := func(cn string, parent *x509.Certificate, pk *ecdsa.PrivateKey, ca bool) (*x509.Certificate, *ecdsa.PrivateKey, []byte) {
		k, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
		must(err)
		sn, _ := rand.Int(rand.Reader, big.NewInt(1<<62))
		t := &x509.Certificate{SerialNumber: sn, Subject: pkix.Name{CommonName: cn}, NotBefore: time.Unix(946684800, 0), NotAfter: time.Unix(4102444800, 0),
			IsCA: ca, BasicConstraintsValid: true, KeyUsage: x509.KeyUsageDigitalSignature}
		if ca {
			t.KeyUsage |= x509.KeyUsageCertSign
			parent, pk = t, k
		} else {
			t.DNSNames = []string{"api.github.com", "github.com", "dl.example"}
			t.ExtKeyUsage = []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth}
		}
		der, err := x509.CreateCertificate(rand.Reader, t, parent, &k.PublicKey, pk)
		must(err)
		x, err := x509.ParseCertificate(der)
		must(err)
		return x, k, der
	}
	ca, ck, cder := mk("verif ca", nil, nil, true)
	_, k, der := mk("verif", ca, ck, false)
	must(os.WriteFile(filepath.Join(c.Scratch, "ca.pem"), pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: cder}), 0644))
	kb, err := x509.MarshalECPrivateKey(k)
	must(err)
	return pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der}), pem.EncodeToMemory(&pem.Block{Type: "EC PRIVATE KEY", Bytes: kb})
}

var certOnce sync.Once
var certPair tls.Certificate

func (c *Ctx) NewServer(name string) *Server {
	certOnce.Do(func() {
		cp, kp := c.certs()
		must(os.WriteFile(filepath.Join(c.Scratch, "cert.pem"), cp, 0644))
		must(os.WriteFile(filepath.Join(c.Scratch, "key.pem"), kp, 0644))
		var err error
		certPair, err = tls.X509KeyPair(cp, kp)
		must(err)
	})
	s := &Server{Sock: filepath.Join(c.Scratch, name+".sock"), tls: &tls.Config{Certificates: []tls.Certificate{certPair}, NextProtos: []string{"http/1.1"}}, ch: make(chan net.Conn, 64)}
	ln, err := net.Listen("unix", s.Sock)
	must(err)
	os.Chmod(s.Sock, 0777)
	s.ln = ln
	go func() {
		for {
			conn, err := ln.Accept()
			if err != nil {
				return
			}
			s.mu.Lock()
			raw := s.raw
			s.conns++
			s.mu.Unlock()
			if raw != nil && raw(conn) {
				continue
			}
			s.ch <- tls.Server(conn, s.tls)
		}
	}()
	hs := &http.Server{Handler: http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) {
		s.mu.Lock()
		h := s.handler
		s.reqs = append(s.reqs, q.Method+" https://"+q.Host+q.URL.String())
		s.mu.Unlock()
		h(w, q)
	}), ErrorLog: nil}
	hs.ErrorLog = newNullLog()
	go hs.Serve(chanListener{s})
	return s
}

type chanListener struct{ s *Server }

func (l chanListener) Accept() (net.Conn, error) { return <-l.s.ch, nil }
func (l chanListener) Close() error              { return nil }
func (l chanListener) Addr() net.Addr            { return l.s.ln.Addr() }

// Set installs the handler (and an optional connection handler) and clears the counters.
func (s *Server) Set(h http.HandlerFunc, raw func(net.Conn) bool) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.handler, s.raw, s.reqs, s.conns = h, raw, nil, 0
}
func (s *Server) Reqs() []string {
	s.mu.Lock()
	defer s.mu.Unlock()
	return append([]string(nil), s.reqs...)
}
func (s *Server) Conns() int {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.conns
}
func (s *Server) Dial() string { return "unix:" + s.Sock }

func newNullLog() *log.Logger { return log.New(io.Discard, "", 0) }

const releasesPath = "/repos/mashmb/1pass/releases"

type asset struct {
	Name string `json:"name"`
	Url  string `json:"browser_download_url"`
}
type release struct {
	Tag    string  `json:"tag_name"`
	Body   string  `json:"body"`
	Assets []asset `json:"assets"`
}

func stdRelease(tag string) release {
	return release{tag, "CHANGES in " + tag, []asset{{"1pass.tar.gz", "https://github.com/dl/1pass.tar.gz"}, {"checksum.md5", "https://github.com/dl/checksum.md5"}}}
}

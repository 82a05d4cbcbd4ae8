// Verification hooks for package os (build-time overlay, never part of /repo).
//
// Active only when VERIF_ROOT is set:
//   VERIF_ROOT   every mutation outside this directory is refused (EPERM) and logged as DENY;
//                paths under /tmp are redirected to $VERIF_ROOT/tmp
//   VERIF_LOG    append-only log of mutations (one line each, data as hex)
//   VERIF_FAULT  n:kind[,n:kind...]  the n-th mutation is hit by a fault (n+: it and all later ones):
//                crash    the process is killed before the operation
//                half     (writes) half of the bytes are written, then the process is killed
//                err      the operation fails (ENOSPC / EIO) without effect
//                short    (writes) half of the bytes are written, then ENOSPC is returned
//                perm     the operation fails with EACCES without effect
//                xdev     (renames) fails with EXDEV without effect
//   VERIF_EXE    result of os.Executable
//   VERIF_GATE   r,w: before every mutation and every opening of a file below the root, a line is
//                written to descriptor w and a byte is awaited on descriptor r (controlled scheduling)
// VerifExitHook, when set, is called by os.Exit before the process ends.
package os

import "syscall"

var (
	VerifExitHook func(code int)
	verifRoot     string
	verifExe      string
	verifLogFd    = -1
	verifFaults   []verifFaultAt
	verifCount    int
	verifGateR    = -1
	verifGateW    = -1
	verifMu       = make(chan struct{}, 1)
	verifReady    = verifInit()
)

type verifFaultAt struct {
	n    int
	plus bool
	kind string
}

func verifInit() bool {
	verifRoot, _ = syscall.Getenv("VERIF_ROOT")
	if verifRoot == "" {
		return false
	}
	verifRoot = verifClean(verifRoot)
	verifExe, _ = syscall.Getenv("VERIF_EXE")
	if l, _ := syscall.Getenv("VERIF_LOG"); l != "" {
		fd, err := syscall.Open(l, syscall.O_WRONLY|syscall.O_APPEND|syscall.O_CREAT|syscall.O_CLOEXEC, 0666)
		if err == nil {
			verifLogFd = fd
		}
	}
	if g, _ := syscall.Getenv("VERIF_GATE"); len(g) == 3 {
		verifGateR, verifGateW = int(g[0]-'0'), int(g[2]-'0')
		syscall.CloseOnExec(verifGateR)
		syscall.CloseOnExec(verifGateW)
	}
	if f, _ := syscall.Getenv("VERIF_FAULT"); f != "" {
		for i := 0; i < len(f); i++ {
			x := verifFaultAt{}
			for i < len(f) && f[i] >= '0' && f[i] <= '9' {
				x.n = x.n*10 + int(f[i]-'0')
				i++
			}
			if i < len(f) && f[i] == '+' {
				x.plus = true
				i++
			}
			i++ // colon
			for i < len(f) && f[i] != ',' {
				x.kind += f[i : i+1]
				i++
			}
			verifFaults = append(verifFaults, x)
		}
	}
	return true
}

func verifActive() bool { return verifRoot != "" }

// VerifLog appends one line to the log.
func VerifLog(s string) {
	if verifLogFd >= 0 {
		b := make([]byte, 0, len(s)+1)
		for i := 0; i < len(s); i++ {
			if s[i] == '\n' {
				b = append(b, '\\', 'n')
			} else {
				b = append(b, s[i])
			}
		}
		syscall.Write(verifLogFd, append(b, '\n'))
	}
}

func verifClean(p string) string {
	if p == "" {
		return p
	}
	abs := p[0] == '/'
	var parts []string
	i := 0
	for i < len(p) {
		j := i
		for j < len(p) && p[j] != '/' {
			j++
		}
		c := p[i:j]
		switch c {
		case "", ".":
		case "..":
			if len(parts) > 0 && parts[len(parts)-1] != ".." {
				parts = parts[:len(parts)-1]
			} else if !abs {
				parts = append(parts, "..")
			}
		default:
			parts = append(parts, c)
		}
		i = j + 1
	}
	s := ""
	for k, c := range parts {
		if k > 0 || abs {
			s += "/"
		}
		s += c
	}
	if s == "" {
		if abs {
			return "/"
		}
		return "."
	}
	return s
}

func verifHasPrefix(p, dir string) bool {
	return p == dir || (len(p) > len(dir) && p[:len(dir)] == dir && p[len(dir)] == '/')
}

// verifPath redirects /tmp into the root.
func verifPath(p string) string {
	if verifRoot == "" || p == "" || p[0] != '/' {
		return p
	}
	c := verifClean(p)
	if verifHasPrefix(c, verifRoot) {
		return p
	}
	if verifHasPrefix(c, "/tmp") {
		r := verifRoot + "/tmp" + c[len("/tmp"):]
		if p[len(p)-1] == '/' && r[len(r)-1] != '/' {
			r += "/"
		}
		return r
	}
	return p
}

func verifAbs(p string) string {
	if p == "" {
		return p
	}
	if p[0] != '/' {
		if wd, err := syscall.Getwd(); err == nil {
			p = wd + "/" + p
		}
	}
	return verifClean(p)
}

func verifItoa(n int) string {
	if n == 0 {
		return "0"
	}
	s := ""
	for n > 0 {
		s = string(rune('0'+n%10)) + s
		n /= 10
	}
	return s
}

func verifHex(b []byte) string {
	const d = "0123456789abcdef"
	r := make([]byte, 0, 2*len(b))
	for _, c := range b {
		r = append(r, d[c>>4], d[c&15])
	}
	return string(r)
}

func verifDie() {
	VerifLog("KILLED")
	syscall.Kill(syscall.Getpid(), syscall.SIGKILL)
	select {}
}

// verifGate announces an operation and waits until it is allowed to go on.
func verifGate(op, path string) {
	if verifGateW < 0 {
		return
	}
	verifMu <- struct{}{}
	defer func() { <-verifMu }()
	l := op + " " + path
	b := make([]byte, 0, len(l)+1)
	for i := 0; i < len(l); i++ {
		if l[i] != '\n' {
			b = append(b, l[i])
		}
	}
	syscall.Write(verifGateW, append(b, '\n'))
	var x [1]byte
	for {
		n, err := syscall.Read(verifGateR, x[:])
		if n == 1 {
			return
		}
		if err != syscall.EINTR {
			verifGateW = -1 // nobody schedules any more
			return
		}
	}
}

// verifReadOpen is called before a file is opened for reading.
func verifReadOpen(path string) {
	if verifGateW < 0 {
		return
	}
	if a := verifAbs(path); verifHasPrefix(a, verifRoot) {
		verifGate("read", a)
	}
}

// verifMut is called before each mutation. Result: fault kind to apply by the caller
// ("" none, "half"/"short" for writes), or an error to return.
func verifMut(op, path string, data []byte, isWrite bool) (string, error) {
	if verifRoot == "" {
		return "", nil
	}
	verifMu <- struct{}{}
	n := verifCount
	verifCount++
	<-verifMu
	a := verifAbs(path)
	if !verifHasPrefix(a, verifRoot) {
		VerifLog("DENY " + verifItoa(n) + " " + op + " " + a)
		return "", syscall.EPERM
	}
	verifGate(op, a)
	VerifLog("MUT " + verifItoa(n) + " " + op + " " + a + " " + verifHex(data))
	for _, x := range verifFaults {
		if n != x.n && !(x.plus && n > x.n) {
			continue
		}
		switch x.kind {
		case "crash":
			verifDie()
		case "half", "short":
			if isWrite {
				return x.kind, nil
			}
			return "", syscall.ENOSPC
		case "xdev":
			if op == "rename" {
				return "", syscall.EXDEV
			}
		case "perm":
			return "", syscall.EACCES
		case "err":
			if isWrite || op == "open" || op == "mkdir" {
				return "", syscall.ENOSPC
			}
			return "", syscall.EIO
		}
	}
	return "", nil
}

func verifIsFile(name string) bool {
	if verifRoot == "" || name == "" || name[0] == '|' {
		return false
	}
	if len(name) >= 5 && name[:5] == "/dev/" && !verifHasPrefix(verifClean(name), verifRoot) {
		return false
	}
	return true
}

// verifWrite handles a write on a file opened by path; done=false: do the ordinary write.
func verifWrite(f *File, b []byte, w func([]byte) (int, error)) (n int, err error, done bool) {
	if !verifIsFile(f.name) {
		return 0, nil, false
	}
	k, e := verifMut("write", f.name, b, true)
	if e != nil {
		return 0, &PathError{Op: "write", Path: f.name, Err: e}, true
	}
	if k == "half" || k == "short" {
		m, _ := w(b[:len(b)/2])
		if k == "half" {
			verifDie()
		}
		if m < 0 {
			m = 0
		}
		return m, &PathError{Op: "write", Path: f.name, Err: syscall.ENOSPC}, true
	}
	return 0, nil, false
}

// verifRemoveAll removes a tree entry by entry, so that every entry is a fault point.
func verifRemoveAll(path string) error {
	if path == "" {
		return nil
	}
	if endsWithDot(path) {
		return &PathError{Op: "RemoveAll", Path: path, Err: syscall.EINVAL}
	}
	fi, err := Lstat(path)
	if err != nil {
		if IsNotExist(err) {
			return nil
		}
		return err
	}
	if fi.IsDir() {
		es, err := ReadDir(path)
		if err != nil && !IsNotExist(err) {
			return err
		}
		for _, e := range es {
			if err := verifRemoveAll(path + "/" + e.Name()); err != nil {
				return err
			}
		}
	}
	if err := Remove(path); err != nil && !IsNotExist(err) {
		return err
	}
	return nil
}

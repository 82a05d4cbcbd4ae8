#!/usr/bin/env python3
"""mkoverlay.py GOROOT GOMODCACHE REPO OUTDIR

Generates into OUTDIR the pieces of the instrumented build:
  std/...            patched copies of os and net of the Go distribution
  overlay.json       overlay for the standard library (used by mc and the application)
  overlay_app.json   the same plus the driver file added to package main of 1pass-app
  termbox/, gocui/   replacement modules (virtual terminal; gocui plus one registration line)
  app.mod, app.sum   copies of 1pass-app's go.mod/go.sum with the two replacements
Nothing of /repo is modified. Every patch asserts its anchor text.
"""
import json, os, re, shutil, sys
goroot, modcache, repo, out = sys.argv[1:5]
here = os.path.dirname(os.path.abspath(__file__))
src = os.path.join(here, '..', 'overlay')
os.makedirs(out, exist_ok=True)
replace = {}

def patch(rel, edits, sub):
    p = os.path.join(goroot, 'src', rel)
    s = open(p).read()
    for a, b in edits:
        assert s.count(a) == 1, (rel, a, s.count(a))
        s = s.replace(a, b)
    d = os.path.join(out, 'std', sub)
    os.makedirs(d, exist_ok=True)
    q = os.path.join(d, os.path.basename(rel))
    open(q, 'w').write(s)
    replace[p] = q

def add(rel, f, sub):
    d = os.path.join(out, 'std', sub)
    os.makedirs(d, exist_ok=True)
    q = os.path.join(d, os.path.basename(rel))
    shutil.copy(f, q)
    replace[os.path.join(goroot, 'src', rel)] = q

def mut(op, var, ret):
    return f'''	{var} = verifPath({var})
	if _, e := verifMut("{op}", {var}, nil, false); e != nil {{
		return {ret}
	}}
'''
PE = lambda op, v: f'&PathError{{Op: "{op}", Path: {v}, Err: e}}'

patch('os/file.go', [
 ('''	testlog.Open(name)
	f, err := openFileNolog(name, flag, perm)
''', '''	testlog.Open(name)
	name = verifPath(name)
	if flag&(O_WRONLY|O_RDWR|O_CREATE|O_TRUNC|O_APPEND) == 0 {
		verifReadOpen(name)
	} else if verifIsFile(name) {
		how := ""
		if flag&O_TRUNC != 0 {
			how += "t"
		}
		if flag&O_APPEND != 0 {
			how += "a"
		}
		if _, e := verifMut("open", name, []byte(how), false); e != nil {
			return nil, &PathError{Op: "open", Path: name, Err: e}
		}
	}
	f, err := openFileNolog(name, flag, perm)
'''),
 ('''	testlog.Open(name)
	return openDirNolog(name)
''', '''	testlog.Open(name)
	return openDirNolog(verifPath(name))
'''),
 ('''	return rename(oldpath, newpath)
''', '''	oldpath, newpath = verifPath(oldpath), verifPath(newpath)
	if verifActive() {
		if _, e := verifMut("rename", newpath, []byte(verifAbs(oldpath)), false); e != nil {
			return &LinkError{"rename", oldpath, newpath, e}
		}
		if !verifHasPrefix(verifAbs(oldpath), verifRoot) {
			VerifLog("DENY 0 renamefrom " + verifAbs(oldpath))
			return &LinkError{"rename", oldpath, newpath, syscall.EPERM}
		}
	}
	return rename(oldpath, newpath)
'''),
 ('''	return readlink(name)
}

// Many''', '''	if verifExe != "" && name == "/proc/self/exe" {
		return verifExe, nil
	}
	return readlink(verifPath(name))
}

// Many'''),
 ('''func Mkdir(name string, perm FileMode) error {
''', '''func Mkdir(name string, perm FileMode) error {
''' + mut('mkdir', 'name', PE('mkdir', 'name'))),
 ('func Chmod(name string, mode FileMode) error { return chmod(name, mode) }',
  'func Chmod(name string, mode FileMode) error {\n' + mut('chmod', 'name', PE('chmod', 'name')) + '	return chmod(name, mode)\n}'),
 ('func (f *File) Chmod(mode FileMode) error { return f.chmod(mode) }',
  '''func (f *File) Chmod(mode FileMode) error {
	if f != nil && verifIsFile(f.name) {
		if _, e := verifMut("chmod", f.name, nil, false); e != nil {
			return &PathError{Op: "chmod", Path: f.name, Err: e}
		}
	}
	return f.chmod(mode)
}'''),
 ('''	n, e := f.write(b)
	if n < 0 {
		n = 0
	}
''', '''	if vn, ve, done := verifWrite(f, b, f.write); done {
		return vn, ve
	}
	n, e := f.write(b)
	if n < 0 {
		n = 0
	}
'''),
 ('''	for len(b) > 0 {
		m, e := f.pwrite(b, off)
''', '''	if vn, ve, done := verifWrite(f, b, func(p []byte) (int, error) { return f.pwrite(p, off) }); done {
		return vn, ve
	}
	for len(b) > 0 {
		m, e := f.pwrite(b, off)
'''),
 ('''	n, handled, e := f.readFrom(r)
	if !handled {
''', '''	var handled bool
	var e error
	if !verifActive() {
		n, handled, e = f.readFrom(r)
	}
	if !handled {
'''),
], 'os')
patch('os/file_unix.go', [
 ('func Truncate(name string, size int64) error {\n', 'func Truncate(name string, size int64) error {\n' + mut('truncate', 'name', PE('truncate', 'name'))),
 ('func Remove(name string) error {\n', 'func Remove(name string) error {\n' + mut('remove', 'name', PE('remove', 'name'))),
 ('func Link(oldname, newname string) error {\n', 'func Link(oldname, newname string) error {\n	oldname = verifPath(oldname)\n' + mut('link', 'newname', '&LinkError{"link", oldname, newname, e}')),
 ('func Symlink(oldname, newname string) error {\n', 'func Symlink(oldname, newname string) error {\n' + mut('symlink', 'newname', '&LinkError{"symlink", oldname, newname, e}')),
], 'os')
patch('os/file_posix.go', [
 ('func Chown(name string, uid, gid int) error {\n', 'func Chown(name string, uid, gid int) error {\n' + mut('chown', 'name', PE('chown', 'name'))),
 ('func Lchown(name string, uid, gid int) error {\n', 'func Lchown(name string, uid, gid int) error {\n' + mut('lchown', 'name', PE('lchown', 'name'))),
 ('func Chtimes(name string, atime time.Time, mtime time.Time) error {\n', 'func Chtimes(name string, atime time.Time, mtime time.Time) error {\n' + mut('chtimes', 'name', PE('chtimes', 'name'))),
 ('''	if err := f.checkValid("truncate"); err != nil {
		return err
	}
''', '''	if err := f.checkValid("truncate"); err != nil {
		return err
	}
	if verifIsFile(f.name) {
		if _, e := verifMut("truncate", f.name, nil, false); e != nil {
			return &PathError{Op: "truncate", Path: f.name, Err: e}
		}
	}
'''),
], 'os')
patch('os/stat.go', [
 ('	return statNolog(name)', '	return statNolog(verifPath(name))'),
 ('	return lstatNolog(name)', '	return lstatNolog(verifPath(name))'),
], 'os')
patch('os/path.go', [
 ('	return removeAll(path)', '	if verifActive() {\n		return verifRemoveAll(path)\n	}\n	return removeAll(path)'),
], 'os')
patch('os/proc.go', [
 ('	runtime_beforeExit(code)\n', '	if VerifExitHook != nil {\n		VerifExitHook(code)\n	}\n	runtime_beforeExit(code)\n'),
], 'os')
patch('os/executable.go', [
 ('	return executable()', '	if verifExe != "" {\n		return verifExe, nil\n	}\n	return executable()'),
], 'os')
patch('os/root.go', [
 ('	return openRootNolog(name)', '	return openRootNolog(verifPath(name))'),
], 'os')
add('os/zz_verif.go', os.path.join(src, 'os', 'zz_verif.go'), 'os')
patch('net/dial.go', [
 ('''	ctx, cancel := d.dialCtx(ctx)
	defer cancel()

	// Shadow the nettrace (if any) during resolve so Connect events don't fire for DNS lookups.
	resolveCtx := ctx
	if trace, _ := ctx.Value(nettrace.TraceKey{}).(*nettrace.Trace); trace != nil {
		shadow := *trace
		shadow.ConnectStart = nil
		shadow.ConnectDone = nil
		resolveCtx = context.WithValue(resolveCtx, nettrace.TraceKey{}, &shadow)
	}

	addrs, err := d.resolver().resolveAddrList(resolveCtx, "dial", network, address, d.LocalAddr)
''', '''	ctx, cancel := d.dialCtx(ctx)
	defer cancel()
	if c, err, done := verifDial(ctx, network, address); done {
		return c, err
	}

	addrs, err := d.resolver().resolveAddrList(ctx, "dial", network, address, d.LocalAddr)
'''),
], 'net')
# nettrace import stays used elsewhere? keep it referenced
p = os.path.join(out, 'std', 'net', 'dial.go')
s = open(p).read()
if 'nettrace.' not in s:
    s += '\nvar _ = nettrace.TraceKey{}\n'
    open(p, 'w').write(s)
patch('time/time.go', [
 ('''func Now() Time {
	sec, nsec, mono := runtimeNow()
''', '''func Now() Time {
	sec, nsec, mono := runtimeNow()
	if verifNow != 0 {
		sec, nsec = verifNow, 0
	}
'''),
], 'time')
add('time/zz_verif.go', os.path.join(src, 'time', 'zz_verif.go'), 'time')
add('net/zz_verif.go', os.path.join(src, 'net', 'zz_verif.go'), 'net')
json.dump({'Replace': replace}, open(os.path.join(out, 'overlay.json'), 'w'), indent=1)

app = dict(replace)
drv = os.path.join(out, 'drv')
os.makedirs(drv, exist_ok=True)
shutil.copy(os.path.join(src, 'app', 'zz_verif_driver.go'), drv)
app[os.path.join(repo, '1pass-app', 'zz_verif_driver.go')] = os.path.join(drv, 'zz_verif_driver.go')
json.dump({'Replace': app}, open(os.path.join(out, 'overlay_app.json'), 'w'), indent=1)

# order of map iteration under control (only for the target "maps")
patch('internal/runtime/maps/table.go', [
 ('	it.entryOffset = rand()\n	it.dirOffset = rand()\n', '	it.entryOffset, it.dirOffset = verifOrder(dirIdx < 0)\n'),
 ('			k := uintptr(it.entryIdx+it.entryOffset) % abi.MapGroupSlots\n', '			k := verifSlot(it.entryIdx, it.entryOffset)\n'),
], 'maps')
def patchall(rel, a, b, n, sub):
    s = open(os.path.join(goroot, 'src', rel)).read()
    assert s.count(a) == n, (rel, a, s.count(a))
    d = os.path.join(out, 'std', sub); os.makedirs(d, exist_ok=True)
    q = os.path.join(d, os.path.basename(rel))
    open(q, 'w').write(s.replace(a, b)); replace[os.path.join(goroot, 'src', rel)] = q
patchall('internal/runtime/maps/map.go', 'm.seed = uintptr(rand())', 'm.seed = verifSeed()', 4, 'maps')
patch('internal/runtime/maps/runtime_alg.go', [
 ('uintptr(bootstrapRand())', 'uintptr(uint64(i)*0x9E3779B97F4A7C15 + 0x1234567)'),
 ('key[i] = bootstrapRand()', 'key[i] = uint64(i)*0x9E3779B97F4A7C15 + 0x1234567'),
], 'maps')
patchall('os/env.go', '	testlog.Getenv(key)\n', '	testlog.Getenv(key)\n	VerifLog("ENVREAD " + key)\n', 2, 'maps')
add('internal/runtime/maps/zz_verif.go', os.path.join(src, 'maps', 'zz_verif.go'), 'maps')
add('os/zz_verif_maps.go', os.path.join(src, 'maps', 'zz_verif_os.go'), 'maps')
app2 = dict(replace)
app2[os.path.join(repo, '1pass-app', 'zz_verif_driver.go')] = os.path.join(drv, 'zz_verif_driver.go')
json.dump({'Replace': app2}, open(os.path.join(out, 'overlay_maps.json'), 'w'), indent=1)

# virtual terminal
mod = open(os.path.join(repo, '1pass-app', 'go.mod')).read()
def ver(m, allmods):
    for t in allmods:
        r = re.search(re.escape(m) + r' (v\S+)', t)
        if r: return r.group(1)
    raise SystemExit('no version for ' + m)
gc = ver('github.com/jroimartin/gocui', [mod])
sums = open(os.path.join(repo, '1pass-app', 'go.sum')).read()
tb = re.search(r'github.com/nsf/termbox-go (v[^/\s]+) ', mod + '\n' + sums)
tbv = ver('github.com/nsf/termbox-go', [mod, sums]).split('/')[0]
d = os.path.join(out, 'termbox'); os.makedirs(d, exist_ok=True)
shutil.copyfile(os.path.join(modcache, 'github.com/nsf/termbox-go@' + tbv, 'api_common.go'), os.path.join(d, 'api_common.go'))
shutil.copyfile(os.path.join(src, 'termbox', 'virtual.go'), os.path.join(d, 'virtual.go'))
open(os.path.join(d, 'go.mod'), 'w').write('module github.com/nsf/termbox-go\n\ngo 1.15\n')
d = os.path.join(out, 'gocui'); os.makedirs(d, exist_ok=True)
g = os.path.join(modcache, 'github.com/jroimartin/gocui@' + gc)
for f in os.listdir(g):
    if f.endswith('.go') and not f.endswith('_test.go'):
        s = open(os.path.join(g, f)).read()
        if f == 'gui.go':
            a = '	g := &Gui{}\n'
            assert s.count(a) == 1
            s = s.replace(a, a + '	VerifGui = g\n')
        open(os.path.join(d, f), 'w').write(s)
shutil.copyfile(os.path.join(src, 'gocui', 'zz_verif.go'), os.path.join(d, 'zz_verif.go'))
open(os.path.join(d, 'go.mod'), 'w').write('module github.com/jroimartin/gocui\n\ngo 1.15\n\nrequire github.com/nsf/termbox-go ' + tbv + '\n')
# module file of the application: same requirements, absolute local replacements
m2 = re.sub(r'=> \.\./', '=> ' + repo + '/', mod)
open(os.path.join(out, 'real.mod'), 'w').write(m2)
shutil.copyfile(os.path.join(repo, '1pass-app', 'go.sum'), os.path.join(out, 'real.sum'))
m2 += f'\nreplace github.com/nsf/termbox-go => {out}/termbox\n\nreplace github.com/jroimartin/gocui => {out}/gocui\n'
open(os.path.join(out, 'app.mod'), 'w').write(m2)
shutil.copyfile(os.path.join(repo, '1pass-app', 'go.sum'), os.path.join(out, 'app.sum'))

#!/usr/bin/env python3
"""mutate.py FILE [NAME...]: runs the check of each mutant in FILE (python: m(name, prop, (file, old, new), ...))
against a scratch copy of /repo carrying it. Prints caught / MISSED / broken."""
import os, re, shutil, subprocess, sys, tempfile, time
V = os.path.normpath(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
M = []
def m(name, prop, *edits, tests=True): M.append((name, prop, edits))
CLI='1pass-term/control/cobra/clicontrol.go'; ITEMS='1pass-core/core/service/itemservice.go'; KEYS='1pass-core/core/service/keyservice.go'
UPD='1pass-up/component/github/updater.go'; UPS='1pass-core/core/service/updateservice.go'; REPOI='1pass-parse/repo/file/itemrepo.go'
VF='1pass-core/core/facade/vaultfacade.go'; MENU='1pass-app/gui/1passwidget.go'; LIST='1pass-app/gui/itemswidget.go'; DET='1pass-app/gui/detailswidget.go'
CONF='1pass-parse/repo/file/configrepo.go'; PROF='1pass-parse/repo/file/profilerepo.go'; VS='1pass-core/core/service/vaultservice.go'; DT='1pass-core/core/domain/datatype.go'
PP='1pass-app/gui/passprompt.go'; ERR='1pass-app/gui/errdialog.go'; VER='1pass-app/gui/versionwidget.go'; HELP='1pass-app/gui/helpwidget.go'; GUI='1pass-app/gui/gocui.go'
GC='1pass-term/control/gocui/guicontrol.go'; COBRA='1pass-app/cli/cobra.go'; CS='1pass-core/core/service/configservice.go'; MAIN='1pass-app/main.go'; LV='1pass-core/core/domain/logicval.go'; CAT='1pass-core/core/domain/itemcategory.go'
exec(open(sys.argv[1]).read())
# the checks as they are now, so that /verif can be edited meanwhile
W = tempfile.mkdtemp(prefix='mutv.', dir='/var/tmp')
for x in ('check.sh', 'tools', 'mc', 'overlay', 'known_findings.txt'): subprocess.run(['cp', '-a', V + '/' + x, W], check=True)
V = W
import atexit; atexit.register(lambda: shutil.rmtree(W, ignore_errors=True))
for name, prop, edits in M:
    if sys.argv[2:] and name not in sys.argv[2:]: continue
    d = tempfile.mkdtemp(prefix='mut.', dir='/var/tmp')
    try:
        subprocess.run(['cp', '-a', os.environ.get('MUTREPO', '/repo'), d + '/repo'], check=True)
        bad = None
        for f, a, b in edits:
            p = d + '/repo/' + f; s = open(p).read()
            if s.count(a) < 1: bad = (f, a); break
            open(p, 'w').write(s.replace(a, b, 1))
        if bad: print('ANCHOR', name, bad, flush=True); continue
        if not os.environ.get('NOTESTS'):
            e = dict(os.environ, GOFLAGS='-mod=mod', GOPROXY='off', GOTOOLCHAIN='local')
            pre = set(re.findall(r'--- PASS: (\S+)', open('/var/tmp/mut.base').read())) if os.path.exists('/var/tmp/mut.base') else set()
            out = ''
            for mod in ('1pass-core', '1pass-parse', '1pass-up', '1pass-app'):
                out += subprocess.run(['go', 'test', '-count=1', '-p', '1', '-vet=off', '-v', './...'], cwd=d + '/repo/' + mod, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace").stdout
            got = set(re.findall(r'--- PASS: (\S+)', out))
            lost = (pre - got) | (set(re.findall(r'--- FAIL: (\S+)', out)) & pre)
            if lost: print('TESTS  ', name, prop, sorted(lost)[:4], flush=True); continue
        for prop in prop.split(','):
            t0 = time.time()
            r = subprocess.run(['bash', V + '/check.sh', prop], env=dict(os.environ, VERIF_REPO=d + '/repo', VERIF_EV=d + '/ev'), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
            v = [l.strip() for l in r.stdout.split('\n') if 'violated:' in l][:3]
            st = 'caught ' if r.returncode == 1 and 'VIOLATION property=' + prop in r.stdout else 'MISSED ' if r.returncode == 0 else 'BROKEN '
            print(st, name, prop, '%ds' % (time.time() - t0), ' '.join(v)[:140], r.stdout[-600:] if st == 'BROKEN ' else '', flush=True)
    finally:
        shutil.rmtree(d, ignore_errors=True)

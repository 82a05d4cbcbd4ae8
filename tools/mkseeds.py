#!/usr/bin/env python3
"""mkseeds.py [ID...]: writes seeded/<id>/ from the definitions below and confirms each: the
patch applies, builds, passes the stable tests; the demo passes without and fails with it.
Works on /repo's working tree and restores it."""
import json, os, shutil, subprocess, sys
V = os.path.normpath(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
B = []
def bug(id, prop, needs, breaks, edits, demo): B.append((id, prop, needs, breaks, edits, demo))
CONF='1pass-parse/repo/file/configrepo.go'; CLI='1pass-term/control/cobra/clicontrol.go'; ITEMS='1pass-core/core/service/itemservice.go'; KEYS='1pass-core/core/service/keyservice.go'
UPD='1pass-up/component/github/updater.go'; UPS='1pass-core/core/service/updateservice.go'; REPOI='1pass-parse/repo/file/itemrepo.go'
COBRA='1pass-app/cli/cobra.go'; GUI='1pass-app/gui/gocui.go'
DT='1pass-core/core/domain/datatype.go'; VF='1pass-core/core/facade/vaultfacade.go'; MENU='1pass-app/gui/1passwidget.go'; LIST='1pass-app/gui/itemswidget.go'; DET='1pass-app/gui/detailswidget.go'
exec(open(os.path.join(V, 'tools', 'seeds.defs')).read())

def sh(*a, **k): return subprocess.run(a, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def restore():
    subprocess.run(['git', '-C', '/repo', 'checkout', '-q', '--', '.'], check=True)
    subprocess.run(['git', '-C', '/repo', 'clean', '-qfd', 'assets'], check=True)
base = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
want = sys.argv[1:]
for id, prop, needs, breaks, edits, demo in B:
    if want and id not in want: continue
    d = os.path.join(V, 'seeded', id)
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    for f in ('kit.py', 'mkvault.go', 'demo.sh'): shutil.copy(os.path.join(V, 'tools/seedkit', f), d)
    open(d + '/demo.py', 'w').write('from kit import *\n' + demo.strip('\n') + '\n')
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + '/meta.json', 'w'), indent=1)
    restore()
    try:
        r0 = sh('bash', d + '/demo.sh', cwd='/repo')
        for f, a, b in edits:
            p = '/repo/' + f; s = open(p).read()
            assert s.count(a) >= 1, (id, f, a)
            open(p, 'w').write(s.replace(a, b, 1))
        fm = sh('gofmt', '-l', *['/repo/' + e[0] for e in edits]).stdout.strip()
        open(d + '/patch.diff', 'w').write(sh('git', '-C', '/repo', 'diff').stdout)
        bl = sh('bash', '/opt/vp/build.sh')
        sh('bash', '/opt/vp/test.sh', '/var/tmp/o.json')
        o = json.load(open('/var/tmp/o.json'))
        missing = base - set(o['passed'])
        r1 = sh('bash', d + '/demo.sh', cwd='/repo')
        good = r0.returncode == 0 and r1.returncode == 1 and not missing and bl.returncode == 0 and 'DEMO' in r1.stdout
        print('OK ' if good else 'BAD', id, prop, 'demo', r0.returncode, r1.returncode, 'tests missing', sorted(missing)[:3], 'fmt', fm, '|', r1.stdout.strip().split('\n')[-1][:150], flush=True)
        if not good: print(r0.stdout[-600:], '\n---\n', r1.stdout[-600:], bl.stdout[-500:] if bl.returncode else '')
    finally:
        restore()
sh('bash', '/opt/vp/build.sh')

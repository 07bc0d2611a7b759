#!/usr/bin/env python3
"""plant.py FILE.py...   each file describes one planted bug (ID, PROP, NEEDS, BREAKS, EDITS, DEMO or CDEMO);
writes /verif/seeded/ID and confirms it: demo 0 / build / tests / demo nonzero.  Uses /repo, which is left as it was."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
SH = '''#!/bin/bash
# run with cwd /repo: exit 0 when the property's behaviour is shown, nonzero otherwise
here=$(cd "$(dirname "$0")" && pwd)
out=$(mktemp -d); trap 'rm -rf "$out"' EXIT
'''
APP = SH + '''VERIF_REPO=$PWD "$here/kit/harness/build.sh" "$out" KIND || exit 3
PYTHONDONTWRITEBYTECODE=1 timeout 200 python3 "$here/demo.py" "$out/devsim-KIND"
'''
LIB = SH + '''gcc -std=gnu11 -DTEST -g -w -fsanitize=address -include "$PWD/unit-tests/utils/macro_helpers.h" -isystem "$PWD/src" -isystem "$PWD/unit-tests/utils" -isystem "$PWD/unit-tests" \\
  "$here/demo.c" SOURCES -o "$out/demo" || exit 3
ASAN_OPTIONS=detect_leaks=0 timeout 100 "$out/demo"
'''
HEAD = '''import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from kit.host import *
from kit.device import Device, Crash
from kit import ec
def expect(c, what):
    if not c: print('FAILED: ' + what); sys.exit(1)
d = Device(sys.argv[1], 7); h = Host(d); h.ev = d.boot()
'''
def sh(*a, **k): return subprocess.run(a, capture_output=True, text=True, **k)
def clean(): sh('git', '-C', REPO, 'checkout', '--', '.')
def main(f):
    g = {}
    exec(open(f).read(), g)
    dst = os.path.join(V, 'seeded', g['ID'])
    shutil.rmtree(dst, ignore_errors=True); os.makedirs(dst)
    if sh('git', '-C', REPO, 'status', '--porcelain').stdout.strip(): sys.exit('/repo is not clean')
    json.dump(dict(property=g['PROP'], needs=g['NEEDS'], what_it_breaks=g['BREAKS']), open(dst + '/meta.json', 'w'), indent=1)
    if 'DEMO' in g:
        kit = dst + '/kit'; shutil.copytree(V + '/harness', kit + '/harness')
        for m in ('device', 'host', 'ec'): shutil.copy(V + '/lib/%s.py' % m, kit)
        open(kit + '/__init__.py', 'w').close()
        open(dst + '/demo.py', 'w').write(HEAD + g['DEMO'])
        open(dst + '/demo.sh', 'w').write(APP.replace('KIND', g.get('KIND', 'asan')))
    else:
        open(dst + '/demo.c', 'w').write(g['CDEMO'])
        open(dst + '/demo.sh', 'w').write(LIB.replace('SOURCES', ' '.join('"$PWD/%s"' % s for s in g['SOURCES'])))
    os.chmod(dst + '/demo.sh', 0o755)
    say = []
    try:
        sh('bash', '/opt/vp/build.sh')
        p = sh(dst + '/demo.sh', cwd=REPO); say.append('unchanged demo %d' % p.returncode)
        good = p.returncode == 0
        if not good: print(p.stdout[-1500:], p.stderr[-1500:])
        for path, old, new in g['EDITS']:
            q = os.path.join(REPO, path); t = open(q).read()
            if t.count(old) != 1: sys.exit('%s: %d matches of %r' % (g['ID'], t.count(old), old))
            open(q, 'w').write(t.replace(old, new))
        diff = sh('git', '-C', REPO, 'diff').stdout
        open(dst + '/patch.diff', 'w').write(diff)
        # may not touch lines of our own commits
        base = sh('git', '-C', REPO, 'rev-list', '--max-parents=0', 'HEAD').stdout.split()[0]
        p = sh('bash', '/opt/vp/build.sh'); say.append('build %d' % p.returncode); good &= p.returncode == 0
        if p.returncode: print(p.stdout[-1500:], p.stderr[-1500:])
        sh('bash', '/opt/vp/test.sh', '/tmp/plant.json')
        r = open('/tmp/plant.json').read(); r = json.loads(r)
        want = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
        passed = {k for k, v in (r.get('tests') or r).items() if v in ('pass', 'passed', True)} if isinstance(r.get('tests', r), dict) else set(r.get('passed', []))
        passed = set(r['passed']) if 'passed' in r else passed
        say.append('tests missing %s' % sorted(want - passed)[:4]); good &= not (want - passed)
        p = sh(dst + '/demo.sh', cwd=REPO); say.append('patched demo %d %s' % (p.returncode, (p.stdout + p.stderr)[-200:].strip().replace('\n', ' | ')))
        good &= p.returncode not in (0, 3)
    finally:
        clean(); sh('bash', '/opt/vp/build.sh')
    print('OK  ' if good else 'BAD ', g['ID'], '; '.join(say))
    if not good and '--keep' not in sys.argv: shutil.rmtree(dst)
for f in sys.argv[1:]:
    if not f.startswith('--'): main(f)

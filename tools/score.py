#!/usr/bin/env python3
"""score.py [ID...]   runs each planted bug's own check (quick) against a scratch copy of /repo with the bug applied."""
import json, os, shutil, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [a for a in sys.argv[1:] if not a.startswith('-')] or sorted(os.listdir(V + '/seeded'))
for i in ids:
    d = tempfile.mkdtemp(prefix='score-')
    try:
        p = os.path.join(V, 'seeded', i); m = json.load(open(p + '/meta.json'))
        subprocess.run(['cp', '-a', '/repo', d + '/r'], check=True)
        subprocess.run(['git', '-C', d + '/r', 'apply', p + '/patch.diff'], check=True)
        t = time.time()
        r = subprocess.run([V + '/check.py', m['property'], 'quick'], env=dict(os.environ, VERIF_REPO=d + '/r', VERIF_SEED='1', VERIF_EVIDENCE=d), capture_output=True, text=True)
        hit = r.returncode == 1 and 'VIOLATION property=' + m['property'] in r.stdout
        first = next((l for l in r.stdout.splitlines() if l.strip()), '')
        print('%-8s %-45s rc %d %4.0f s  %s' % ('CAUGHT' if hit else 'MISSED', i, r.returncode, time.time() - t, first[:160]), flush=True)
        if r.returncode not in (0, 1): print(r.stderr[-600:])
    finally: shutil.rmtree(d)

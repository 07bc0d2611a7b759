#!/usr/bin/env python3
"""check.py ID quick|thorough   decides one property against /repo's current tree
   check.py --replay FILE       runs a recorded violation again"""
import json, os, shutil, sys, tempfile, time
ROOT = os.path.dirname(os.path.abspath(__file__))
EVID = os.environ.get('VERIF_EVIDENCE') or os.path.join(ROOT, 'evidence')
sys.path.insert(0, ROOT)
from lib import runner, campaign, props

def replay(path):
    x = json.load(open(path))
    work = tempfile.mkdtemp(prefix='verif-')
    try:
        if 'scenario' in x:
            b = runner.build(x['build'], work)
            rec = campaign.record(b, *x['scenario'])
            ok, st, msg, i = campaign.judge(os.path.join(work, 't'), rec, set(x['flags']))
            for e in rec.events[:(i + 1) if i is not None else None]:
                print(e['e'], e['raw'], '->', e['resp'], e['page'], e['crash'][:300])
            print('accepted' if ok else 'REJECTED\n' + msg)
        else:
            ok, text = props.rerun(x, work)
            print('accepted' if ok else 'REJECTED\n' + text)
        return 0 if ok else 1
    finally: shutil.rmtree(work)

def main():
    if sys.argv[1] == '--replay': return replay(sys.argv[2])
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    work = tempfile.mkdtemp(prefix='verif-%s-' % pid)
    try:
        out = props.decide(pid, tier, seed, work)
    finally: shutil.rmtree(work, ignore_errors=True)
    ev = dict(property=pid, tier=tier, seed=seed, level='model_checking', wall_s=round(time.time() - t0, 1),
              violations=len(out['violations']), assumptions=out['assumptions'], coverage=out['coverage'])
    os.makedirs(EVID, exist_ok=True)
    json.dump(ev, open(os.path.join(EVID, pid + '.json'), 'w'), indent=1)
    for l in out['notes']: print(l)
    known = props.known(pid)
    bad = 0
    for i, v in enumerate(out['violations']):
        d = os.path.join(EVID, 'replay'); os.makedirs(d, exist_ok=True)
        p = os.path.join(d, '%s-%d.json' % (pid, i))
        json.dump(v, open(p, 'w'), indent=1)
        print(v.get('summary', ''))
        print('VIOLATION property=%s replay=%s' % (pid, p)); bad = 1
    for k in known: print('KNOWN-FINDING: property=%s %s' % (pid, k))
    if not bad and out['trouble']:
        print('no verdict: ' + out['trouble'], file=sys.stderr); return 2
    if not bad: print('%s held: %s' % (pid, json.dumps(out['coverage'])[:400]))
    return bad

if __name__ == '__main__':
    try: rc = main()
    except runner.BuildError as x:
        print('build failed\n' + str(x), file=sys.stderr); rc = 3
    sys.exit(rc)

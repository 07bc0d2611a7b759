"""Runs scenarios on the real application and has TLC decide whether each recorded trace is a behaviour of the specification."""
import json, os, random, re, shutil, tempfile, time, traceback
from concurrent.futures import ProcessPoolExecutor
from . import runner, scen, tour
from .device import Device, Recorder
from .host import Host

class Trouble(Exception):
    """the machinery failed: no verdict"""

def record(binary, fam, k, seed, rec=None):
    """runs one scenario; returns the recorder with its events appended"""
    walk = k if fam == 'walk' else None       # a behaviour of the model
    if walk: k = 0
    name = '%s/%d/%d' % (fam, k, seed)
    r = random.Random(name)
    d = Device(binary, r.randrange(1 << 30), rec)
    h = Host(d, r)
    try:
        h.ev = d.boot(name)
        if not h.ev['crash']: scen.guard(name, tour.play, h, walk, r) if walk else scen.run(fam, k, h, r)
    finally:
        d.close()
    return d.rec

def judge(dir, rec, flags, timeout=600):
    """(accepted, states, message, index of the rejected event or None)"""
    runner.write_trace(dir, rec.events, rec)
    ok, st, msg, sec, rej = runner.validate(dir, flags, timeout)
    i = None
    if not ok:
        m = re.search(r'"REJECT",\s*(\d+)', msg)
        if not m: raise Trouble('TLC gave no verdict on %s:\n%s' % (dir, msg[-2500:]))
        i = int(m.group(1)) - 1
    return ok, st, msg, i

def job(args):
    """one worker: some scenarios, one trace, one TLC run; on a rejection the scenario is run again alone"""
    binary, todo, flags, work = args
    res = dict(events=0, states=0, scenarios=0, bad=[], seconds=0, error='', samples=[], fam={})
    t0 = time.time()
    try:
        for attempt in range(4):
            rec, first = Recorder(), []
            for fam, k, seed in todo:
                first.append(len(rec.events)); record(binary, fam, k, seed, rec)
                res['fam'][fam] = res['fam'].get(fam, 0) + (attempt == 0)
                if rec.events[-1]['crash']: break
            ok, st, msg, i = judge(os.path.join(work, 'main%d' % attempt), rec, flags)
            shutil.rmtree(os.path.join(work, 'main%d' % attempt))
            if ok:
                res['events'] += len(rec.events); res['states'] += st; res['scenarios'] += len(first)
                e = rec.events[first[-1]:][:12]
                res['samples'].append(dict(scenario=e[0]['name'], events=[[x['e'], x['raw'][:80], [y[:40] for y in x['resp']], x['page']] for x in e]))
                break
            s = max(j for j, f in enumerate(first) if f <= i)
            culprit = todo[s]
            res['scenarios'] += s; res['events'] += i; res['states'] += st
            again = record(binary, *culprit)
            ok2, st2, msg2, i2 = judge(os.path.join(work, 'again%d' % attempt), again, flags)
            if not ok2:
                res['bad'].append(dict(scenario=culprit, message=msg2, at=i2, events=again.events[:i2 + 1]))
                break
            # not repeated: that scenario decides nothing; go on without it
            res['error'] += 'rejection of %s/%s/%s not repeated\n%s\n' % (culprit[0], str(culprit[1])[:60], culprit[2], msg[:600])
            todo = todo[:s] + todo[s + 1:]
    except Exception:
        res['trouble'] = traceback.format_exc()[-3000:]
    res['seconds'] = time.time() - t0
    for x in sorted(set(scen.ERRORS))[:3]: res['error'] += 'script stopped: ' + x + '\n'
    scen.ERRORS.clear()
    return res

def plan(families, seed, scale):
    """families: {name: number}; enumerated families run all their cases when the number is None"""
    L = []
    for fam, n in families.items():
        c = scen.cases(fam)
        rnd = random.Random('%s/%s' % (fam, seed))
        if c and n is None: L += [(fam, k, seed * 1000 + j) for j in range(max(1, int(scale))) for k in range(c)]
        elif c:
            m = max(1, int(n * scale)); ks = []
            while len(ks) < m: ks += rnd.sample(range(c), min(c, m - len(ks)))
            L += [(fam, k, seed * 1000 + j // c) for j, k in enumerate(ks)]
        else: L += [(fam, k, seed) for k in range(max(1, int(n * scale)))]
    return L

def campaign(binary, todo, flags, work, jobs=8, per=120):
    """runs all scenarios; returns the combined result"""
    random.Random(1).shuffle(todo)
    n = max(jobs, (len(todo) + per - 1) // per)
    n = (n + jobs - 1) // jobs * jobs
    parts = [todo[i::n] for i in range(n)]
    total = dict(events=0, states=0, scenarios=0, bad=[], error='', samples=[], fam={})
    with ProcessPoolExecutor(jobs) as ex:
        for r in ex.map(job, [(binary, p, flags, os.path.join(work, 'j%d' % i)) for i, p in enumerate(parts) if p]):
            for k in ('events', 'states', 'scenarios'): total[k] += r[k]
            total['bad'] += r['bad']; total['error'] += r['error']; total['samples'] += r['samples']
            for f, c in r['fam'].items(): total['fam'][f] = total['fam'].get(f, 0) + c
            if r.get('trouble'): total.setdefault('trouble', r['trouble'])
    return total

"""What each check does: the scenarios it records, what TLC compares, the models it explores."""
import json, os, random, re
from concurrent.futures import ThreadPoolExecutor
from . import runner, campaign, scen, libs, tour, vacuity

ROOT = runner.ROOT
A = dict  # family -> number of scenarios (None: every enumerated case)
TRACES = {
 'C01': ((), A(faultsteps=100, again=60, nonces=12, matrix=None, sign_ok=200, sign_mut=700, takeover=150, fuzz=100, outputs=80, attest_sign=40, busy=200, faults=150)),
 'C02': ((), A(bigparts=None, lengths=100, faultsteps=100, nearids=None, nonces=None, matrix=None, sign_ok=450, attest_sign=120, sign_mut=500, limits=None, outputs=60, frames=100, amounts=60)),
 'C03': ((), A(nearboxes=None, nearids=32, matrix=120, frames=1200, attest_sign=150, takeover=60, limits=120, sign_mut=200)),
 'C04': ((), A(faultsteps=60, nearids=32, matrix=60, attest_ok=600, attest_mut=600, limits=None, attest_sign=60, tokens=60, faults=60)),
 'C05': (('pages',), A(nearpaths=186, sametoken=None, bigparts=40, amounts=120, again=None, outputs=350, change=300, scripts=None, longpath=80, sign_ok=80, faults=60)),
 'C06': (('pages',), A(bigparts=None, sametoken=None, nearids=None, amounts=360, sign_ok=150, outputs=80)),
 'C07': ((), A(lengths=80, sessions=None, alien=None, matrix=None, takeover=700, sign_mut=700, attest_mut=450, fuzz=200, limits=150, faults=100)),
 'C08': (('pages',), A(pairs=80, busy=900, garbage=150, nav=60, tokens=60)),
 'C09': (('pages',), A(faultsteps=60, neartokens=None, pairs=60, tokens=700, takeover=120, busy=250, nav=40, outputs=40, paths=100)),
 'C10': (('pages', 'keys'), A(again=40, paths=None, pathbytes=700, longpath=80, change=120, networks=40, sign_ok=60, faults=60)),
 'C11': (('pages',), A(networks=192, scripts=None, outputs=120, paths=60)),
 'C12': ((), A(bigparts=None, lengths=80, nearids=40, matrix=None, limits=1200, sign_mut=250, attest_mut=250)),
 'C13': (('sw', 'pages'), A(alien=60, lengths=None, faultsteps=80, nonces=None, garbage=350, dispatch=None, busy=200, truncated=250, fuzz=200, nav=40, menus=40, frames=100)),
 'C17': (('nonce', 'leak'), A(faultsteps=None, again=40, nonces=None, sign_ok=150, sign_mut=250, faults=250, takeover=150, busy=80, tokens=60, outputs=40)),
 'C18': (('pages',), A(again=60, scripts=500, outputs=200, change=40)),
 'C20': (('pages',), A(again=None, pairs=150, nav=350, menus=150, busy=150, outputs=120, amounts=100, tokens=60, longpath=40)),
 'C22': ((), A(replay=800, again=140, pairs=100)),
 'C23': ((), A(sign_ok=250, attest_ok=200, attest_sign=60, limits=None, bigparts=None, sametoken=None, amounts=150, paths=None, networks=40, tokens=60, matrix=80, lengths=40,
               scripts=60, outputs=80, change=80, busy=60, again=40, replay=40, frames=60, nearpaths=40, nearids=20)),
 'C21': (('sw',), A(lengths=None, sessions=None, alien=None, matrix=None, limits=None, truncated=250, sign_mut=400, attest_mut=300, paths=None, pathbytes=200, dispatch=None, frames=300, amounts=None,
                   networks=60, tokens=60, fuzz=60)),
}
# the models of the device that are explored and toured, per property: (quick, thorough); the smaller ones end in 0
TOURS = {
 'C01': (('flow0', 'outputs0'), ('flow', 'outputs')), 'C02': (('flow0',), ('flow', 'totals')), 'C03': (('inputs',), ('inputs', 'flow')),
 'C04': (('attest',), ('attest',)), 'C05': (('outputs0',), ('outputs', 'pages')), 'C06': (('totals0',), ('totals',)),
 'C07': (('shell', 'inputs'), ('shell', 'inputs', 'attest', 'flow')), 'C08': (('shell',), ('shell', 'flow')), 'C09': (('shell',), ('shell',)),
 'C10': (('shell',), ('shell', 'outputs')), 'C11': (('pages',), ('outputs', 'pages')), 'C12': (('inputs', 'attest'), ('inputs', 'attest', 'outputs')),
 'C13': (('shell', 'attest'), ('shell', 'attest', 'inputs')), 'C17': (('flow0',), ('flow',)), 'C18': (('outputs0',), ('outputs',)),
 'C20': (('pages', 'shell'), ('pages', 'shell', 'flow')), 'C22': (('shell', 'attest'), ('shell', 'attest', 'inputs', 'flow', 'outputs')), 'C21': (('attest', 'inputs'), ('attest', 'inputs', 'outputs', 'totals')),
 'C23': (('flow0', 'boxes'), ('flow', 'boxes', 'inputs'))}
ENDS = ('C23',)                           # sessions must be able to end: no state of one is stuck
MORE = {'C22': 'INVARIANT Forgets\n'}     # what is checked besides
EVENTS = 2000     # of a tour in quick: a sample of the transitions
ASSUME = ['the Ledger SDK and the platform primitives behave as in the stand-in under harness/ (screens, RNG, key derivation, BLAKE2b, HMAC, secp256k1)',
          'the application is built for the host with clang; the RNG never repeats a draw by chance',
          'scenarios are sampled from the families of lib/scen.py with the given seed; the models are exhaustive within their constants']

def known(pid):
    """listed findings that were not repaired"""
    out = []
    for l in open(os.path.join(ROOT, 'known-findings.txt')):
        m = re.match(r'known: property=(\S+) (.*)', l)
        if m and m.group(1) == pid: out.append(m.group(2).strip())
    return out

LIBCFG = '''CONSTANTS AmtW = 2 IdLen = 1 MaxTok = 2 MaxPart = 3 MinChunk = 2 Part = "%s" Size = %d
  TheFeeTree <- McFee TreeOfKey <- McTree
SPECIFICATION Spec
INVARIANT Holds
PROPERTY Final
POSTCONDITION NotVacuous
CHECK_DEADLOCK FALSE
'''
# modules by themselves: (part, size in quick, size in thorough)
LIBMODELS = {'C14': [('codec', 60, 65535)], 'C15': [('queue', 2, 3)], 'C16': [('arith', 0, 0)], 'C19': [('box', 1, 1), ('tx', 0, 2)]}
def vectors(pid, seed, thorough):
    """operations on the real modules: (kind, seed, arguments)"""
    rep = lambda what, n, *args: [(what, seed * 1000 + i, args) for i in range(n)]
    sl = lambda what, n: [(what, seed * 1000 + i, (i, n)) for i in range(n)]
    if thorough:
        return {'C14': rep('codec', 16, 2000) + sl('codec_all', 64), 'C15': sl('queue_all', 16) + rep('queue', 48, 6000), 'C16': rep('arith', 48, 3000),
                'C19': rep('serial', 128, 400), 'C10': rep('pure', 16, 600), 'C11': rep('pure', 16, 600), 'C18': rep('pure', 16, 600),
                'C12': rep('pure', 8, 600) + rep('serial', 32, 400), 'C03': rep('pure', 8, 200)}.get(pid, [])
    return {'C14': rep('codec', 8, 400), 'C15': sl('queue_all', 8) + rep('queue', 8, 3000), 'C16': rep('arith', 8, 900), 'C19': rep('serial', 16, 400),
            'C10': rep('pure', 2, 150), 'C11': rep('pure', 2, 150), 'C18': rep('pure', 2, 150), 'C12': rep('pure', 1, 100) + rep('serial', 2, 300),
            'C03': rep('pure', 1, 100)}.get(pid, [])
LIBRARY = ('C14', 'C15', 'C16', 'C19')

def model(module, cfg, work, workers, timeout):
    """explores a model: (distinct states, transitions, trouble)"""
    rc, out, sec = runner.tlc(module, cfg, work, workers=workers, timeout=timeout, mem='4g')
    m = re.search(r'(\d+) states generated, (\d+) distinct states found, 0 states left', out)
    if rc or not m or 'No error has been found' not in out:
        i = out.find('Error:')
        return 0, 0, 'the model %s failed:\n%s' % (module, out[i if i >= 0 else -1500:][:1500])
    return int(m.group(2)), int(m.group(1)), ''

def decide(pid, tier, seed, work):
    out = dict(violations=[], assumptions=list(ASSUME), notes=[], trouble='', coverage={})
    cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[], models={})
    thorough = tier == 'thorough'
    with ThreadPoolExecutor(2) as ex:
        runs = []
        foci = TOURS.get(pid, ((), ()))[thorough]
        graphs = [(f, ex.submit(tour.explore, f, os.path.join(work, 'g-' + f), 4 if thorough else 2, 3000 if thorough else 500, True, MORE.get(pid, ''))) for f in foci]
        for part, q, t in LIBMODELS.get(pid, []):
            n = t if thorough else q
            runs.append(('%s/%d' % (part, n), ex.submit(model, 'MCLib', LIBCFG % (part, n), os.path.join(work, 'm-' + part), 1, 3000 if thorough else 600)))
        # the property must be able to fail: faults put into the model have to break it
        faulty = [(f, ex.submit(vacuity.breaks, pid, *f, os.path.join(work, 'f-%s%d' % f), 2, 1200)) for f in vacuity.faults(pid)] if thorough else []
        if pid in TRACES: traces(pid, thorough, seed, work, out, cov, graphs)
        jobs = vectors(pid, seed, thorough)
        if jobs:
            try: b = runner.build('lib', os.path.join(work, 'lib'))
            except runner.BuildError:
                if pid in LIBRARY: raise
                b = None        # decided by the whole application alone
                out['notes'].append('the driver of single modules does not build')
        if jobs and b:
            r = libs.campaign(b, jobs, os.path.join(work, 'v'))
            cov['transitions'] += r['events']; cov['states'] += r['events']; cov['traces_validated_against_impl'] += r['histories']
            cov['operations'] = r['kinds']; cov['samples'] += r['samples'][:2]
            for v in r['bad'][:5]: out['violations'].append(dict(v, summary='operations %s\n%s' % ([l for l, _ in v['lib']][-6:], v['message'][:1500])))
            out['trouble'] += r['trouble']
        for f, r in faulty:
            ok, said = r.result()
            if not ok: out['trouble'] += 'the fault %s of lib/vacuity.py leaves %s true: %s' % (f, pid, said[-800:])
        if faulty: cov['faults_in_the_model_that_break_it'] = len(faulty)
        for name, f in runs:
            st, tr, bad = f.result()
            cov['states'] += st; cov['transitions'] += tr; cov['models'][name] = dict(states=st, transitions=tr); out['trouble'] += bad
    out['coverage'] = cov
    return out

def traces(pid, thorough, seed, work, out, cov, graphs):
    flags, fams = TRACES[pid]
    flags = set(flags) | {pid}    # what TLC compares, and the property it evaluates
    kind = 'scan' if 'leak' in flags else 'asan'
    b = runner.build(kind, os.path.join(work, 'b'))
    todo = campaign.plan(fams, seed, 12 if thorough else 1)
    def take(r):
        cov['states'] += r['states']; cov['transitions'] += r['events']; cov['traces_validated_against_impl'] += r['scenarios']
        for v in r['bad'][:5]:
            fam, k, n = v['scenario']
            out['violations'].append(dict(v, build=kind, flags=sorted(flags), summary='scenario %s/%s/%s, event %d:\n%s'
                                          % (fam, str(k)[:300], n, v['at'], v['message'][:1500])))
        if r['error']: out['notes'].append(r['error'])
        out['trouble'] += r.get('trouble', '')
    r = campaign.campaign(b, todo, flags, os.path.join(work, 't'))
    take(r)
    cov['samples'] += r['samples'][:2]; cov['scenarios_per_family'] = r['fam']
    for focus, f in graphs:
        g, states, transitions, bad = f.result()
        if bad: out['trouble'] += bad; continue
        if pid in ENDS and (not g.ends or g.stuck()): out['trouble'] += 'in the model %s a session cannot come to its end' % focus; continue
        walks = g.walks(random.Random('%s/%s' % (focus, seed)), 60, 400000 if thorough else EVENTS // len(graphs))
        r = campaign.campaign(b, [('walk', w, seed * 1000 + i) for i, w in enumerate(walks)], flags, os.path.join(work, 'w-' + focus))
        take(r)
        cov['states'] += states; cov['transitions'] += transitions
        taken = len(g.taken)
        cov['models'][focus] = dict(states=states, transitions=transitions, edges=g.size(), edges_replayed=taken, walks=len(walks), events=r['events'])

def rerun(x, work):
    """a recorded violation that is not a scenario"""
    return libs.again(runner.build('lib', os.path.join(work, 'lib')), x['lib'], work)
CHECKED = set(TRACES) | set(LIBRARY)

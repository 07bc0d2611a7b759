"""Scenario families.  A scenario is (family, k, seed): run on a freshly started device, its events are validated by TLC.
Enumerated families have a fixed list of cases (k picks one); random ones draw everything from the seed."""
import random
from . import gen, ec
from .gen import hx, tid, flip
from .host import *
from .device import Crash, FAULTS

FAMILIES = {}
ERRORS = []
def family(n=0):
    """n: number of enumerated cases (a function or int), 0 for a random family"""
    def wrap(f):
        FAMILIES[f.__name__] = (f, n); return f
    return wrap
def cases(name):
    n = FAMILIES[name][1]
    return n() if callable(n) else n
def run(name, k, h, r):
    """runs one scenario on a booted host; a crash is an event of its own"""
    guard('%s/%d' % (name, k), FAMILIES[name][0], h, r, k)
def guard(name, f, *args):
    try: f(*args)
    except Crash: pass
    except Exception as x:      # an answer the script cannot go on from: what was recorded is judged all the same
        ERRORS.append('%s: %r at line %s' % (name, x, x.__traceback__.tb_next.tb_lineno))

TOKS = [None, 0, 7, 9, 0xffffffff, 0x01000000]
def yn(r, p=.9): return r.random() < p
def other_commands(h, r):
    """requests that start another command"""
    return r.choice([lambda: h.do(epk(acct(r.randrange(3)), r.choice(TOKS)), yn(r)),
                     lambda: h.do(da(gen.address_path(r), r.choice([0, 16]), yn(r, .5), r.choice(TOKS)), yn(r)),
                     lambda: h.do(h.attest_init(gen.box(r), r.choice(TOKS)), yn(r)),
                     lambda: h.do(h.sign_init(gen.address_path(r), 0, r.choice(TOKS)), yn(r))])
def connect(h, r, tok=7): return h.do(epk(acct(0), tok))
def malformed(r):
    k = r.randrange(10)
    if k == 0: return hx(r, r.randrange(0, 5))
    if k == 1: return r.choice([VERSION, NAME, epk(acct(0)), da(addr()), apdu(0x21, 0x20, 1)]) + '00'
    if k == 2: return epk(acct(0))[:-2]
    if k == 3: return '%02x' % r.choice([0, 0xb0, 0xe1, 0xff, 0x60]) + r.choice([VERSION, NAME, epk(acct(0))])[2:]
    if k == 4: return apdu(r.choice([0, 3, 4, 15, 18, 31, 34, 35, 127, 128, 255]), r.randrange(3), r.randrange(3))
    if k == 5: return apdu(r.choice([1, 2]), *r.choice([(1, 0), (0, 1), (255, 0), (1, 1)]))
    if k == 6: return apdu(0x10, *r.choice([(0, 0), (3, 0), (1, 1), (2, 1), (255, 0), (1, 255)]), pth(acct(0)))
    if k == 7: return apdu(0x11, *r.choice([(0, 0), (0, 1), (1, 0), (3, 1), (1, 3), (255, 1), (2, 0)]), '00' + pth(addr()))
    if k == 8: return apdu(r.choice([0x20, 0x21]), *r.choice([(0, 0), (0, 1), (1, 0), (0, 255), (255, 0), (0x20, 0)]), hx(r, 3))
    return apdu(r.choice([1, 2]), 0, 0, hx(r, r.randint(1, 9)))

# ------------------------------------------------------------------ complete flows
@family()
def sign_ok(h, r, k):
    """a valid transaction, split at random, then attempts to get more out of the finished session"""
    path = gen.address_path(r)
    t = gen.tx(r, h, path, small=r.random() < .3)
    ok = h.sign(t, path, r.choice([0, 0, 16]), r.choice(TOKS), rnd=r, tour=r.choice([0, 0, 0, 1]))
    for _ in range(2):
        h.do(h.sg(0x20)) if r.random() < .6 else h.do(h.sg(*r.choice(h.tx_steps(t, r))))

@family()
def attest_ok(h, r, k):
    b = gen.box(r)
    fr = h.attest(b, r.choice(TOKS), rnd=r, tour=r.choice([0, 0, 1]))
    if fr:
        for _ in range(3): h.do(h.att(5, u8(r.choice(list(range(len(fr) + 1)) + [255]))))
        if r.random() < .5: h.do(h.att(r.choice([2, 3, 4]), hx(r, r.choice([0, 1, 40]))))
        else: other_commands(h, r)()
        h.do(h.att(5, '00'))

@family()
def attest_sign(h, r, k):
    """boxes attested by the device itself, then spent"""
    bs = []
    ids = [tid(r) for _ in range(r.choice([0, 1, 3, 6]))]
    if r.random() < .5: connect(h, r)
    for i in range(r.choice([1, 1, 2])):
        b = gen.box(r, [(t, gen.amount(r)) for t in r.sample(ids, r.randint(0, len(ids)))])
        b.value = r.randrange(1, 1 << 60)
        fr = h.attest(b, r.choice([None, 7]), rnd=r)
        if not fr: return
        bs.append((fr, '' if r.random() < .6 else hx(r, r.choice([2, 50]))))
    t = gen.tx(r, h, addr(), nin=1, ntok=0)
    h.sign(Tx(bs, [o for o in t.outs if o.kind == 'tree'] + [Out('fee', value=3)], [], ids), addr(), rnd=r)

# ------------------------------------------------------------------ disturbed flows
def mutate_steps(h, r, steps, alien, prev):
    """one disturbance of a list of (sub, data); returns (list of actions, index of the disturbance)"""
    st = [('s', s, d, None) for s, d in steps]
    i = r.randrange(len(st))
    k = r.randrange(14)
    _, s, d, _x = st[i]
    if k == 0: del st[i]
    elif k == 1: st.insert(i, st[i])
    elif k == 2 and len(st) > 1:
        j = min(i, len(st) - 2); i = j; st[j], st[j + 1] = st[j + 1], st[j]
    elif k == 3: st.insert(r.randrange(len(st) + 1), st.pop(i)); i = 0
    elif k == 4: a, b = r.choice(alien); st.insert(i, ('s', a, b, None))
    elif k == 5: st[i] = ('s', s, d[:2 * r.randrange(len(d) // 2)] if d else 'aa', None)
    elif k == 6: st[i] = ('s', s, (d + hx(r, r.choice([1, 1, 2, 12, 32, 40])))[:510], None)
    elif k == 7: st[i] = ('s', s, flip(r, d), None)
    elif k == 8: st[i] = ('s', s, d, r.choice([0, 1, 255, (h.sess + 1) % 256, (h.sess - 1) % 256, h.sess ^ 0x80, prev]))
    elif k == 9: st.insert(i, ('f', other_commands(h, r)))
    elif k == 10: st.insert(i, ('f', lambda: h.send(r.choice([VERSION, NAME, malformed(r)]))))
    elif k == 11: st.insert(i, ('s', r.choice([0, 6, 0x0f, 0x1b, 0x1f, 0x21, 0xff, 2, 3, 4, 5]), d, None))
    elif k == 12: st.insert(i, ('s', s, '', None))
    else: st = [x if x[0] == 'f' or j != i else x + ('no',) for j, x in enumerate(st)]
    return st, i

def play(h, r, st, send, stop=6):
    """sends the steps; some time after the first failure gives up"""
    failed = 0
    for x in st:
        if x[0] == 'f': x[1](); continue
        h.send(send(x[1], x[2], x[3]))
        if h.ev['resp'] == [] and h.asking():
            if len(x) > 4 or r.random() < .01: h.decide(False)
            else: h.decide(True)
        failed += not h.ok()
        if failed > stop: break

@family()
def sign_mut(h, r, k):
    """a signing flow disturbed once (or twice) at a random place; what follows is sent all the same"""
    path = addr()
    prev = 0
    if r.random() < .3 and h.begin(h.sign_init(path)): prev = h.sess
    t = gen.tx(r, h, path, small=True)
    other = gen.tx(r, h, path, small=True)
    if not h.begin(h.sign_init(path, 0, r.choice([None, None, 7]))): return
    steps = h.tx_steps(t, r)
    st, i = mutate_steps(h, r, steps, h.tx_steps(other, r), prev)
    play(h, r, st, lambda s, d, x: apdu(0x21, s, h.sess if x is None else x, d))
    h.do(h.sg(0x20))

@family()
def attest_mut(h, r, k):
    prev = 0
    if r.random() < .3 and h.begin(h.attest_init(gen.box(r))): prev = h.sess
    b, o = gen.box(r, ntok=r.choice([0, 1, 2, 3, 7])), gen.box(r, ntok=r.choice([0, 1, 5]))
    if not h.begin(h.attest_init(b, r.choice([None, 7]))): return
    steps = h.box_steps(b, r) + [(5, '00')]
    st, i = mutate_steps(h, r, steps, h.box_steps(o, r) + [(5, '00'), (5, '01')], prev)
    play(h, r, st, lambda s, d, x: apdu(0x20, s, h.sess if x is None else x, d))
    h.do(h.att(5, '00'))

@family()
def takeover(h, r, k):
    """sessions of both commands started over one another; requests with every identifier seen so far"""
    seen = []
    for _ in range(r.randint(3, 7)):
        which = r.choice(['a', 's'])
        if r.random() < .4: h.d.rng(r.choice(['00', '0000', u8(h.sess), u8(h.sess) + '00', '00' + u8(h.sess), u8(h.sess) * 3,
                                              '00' + u8(h.sess) + '00', u8(r.choice([x for _, x in seen] or [1]))]))
        tok = r.choice([None, 7, 7])
        raw = h.attest_init(gen.box(r, ntok=1), tok) if which == 'a' else h.sign_init(addr(), 0, tok)
        if h.begin(raw, yes=yn(r)): seen.append((which, h.sess))
        for _ in range(r.choice([0, 1, 1, 2])):
            if not seen: break
            w, s = r.choice(seen[-3:]) if r.random() < .7 else (r.choice('as'), r.choice([0, 1, 255, seen[-1][1] ^ 1]))
            if r.random() < .2: w = 'a' if w == 's' else 's'
            if w == 'a': h.do(apdu(0x20, r.choice([2, 3, 4, 5]), s, hx(r, r.choice([0, 1, 10, 40]))))
            else: h.do(apdu(0x21, *r.choice([(0x10, s, '00010000000001'), (0x10, s, '00020001010002'), (0x11, s, tid(r)),
                                             (0x20, s, ''), (0x16, s, 'aa'), (0x14, s, tid(r))])))
        if r.random() < .25: other_commands(h, r)()

# ------------------------------------------------------------------ every step, everywhere
def whole_tx(h, r):
    """one of everything"""
    ids = [tid(r) for _ in range(2)]
    ins = [(h.frames(tid(r), 10**9, [(t, 1000) for t in ids] + [(tid(r), 5) for _ in range(3)]), hx(r, 3)), (h.frames(tid(r), 10**6, []), '')]
    outs = [Out('tree', hx(r, 40), 7, toks=[(0, 10), (1, 20)], regs=hx(r, 4)), Out('fee', value=3), Out('change', addr(0, 0, 3), 11)]
    return Tx(ins, outs, [tid(r)], ids)
NTX = 16      # its steps
def whole_box(r):
    b = gen.box(r, ntok=5); b.tree, b.regs = hx(r, 300), hx(r, 3)
    return b
NBOX = 7      # two script parts, token, registers, three times a frame
def box_all(h, b): return h.box_steps(b)[:5] + [(5, '00'), (5, '01'), (5, '02')]
def _sessions():
    return [(c, i, w) for c, n in (('s', NTX), ('a', NBOX)) for i in range(n) for w in ('prev', 'zero', 'near', 'near2', 'taken', 'other')]
SESSIONS = _sessions()
@family(lambda: len(SESSIONS))
def sessions(h, r, k):
    """each step of a session with an identifier that is not the session's"""
    c, i, wrong = SESSIONS[k % len(SESSIONS)]
    connect(h, r)
    def open_(c, tok=7): return h.begin(h.attest_init(whole_box(r), tok) if c == 'a' else h.sign_init(addr(), 0, tok))
    old = 0
    if wrong == 'prev': open_(r.choice('as')); old = h.sess
    b = whole_box(r)
    if not h.begin(h.attest_init(b, 7) if c == 'a' else h.sign_init(addr(), 0, 7)): return
    steps = box_all(h, b) if c == 'a' else h.tx_steps(whole_tx(h, r))
    ins = 0x20 if c == 'a' else 0x21
    mine = h.sess
    for s, d in steps[:i]: h.do(apdu(ins, s, mine, d))
    if wrong == 'taken': open_(c); sid = mine
    elif wrong == 'other': open_('a' if c == 's' else 's'); sid = h.sess
    else: sid = {'prev': old, 'zero': 0, 'near': mine ^ (1 << i % 8), 'near2': mine ^ (1 << (i + 4) % 8)}[wrong]
    for j in range(i, min(i + 3, len(steps))):
        h.do(apdu(ins, steps[j][0], sid if j == i else mine, steps[j][1]))
    h.do(apdu(ins, steps[i][0], mine, steps[i][1]))
    if wrong in ('taken', 'other'): h.do(apdu(0x20 if (c == 'a') == (wrong == 'taken') else 0x21, 2 if (c == 'a') == (wrong == 'taken') else 0x10, h.sess, '00010000000001'))
def _matrix():
    subs = [0x10, 0x11, 0x12, 0x13, 0x14, 0x15, 0x16, 0x17, 0x18, 0x19, 0x1a, 0x20, 'next', 'part']
    return [('s', i, j) for i in range(NTX + 1) for j in subs] + [('a', i, j) for i in range(NBOX + 1) for j in (2, 3, 4, 5, 6)] + \
           [('skip', i, n) for i in range(NTX) for n in (1, 2)] + [('no', i, w) for i in range(NTX) for w in ('right', 'left')]
MATRIX = _matrix()
@family(lambda: len(MATRIX))
def matrix(h, r, k):
    """each kind of step at each point of a session, and then the rest of it"""
    c, i, j = MATRIX[k % len(MATRIX)]
    connect(h, r)
    b = whole_box(r)
    if not h.begin(h.attest_init(b, 7) if c == 'a' else h.sign_init(addr(), 0, 7)): return
    t = whole_tx(h, r)
    steps = box_all(h, b) if c == 'a' else h.tx_steps(t)
    ins = 0x20 if c == 'a' else 0x21
    def go(l):
        bad = 0
        for s, d in l:
            bad += not h.do(apdu(ins, s, h.sess, d))
            if bad > 2: return
    go(steps[:i])
    if c == 'skip': go(steps[i + j:]); return
    if c == 'no':       # the prompt, if this step asks, is rejected; everything is tried again
        s, d = steps[i]
        h.do(apdu(ins, s, h.sess, d), yes=False, by=j)
        go(steps[i + 1:]); go(steps[i:]); h.do(h.sg(0x20)); return
    extra = {0x10: [steps[0]], 0x11: [(0x11, tid(r))], 0x12: h.input_steps(h.frames(tid(r), 5, []), '')[:1], 0x13: [(0x13, 'aabb')], 0x14: [(0x14, tid(r))],
             0x15: h.out_steps(Out('tree', hx(r, 40), 9))[:1], 0x16: [(0x16, hx(r, 40))], 0x17: [(0x17, '')], 0x18: [(0x18, pth(addr(0, 0, 2)))],
             0x19: [(0x19, u32(0) + u64(1))], 0x1a: [(0x1a, 'aa')], 0x20: [(0x20, '')]}
    if c == 'a': x = [(j, {2: 'aa', 3: tid(r) + u64(4), 4: 'aa', 5: '00', 6: ''}[j])]
    elif j == 'next': x = [(0x12, t.inputs[0][0][1])]           # the second frame of the first input
    elif j == 'part': x = [(steps[min(i, NTX - 1)][0], steps[min(i, NTX - 1)][1][:2])]
    else: x = extra[j]
    go(x); go(steps[i:]); h.do(apdu(ins, 0x20 if c == 's' else 5, h.sess, '' if c == 's' else '00'))

def _alien(): return [('s', i, j) for i in range(NTX + 1) for j in (2, 3, 4, 5)] + \
                     [('a', i, j) for i in range(NBOX + 1) for j in (0x10, 0x11, 0x12, 0x13, 0x14, 0x15, 0x16, 0x17, 0x18, 0x19, 0x1a, 0x20)]
ALIEN = _alien()
@family(lambda: len(ALIEN))
def alien(h, r, k):
    """each step of the other command, with the session's own identifier, at each point of a session"""
    c, i, j = ALIEN[k % len(ALIEN)]
    connect(h, r)
    b = whole_box(r)
    if not h.begin(h.attest_init(b, 7) if c == 'a' else h.sign_init(addr(), 0, 7)): return
    t = whole_tx(h, r)
    steps = box_all(h, b) if c == 'a' else h.tx_steps(t)
    ins = 0x20 if c == 'a' else 0x21
    for s, d in steps[:i]: h.do(apdu(ins, s, h.sess, d))
    x = {2: 'aa', 3: tid(r) + u64(4), 4: 'aa', 5: '00', 0x10: '00010000000001', 0x11: tid(r), 0x12: t.inputs[1][0][0] + u32(0), 0x13: 'aabb', 0x14: tid(r),
         0x15: h.out_steps(Out('tree', hx(r, 40), 9))[0][1], 0x16: hx(r, 40), 0x17: '', 0x18: pth(addr(0, 0, 2)), 0x19: u32(0) + u64(1), 0x1a: 'aa', 0x20: ''}[j]
    h.do(apdu(0x41 - ins, j, h.sess, x))
    for s, d in (steps[i:] + steps[-1:])[:3]: h.do(apdu(ins, s, h.sess, d))

# ------------------------------------------------------------------ requests too short and too long
HOW = ['empty', 'one', 'half', '-1', '+1', '+4', 'twice']
def relength(r, d, how):
    n = len(d) // 2
    x = {'empty': '', 'one': d[:2], 'half': d[:2 * (n // 2)], '-1': d[:-2], '+1': d + hx(r, 1), '+4': d + hx(r, 4), 'twice': d + (d or 'aa')}[how]
    return x[:510]
def single(h, r):
    """each request that starts something"""
    return [VERSION, NAME, epk(acct(0)), epk(acct(1, 2), 7), da(addr(), 0), da(addr(), 16, True), da(addr(), 16, False, 7), da(addr(), 0, True, 7),
            h.attest_init(gen.box(r, ntok=1)), h.attest_init(gen.box(r, ntok=0), 7), h.sign_init(addr()), h.sign_init(addr(), 16, 7)]
LENGTHS = [(c, i, x) for c, n in (('s', NTX), ('a', NBOX), ('q', 12)) for i in range(n) for x in HOW]
@family(lambda: len(LENGTHS))
def lengths(h, r, k):
    """each request with less or more data than it takes"""
    c, i, how = LENGTHS[k % len(LENGTHS)]
    connect(h, r)
    if c == 'q':
        q = single(h, r)[i]
        d = relength(r, q[10:], how)
        h.do(q[:8] + u8(len(d) // 2) + d, tour=1); h.do(q)
        if len(h.data()) == 2: h.sess = int(h.data(), 16); h.do(h.att(2, 'aa')); h.do(h.sg(*h.start(1, 0, 0, 1)))
        return
    b = whole_box(r)
    if not h.begin(h.attest_init(b, 7) if c == 'a' else h.sign_init(addr(), 0, 7)): return
    steps = box_all(h, b) if c == 'a' else h.tx_steps(whole_tx(h, r))
    mk = h.att if c == 'a' else h.sg
    for s, d in steps[:i]: h.do(mk(s, d))
    h.do(mk(steps[i][0], relength(r, steps[i][1], how)))
    for s, d in steps[i:i + 3] if r.random() < .5 else steps[i + 1:i + 4]: h.do(mk(s, d))
    h.do(mk(*steps[-1]))

# ------------------------------------------------------------------ attested frames
FRAME_CASES = ['flip', 'flip', 'flip', 'flip', 'cut', 'extend', 'swap', 'dup', 'drop', 'other', 'otherkey', 'restart', 'zeromac',
               'zerobyte', 'zerobyte', 'twobytes', 'twobits', 'noext', 'late', 'fc', 'again', 'count', 'mix', 'extsize', 'good']
@family(lambda: 400)
def frames(h, r, k):
    """frames altered, exchanged, repeated, left out, of another box, key or run"""
    kind = FRAME_CASES[k % len(FRAME_CASES)]
    n = r.choice([0, 1, 3, 4, 5, 8, 9, 13])
    toks = [(tid(r), gen.amount(r)) for _ in range(n)]
    bid, val = tid(r), r.randrange(1, 1 << 40)
    real = r.random() < .3
    if real:
        b = gen.box(r, toks); b.value = val
        f = h.attest(b, None, rnd=r)
        if not f: return
    else: f = h.frames(bid, val, toks)
    while kind == 'zerobyte' and not any('00' in (x[-32:-30], x[-30:-28], x[-28:-26]) for x in f):
        bid = tid(r); f = h.frames(bid, val, toks)
    g = h.frames(tid(r), val, toks)
    # each frame: what is put before the (first) frame's extension size
    if kind == 'restart':
        h.press('left'); h.press('both') if r.random() < .5 else h.d.boot('restarted')
        h.ev = h.d.rec.events[-1]
    if not h.begin(h.sign_init(addr())): return
    two = r.random() < .3
    if not h.do(h.sg(*h.start(2 if two else 1, 0, 0, 1))): return
    ext = '' if r.random() < .7 else hx(r, 5)
    es = u32(len(ext) // 2)
    out = []
    if two:
        e = h.frames(tid(r), 10**6, [(tid(r), 5)])
        out += [x + (u32(0) if i == 0 else '') for i, x in enumerate(e)]
    i = r.randrange(len(f)) if r.random() < .6 else 0
    L = [x + (es if j == 0 else '') for j, x in enumerate(f)]
    if kind == 'flip':
        # over the whole frame, most often where it matters
        where = r.choice([r.randrange(len(f[i]) // 2), r.randrange(32, 43), len(f[i]) // 2 - 1 - r.randrange(16)])
        L[i] = flip(r, L[i], where)
    elif kind == 'cut': L[i] = L[i][:2 * r.randrange(len(f[i]) // 2)]
    elif kind == 'extend': L[i] += hx(r, r.choice([1, 3, 4, 8]))
    elif kind == 'swap' and len(L) > 1:
        j = r.randrange(len(L) - 1); L[j], L[j + 1] = L[j + 1], L[j]
        if r.random() < .5: L = [x if len(x) < 510 else x for x in L]
    elif kind == 'dup': L.insert(i, L[i])
    elif kind == 'drop': del L[i]
    elif kind == 'other': L[i] = (g[i] + (es if i == 0 else ''))
    elif kind == 'otherkey':
        o = h.frames(bid, val, toks, skey=hx(r, 16)); L[i] = o[i] + (es if i == 0 else '')
    elif kind == 'zeromac': L[i] = f[i][:-32] + '00' * 16 + (es if i == 0 else '')
    elif kind == 'noext': L[0] = f[0] + es[:2 * r.randrange(4)]
    elif kind == 'late': L = L[1:] + L[:1]
    elif kind == 'fc':
        o = h.frames(bid if not real else f[0][:64], val, toks, fc=r.choice([0, 1, len(f) + 1, len(f) - 1 if len(f) > 1 else 2, 255]))
        L = [x + (es if j == 0 else '') for j, x in enumerate(o)] if r.random() < .5 else L[:1] + o[1:]
    elif kind == 'again': L = L + [L[-1]]
    elif kind == 'count':   # a frame claiming more tokens than it has
        b = f[i][:-32]; c = b[:84] + u8(r.choice([0, 5, 6, 255, int(b[84:86], 16) + 1])) + b[86:]
        L[i] = c + ec.mac(h.d.skey, c) + (es if i == 0 else '')
    elif kind == 'mix' and len(f) > 1:   # genuine first frame of one box, genuine later frame of another
        L[1] = g[1]
    elif kind in ('twobytes', 'twobits'):       # alterations of the code that keep the sum of its bytes, or their parity
        c = bytearray.fromhex(f[i][-32:]); x, y = r.sample(range(16), 2)
        if kind == 'twobytes': c[x], c[y] = c[y], c[x]
        else: c[x] ^= 0x55; c[y] ^= 0x55
        L[i] = f[i][:-32] + c.hex() + (es if i == 0 else '')
    elif kind == 'zerobyte': L[i] = flip(r, f[i], len(f[i]) // 2 - 1 - r.randrange(12)) + (es if i == 0 else '')   # after the zero byte
    elif kind == 'extsize': L[0] = f[0] + u32(r.choice([0, 1, 2, 32767, 32768, 32769, 65536, 2**31, 2**32 - 1]))
    bad = 0
    for x in out + L:
        h.do(h.sg(0x12, x[:510])); bad += not h.ok()
        if bad > 2: return
    for c in chunks(ext, 255, r): h.do(h.sg(0x13, c))
    h.run(h.out_steps(Out('tree', gen.tree(r), 5)) + [(0x20, '')])

# ------------------------------------------------------------------ announced counts and sizes
def _limits():
    L = []
    def c(*a): L.append(a)
    for a in [(0, 0, 0, 1), (1, 0, 0, 0), (0, 0, 0, 0), (1, 0, 20, 1), (1, 0, 21, 1), (1, 0, 255, 1), (65535, 65535, 20, 65535), (1, 0, 0, 1),
              (256, 256, 0, 256), (1, 0, 19, 1)]: c('start', a)
    for n in (1, 2, 7, 8, 20):
        for d in (-1, 0, 1): c('ids', n, d); c('datas', n, d)
        for p in (1, 31): c('idpart', n, p); c('datapart', n, p)
    for n in (1, 2, 3):
        for d in (-1, 0, 1): c('ins', n, d); c('outs', n, d)
    for n in (0, 1, 254, 255, 256, 509, 510, 511, 766):
        for how in ('exact', 'over', 'under', 'small', 'edge', 'empty', 'split'):
            c('tree', 's', n, how); c('tree', 'a', n, how)
    for n in (32767, 32768, 32769, 65535, 65536, 2**31, 2**32 - 1, 2**32 - 32768):
        for f in ('tree', 'regs'):
            c('size', 's', f, n); c('size', 'a', f, n)
        c('ext', n, None)
    for n in (0, 1, 19, 20, 21, 22, 128, 255): c('ntok', 's', n); c('ntok', 'a', n)
    for n in (0, 1, 2, 3, 255, 256, 300):
        for d in (-1, 0, 1): c('ext', n, d)
    for n in (1, 2, 255, 256):
        for d in (-1, 0, 1): c('regs', 's', n, d); c('regs', 'a', n, d)
    for n in (1, 2, 4, 5, 6, 7, 20):
        for d in (-1, 0, 1): c('atoks', n, d)
        for p in (1, 31, 32, 39): c('atokpart', n, p); c('atokpart+', n, p)
    for n in (1, 3, 20):
        for d in (-1, 0, 1): c('otoks', n, d)
        for p in (1, 3, 4, 11): c('otokpart', n, p); c('otokpart+', n, p)
    for x in ('dup-same', 'dup-next', 'dup-first-last', 'dup-near'): c('adup', x); c('odup', x)
    for ix in (0, 1, 2, 3, 4, 19, 20, 255, 256, 65536, 2**31, 2**32 - 1): c('oindex', 2, ix); c('oindex', 0, ix)
    for n in (19, 20, 21, 22): c('distinct', n)
    for n in (1, 2, 3): c('early', n)
    c('big', 's'); c('big', 'a'); c('bigext'); c('manyin'); c('manyout'); c('manydata')
    for x in ('in', 'data', 'out'): c('narrow', x, 257); c('narrow', x, 256); c('narrow', x, 65535)
    for st in range(12): c('stage', st)
    return L
LIMITS = _limits()

@family(lambda: len(LIMITS))
def limits(h, r, k):
    a = LIMITS[k % len(LIMITS)]
    kind = a[0]
    inp = lambda n=1: [(h.frames(tid(r), 10**6, []), '') for _ in range(n)]
    simple = lambda: Out('tree', p2pk('02' + hx(r, 32)), 7)
    def begin(nin=1, ndata=0, ntok=0, nout=1):
        return h.begin(h.sign_init(addr(), 0, 7)) and h.do(h.sg(*h.start(nin, ndata, ntok, nout)))
    def finish(n=1):
        for _ in range(n): h.run(h.out_steps(simple()))
        h.do(h.sg(0x20))
    def to_outs(nout=1, ntok=0, extra=0):
        ids = [tid(r) for _ in range(ntok)]
        if not begin(1, 0, ntok, nout): return None
        if ids: h.run([(0x11, c) for c in items(ids, 7)])
        f = h.frames(tid(r), 10**9, [(t, 1000) for t in ids + [tid(r) for _ in range(extra)]])
        h.run(h.input_steps(f, ''))
        return ids
    def start_out(size, ntok=0, regs=0): return h.do(h.sg(0x15, u64(5) + u32(size) + u32(9) + u8(ntok) + u32(regs)))
    def start_att(size, ntok=0, regs=0):
        b = gen.box(r, []); return h.begin(h.attest_init(b, None, size, ntok, regs))
    def frame0(): h.do(h.att(5, '00'))
    if kind == 'start':
        if h.begin(h.sign_init(addr())):
            if h.do(h.sg(*h.start(*a[1]))) and a[1] == (1, 0, 0, 1): h.run(h.input_steps(*inp()[0])); finish()
            else: h.do(h.sg(0x20)); h.do(h.sg(0x10, '00010000000001'))
    elif kind in ('ids', 'idpart'):
        n = a[1]
        if not begin(1, 0, n): return
        ids = [tid(r) for _ in range(n + (a[2] if kind == 'ids' else 0))]
        if kind == 'ids':
            for c in items(ids, 7, r): h.do(h.sg(0x11, c))
        else:
            s = ''.join(ids) + hx(r, a[2]); s = s if r.random() < .5 else s[64:]
            for c in [s[i:i + 448] for i in range(0, len(s), 448)]: h.do(h.sg(0x11, c))
        h.run(h.input_steps(*inp()[0])); finish()
    elif kind in ('datas', 'datapart'):
        n = a[1]
        if not (begin(1, n, 0) and h.run(h.input_steps(*inp()[0]))): return
        ids = [tid(r) for _ in range(n + (a[2] if kind == 'datas' else 0))]
        if kind == 'datas':
            for c in items(ids, 7, r): h.do(h.sg(0x14, c))
        else:
            s = ''.join(ids) + hx(r, a[2]); s = s if r.random() < .5 else s[64:]
            for c in [s[i:i + 448] for i in range(0, len(s), 448)]: h.do(h.sg(0x14, c))
        finish()
    elif kind == 'ins':
        if not begin(a[1], 0, 0): return
        for f, e in inp(a[1] + a[2]): h.run(h.input_steps(f, e))
        finish()
    elif kind == 'outs':
        if to_outs(a[1]) is None: return
        finish(a[1] + a[2])
    elif kind == 'tree':
        n, how = a[2], a[3]
        s = a[1] == 's'
        if s:
            if to_outs() is None or not start_out(n): return
        elif not start_att(n): return
        t = hx(r, n)
        if how == 'exact': st = chunks(t) or ['']
        elif how == 'over':
            t += 'ee'; st = chunks(t)
        elif how == 'under':
            t = t[2:]; st = chunks(t) or ['']
        elif how == 'small': st = [t[:508]] + chunks(t[508:])
        elif how == 'edge': st = [t[:2 * 100]] + chunks(t[200:])
        elif how == 'empty': st = [''] + chunks(t)
        else: st = [t[i:i + 510] for i in range(0, len(t), 510)] or ['']
        for x in st: h.do(h.sg(0x16, x) if s else h.att(2, x))
        if how == 'under': h.do(h.sg(0x20) if s else h.att(5, '00'))
        h.do(h.sg(0x20)) if s else frame0()
    elif kind == 'size':
        s = a[1] == 's'
        sz = (a[3], 0, 0) if a[2] == 'tree' else (3, 0, a[3])
        if s:
            if to_outs() is None or not start_out(*sz): return
        elif not start_att(*sz): return
        x = hx(r, 255) if a[2] == 'tree' else hx(r, 3)
        h.do(h.sg(0x16, x) if s else h.att(2, x)); h.do(h.sg(0x1a, 'aa') if s else h.att(4, 'aa')); h.do(h.sg(0x20)) if s else frame0()
    elif kind == 'ext':
        n, d = a[1], a[2]
        if not begin(): return
        f = h.frames(tid(r), 10**6, [])
        h.do(h.sg(0x12, f[0] + u32(n)))
        if d is not None:
            e = hx(r, max(0, n + d))
            for c in chunks(e, 255, r if r.random() < .5 else None): h.do(h.sg(0x13, c))
        elif r.random() < .5: h.do(h.sg(0x13, hx(r, 200)))
        finish()
    elif kind == 'ntok':
        if a[1] == 's':
            if to_outs(1, 20) is None or not start_out(3, a[2]): return
            h.do(h.sg(0x16, hx(r, 3))); h.do(h.sg(0x19, u32(0) + u64(1))); h.do(h.sg(0x20))
        else:
            if not start_att(3, a[2]): return
            h.do(h.att(2, hx(r, 3)))
            for i in range(min(a[2], 22)): h.do(h.att(3, tid(r) + u64(i)))
            frame0()
            for i in range(1, 6): h.do(h.att(5, u8(i)))
    elif kind == 'regs':
        s, n, d = a[1] == 's', a[2], a[3]
        if s:
            if to_outs() is None or not start_out(3, 0, n): return
        elif not start_att(3, 0, n): return
        h.do(h.sg(0x16, hx(r, 3)) if s else h.att(2, hx(r, 3)))
        for c in chunks(hx(r, n + d), 255, r): h.do(h.sg(0x1a, c) if s else h.att(4, c))
        h.do(h.sg(0x20)) if s else frame0()
    elif kind in ('atoks', 'atokpart', 'atokpart+'):
        n = a[1]
        if not start_att(3, n, r.choice([0, 2])): return
        h.do(h.att(2, hx(r, 3)))
        if kind == 'atoks':
            for c in items([tid(r) + u64(gen.u64v(r)) for _ in range(n + a[2])], 6, r): h.do(h.att(3, c))
        else:
            m = n if kind == 'atokpart+' else n - 1
            s = ''.join(tid(r) + u64(9) for _ in range(m)) + hx(r, a[2])
            for c in [s[i:i + 480] for i in range(0, len(s), 480)]: h.do(h.att(3, c))
        h.do(h.att(4, hx(r, 2))); frame0()
    elif kind in ('otoks', 'otokpart', 'otokpart+'):
        n = a[1]
        if to_outs(1, 20) is None or not start_out(3, n, 0): return
        h.do(h.sg(0x16, hx(r, 3)))
        if kind == 'otoks':
            ix = r.sample(range(20), min(20, n + a[2])) + [0] * max(0, n + a[2] - 20)
            for c in items([u32(i) + u64(7) for i in ix], 21, r): h.do(h.sg(0x19, c))
        else:
            m = n if kind == 'otokpart+' else n - 1
            s = ''.join(u32(i) + u64(9) for i in range(m)) + '00' * min(4, a[2]) + hx(r, max(0, a[2] - 4))
            h.do(h.sg(0x19, s))
        h.do(h.sg(0x20))
    elif kind in ('adup', 'odup'):
        n = 6 if kind == 'adup' else 6
        t = [tid(r) for _ in range(6)]
        if a[1] == 'dup-near': t[3] = t[2][:62] + '%02x' % (int(t[2][62:], 16) ^ 1)
        if kind == 'adup':
            order = {'dup-same': [0, 0], 'dup-next': [0, 1, 1], 'dup-first-last': [0, 1, 2, 3, 4, 0], 'dup-near': [0, 1, 2, 3]}[a[1]]
            if not start_att(3, len(order), 0): return
            h.do(h.att(2, hx(r, 3)))
            it = [t[i] + u64(5) for i in order]
            for c in (items(it, 6) if a[1] != 'dup-next' else items(it, 1)): h.do(h.att(3, c))
            frame0()
        else:
            order = {'dup-same': [0, 0], 'dup-next': [0, 1, 1], 'dup-first-last': [0, 1, 2, 3, 4, 0], 'dup-near': [0, 1, 2, 3]}[a[1]]
            if to_outs(1, 6) is None or not start_out(3, len(order), 0): return
            h.do(h.sg(0x16, hx(r, 3)))
            zero = r.random() < .3
            it = [u32(i) + u64(0 if zero and j == 0 else 5) for j, i in enumerate(order)]
            for c in (items(it, 21) if a[1] != 'dup-next' else items(it, 1)): h.do(h.sg(0x19, c))
            h.do(h.sg(0x20))
    elif kind == 'oindex':
        if to_outs(1, 3, a[1]) is None or not start_out(3, 1, 0): return
        h.do(h.sg(0x16, hx(r, 3))); h.do(h.sg(0x19, u32(a[2]) + u64(5))); h.do(h.sg(0x20))
    elif kind == 'distinct':     # more distinct tokens in the inputs than fit
        if not begin(1, 0, 2): return
        ids = [tid(r), tid(r)]
        h.do(h.sg(0x11, ''.join(ids)))
        h.run(h.input_steps(h.frames(tid(r), 10**6, [(tid(r), 5) for _ in range(a[1] - 2)]), '')); finish()
    elif kind == 'early':        # confirmation before everything arrived
        if to_outs(2) is None: return
        o = simple(); st = h.out_steps(o)
        for s, d in st[:a[1]]: h.do(h.sg(s, d))
        h.do(h.sg(0x20)); finish(2)
    elif kind == 'stage':        # each stage's step at every other stage
        t = Tx([(h.frames(tid(r), 10**6, []), 'aabb')], [Out('tree', 'aabbcc', 5, toks=[(0, 1)], regs='0102')], [tid(r)], [tid(r)])
        st = h.tx_steps(t)
        if not h.begin(h.sign_init(addr())): return
        i = a[1]
        for s, d in st[:i]: h.do(h.sg(s, d))
        if i < len(st): s, d = r.choice(st); h.do(h.sg(s, d))
        h.run(st[i:])
    elif kind == 'big':
        n = 32768
        t, rg = hx(r, 16) * 2048, hx(r, 16) * 2048
        if a[1] == 's':
            if to_outs() is None: return
            h.run(h.out_steps(Out('tree', t, 5, regs=rg)) + [(0x20, '')])
        else:
            b = gen.box(r, []); b.tree, b.regs = t, rg; h.attest(b)
    elif kind == 'bigext':
        h.sign(Tx([(h.frames(tid(r), 5, []), hx(r, 16) * 2048)], [simple()]))
    elif kind == 'manyin': h.sign(Tx([(h.frames(tid(r), i, []), '') for i in range(258)], [simple()]))
    elif kind == 'manyout': h.sign(Tx(inp(), [Out('fee', value=1) for i in range(258)]))
    elif kind == 'manydata': h.sign(Tx(inp(), [simple()], datas=[tid(r) for i in range(258)]))
    elif kind == 'narrow':       # a count beyond a byte, of which only the rest arrives
        n = {'in': 1, 'data': 0, 'out': 1}; n[a[1]] = a[2]
        if not begin(n['in'], n['data'], 0, n['out']): return
        h.run(h.input_steps(*inp()[0]))
        if a[1] == 'data' and a[2] & 255:
            if not h.do(h.sg(0x14, tid(r))): return
        if a[1] == 'out' and a[2] & 255: h.run(h.out_steps(simple()))
        if a[1] == 'out' or r.random() < .5: h.do(h.sg(0x20))
        finish()

# ------------------------------------------------------------------ totals
def _amounts():
    M = 2**64 - 1
    L = [('in', [M, 0]), ('in', [M, 1]), ('in', [2**63, 2**63]), ('in', [2**63, 2**63 - 1]), ('in', [1, M - 1, 1]), ('in', [5, 6, 7]), ('in', [0]),
         ('in', [2**32, 2**32]), ('in', [2**32 - 1, 1])]
    for i, outs in ([100, [('change', 100)]], [100, [('change', 101)]], [100, [('fee', 100)]], [100, [('fee', 101)]],
                    [100, [('change', 60), ('fee', 40)]], [100, [('change', 60), ('fee', 41)]], [100, [('fee', 60), ('change', 41)]],
                    [100, [('fee', 30), ('fee', 30)]], [M, [('fee', M), ('fee', 0)]], [M, [('fee', 2**63), ('fee', 2**63 - 1)]],
                    [100, [('tree', M), ('tree', M)]], [100, [('change', 0), ('fee', 0)]], [0, [('change', 1)]], [0, [('fee', 1)]],
                    [M, [('change', M)]], [10**9, [('change', 1), ('change', 2), ('fee', 3), ('fee', 4), ('tree', 10**10)]],
                    [2**32 + 5, [('change', 2**32)]], [2**33, [('fee', 2**32), ('change', 2**32 - 1)]]): L.append(('out', i, outs))
    P = 2**63
    for ins, outs in (([5], [5]), ([5], [3]), ([5], [7]), ([], [7]), ([5], []), ([P - 1], []), ([P], []), ([P - 1, 1], []), ([P - 1], [P - 1]),
                      ([P - 1], [M]), ([], [P - 1]), ([], [P]), ([], [P + 1]), ([], [M]), ([1], [P]), ([1], [P + 1]), ([1], [P + 2]), ([P - 1], [M - 1]),
                      ([3, 4], [5, 6]), ([3, 4], [7]), ([3], [1, 1]), ([], [P - 1, 1]), ([], [P - 1, 2]), ([M], []), ([0], []), ([0], [0]), ([5], [0]),
                      ([5], [5, 1]), ([2**32], [1]), ([2**32], [2**32]), ([2**31], [2**32])): L.append(('tok', ins, outs))
    for v in gen.EDGE64: L.append(('show', v))
    L += [('multi', i) for i in range(10)]
    return L
AMOUNTS = _amounts()

@family(lambda: len(AMOUNTS))
def amounts(h, r, k):
    """sums at and around the edges of what is representable"""
    a = AMOUNTS[k % len(AMOUNTS)]
    ids, ins, outs = [], [], []
    if a[0] == 'in':
        ins = [(h.frames(tid(r), v, []), '') for v in a[1]]; outs = [Out('tree', p2pk('03' + hx(r, 32)), 5)]
    elif a[0] == 'out':
        ins = [(h.frames(tid(r), a[1], []), '')]
        for n, v in a[2]: outs.append(Out(n, addr(0, 0, r.choice([1, 100])) if n == 'change' else hx(r, 5) if n == 'tree' else '', v))
    elif a[0] == 'tok':
        ids = [tid(r), tid(r), tid(r)]
        t = r.randrange(3)
        same = r.random() < .3 and len(a[1]) == 1
        ins = [(h.frames(tid(r), 10, [(ids[t], v)]), '') for v in a[1]] or [(h.frames(tid(r), 10, []), '')]
        outs = [Out(r.choice(['tree', 'tree', 'change', 'fee']), '', 1, toks=[(t, v)]) for v in a[2]] or [Out('fee', value=1)]
        for o in outs: o.dest = hx(r, 5) if o.kind == 'tree' else addr(0, 0, r.choice([0, 50])) if o.kind == 'change' else ''
        if sum(o.kind != 'tree' for o in outs) > 1: outs = [Out('tree', 'aa', 1, toks=o.toks) for o in outs]
    elif a[0] == 'show':
        ids = [tid(r)]
        v = a[1]
        ins = [(h.frames(tid(r), v, [(ids[0], min(v, 2**63 - 1))]), '')]
        outs = [Out('tree', hx(r, 4), v, toks=[(0, min(v, 2**63 - 1))] if v else []), Out('fee', value=v // 3), Out('change', addr(9, 0, 1), v // 5)]
    else:
        ids = [tid(r) for _ in range(20)]
        ins = [(h.frames(tid(r), 10**9 + 1, [(t, gen.amount(r)) for t in r.sample(ids, r.randint(1, 20))]), '') for _ in range(3)]
        outs = [Out('tree', gen.tree(r), gen.u64v(r), toks=[(i, r.randrange(1, 1 << 45)) for i in r.sample(range(20), r.randint(1, 20))]) for _ in range(2)]
    h.sign(Tx(ins, outs, [], ids), addr(0, 0, 0), tour=1)

# ------------------------------------------------------------------ outputs
def _change():
    L = []
    H = 0x80000000
    for sign in ([0, 0, 0], [0, 0, 100], [1, 1, 5], [0, 0, 2**31 - 21], [0, 0, 2**31 - 1], [0, 3, 7]):
        for d in (-100, -21, -1, 0, 1, 18, 19, 20, 21, 100):
            i = sign[2] + d
            if 0 <= i < 2**31: L.append((sign, [sign[0], sign[1], i]))
        i = sign[2]
        for c in ([sign[0] + 1, sign[1], i], [sign[0], sign[1] + 1, i], [sign[0], 1 - sign[1] if sign[1] < 2 else 0, i],
                  [sign[0] + 256, sign[1], i], [sign[0], sign[1], i, 0], [sign[0], sign[1], i, 1, 2], [sign[0], sign[1], i, H - 1, H - 1, H - 1, H - 1, H - 1],
                  [sign[0], sign[1] + 256, i], [sign[0], sign[1], (i + 2**30) % H]):
            L.append((sign, c))
    return L
CHANGES = _change()
def text_len(p): return 1 + sum(1 + len(str(x & 0x7fffffff)) + (x >> 31) for x in p)

@family(lambda: len(CHANGES))
def change(h, r, k):
    """change paths near and far from the signing path; the path just approved; long paths"""
    s, c = CHANGES[k % len(CHANGES)]
    sp, cp = addr(*s), addr(*c)
    outs = [Out('change', cp, 5)]
    m = r.randrange(6)
    far = addr(5, 0, 77)
    if m == 0: outs += [Out('change', cp, 6)]                               # approved just now
    elif m == 1: outs += [Out('tree', hx(r, 3), 6), Out('change', cp, 7)]   # another prompt in between
    elif m == 2: outs = [Out('change', far, 5), Out('change', far, 6), Out('change', cp, 7), Out('change', far, 8)]
    elif m == 3: outs = [Out('change', far, 5), Out('fee', value=1), Out('change', far[:4] + [78], 6), Out('change', far, 8)]
    elif m == 4: outs += [Out('change', far, 5), Out('change', cp, 6)]
    if r.random() < .3:
        for o in outs: o.regs = hx(r, 2)
    ids = [tid(r)]
    if r.random() < .4:
        for o in outs: o.toks = [(0, 1)]
    t = Tx([(h.frames(tid(r), 10**6, [(ids[0], 100)]), '')], outs, [], ids)
    h.sign(t, sp, tour=r.choice([0, 0, 1]))

# one bit of one element of a change path altered, against the path approved last and against the signing path
NEARPATHS = [(w, i, b) for i in (4, 3, 2) for b in range(31) for w in ('approved', 'own')]
@family(lambda: len(NEARPATHS))
def nearpaths(h, r, k):
    """a change path that differs in one bit from the one just approved, or from the one that signs"""
    w, i, b = NEARPATHS[k % len(NEARPATHS)]
    base = addr(r.randrange(9), r.choice([0, 1, 3]), r.choice([2, 20, 77, 1000]))
    other = list(base); other[i] ^= 1 << b
    one = lambda p: Out('change', p, r.randrange(1, 9), toks=[(0, 1)] if r.random() < .2 else [])
    far = addr(40, 0, 5)
    outs = [one(base), one(other), one(base)] if w == 'approved' else [one(other), one(far), one(other)] if r.random() < .4 else [one(other)]
    ids = [tid(r)]
    h.sign(Tx([(h.frames(tid(r), 10**6, [(ids[0], 100)]), '')], outs, [], ids), far if w == 'approved' else base)

SAMETOKEN = [(w, kind, v) for w in ('one', 'two', 'between', 'table', 'zero', 'zeros') for kind in ('tree', 'change', 'fee') for v in ((5, 7), (5, 5), (7, 0))]
@family(lambda: len(SAMETOKEN))
def sametoken(h, r, k):
    """one token more than once in an output: in one message or several, under two indices, with and without an amount"""
    w, kind, (a, b) = SAMETOKEN[k % len(SAMETOKEN)]
    ids = [tid(r) for _ in range(3)]
    if w == 'table': ids[2] = ids[0]
    toks = {'one': [(1, a), (1, b)], 'two': [(1, a), (1, b)], 'between': [(1, a), (0, 3), (1, b)], 'table': [(0, a), (2, b)],
            'zero': [(1, 0), (1, a)], 'zeros': [(1, 0), (0, 2), (1, 0), (1, b)]}[w]
    dest = hx(r, 4) if kind == 'tree' else addr(0, 0, r.choice([3, 70])) if kind == 'change' else ''
    outs = [Out(kind, dest, 9, toks=toks, regs=r.choice(['', hx(r, 2)]))] + ([Out('tree', hx(r, 3), 1, toks=[(1, 4)])] if r.random() < .4 else [])
    t = Tx([(h.frames(tid(r), 10**6, [(i, 1000) for i in sorted(set(ids))]), '')], outs, [], ids)
    h.sign(t, addr(0, 0, 0), rnd=r if w == 'two' else None, tour=1)

BIGPARTS = [(w, n) for w in ('ext', 'tree', 'regs') for n in (2, 127, 128, 253, 254, 255, 256, 257, 510, 511, 1000, 16383, 16384, 32767, 32768)] + \
    [('datas', n) for n in (6, 7, 8, 127, 128, 255, 256, 257)] + [(w, n) for w in ('ins', 'outs') for n in (20, 127, 128, 129)]
@family(lambda: len(BIGPARTS))
def bigparts(h, r, k):
    """a whole transaction with one large part, all of its pages looked at"""
    w, n = BIGPARTS[k % len(BIGPARTS)]
    ids = [tid(r) for _ in range(2)]
    one = lambda ext='': (h.frames(tid(r), r.randrange(10**6, 10**9), [(i, r.randrange(50, 10**4)) for i in r.sample(ids, r.randint(0, 2))]), ext)
    ins = [one() for _ in range(n if w == 'ins' else 2)]
    ins[r.randrange(2)] = (ins[0][0], '01' + hx(r, n - 1)) if w == 'ext' else one()
    ins.append((h.frames(tid(r), 10**6, [(i, 100) for i in ids]), ''))
    outs = [Out('tree', hx(r, n) if w == 'tree' else p2pk('02' + hx(r, 32)), r.randrange(1, 1000), regs=hx(r, n) if w == 'regs' else '', toks=[(0, 7), (1, 9)][:r.randrange(3)])]
    outs += [Out('change', addr(0, 0, 1), r.randrange(1, 99)) for _ in range(n if w == 'outs' else 1)] + [Out('fee', '', r.randrange(1, 999))]
    r.shuffle(outs)
    h.sign(Tx(ins, outs, [tid(r) for _ in range(n if w == 'datas' else r.randrange(2))], ids), addr(0, 0, 0), tour=1)

@family(lambda: 40)
def longpath(h, r, k):
    """paths whose text is as long as, or longer than, what can be shown"""
    n = 6 + k % 5
    p = addr(r.choice([0, 2**31 - 1]), r.choice([0, 1]), r.choice([0, 2**31 - 1]))
    while len(p) < n: p.append(r.choice([0, 7, 10**5, 2**31 - 1, 2**31, 2**32 - 1, 12345678]))
    what = k // 5 % 4
    if what == 0: h.do(epk(p), tour=1)
    elif what == 1: h.do(da(p, 0, r.random() < .5), tour=1)
    elif what == 2: h.do(h.sign_init(p), tour=1)
    else:
        sp = addr()
        t = Tx([(h.frames(tid(r), 10**6, []), '')], [Out('change', p, 5), Out('fee', value=1)])
        h.sign(t, sp, tour=r.choice([0, 1]), by=r.choice(['left', 'right']), yes=yn(r))
    h.do(da(addr()))

def _scripts():
    L = [('p2pk', None), ('p2pk3', None), ('p2sh', None), ('fee', None)]
    for i in list(range(36)): L.append(('p2pk', i))
    for i in list(range(44)): L.append(('p2sh', i))
    for i in range(0, 105, 7): L.append(('fee', i))
    for x in ('p2pk', 'p2sh', 'fee'):
        for d in (-2, -1, 1, 2): L.append((x + '%+d' % d, None))
    for v in ('00', '01', '04', '05', 'ff'): L.append(('key' + v, None))
    for pre in (1, 2, 3, 17, 18, 35, 36, 43, 44): L.append(('split', pre))
    L += [('any', n) for n in (0, 1, 2, 35, 36, 37, 43, 44, 45, 255, 256, 510, 600)]
    for x in ('p2pk', 'p2sh', 'fee'):      # a template as part of a longer script
        for w in ('tail', 'tail2', 'head', 'mid', 'twice', 'inner'): L.append((w, x))
    return L
SCRIPTS = _scripts()
@family(lambda: len(SCRIPTS))
def scripts(h, r, k):
    """scripts at and around the templates"""
    kind, i = SCRIPTS[k % len(SCRIPTS)]
    a, b = p2pk(r.choice(['02', '03']) + hx(r, 32)), p2sh(hx(r, 24))
    if kind == 'p2pk3': t = p2pk('03' + hx(r, 32))
    elif kind[:3] == 'key': t = p2pk(kind[3:] + hx(r, 32))
    elif kind[:4] == 'p2pk': t = a
    elif kind[:4] == 'p2sh': t = b
    elif kind[:3] == 'fee': t = FEE_TREE
    elif kind == 'split': t = r.choice([a, b])
    elif kind in ('tail', 'tail2', 'head', 'mid', 'twice', 'inner'):
        x = dict(p2pk=a, p2sh=b, fee=FEE_TREE)[i]; n = len(x) // 2
        t = {'tail': hx(r, 255) + x, 'tail2': hx(r, 510) + x, 'head': x + hx(r, 255 - n) + hx(r, r.choice([1, 36])), 'mid': hx(r, 255) + x + hx(r, 255 - n) + 'aa',
             'twice': x + x, 'inner': hx(r, 3) + x}[kind]
        i = None
    else: t = hx(r, i)
    if kind[-2:-1] in '+-' and len(kind) > 3:
        d = int(kind[-2:]); t = t[:2 * d] if d < 0 else t + hx(r, d)
    if i is not None and kind not in ('any', 'split'): t = flip(r, t, i)
    net = r.choice([0, 16])
    o = Out('tree', t, 5)
    outs = [o]
    if r.random() < .3: outs = [Out('tree', b if kind[:4] == 'p2pk' else a, 5), o]      # right after another script
    if r.random() < .3: outs.append(Out('fee', value=1, toks=[]))
    t = Tx([(h.frames(tid(r), 10**6, []), '')], outs)
    if not h.begin(h.sign_init(addr(), net)): return
    st = h.tx_steps(t)
    if kind == 'split': st = [y for s, d in st for y in ([(s, d[:2 * i]), (s, d[2 * i:])] if s == 0x16 else [(s, d)])]
    h.run(st, tour=1)

@family()
def outputs(h, r, k):
    """outputs of every kind with tokens, everything looked at; now and then one is rejected"""
    path = gen.address_path(r)
    t = gen.tx(r, h, path, nin=r.choice([1, 2]), nout=r.choice([1, 2, 3]), ntok=r.choice([0, 1, 2, 3, 20]))
    if not h.begin(h.sign_init(path, r.choice([0, 16]))): return
    stop = r.randrange(25) if r.random() < .25 else -1
    for j, (s, d) in enumerate(h.tx_steps(t, r)):
        if not h.do(h.sg(s, d), yes=j != stop, by=r.choice(['right', 'left']), tour=1): break
    if stop >= 0: h.do(h.sg(0x20))

# ------------------------------------------------------------------ prompts
def prompts(h, r):
    """brings the device to a prompt: name of the prompt or None"""
    k = r.randrange(7)
    if k == 0: h.send(epk(acct(1), r.choice([None, 9])))
    elif k == 1: h.send(da(gen.address_path(r), r.choice([0, 16, 32]), False, r.choice([None, 9])))
    elif k == 2: h.send(da(gen.address_path(r), r.choice([0, 16]), True, r.choice([None, 7, 9])))
    elif k == 3: h.send(h.attest_init(gen.box(r, ntok=1), r.choice([None, 9])))
    elif k == 4: h.send(h.sign_init(gen.address_path(r), 0, r.choice([None, 7, 9])))
    else:
        ids = [tid(r) for _ in range(r.choice([0, 1, 3]))]
        t = Tx([(h.frames(tid(r), 10**6, [(i, 100) for i in ids]), '')], [Out('tree', gen.tree(r), 5, toks=[(0, 1)] if ids else [])], [], ids)
        if not h.begin(h.sign_init(addr(), 0, r.choice([None, 7]))): return None
        st = h.tx_steps(t)
        if k == 5:
            for s, d in st:
                h.send(h.sg(s, d))
                if h.asking(): break
        else:
            if not h.run(st[:-1]): return None
            h.send(h.sg(*st[-1]))
    return k if h.asking() else None

def probe(h, r):
    s = r.choice([h.sess, 0, 1])
    return r.choice([VERSION, NAME, epk(acct(2)), epk(acct(0), 7), da(addr(), 0, True), da(addr(), 0, False, 7), h.attest_init(gen.box(r, ntok=0), 7),
                     h.sign_init(addr()), apdu(0x20, r.choice([2, 3, 4, 5, 6]), max(1, s), hx(r, 1)), apdu(0x21, r.choice([0x10, 0x12, 0x15, 0x20]), max(1, s), ''),
                     apdu(0x21, 0x20, max(1, h.sess)), malformed(r), malformed(r)])

@family()
def busy(h, r, k):
    """requests sent while the user is asked"""
    if r.random() < .5: connect(h, r)
    where = prompts(h, r)
    if where is None: return
    for _ in range(r.randint(1, 4)):
        for _ in range(r.randrange(3)): h.press(r.choice(['left', 'right']))
        for _ in range(r.randint(1, 3)): h.send(probe(h, r))
        h.ev = dict(h.ev, resp=[])
        if r.random() < .3: h.tour(r.choice(['left', 'right'])); h.ev = dict(h.ev, resp=[])
    h.decide(yn(r, .7))
    if h.ok() and where in (3, 4): h.sess = int(h.data() or '0', 16)
    for _ in range(3): h.do(probe(h, r), yn(r, .5))

@family()
def nav(h, r, k):
    """random walks over the pages of prompts and menus"""
    if r.random() < .3: connect(h, r)
    for _ in range(2):
        if prompts(h, r) is None: return
        h.tour('right'); h.tour('left')
        seen = 0
        for _ in range(r.randint(5, 25)):
            b = r.choice(['left', 'right', 'left', 'right', 'both'])
            if b == 'both' and h.ev['page'] in (['Approve'], ['Reject']): b = 'left'
            if b == 'both' and h.ev['page'][:1] == ['P2PK Signing'] and r.random() < .8: b = 'left'
            h.press(b)
            if h.ev['resp']: break
        else: h.decide(yn(r, .5), r.choice(['left', 'right']))
        for _ in range(3): h.press(r.choice(['both', 'left', 'right']))
        for _ in range(r.randint(0, 9)):
            h.press(r.choice(['left', 'right', 'both']))
        if h.ev['resp'] == [] and r.random() < .5: h.d.boot('again'); h.ev = h.d.rec.events[-1]

@family()
def menus(h, r, k):
    for _ in range(r.randint(10, 40)):
        h.press(r.choice(['left', 'right', 'both']))
        if r.random() < .1: h.send(r.choice([VERSION, NAME, malformed(r)]))
    h.do(epk(acct(0), 7)); h.do(epk(acct(0), 7))

# ------------------------------------------------------------------ a prompt after a prompt
PROMPTS = ['epk', 'epkt', 'da', 'dad', 'dat', 'attest', 'attestt', 'sign', 'signt', 'p2pk', 'p2sh', 'script', 'tokens', 'change', 'long', 'fee', 'final']
OUTPUTS = ['p2pk', 'p2sh', 'script', 'tokens', 'change', 'long', 'fee', 'final']
ENDS = ['yes', 'no', 'yes+', 'pages', 'busy']
class Ask:
    """the prompts of one scenario, with the same content whenever they are brought up"""
    def __init__(s, h, r):
        s.h, s.r, s.net = h, r, r.choice([0, 16])
        s.tok, s.id = r.randrange(1, 2**32), tid(r)
        s.a, s.path, s.far = acct(1), addr(0, 0, 5), addr(3, 1, 9)
        s.long = addr(1, 0, 2**31 - 1, *[2**31 - 1] * 5)
        s.box = gen.box(r, ntok=1)
        s.trees = dict(p2pk=p2pk('02' + hx(r, 32)), p2sh=p2sh(hx(r, 24)), script=hx(r, 50), tokens=p2pk('03' + hx(r, 32)))
        s.frame = h.frames(tid(r), 10**6, [(s.id, 1000)])[0]
        s.open = None
    def out(s, k):
        if k in s.trees: return Out('tree', s.trees[k], 20, toks=[(0, 3)] if k == 'tokens' else [])
        if k in ('change', 'long'): return Out('change', s.far if k == 'change' else s.long, 20)
        return Out('fee', value=20)
    def up(s, k, inside=False):
        """inside: as a further output of the session that is open"""
        h, t = s.h, s.tok
        if k == 'epk': h.send(epk(s.a))
        elif k == 'epkt': h.send(epk(s.a, t))
        elif k in ('da', 'dad', 'dat'): h.send(da(s.path, s.net, k == 'dad', t if k == 'dat' else None))
        elif k in ('attest', 'attestt'): h.send(h.attest_init(s.box, t if k == 'attestt' else None))
        elif k in ('sign', 'signt'): h.send(h.sign_init(s.path, s.net, t if k == 'signt' else None))
        else:
            if not inside or s.open != k:
                if not h.begin(h.sign_init(s.path, s.net)): return False
                if not h.run([h.start(1, 0, 1, 1 if k == 'final' else 4), (0x11, s.id), (0x12, s.frame + u32(0))]): return False
                s.open = k
            if k == 'final':
                h.run(h.out_steps(Out('fee', value=20))); h.send(h.sg(0x20)); return h.asking()
            for sub, d in h.out_steps(s.out(k)):
                h.send(h.sg(sub, d))
                if h.asking(): return True
                if not h.ok(): return False
        return h.asking()
    def end(s, k, e):
        h, r = s.h, s.r
        if not h.asking(): return
        if e == 'pages':
            h.tour(); h.tour('left')
            if h.ev['resp']: return
            for _ in range(r.randint(1, 3)): h.press('right')
            h.ev = dict(h.ev, resp=[])
        if e == 'busy':
            h.press('right'); h.send(r.choice([VERSION, epk(acct(4)), h.sg(0x20), malformed(r)])); h.ev = dict(h.ev, resp=[])
        h.decide(e != 'no')
        if e == 'yes+' and h.ok():
            if k in OUTPUTS and k != 'final': h.run(h.out_steps(Out('fee', value=7)))
            elif k in ('attest', 'attestt'): h.sess = int(h.data() or '0', 16); h.do(h.att(2, 'aa'))
            elif k in ('sign', 'signt'): h.sess = int(h.data() or '0', 16); h.do(h.sg(*h.start(1, 0, 1, 1)))
def after(h, r, a, e, b, inside):
    if r.random() < .3: connect(h, r)
    s = Ask(h, r)
    s.up(a); s.end(a, e)
    for n in range(2):
        if s.up(b, inside): h.tour('right' if n else 'left'); s.end(b, 'yes' if n else r.choice(['yes', 'no']))
def _again(): return [(a, e, i) for a in PROMPTS for e in ENDS for i in (False, True) if not i or a in OUTPUTS]
AGAIN = _again()
@family(lambda: len(AGAIN))
def again(h, r, k):
    """the same prompt twice and three times over"""
    a, e, i = AGAIN[k % len(AGAIN)]
    after(h, r, a, e, a, i)
@family(lambda: len(PROMPTS) ** 2 * len(ENDS))
def pairs(h, r, k):
    """each prompt after each other"""
    after(h, r, PROMPTS[k % 17], ENDS[k // 289], PROMPTS[k // 17 % 17], False)

AGAINST = ['sign_ok', 'sign_mut', 'sign_mut', 'attest_ok', 'attest_mut', 'attest_sign', 'outputs', 'change', 'matrix', 'limits', 'frames', 'amounts', 'tokens', 'paths', 'scripts', 'lengths', 'alien']
BETWEEN = AGAINST + ['alien', 'takeover', 'busy', 'fuzz', 'nav', 'menus', 'garbage', 'truncated', 'sessions', 'pairs']
@family()
def replay(h, r, k):
    """a scenario, others after it, and the first once more from the same application: its sessions end as they did"""
    def go(f, k, seed):
        x = random.Random(seed)
        h.r, h.sess = x, 0
        try: FAMILIES[f][0](h, x, k)
        except Crash: raise
        except Exception: pass
        if h.asking(): h.decide(x.random() < .5)
    t = r.choice([None, 7, 7, 9])
    a = [(f, r.randrange(cases(f) or 10**6), r.random()) for f in [r.choice(AGAINST) for _ in range(r.choice([1, 1, 2]))]]
    for i in range(r.choice([2, 2, 3])):
        if i:
            for _ in range(r.randint(0, 2)):
                f = r.choice(BETWEEN); go(f, r.randrange(cases(f) or 10**6), r.random())
        for _ in range(4):      # the menu's first page
            if h.ev['page'] == ['Ergo', 'is ready']: break
            h.press('both' if h.ev['page'] not in (['About'], ['Quit']) else 'right')
        h.do(epk(acct(0), 7 if t is None else t) if t is not None else da(addr()))
        for x in a: go(*x)

# ------------------------------------------------------------------ nearly the same
@family(lambda: 40)
def neartokens(h, r, k):
    """an application whose token differs little from that of the connected one"""
    t = r.randrange(1, 2**32)
    u = t ^ (1 << k) if k < 32 else [t ^ 0xffff, t ^ 0xffff0000, t ^ 0xffffffff, int.from_bytes(t.to_bytes(4, 'little'), 'big'), (t >> 16 | t << 16) & 0xffffffff,
                                     (t + 1) & 0xffffffff, -t & 0xffffffff, t & 0xff][k - 32]
    h.do(epk(acct(0), t))
    for q in (epk(acct(0), u), da(addr(), 0, False, u), h.attest_init(gen.box(r, ntok=0), u), h.sign_init(addr(), 0, u)): h.do(q, False)
    h.do(da(addr(), 0, False, t)); h.do(epk(acct(0), u)); h.do(da(addr(), 0, False, u)); h.do(epk(acct(0), t), False)

@family(lambda: 96)
def nearids(h, r, k):
    """token identifiers that differ in a single byte, after a zero byte"""
    i, use = k % 32, k // 32
    a = hx(r, 32)
    if i: z = 2 * r.randrange(i); a = a[:z] + '00' + a[z + 2:]
    b = flip(r, a, i)
    if use == 0:
        x = Box(5, 'aa', 9, [(a, 3), (b, 4), (tid(r), 1)])
        fr = h.attest(x)
        if fr: h.sign(Tx([(fr, '')], [Out('tree', hx(r, 5), 5, toks=[(0, 2), (1, 4)])], [], [a, b]), tour=1)
    elif use == 1:      # one of the two is not among the identifiers
        f = h.frames(tid(r), 10**6, [(a, 7), (b, 5)])
        h.sign(Tx([(f, '')], [Out('tree', hx(r, 5), 5, toks=[(0, 7)])], [], [r.choice([a, b])]), tour=1)
    else:
        f = h.frames(tid(r), 10**6, [(a, 7)])
        h.sign(Tx([(f, ''), (h.frames(tid(r), 5, [(b, 5)]), '')], [Out('tree', hx(r, 5), 5, toks=[(1, 5), (0, 7)]), Out('change', addr(), 10**6, toks=[(0, 1)])], [], [b, a]), tour=1)

@family(lambda: 64)
def nearboxes(h, r, k):
    """the frames of two boxes whose identifiers differ in a single bit, mixed"""
    a, i = hx(r, 32), k % 32
    if i and k >= 32: z = 2 * r.randrange(i); a = a[:z] + '00' + a[z + 2:]
    b = a[:2 * i] + '%02x' % (int(a[2 * i:2 * i + 2], 16) ^ 1 << r.randrange(8)) + a[2 * i + 2:]
    toks = [tid(r) for _ in range(r.choice([5, 8, 9]))]
    f, g = [h.frames(x, 10**6, [(t, 5) for t in toks]) for x in (a, b)]
    j = r.randrange(1, len(f))
    if not (h.begin(h.sign_init(addr())) and h.run([h.start(1, 0, 0, 1)])): return
    for sub, d in h.input_steps(f[:j] + g[j:j + 1] + f[j:], ''): h.do(h.sg(sub, d))

# ------------------------------------------------------------------ who is asked
@family()
def tokens(h, r, k):
    """a run of commands with application tokens, approvals, rejections and restarts"""
    small = r.random() < .5
    pool = [None, 0, 7, 9] if small else TOKS
    for _ in range(r.randint(5, 12)):
        t, y = r.choice(pool), yn(r, .6)
        k = r.randrange(12)
        if k < 3: h.do(epk(acct(r.randrange(3)), t), y)
        elif k < 6: h.do(da(gen.address_path(r), r.choice([0, 16]), r.random() < .4, t), y)
        elif k < 8: h.begin(h.attest_init(gen.box(r, ntok=0), t), yes=y)
        elif k < 9: h.begin(h.sign_init(addr(), 0, t), yes=y)
        elif k < 10:
            if prompts(h, r) is not None:
                h.send(probe(h, r)); h.ev = dict(h.ev, resp=[]); h.decide(y)
        elif k < 11: h.do(r.choice([epk(addr(), 7)[:-2] + '00', epk([44, 429], 9), da([1, 2, 3], 0, False, 9), epk(acct(0), 7)[:10] + '00']))
        elif r.random() < .5: h.d.boot('again'); h.ev = h.d.rec.events[-1]
        else:
            h.press('left'); h.press('both')

# ------------------------------------------------------------------ key paths
H = 0x80000000
def _paths():
    L = [[], [44 | H], [44 | H, 429 | H], [44, 429 | H, H], [44 | H, 429, H], [44 | H, 429 | H, 0], [44 | H, 429 | H, 0, 0], [45 | H, 429 | H, H],
         [44 | H, 428 | H, H], [44 | H, 430 | H, H, 0, 0], [43 | H, 429 | H, H, 0, 0], [H, H, H], [44 | H, 429 | H, H], [44 | H, 429 | H, 2**32 - 1],
         [44 | H, 429 | H, H - 1], [44 | H, 429 | H, H, H], [44 | H, 429 | H, H, 5], [44 | H, 429 | H, H, H - 1], [44 | H, 429 | H, H, 0, H],
         [44 | H, 429 | H, H, 0, H - 1], [44 | H, 429 | H, H, 0, 2**32 - 1], [44 | H, 429 | H, H, H, 0], [44 | H, 429 | H, H, 0, 0, 0], [44 | H, 429 | H, H, 0, 0, H],
         [44 | H, 429 | H, H, 1, 0], [44 | H, 429 | H, H, 2, 0], [44 | H, 429 | H, H, 0, 0, 0, 0, 0, 0, 0], [44 | H, 429 | H, H, H | 1, H | 1],
         [44 | H, 429 | H, H, 0, 0, 1, 2, 3, 4, 5], [44 | H, 429 | H, 7 | H, 1, 9], [429 | H, 44 | H, H, 0, 0], [44 | H, 429 | H, 5, 0, 0], [44 | H, 429 | H, H, 0xffffff, 3],
         [44 | H, 429 | H, H | 0x7fffffff, H - 1, H - 1], [300 | H, 429 | H, H, 0, 0], [44 | H, (429 + 256) | H, H, 0, 0], [44 | H, (429 + 65536) | H, H, 0, 0]]
    # one element of the wrong kind in a path of the greatest length
    L += [[44 | H, 429 | H] + [(0 if j == i else H) | 1 for j in range(2, 10)] for i in range(2, 10)]
    L += [[44 | H, 429 | H, 1 | H, 0] + [(H if j == i else 0) | 1 for j in range(4, 10)] for i in range(4, 10)]
    return L
PATHS = _paths()
USES = ['epk', 'epkt', 'da', 'dad', 'dat', 'sign', 'change']
@family(lambda: len(PATHS) * len(USES))
def paths(h, r, k):
    """every kind of path in every place that takes one"""
    p, use = PATHS[k // len(USES)], USES[k % len(USES)]
    if r.random() < .5: connect(h, r)
    if use == 'epk': h.do(epk(p), tour=1)
    elif use == 'epkt': h.do(epk(p, 7), tour=1)
    elif use == 'da': h.do(da(p, r.choice([0, 16])), tour=1)
    elif use == 'dad': h.do(da(p, r.choice([0, 16]), True), tour=1)
    elif use == 'dat': h.do(da(p, 16, False, 7), tour=1)
    elif use == 'sign':
        if h.begin(h.sign_init(p, r.choice([0, 16])), tour=1):
            h.run(h.tx_steps(Tx([(h.frames(tid(r), 10**6, []), '')], [Out('change', p, 5), Out('tree', gen.tree(r), 9)])))
    else:
        t = Tx([(h.frames(tid(r), 10**6, []), '')], [Out('change', p, 5), Out('fee', value=1)])
        h.sign(t, addr(), tour=1)
    h.do(epk(acct(0), 7))

@family()
def pathbytes(h, r, k):
    """raw path encodings: wrong counts, too short, too long, random elements"""
    n = r.choice([0, 1, 2, 3, 3, 5, 5, 6, 9, 10, 11, 12, 255])
    m = n if r.random() < .6 else max(0, n + r.choice([-1, 1]))
    base = addr(r.choice([0, 5, 2**31 - 1]), r.choice([0, 1, 5]), r.choice([0, 1, 2**31 - 1]))
    p = (base + [r.choice([0, 1, 2**31 - 1, 2**31, 2**32 - 1]) for _ in range(20)])[:min(m, 20)]
    if r.random() < .3 and p: p[r.randrange(len(p))] ^= 1 << r.randrange(32)
    raw = u8(n) + phex(p)
    if r.random() < .2: raw = raw[:-2 * r.randint(1, 3)] if len(raw) > 8 else raw
    if r.random() < .2: raw += hx(r, r.choice([1, 4, 5]))
    tok = r.choice(['', '', '00000007', '0000'])
    u = r.randrange(5)
    if u == 0: h.do(apdu(0x10, r.choice([1, 2]), 0, raw + tok), tour=1)
    elif u in (1, 2): h.do(apdu(0x11, r.choice([1, 2]), r.choice([1, 2]), u8(r.choice([0, 16, 32, 252, 253, 254, 255])) + raw + tok), tour=1)
    elif u == 3: h.do(apdu(0x21, 1, r.choice([1, 2, 3, 0xff]), u8(r.choice([0, 0, 0, 16, 1, 2, 8, 15, 17, 32, 255])) + raw + tok), tour=1)
    else:
        t = Tx([(h.frames(tid(r), 10**6, []), '')], [Out('change', addr(), 5), Out('fee', value=1)])
        if h.begin(h.sign_init(addr())):
            for s, d in h.tx_steps(t): h.do(h.sg(s, raw if s == 0x18 else d), tour=1)
    h.do(epk(acct(0), 7))

@family(lambda: 64)
def networks(h, r, k):
    """addresses on every kind of network value"""
    nets = [0, 16, 1, 2, 3, 8, 15, 17, 31, 32, 48, 64, 127, 128, 200, 240, 250, 251, 252, 253, 254, 255]
    n = nets[k % len(nets)] if k < 44 else r.randrange(256)
    p = gen.address_path(r)
    h.do(da(p, n, True), tour=1); h.do(da(p, n, False), tour=1); h.do(da(p, n, False, 7)); h.do(da(p, n, False, 7))
    if h.begin(h.sign_init(p, n)):
        o = [Out('tree', p2pk('02' + hx(r, 32)), 1), Out('tree', p2sh(hx(r, 24)), 1), Out('tree', gen.tree(r), 1), Out('fee', value=1)]
        h.run(h.tx_steps(Tx([(h.frames(tid(r), 10**6, []), '')], o)), tour=1)

# ------------------------------------------------------------------ malformed requests
@family()
def garbage(h, r, k):
    """malformed requests at every point of a flow, which then completes"""
    t = gen.tx(r, h, addr(), small=True, ntok=r.choice([0, 1]))
    b = gen.box(r, ntok=r.choice([0, 2]))
    sign = r.random() < .6
    def junk():
        for _ in range(r.choice([0, 0, 1, 1, 2])):
            h.send(r.choice([VERSION, NAME]) if r.random() < .2 else malformed(r))
    h.send(h.sign_init(addr()) if sign else h.attest_init(b))
    def settle():
        if h.ev['resp'] == []:
            junk(); h.ev = dict(h.ev, resp=[]); h.decide(True)
    settle()
    if not h.ok(): return
    h.sess = int(h.data(), 16)
    for s, d in (h.tx_steps(t, r) if sign else h.box_steps(b, r) + [(5, '00')]):
        junk()
        h.send(h.sg(s, d) if sign else h.att(s, d)); settle()

@family(lambda: 256)
def dispatch(h, r, k):
    """every class, every instruction, every parameter byte"""
    st = h.begin(h.attest_init(gen.box(r, [], 0), None, 3, 0, 0)) if r.random() < .7 else False
    v = k
    for x in ('%02x01000000' % v if v != 0xe0 else VERSION, apdu(v, 0, 0) if v not in (0x20, 0x21) else NAME, apdu(1, v, 0), apdu(1, 0, v), apdu(2, v, 0), apdu(2, 0, v),
              apdu(0x10, v, 0) if v not in (1, 2) else VERSION, apdu(0x10, 1, v or 1), apdu(0x11, v, 1) if v not in (1, 2) else NAME,
              apdu(0x11, 1, v) if v not in (1, 2) else NAME, apdu(0x20, v, 0), apdu(0x20, 0, v), apdu(0x21, v, 0), apdu(0x21, 0, v),
              'e00100%02x%02x' % (0, v or 1), 'e0020000%02x' % v + hx(r, r.randrange(0, 4))): h.send(x)
    if st: h.do(h.att(2, 'aabbcc')); h.do(h.att(5, '00'))
    if k % 2: h.begin(h.sign_init(addr())); h.do(h.sg(v, hx(r, r.randrange(3))))
    else: h.begin(h.attest_init(gen.box(r, ntok=1), 7)); h.do(h.att(v, hx(r, r.randrange(3))))

@family()
def fuzz(h, r, k):
    """random valid-looking requests in random order"""
    for _ in range(r.randint(10, 25)):
        j = r.randrange(10)
        if j < 2: other_commands(h, r)(); h.sess = int(h.data() or '0', 16) % 256 if len(h.data()) == 2 else h.sess
        elif j < 5: h.do(apdu(0x21, r.choice([0x10, 0x11, 0x12, 0x13, 0x14, 0x15, 0x16, 0x17, 0x18, 0x19, 0x1a, 0x20]), max(1, h.sess), hx(r, r.choice([0, 1, 7, 20, 21, 32, 64, 70]))))
        elif j < 7: h.do(apdu(0x20, r.choice([2, 3, 4, 5]), max(1, h.sess), hx(r, r.choice([0, 1, 10, 40, 41]))))
        elif j < 8: h.send(malformed(r))
        elif j < 9:
            if prompts(h, r) is not None: h.decide(yn(r, .7)); h.sess = int(h.data() or '0', 16) if h.ok() and len(h.data()) == 2 else h.sess
        else:
            for _ in range(r.randint(1, 4)): h.press(r.choice(['left', 'right', 'both']))
            if h.ev['page'] not in (['Ergo', 'is ready'],):
                for _ in range(3):
                    if h.ev['page'] == ['Back']: h.press('both')
                    else: h.press('right')

@family()
def truncated(h, r, k):
    """valid requests of every kind with their data cut or lengthened"""
    reqs = [epk(acct(0)), epk(acct(0), 7), da(addr(), 0, True), da(addr(), 16, False, 7), h.attest_init(gen.box(r, ntok=0)), h.attest_init(gen.box(r, ntok=0), 7),
            h.sign_init(addr()), h.sign_init(addr(), 0, 7)]
    for _ in range(6):
        q = r.choice(reqs)
        d = q[10:]
        d = d[:2 * r.randrange(len(d) // 2 + 1)] if r.random() < .7 else d + hx(r, r.choice([1, 2, 4]))
        h.do(q[:8] + u8(len(d) // 2) + d, yn(r, .5))

# ------------------------------------------------------------------ randomness
def _nonces():
    N = ec.N
    one = ['%064x' % x for x in (0, N, N + 1, N + 2**100, 2**256 - 1)]
    return [(n, [b]) for b in one for n in (1, 2)] + [(n, one) for n in (3, 10, 40, 99, 100, 130)] + \
           [(1, ['%064x' % x]) for x in (1, 2, N - 1, N - 2, 2**255, 2**200)]
NONCES = _nonces()
@family(lambda: 2 * len(NONCES))
def nonces(h, r, k):
    """nonces at the ends of their range; randomness that cannot be used as a nonce"""
    n, vals = NONCES[k // 2]
    if k % 2: h.begin(h.sign_init(addr(0, 0, 1)))            # with a session to be replaced
    for i in range(n): h.d.rng(vals[i % len(vals)])
    for t in range(2):
        f = h.frames(tid(r), 10**6)
        h.sign(Tx([(f, '')], [Out('change', addr(0, 0, t), 10**6 - 5), Out('fee', value=5)]), addr(0, 0, t))
        h.do(h.sg(0x20))

# ------------------------------------------------------------------ failing platform
@family()
def faults(h, r, k):
    """a primitive of the platform fails at a random point"""
    kind = FAULTS[k % len(FAULTS)]
    n = r.choice([1, 1, 1, 2, 3, 4])
    j = r.randrange(6)
    def arm(): h.d.fault(kind, n)
    if j == 0: arm(); h.do(epk(acct(0), 7)); h.do(epk(acct(0), 7)); h.do(epk(acct(1), 9))
    elif j == 1: arm(); h.do(da(addr(), 0, r.random() < .5)); h.do(da(addr(), 0, False, 7)); h.do(da(addr(), 0, False, 7))
    elif j == 2:
        b = gen.box(r, ntok=r.choice([0, 2, 5])); at = r.random() < .5
        if at: arm()
        if h.begin(h.attest_init(b)):
            if not at: arm()
            for s, c in h.box_steps(b, r) + [(5, '00'), (5, '01')]: h.do(h.att(s, c))
    else:
        t = gen.tx(r, h, addr(), small=True, kinds=['tree', 'change', 'fee'])
        at = r.randrange(12)
        if at == 0: arm()
        if h.begin(h.sign_init(addr())):
            st = h.tx_steps(t, r)
            for i, (s, d) in enumerate(st):
                if at in range(1, 7) and i == at or (at >= 7 and i == len(st) - 1): arm()
                h.do(h.sg(s, d))
            h.do(h.sg(0x20))
    h.do(epk(acct(2)), True); h.do(h.sg(0x20)); h.do(da(addr(), 0, True))

# each call of a primitive that can fail, in each request that makes it
CALLS = dict(hash=(1, 2, 3, 4, 6, 9), derive=(1, 2), mult=(1, 2), pair=(1,), addm=(1,), mulm=(1,), key=(1,))
def _faultsteps():
    L = []
    for kind, ns in CALLS.items():
        for n in ns:
            L += [('q', i, kind, n) for i in range(12)]
            L += [('s', i, kind, n) for i in range(NTX) if kind == 'hash' or i >= NTX - 3]
            L += [('a', i, kind, n) for i in range(NBOX) if kind == 'hash']
    return L
FAULTSTEPS = _faultsteps()
@family(lambda: len(FAULTSTEPS))
def faultsteps(h, r, k):
    """the n-th call of a primitive fails in a given request"""
    c, i, kind, n = FAULTSTEPS[k % len(FAULTSTEPS)]
    if r.random() < .5: connect(h, r)
    if c == 'q':
        q = single(h, r)[i]
        if r.random() < .5: h.d.fault(kind, n); h.do(q)
        else: h.send(q); h.d.fault(kind, n); h.asking() and h.decide()
        if len(h.data()) == 2: h.sess = int(h.data(), 16); h.do(h.att(2, 'aa')); h.do(h.sg(*h.start(1, 0, 0, 1)))
        h.do(q); return
    b = whole_box(r)
    if not h.begin(h.attest_init(b) if c == 'a' else h.sign_init(addr())): return
    steps = box_all(h, b) if c == 'a' else h.tx_steps(whole_tx(h, r))
    mk = h.att if c == 'a' else h.sg
    for s, d in steps[:i]: h.do(mk(s, d))
    h.d.fault(kind, n)
    for s, d in steps[i:i + 3]: h.do(mk(s, d))
    h.do(mk(*steps[-1])); h.do(epk(acct(0)))

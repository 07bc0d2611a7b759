"""Random but well-formed material: amounts, identifiers, scripts, boxes, transactions."""
from . import ec
from .host import *

EDGE64 = [0, 1, 2, 9, 10, 127, 128, 255, 256, 16383, 16384, 999999999, 10**9, 10**9 + 1, 2**31 - 1, 2**31, 2**32 - 1, 2**32,
          2**53, 10**18, 2**62, 2**63 - 1, 2**63, 2**63 + 1, 10**19, 2**64 - 2, 2**64 - 1]
EDGE32 = [0, 1, 127, 128, 255, 256, 16383, 16384, 65535, 65536, 2**21 - 1, 2**21, 2**28 - 1, 2**28, 2**31 - 1, 2**31, 2**32 - 1]
EDGE16 = [0, 1, 127, 128, 255, 256, 16383, 16384, 32767, 32768, 65534, 65535]

def hx(r, n): return ''.join('%02x' % r.randrange(256) for _ in range(n))
def tid(r): return hx(r, 32)
def u64v(r): return r.choice(EDGE64) if r.random() < .4 else r.randrange(1 << r.randint(1, 64))
def amount(r): return r.choice([1, 9, 127, 128, 10**9, 2**31, 2**32]) if r.random() < .4 else r.randrange(1, 1 << r.randint(1, 40))
def u32v(r): return r.choice(EDGE32) if r.random() < .6 else r.randrange(1 << r.randint(1, 32))
def u16v(r): return r.choice(EDGE16) if r.random() < .6 else r.randrange(1 << 16)
def flip(r, h, i=None):
    """one bit of one byte altered"""
    if not h: return 'ff'
    if i is None: i = r.randrange(len(h) // 2)
    b = int(h[2 * i:2 * i + 2], 16) ^ (1 << r.randrange(8))
    return h[:2 * i] + '%02x' % b + h[2 * i + 2:]

def tree(r):
    k = r.randrange(12)
    if k < 3: return p2pk(r.choice(['02', '03']) + hx(r, 32))
    if k < 4: return p2sh(hx(r, 24))
    if k < 5: return FEE_TREE
    if k < 6: return flip(r, p2pk('02' + hx(r, 32)))
    if k < 7: return flip(r, p2sh(hx(r, 24)))
    if k < 9: return hx(r, r.randint(1, 60))
    if k < 10: return hx(r, r.choice([255, 255, 510, 1, 8])) + r.choice([p2pk('02' + hx(r, 32)), p2sh(hx(r, 24)), FEE_TREE])
    return hx(r, r.choice([253, 254, 255, 256, 257, 300, 509, 510, 511, 700]))
def regs(r):
    k = r.randrange(8)
    return '' if k < 4 else hx(r, r.choice([1, 2, 5, 33, 100, 254, 255, 256, 400]))
def box(r, toks=None, ntok=None):
    if toks is None:
        n = r.choice([0, 0, 0, 1, 2, 3, 4, 5, 7, 8, 9, 12, 16, 19, 20]) if ntok is None else ntok
        toks = [(tid(r), u64v(r)) for _ in range(n)]
    return Box(u64v(r), tree(r), u32v(r), toks, regs(r), hx(r, 32), u16v(r))

def address_path(r): return addr(r.choice([0, 0, 1, 7]), r.choice([0, 0, 1, 3]), r.choice([0, 1, 5, 1000, 2**31 - 40]))
def near(p, r): return p[:4] + [max(0, p[4] + r.choice([-5, -1, 0, 1, 5, 19]))]

def tx(r, h=None, path=None, nin=None, nout=None, ntok=None, small=False, kinds=None):
    """a transaction that balances; h: a host whose run's key authenticates its frames"""
    path = path or addr()
    nt = ntok if ntok is not None else r.choice([0, 0, 1, 2, 3] if small else [0, 0, 1, 2, 3, 5, 7, 8, 12, 20])
    ids = [tid(r) for _ in range(nt)]
    extra = [tid(r) for _ in range(0 if small else r.choice([0, 0, 0, 1, 2]))]
    extra = extra[:20 - nt]
    have = {i: 0 for i in ids + extra}
    ins, total = [], 0
    for _ in range(nin or r.choice([1, 1, 2] if small else [1, 1, 2, 3, 4])):
        v = r.randrange(10**6, 10**12)
        pool = ids + extra
        ts = r.sample(pool, r.randint(0, len(pool))) if pool else []
        ts = [(t, amount(r) if r.random() < .9 else max(1, r.choice([2**62, 2**63 - 1, r.randrange(1 << 62, 1 << 63)]) - have[t])) for t in ts]
        for t, a in ts: have[t] += a
        total += v
        ext = '' if r.random() < .6 else hx(r, r.choice([2, 3, 10, 100, 255, 256, 300]))
        ins.append((h.frames(tid(r), v, ts), ext))
    datas = [tid(r) for _ in range(r.choice([0, 0, 1, 2] if small else [0, 0, 0, 1, 2, 6, 7, 8, 9]))]
    outs = []
    for _ in range(nout or r.choice([1, 2, 3] if small else [1, 2, 3, 4, 5, 6])):
        k = r.choice(kinds or ['tree', 'tree', 'tree', 'fee', 'change', 'change'])
        if k == 'tree': v, dest = u64v(r), tree(r)
        elif k == 'fee': v = r.randrange(0, total // 3 + 1); total -= v; dest = ''
        else:
            v = r.randrange(0, total // 3 + 1); total -= v
            dest = r.choice([near(path, r), near(path, r), address_path(r)])
        ts = []
        if nt and r.random() < .5 and not (k == 'fee' and r.random() < .8):
            for i in r.sample(range(nt), r.randint(1, min(nt, r.choice([1, 2, 3, 20])))):
                v2, room = r.choice([0, 1]) if r.random() < .1 else r.randrange(1, 1 << r.randint(1, 50)), have[ids[i]] + 2**63
                if r.random() < .12: v2 = r.choice([2**62, 2**63 - 1, 2**63, room, room, room - 1, r.randrange(2**62, room + 1) if room > 2**62 else 1])
                if have[ids[i]] < 0: room = min(room, 2**63 - 1)
                v2 = max(0, min(v2, room, 2**64 - 1)); have[ids[i]] -= v2
                ts.append((i, v2))
        outs.append(Out(k, dest, v, u32v(r), ts, regs(r)))
    return Tx(ins, outs, datas, ids)

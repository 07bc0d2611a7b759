"""Drives the modules of the application directly and has TLC compare the results with Queue, Codec, Serial, Paths and Canon."""
import hashlib, json, os, random, re, shutil, subprocess, tempfile, threading, time, traceback
from concurrent.futures import ProcessPoolExecutor
from . import runner, gen

class Lib:
    """one driver process; op() runs a command and appends the event"""
    def __init__(self, binary):
        self.binary, self.events, self.lines, self.p = binary, [], [], None
    def start(self):
        self.err = tempfile.TemporaryFile()
        self.p = subprocess.Popen([self.binary], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err, bufsize=0,
                                  env=dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0'))
        self.f = self.p.stdout
        self.buf = b''
    def readline(self):
        while b'\n' not in self.buf:
            x = self.f.read(1 << 16)
            if not x: return None
            self.buf += x
        l, self.buf = self.buf.split(b'\n', 1)
        return l
    def _write(self, f, b):
        try:
            while b: b = b[f.write(b):]
        except OSError: pass
    def op(self, line, **ev):
        return self.many([(line, ev)])[0]
    def many(self, ops):
        """runs a batch; stops at a crash"""
        out, i = [], 0
        while i < len(ops):
            part = ops[i:i + 200]
            if self.p is None: self.start()
            w = threading.Thread(target=self._write, args=(self.p.stdin, ''.join(l + '\n' for l, _ in part).encode())); w.start()
            for l, ev in part:
                r = self.readline(); e = dict(ev); e['crash'] = ''
                if r is None:
                    self.p.wait(); self.err.seek(0)
                    e['crash'] = self.err.read().decode(errors='replace')[:1500] or 'exit %s' % self.p.returncode
                    self.p = None
                else: e.update(json.loads(r))
                if 'id' in e and 'pre' in e: e['dig'] = hashlib.blake2b(bytes.fromhex(e['pre']), digest_size=32).hexdigest()
                if 'v' in e and e.get('m') == 'dec': e['val'] = e.pop('v')
                self.events.append(e); self.lines.append((l, ev)); out.append(e)
                if r is None: w.join(); return out
            w.join()
            i += len(part)
        return out
    def close(self):
        if self.p: self.p.kill(); self.p.wait()

H = lambda b: b.hex() if b else '-'
def num(x, w=16): return '%0*x' % (w, x & ((1 << 4 * w) - 1))

# ---------------------------------------------------------------- integers
TYPES = dict(u8=8, i8=8, u16=16, i16=16, u32=32, i32=32, u64=64, i64=64)
def edges(w=64):
    s = {0, 1, 2, 3, (1 << w) - 1, (1 << w) - 2, 1 << (w - 1), (1 << (w - 1)) - 1, (1 << (w - 1)) + 1}
    for k in range(0, w, 7): s |= {(1 << k) - 1, 1 << k, (1 << k) + 1}
    for k in (8, 16, 32):
        if k < w: s |= {(1 << k) - 1, 1 << k, (1 << k - 1) - 1, 1 << k - 1, (1 << k - 1) + 1, -(1 << k - 1), -(1 << k - 1) - 1, -(1 << k - 1) + 1, -(1 << k)}
    return sorted({x & ((1 << w) - 1) for x in s})
def vlq(u):
    o = bytearray()
    while True:
        b = u & 127; u >>= 7
        o.append(b | (128 if u else 0))
        if not u: return bytes(o)
def sext(v, w): v &= (1 << w) - 1; return v - (1 << w) if v >> (w - 1) else v
def dec(t, b, skip, r):
    pre = bytes(r.randrange(256) for _ in range(skip))
    return ('dec %s %d %s' % (t, skip, H(pre + b)), dict(m='dec', t=t, h=b.hex()))
def enc(t, v, used, cap): return ('enc %s %s %d %d' % (t, num(v), used, cap), dict(m='enc', t=t, v=num(v), used=used, cap=cap))
def codec_vectors(r, n, whole=None):
    """edge values, malformed input and n random vectors; whole: a slice (i, k) of all 8- and 16-bit values"""
    V = []
    for t, w in TYPES.items():
        vals = [sext(x, w) if t[0] == 'i' else x for x in edges(w)] + [sext(r.getrandbits(r.randint(1, w)), w) if t[0] == 'i' else r.getrandbits(r.randint(1, w)) for _ in range(n // 16)]
        if whole and w <= 16: vals += [sext(x, w) if t[0] == 'i' else x for x in range(whole[0], 1 << w, whole[1])]
        for v in vals:
            used = r.choice([0, 0, 1, 3]); V.append(enc(t, v, used, used + 10))
            l = 1 if w == 8 else len(vlq(raw(t, v)))
            for d in {l, l - 1} | ({r.randrange(l)} if l > 1 else set()): V.append(enc(t, v, used, used + d))
            b = bytes([v & 255]) if w == 8 else vlq(raw(t, v))
            V.append(dec(t, b + bytes(r.randrange(256) for _ in range(r.choice([0, 0, 1, 4]))), r.choice([0, 0, 2]), r))
            if len(b) > 1: V.append(dec(t, b[:r.randrange(len(b))], r.choice([0, 2]), r))
        if whole and w == 16:
            for x in range(whole[0], 1 << 17, whole[1]): V.append(dec(t, vlq(x), 0, r))
        for u in edges(64) + [r.getrandbits(r.randint(1, 64)) for _ in range(n // 16)]:
            b = vlq(u); V.append(dec(t, b, 0, r))
            if r.random() < .3: V.append(dec(t, b[:-1] + bytes([b[-1] | 128]) + b'\x80' * r.randrange(3) + b'\0', 0, r))    # not minimal
        for k in range(0, 13):
            for last in (None, 0, 1, 2, 3, 0x40, 0x7f, 0x80, 0x81, 0xff):
                body = bytes(r.choice([0x80, 0x81, 0xff]) for _ in range(k)) + (b'' if last is None else bytes([last]))
                V.append(dec(t, body, r.choice([0, 1]), r))
                V.append(dec(t, b'\x80' * k + (b'' if last is None else bytes([last])) + b'\x01' * r.randrange(2), 0, r))
                V.append(dec(t, b'\xff' * k + (b'' if last is None else bytes([last])), 0, r))
    return V
def raw(t, v):
    """the number written for v (only used to build input; the specification decides)"""
    if t[0] == 'u': return v & (2 ** 64 - 1)
    z = (v << 1) ^ (v >> 63)
    return (sext(z, 32) if t == 'i32' else z) & (2 ** 64 - 1)

def arith_vectors(r, n):
    E = edges(64) + [0x7ffffffffffffffe, 0x8000000000000002, 0xfffffffffffffffd]
    V = []
    def one(op, l, x):
        old = num(r.getrandbits(64))
        V.append(('ar %s %s %s %s' % (op, num(l), num(x), old), dict(m='ar', op=op, l=num(l), r=num(x), old=old)))
    for op in ('addu', 'subu', 'addi', 'subi'):
        for l in E:
            for x in E: one(op, l, x)
        for _ in range(n):
            l, x = r.getrandbits(r.randint(1, 64)), r.getrandbits(r.randint(1, 64))
            if r.random() < .3: l = -l & (2 ** 64 - 1)
            if r.random() < .4:    # near a limit of the result
                lim = r.choice([2 ** 63, 2 ** 63 - 1, 2 ** 64, 0, -2 ** 63]); d = r.randint(-2, 2)
                x = ((lim + d - l) if op[:3] == 'add' else (l - lim - d)) & (2 ** 64 - 1)
                if r.random() < .5 and op[3] == 'i':
                    sl = sext(l, 64); x = ((lim + d - sl) if op[:3] == 'add' else (sl - lim - d)) & (2 ** 64 - 1)
            one(op, l, x)
    return V

# ---------------------------------------------------------------- buffers
W = dict(w8=1, w16be=2, w16le=2, w32be=4, w32le=4, w64be=8, w64le=8)
NOARG = ['r8', 'r16be', 'r16le', 'r32be', 'r32le', 'r64be', 'r64le', 'empty', 'shift']
COUNT = ['rb', 'cb', 'srs', 'src', 'sre', 'sws', 'swc', 'swe', 'cr', 'cw', 'bip']
HUGE = [-1, -2, -3, -8, -(1 << 31), -(1 << 63)]
def qop(op, n=0, b=b''):
    # the number in the event is only a sign for "huge" when negative: TLC has 32-bit integers
    return ('q %s %d %s' % (op, n, H(b)), dict(m='q', op=op, n=-1 if n < 0 else n, b=b.hex()))
def qnew(size, mem, used): return ('q new %d %s %d' % (size, H(mem[:size]), used), dict(m='q', op='new', n=size, b=mem[:used].hex()))
def qops(r, top):
    """every operation with every small argument"""
    L = [qop(o) for o in NOARG]
    L += [qop(o, 0, bytes(r.randrange(256) for _ in range(k))) for o, k in W.items()]
    L += [qop('wb', 0, bytes(r.randrange(256) for _ in range(k))) for k in range(top + 2)] + [qop('wb', h, b'\1\2') for h in HUGE[:3]]
    L += [qop(o, k) for o in COUNT for k in list(range(top + 2)) + HUGE]
    # sums that wrap around to a small number are the dangerous ones
    L += [qop(o, -k) for o in COUNT for k in range(1, top + 1)]
    return L
def queue_exhaustive(r, i, k, top=9):
    """every state of every small buffer, each operation once"""
    V, n = [], 0
    for size in range(top + 1):
        for wr in range(size + 1):
            for rd in range(wr + 1):
                n += 1
                if n % k != i: continue
                mem = bytes(r.randrange(256) for _ in range(size))
                for o in qops(r, size):
                    V += [qnew(size, mem, wr)] + ([qop('srs', rd)] if rd else []) + [o]
    return V
def word(r, n):
    """n bytes: any, or of few different kinds, in halves or mixed"""
    k = r.randrange(4)
    if k == 0 or n == 0: return bytes(r.randrange(256) for _ in range(n))
    if k == 1: return bytes(r.choice([0, 0xff]) for _ in range(n))
    if k == 2: h = r.randrange(n); return bytes([r.choice([0, 0xff, 0x80, 0x7f, 1])] * h) + bytes([r.choice([0, 0xff, 0x80, 0x7f, 1])] * (n - h))
    return bytes(r.choice([0, 1, 0x7f, 0x80, 0xff, 0xfe, r.randrange(256)]) for _ in range(n))
def queue_random(r, n):
    V = []
    while len(V) < n:
        size = r.choice([0, 1, 2, 5, 8, 16, 16, 33, 64])
        mem = word(r, size)
        V.append(qnew(size, mem, r.choice([0, 0, 0, size, r.randint(0, size)])))
        for _ in range(r.randint(5, 60)):
            o = r.random()
            if o < .35:
                w = r.choice(list(W) + ['wb', 'wb'])
                V.append(qop(w, 0, word(r, W.get(w) if w in W else r.choice([0, 1, 2, 5, size]))))
            elif o < .65: V.append(qop(r.choice(NOARG[:7]))) if r.random() < .6 else V.append(qop(r.choice(['rb', 'cb', 'bip']), r.choice([0, 1, 2, 4, size])))
            elif o < .75: V.append(qop('shift'))
            elif o < .78: V.append(qop('empty'))
            else: V.append(qop(r.choice(COUNT), r.choice([0, 0, 1, 1, 2, 3, size, r.randint(0, size + 1), r.choice(HUGE), -r.randint(1, size + 1)])))
    return V

# ---------------------------------------------------------------- serializers
MAXTOK, MAXPART, MINCHUNK = 20, 32768, 255
rb = lambda r, n: bytes(r.getrandbits(8) for _ in range(n))
def amount(r): return int.from_bytes(word(r, 8), 'big') if r.random() < .2 else r.choice([0, 1, 127, 128, (1 << 63) - 1, 1 << 63, (1 << 64) - 1, r.getrandbits(64), r.getrandbits(20), r.getrandbits(40)])
def S(op, *args, **ev):
    d = dict(m='s', op=op); d.update(ev)
    return ('s ' + ' '.join([op] + [str(a) for a in args]), d)
def ch(r, b): return '%d:%s' % (r.choice([0, 0, 0, 1, 5]), b.hex() if b else '-')
def chunk(op, r, b, *more, **ev): return S(op, ch(r, b), *more, h=b.hex(), **ev)
def cut(r, b, unit=1, empties=True):
    """b in pieces of whole units"""
    L, i = [], 0
    n = len(b) // unit
    mode = r.random()
    while i < n:
        k = n - i if mode < .3 else 1 if mode < .4 and n < 12 else r.randint(1, n - i)
        if empties and r.random() < .08: L.append(b'')
        L.append(b[i * unit:(i + k) * unit]); i += k
    return L
def cut_tree(r, b):
    L, i = [], 0
    while len(b) - i > MINCHUNK and r.random() < .8:
        k = r.choice([MINCHUNK, MINCHUNK, r.randint(MINCHUNK, len(b) - i)])
        if k >= len(b) - i: break
        L.append(b[i:i + k]); i += k
    return L + [b[i:]]
def size(r, small=False): return r.choice([0, 1, 2, 3, 40, 254, 255, 256, 300, 511, 600] + ([] if small else [1200, 2000]))
def box_plan(r, tab, p, full, tokens_in=None):
    """operations that give one box; p: prefix of the operations' names; tab: number of entries of the table (None: full ids)"""
    kind = r.choice(['tree'] * 5 + ['fee', 'change'])
    tree = rb(r, size(r)); regs = rb(r, size(r, True))
    n = r.choice([0, 0, 1, 2, 3, 5, MAXTOK]) if tab != 0 else 0
    v, h = amount(r), r.choice([0, 1, 127, 128, 2 ** 32 - 1, r.getrandbits(32), r.getrandbits(20)])
    tl = len(tree) if kind == 'tree' else r.choice([0, 105, 36, len(tree)])
    if r.random() < .01: tree = rb(r, MAXPART); tl = MAXPART; kind = 'tree'
    name = dict(init='f_box' if full else 'b_init', cb='f_bcb' if full else 'b_cb', tree=p + 'tree', fee=p + 'fee', change=p + 'change',
                toks='f_otoks' if full else 'b_toks', regs=p + 'regs')
    L = [S(name['init'], num(v), tl, num(h, 8), n, len(regs), x=num(v), y=num(h, 8), n1=tl, n2=n, n3=len(regs))]
    if r.random() < .7: L.append(S(name['cb']))
    if kind == 'tree': L += [chunk(name['tree'], r, c) for c in cut_tree(r, tree)]
    elif kind == 'fee': L.append(S(name['fee'], r.randrange(2)))
    else:
        k = b'\4' + rb(r, 64); L.append(S(name['change'], k.hex(), x=k.hex()))
    if n:
        if tab is None: body = b''.join(rb(r, 32) + amount(r).to_bytes(8, 'big') for _ in range(n)); unit = 40
        else: body = b''.join(r.randrange(tab).to_bytes(4, 'big') + amount(r).to_bytes(8, 'big') for _ in range(n)); unit = 12
        for c in cut(r, body, unit): L.append(chunk(name['toks'], r, c, *([] if full else [int(tab is not None)]), n1=int(tab is not None)))
    if regs:
        for c in cut(r, regs): L.append(chunk(name['regs'], r, c))
    return L
def in_plan(r, p, full):
    bid = rb(r, 32); n = r.choice([1, 1, 2, 3]); ext = rb(r, r.choice([0, 0, 2, 3, 255, 400]))
    L = [S('f_in' if full else 'i_init', bid.hex(), n, len(ext), x=bid.hex(), n1=n, n2=len(ext))]
    if r.random() < .7: L.append(S('f_icb' if full else 'i_cb'))
    for i in range(n):
        body = b''.join(rb(r, 32) + amount(r).to_bytes(8, 'big') for _ in range(r.choice([0, 1, 2, 4])))
        L.append(S('f_itoks' if full else 'i_toks', bid.hex(), i, ch(r, body), x=bid.hex(), n1=i, h=body.hex()))
    if ext:
        for c in cut(r, ext): L.append(chunk(p + 'ext', r, c))
    return L
def tx_plan(r):
    nin, ndata, nout = r.choice([1, 1, 2, 3]), r.choice([0, 0, 1, 2, 5]), r.choice([1, 1, 2, 3])
    ntok = r.choice([0, 0, 1, 2, 3, 5, MAXTOK])
    L = [S('f_init', nin, ndata, nout, ntok, n1=nin, n2=ndata, n3=nout, n4=ntok)]
    if ntok:
        for c in cut(r, rb(r, 32 * ntok), 32): L.append(chunk('f_toks', r, c))
    for _ in range(nin): L += in_plan(r, 'f_', True)
    if ndata:
        for c in cut(r, rb(r, 32 * ndata), 32): L.append(chunk('f_datas', r, c))
    for _ in range(nout): L += box_plan(r, ntok, 'f_', True)
    return L
def tamper(r, L):
    """one thing done otherwise"""
    if not L: return L
    k = r.randrange(len(L)); L = list(L)
    m = r.choice(['dup', 'drop', 'swap', 'longer', 'shorter', 'fault', 'cbfail', 'alien', 'id', 'index', 'fault', 'longer', 'shorter', 'init', 'edge', 'empty'])
    withh = [i for i, (l, e) in enumerate(L) if e.get('h')]
    if m == 'dup': L.insert(k, L[k])
    elif m == 'drop': del L[k]
    elif m == 'swap' and k + 1 < len(L): L[k], L[k + 1] = L[k + 1], L[k]
    elif m in ('longer', 'shorter', 'empty') and withh:
        k = r.choice(withh); l, e = L[k]; b = bytes.fromhex(e['h'])
        unit = dict(f_toks=32, t_add=32, f_datas=32, b_toks=12 if e.get('n1') else 40, f_otoks=12, f_itoks=40, i_toks=40).get(e['op'], 1)
        d = r.choice([1, unit, unit - 1 or 1, r.randint(1, 40)])
        b2 = b + (b[:unit] + rb(r, d))[:d] if m == 'longer' else b'' if m == 'empty' else b[:-d] if d < len(b) else b[:-1]
        if m == 'longer' and r.random() < .5: b2 = b + b[-unit:]
        L[k] = rechunk(L[k], b2)
    elif m == 'fault': L.insert(r.randrange(k + 1), S('fault', r.randint(1, 12)))
    elif m == 'cbfail': L.insert(r.randrange(k + 1), S('cbfail', r.randint(1, 6)))
    elif m == 'alien': L.insert(k, alien(r, L[0][1]['op']))
    elif m == 'id':
        c = [i for i, (l, e) in enumerate(L) if e['op'] in ('i_toks', 'f_itoks')]
        if c:
            k = r.choice(c); l, e = L[k]; x = bytearray.fromhex(e['x']); x[r.randrange(32)] ^= 1 << r.randrange(8)
            w = l.split(' '); w[2] = bytes(x).hex(); L[k] = (' '.join(w), dict(e, x=bytes(x).hex()))
    elif m == 'index':
        c = [i for i, (l, e) in enumerate(L) if e['op'] in ('i_toks', 'f_itoks')]
        d = [i for i, (l, e) in enumerate(L) if e['op'] in ('b_toks', 'f_otoks') and e.get('n1') and len(e['h']) >= 24]
        if c and (not d or r.random() < .5):
            k = r.choice(c); l, e = L[k]; w = l.split(' '); n = r.choice([0, 1, 2, 3, 255]); w[3] = str(n); L[k] = (' '.join(w), dict(e, n1=n))
        elif d:
            k = r.choice(d); b = bytearray.fromhex(L[k][1]['h']); j = r.randrange(len(b) // 12) * 12
            b[j:j + 4] = r.choice([b'\0\0\0\x14', b'\0\0\1\0', b'\1\0\0\0', b'\xff\xff\xff\xff', bytes([0, 0, 0, r.randrange(21)])]); L[k] = rechunk(L[k], bytes(b))
    elif m in ('init', 'edge'):
        c = [i for i, (l, e) in enumerate(L) if e['op'] in ('b_init', 'f_box', 'i_init', 'f_in', 'f_init', 't_init')]
        if not c: return L
        k = r.choice(c); l, e = L[k]; w = l.split(' '); e = dict(e); op = e['op']
        def put(pos, key, v): w[pos] = str(v); e[key] = v
        if op in ('b_init', 'f_box'):
            f = r.choice([(3, 'n1'), (5, 'n2'), (6, 'n3')]); old = e[f[1]]
            put(*f, r.choice([min(old + 1, 255 if f[1] == 'n2' else 2 ** 31 - 1), max(0, old - 1), 0, 1] + ([MAXPART + 1, MAXPART, 2 ** 31 - 1] if f[1] != 'n2' else [MAXTOK, MAXTOK + 1, 255])))
        elif op in ('i_init', 'f_in'):
            f = r.choice([(3, 'n1'), (4, 'n2')]); old = e[f[1]]
            put(*f, r.choice([0, 1, old + 1 if f[1] == 'n2' else min(old + 1, 255), max(0, old - 1)] + ([255] if f[1] == 'n1' else [2, MAXPART, MAXPART + 1])))
        elif op == 't_init': put(2, 'n1', r.choice([0, 1, MAXTOK, MAXTOK + 1, 255]))
        else:
            f = r.choice([(2, 'n1'), (3, 'n2'), (4, 'n3'), (5, 'n4')]); old = e[f[1]]
            put(*f, r.choice([0, 1, min(old + 1, 255 if f[1] == 'n4' else 65535), max(0, old - 1)] + ([65535] if f[1] != 'n4' else [MAXTOK, MAXTOK + 1, 255])))
        L[k] = (' '.join(w), e)
    return L
def rechunk(le, b):
    l, e = le; w = l.split(' '); i = next(i for i, x in enumerate(w) if ':' in x)
    w[i] = w[i].split(':')[0] + ':' + (b.hex() if b else '-')
    return (' '.join(w), dict(e, h=b.hex()))
def alien(r, first):
    p = first[0]; x = rb(r, r.choice([0, 1, 12, 32, 40, 255]))
    if p == 'b': op = r.choice(['b_tree', 'b_fee', 'b_change', 'b_toks', 'b_regs', 'b_id'])
    elif p == 'i': op = r.choice(['i_toks', 'i_ext'])
    elif p == 't': return chunk('t_add', r, rb(r, 32))
    else: op = r.choice(['f_toks', 'f_in', 'f_icb', 'f_itoks', 'f_ext', 'f_datas', 'f_box', 'f_bcb', 'f_tree', 'f_fee', 'f_change', 'f_otoks', 'f_regs'])
    s = op[2:]
    if op in ('b_id',): t = rb(r, 32).hex(); return S(op, t, 5, x=t, y='0005')
    if s == 'fee': return S(op, 1)
    if s == 'change': k = b'\4' + rb(r, 64); return S(op, k.hex(), x=k.hex())
    if s in ('icb', 'bcb'): return S(op)
    if s == 'in': t = rb(r, 32).hex(); return S(op, t, 1, 0, x=t, n1=1, n2=0)
    if s == 'box': return S(op, num(5), 3, num(9, 8), 0, 0, x=num(5), y=num(9, 8), n1=3, n2=0, n3=0)
    if s in ('itoks',) or op == 'i_toks': t = rb(r, 32).hex(); return S(op, t, 0, ch(r, x), x=t, n1=0, h=x.hex())
    if op == 'b_toks': return chunk(op, r, x, 0, n1=0)
    return chunk(op, r, x)
def tail(r, L):
    """more operations after the end: none may succeed unless it is the next one"""
    return [alien(r, L[0][1]['op']) for _ in range(r.choice([0, 1, 3]))]
INITS = ('b_init', 'i_init', 't_init', 'f_init')
def begun(L, first):
    """an object is used from its initialisation on, and initialised once: everything before or again is outside its contract"""
    i = next((i for i, x in enumerate(L) if x[1]['op'] in INITS), None)
    if i is None: return [first] + L
    head = [x for x in L[:i] if x[1]['op'] in ('fault', 'cbfail')]
    return head + [L[i]] + [x for x in L[:i] if x not in head] + [x for x in L[i + 1:] if x[1]['op'] not in INITS]
def serial_histories(r, n):
    V = []
    for _ in range(n):
        kind = r.choice(['tx'] * 5 + ['box'] * 4 + ['in', 'in', 'tab', 'tt'])
        prior = 1 if r.random() < .01 else 0
        if kind == 'tt':
            V.append(S('new', 0, n1=0, fault=0, cbf=0)); pool = [rb(r, 32) for _ in range(r.choice([1, 3, 24]))]
            pool += [pool[0][:31] + bytes([pool[0][31] ^ 1]), bytes([pool[0][0] ^ 128]) + pool[0][1:]]
            for _ in range(r.randint(1, 40)):
                t = r.choice(pool).hex(); o = r.choice(['tt_find', 'tt_add'])
                V.append(('s %s %s' % (o, t), dict(m='t', op=o, x=t)))
            continue
        new = S('new', prior, n1=prior)
        if kind == 'tx': L = tx_plan(r)
        elif kind == 'in': L = in_plan(r, 'i_', False)
        elif kind == 'tab':
            k = r.choice([0, 1, 3, MAXTOK]); L = [S('t_init', k, n1=k)] + [chunk('t_add', r, c) for c in cut(r, rb(r, 32 * k), 32)] + [S('t_hash')]
        else:
            tab = r.choice([None, None, 1, 3, MAXTOK])
            L = box_plan(r, tab, 'b_', False)
            pre = []; new = S('new', 0, n1=0)
            if tab is not None: pre = [S('t_init', tab, n1=tab), chunk('t_add', r, rb(r, 32 * tab))]
            t = rb(r, 32).hex(); i = r.choice([0, 1, 127, 128, 65535, r.getrandbits(16)])
            end = [S('b_id', t, i, x=t, y=num(i, 4))]
        first = L[0]
        if kind == 'tab':    # the table itself has no error state: stop at the first refusal
            if r.random() < .5: L = begun(tamper(r, L), first)
            L = [x for x in L if x[1]['op'] not in ('cbfail', 'fault', 't_hash')]
            V.append(('stop', [new] + L + [S('t_hash')])); continue
        if r.random() < .6: L = tamper(r, L)
        if r.random() < .1: L = tamper(r, L)
        L = begun(L, first)
        if kind == 'box': L = pre + L + (end if r.random() < .9 else []) + (end if r.random() < .1 else [])
        L = [new] + L + (tail(r, L) if L and r.random() < .5 and kind != 'box' else [])
        V += [('retry', L)] if r.random() < .4 else L
    return V

# ---------------------------------------------------------------- pure functions
def pure_vectors(r, n):
    V = []
    def P(op, *args, **ev): d = dict(m='p', op=op); d.update(ev); V.append(('p ' + ' '.join([op] + [str(a) for a in args]), d))
    hx = lambda p: ''.join(num(e, 8) for e in p)
    EL = [0, 1, 2, 0x7fffffff, 0x80000000, 0x80000001, 0xffffffff, 0x8000002c, 0x800001ad, 44, 429]
    for _ in range(n):
        k = r.choice([0, 1, 2, 3, 3, 4, 5, 5, 5, 6, 8, 10])
        p = ([0x8000002c, 0x800001ad, 0x80000000 | r.getrandbits(r.choice([1, 31])), r.randrange(2), r.getrandbits(r.choice([3, 31]))] + [r.choice(EL) for _ in range(6)])[:k]
        if r.random() < .6 and p: p[r.randrange(len(p))] = r.choice(EL)
        if r.random() < .3: p = p[:2] + [x | 0x80000000 for x in p[2:]]
        q = list(p)
        if q and r.random() < .7: q[r.randrange(len(q))] ^= 1 << r.choice([0, 8, 31, r.randrange(32)])
        if r.random() < .3: q = q[:r.randint(0, len(q))]
        for kind in ('coin', 'hard', 'acc3', 'accge3', 'adr5', 'adrge5'): P('path', kind, hx(p) or '-', kind=kind, h=hx(p))
        P('peq', hx(p) or '-', hx(q) or '-', h=hx(p), g=hx(q)); P('psame', hx(p) or '-', hx(q) or '-', h=hx(p), g=hx(q))
        P('peq', hx(p) or '-', hx(p) or '-', h=hx(p), g=hx(p))
    for net in range(256):
        for kind, b in (('raw', b'\4' + rb(r, 64)), ('pk', bytes([r.choice([2, 3])]) + rb(r, 32)), ('sh', rb(r, 24))):
            f = 1 if r.random() < .05 else 0
            P('addr', kind, net, b.hex(), f, kind=kind, n1=net, h=b.hex())
    tmpl = [bytes.fromhex('0008cd02') + rb(r, 32), bytes.fromhex('0008cd03') + rb(r, 32), bytes.fromhex('00ea02d193b4cbe4e3010e040004300e18') + rb(r, 24) + bytes.fromhex('d40801')]
    for t in tmpl:
        op = 'p2pk' if len(t) == 36 else 'p2sh'
        P(op, t.hex(), h=t.hex())
        for i in range(len(t)):
            for m in (1, 2, 0x80, r.randrange(1, 256)): u = t[:i] + bytes([t[i] ^ m]) + t[i + 1:]; P(op, u.hex(), h=u.hex())
    for _ in range(n // 4): k = b'\4' + rb(r, 64); P('gen', k.hex(), h=k.hex())
    P('fee', 0); P('fee', 1)
    for c in list(range(7)) + [8, 128, 252, 255]:
        for d in (-60, -57, -41, -17, -16, -1, 0, 1, 40, 100):
            k = 43 + 40 * min(c, 6) + 16 + d
            if k < 0: continue
            b = bytearray(rb(r, k))
            if len(b) > 42: b[42] = c
            P('frame', ch(r, bytes(b)), h=bytes(b).hex())
    return V

GENERATORS = dict(codec=lambda r, n: codec_vectors(r, n), arith=arith_vectors, queue=queue_random, serial=serial_histories, pure=pure_vectors)

# ---------------------------------------------------------------- running
CFG = '''CONSTANTS AmtW = 16 IdLen = 32 MaxTok = 20 MaxPart = 32768 MinChunk = 255
  TheFeeTree <- FeeTree TreeOfKey <- RawTree
SPECIFICATION Spec
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
'''
class Trouble(Exception): pass
def produce(lib, V):
    """runs the vectors; a history marked stop ends at its first refusal"""
    batch = []
    def flush():
        if batch:
            o = lib.many(batch); crashed = len(o) < len(batch) or (o and o[-1]['crash']); del batch[:]
            return not crashed
        return True
    for x in V:
        if x[0] == 'retry':      # what is refused is tried once more
            if not flush(): return False
            for l, e in x[1]:
                o = lib.op(l, **e)
                if o['crash']: return False
                if o.get('r') == 'err' and e['op'] not in INITS + ('new', 'f_in', 'f_box'):
                    if lib.op(l, **e)['crash']: return False
            continue
        if x[0] == 'stop':
            if not flush(): return False
            o = {}
            for l, e in x[1]:
                # the bytes of an incomplete table mean nothing
                if e['op'] == 't_hash' and not (o.get('r') == 'ok' and (o.get('fin') or o.get('n1') == 0)): break
                o = lib.op(l, **e)
                if o['crash']: return False
                if o.get('r') == 'err': break
        else: batch.append(x)
    return flush()
def judge(dir, events, timeout=700):
    os.makedirs(dir, exist_ok=True)
    with open(os.path.join(dir, 'trace.ndjson'), 'w') as f:
        for e in events: f.write(json.dumps(e) + '\n')
    rc, out, sec = runner.tlc('TraceLib', CFG, os.path.join(dir, 'tlc'), {'TRACEDIR': dir}, timeout=timeout)
    if rc == 0 and 'No error has been found' in out: return True, len(events), '', None
    m = re.search(r'"REJECT",\s*(\d+)', out)
    if not m: raise Trouble('TLC gave no verdict:\n' + out[-2500:])
    i = out.find('"REJECT"')
    return False, int(m.group(1)), out[i - 4:i + 2500], int(m.group(1)) - 1

def start_of(events, i):
    """the history event i belongs to starts here"""
    if events[i].get('m') not in ('q', 's', 't'): return i
    while i > 0 and events[i].get('op') != 'new': i -= 1
    return i
def job(a):
    binary, what, seed, args, work = a
    res = dict(what=what, events=0, histories=0, bad=[], trouble='', sample=[])
    try:
        r = random.Random('%s/%s' % (what, seed))
        if what == 'queue_all': V = queue_exhaustive(r, *args)
        elif what == 'codec_all': V = codec_vectors(r, 200, args)
        else: V = GENERATORS[what](r, *args)
        lib = Lib(binary)
        produce(lib, V); lib.close()
        d = os.path.join(work, '%s-%s' % (what, seed))
        ok, n, msg, i = judge(d, lib.events)
        shutil.rmtree(d, ignore_errors=True)
        res['events'] = n; res['histories'] = sum(e.get('op') == 'new' for e in lib.events[:n]) or n
        res['sample'] = [[l, {k: (v if len(str(v)) < 90 else str(v)[:90]) for k, v in e.items() if k not in ('m', 'op')}] for (l, _), e in list(zip(lib.lines, lib.events))[:6]]
        if not ok:
            lines = lib.lines[start_of(lib.events, i):i + 1]
            ok2, msg2 = again(binary, lines, d)
            if not ok2: res['bad'].append(dict(lib=lines, message=msg2))
            else: res['trouble'] = 'a rejection was not repeated: ' + msg[:800]
    except Exception: res['trouble'] = traceback.format_exc()[-2500:]
    return res
def again(binary, lines, work):
    lib = Lib(binary); lib.many([tuple(x) for x in lines]); lib.close()
    ok, n, msg, i = judge(os.path.join(work, 'again'), lib.events)
    return ok, msg
def campaign(binary, jobs, work, procs=8):
    tot = dict(events=0, histories=0, bad=[], trouble='', samples=[], kinds={})
    with ProcessPoolExecutor(procs) as ex:
        for r in ex.map(job, [(binary, *j, work) for j in jobs]):
            tot['events'] += r['events']; tot['histories'] += r['histories']; tot['bad'] += r['bad']; tot['trouble'] += r['trouble']
            tot['kinds'][r['what']] = tot['kinds'].get(r['what'], 0) + r['events']
            if len(tot['samples']) < 3 and r['sample']: tot['samples'].append(r['sample'])
    return tot

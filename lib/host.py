"""A host for the Ergo application: builds requests, runs flows, answers prompts."""
import random
from . import ec
from .device import Device, Crash

def u8(n): return '%02x' % n
def u16(n): return '%04x' % n
def u32(n): return '%08x' % (n & 0xffffffff)
def u64(n): return '%016x' % n
H = 0x80000000
def phex(p): return ''.join(u32(x) for x in p)
def pth(p): return u8(len(p)) + phex(p)
def acct(a=0, *more): return [44 | H, 429 | H, a | H] + [m | H for m in more]
def addr(a=0, c=0, i=0, *more): return [44 | H, 429 | H, a | H, c, i] + list(more)
def apdu(ins, p1, p2, data=''):
    assert len(data) <= 510, len(data)
    return 'e0%02x%02x%02x%02x%s' % (ins, p1, p2, len(data) // 2, data)

def epk(path, tok=None): return apdu(0x10, 1 if tok is None else 2, 0, pth(path) + ('' if tok is None else u32(tok)))
def da(path, net=0, display=False, tok=None):
    return apdu(0x11, 2 if display else 1, 1 if tok is None else 2, u8(net) + pth(path) + ('' if tok is None else u32(tok)))
VERSION, NAME = apdu(1, 0, 0), apdu(2, 0, 0)

FEE_TREE = ('1005040004000e36100204a00b08cd0279be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798ea02d192a39a8cc7a7'
            '01730073011001020402d19683030193a38cc7b2a57300000193c2b2a57301007473027303830108cdeeac93b1a57304')
P2SH_PRE, P2SH_SUF = '00ea02d193b4cbe4e3010e040004300e18', 'd40801'
def p2pk(pk): return '0008cd' + pk
def p2sh(h24): return P2SH_PRE + h24 + P2SH_SUF

class Box:
    def __init__(s, value=1000, tree='aa' * 10, height=500, toks=(), regs='', txid='11' * 32, idx=0):
        s.value, s.tree, s.height, s.toks, s.regs, s.txid, s.idx = value, tree, height, list(toks), regs, txid, idx
class Out:
    """kind: tree | change | fee; dest: tree hex or path; toks: [(index, amount)]"""
    def __init__(s, kind, dest='', value=1000, height=500, toks=(), regs='', size=None):
        s.kind, s.dest, s.value, s.height, s.toks, s.regs, s.size = kind, dest, value, height, list(toks), regs, size
class Tx:
    """inputs: [(frames, ext hex)]"""
    def __init__(s, inputs, outs, datas=(), toks=()):
        s.inputs, s.outs, s.datas, s.toks = list(inputs), list(outs), list(datas), list(toks)

def chunks(h, n=255, rnd=None):
    """split hex into requests of at most n bytes (random sizes with rnd)"""
    out, i = [], 0
    while i < len(h):
        k = n if rnd is None else rnd.randint(1, n)
        out.append(h[i:i + 2 * k]); i += 2 * k
    return out
def items(l, per, rnd=None):
    out, i = [], 0
    while i < len(l):
        k = per if rnd is None else rnd.randint(1, per)
        out.append(''.join(l[i:i + k])); i += k
    return out

class Host:
    def __init__(self, dev, rnd=None):
        self.d, self.r, self.ev, self.sess = dev, rnd or random.Random(0), None, 0
    # ---- plumbing
    def send(self, raw):
        self.ev = self.d.apdu(raw); return self.ev
    def resp(self): return self.ev['resp'][0] if len(self.ev['resp']) == 1 else ''
    def ok(self): return self.resp()[-4:] == '9000'
    def data(self): return self.resp()[:-4]
    def asking(self): return self.ev['resp'] == [] and self.ev['page'] not in (['Ergo', 'is ready'], ['About'], ['Quit'])
    def press(self, b):
        self.ev = self.d.press(b); return self.ev
    def goto(self, text, by='right', limit=70):
        for _ in range(limit):
            if self.ev['page'] == [text] or self.ev['resp']: return True
            self.press(by)
        return False
    def tour(self, by='right', limit=70):
        """once around the prompt"""
        first = self.ev['page']
        for _ in range(limit):
            self.press(by)
            if self.ev['page'] == first or self.ev['resp']: return
    def decide(self, yes=True, by='right'):
        self.goto('Approve' if yes else 'Reject', by)
        if self.ev['resp'] == []: self.press('both')
        return self.ok()
    def do(self, raw, yes=True, by='right', tour=0):
        """a request and, if it asks, the user's decision; True when it succeeded"""
        self.send(raw)
        if self.ev['resp'] == []:
            for i in range(tour): self.tour('right' if i % 2 == 0 else 'left')
            self.decide(yes, by)
        return self.ok()

    # ---- attestation
    def att(self, sub, data=''): return apdu(0x20, sub, self.sess, data)
    def attest_init(self, b, tok=None, treesize=None, ntok=None, regsize=None):
        return apdu(0x20, 1, 1 if tok is None else 2,
            b.txid + u16(b.idx) + u64(b.value) + u32(len(b.tree) // 2 if treesize is None else treesize) + u32(b.height)
            + u8(len(b.toks) if ntok is None else ntok) + u32(len(b.regs) // 2 if regsize is None else regsize)
            + ('' if tok is None else u32(tok)))
    def begin(self, raw, **kw):
        """start a session; remembers its id"""
        if self.do(raw, **kw):
            self.sess = int(self.data() or '0', 16); return True
        return False
    def box_steps(self, b, rnd=None):
        tree = chunks(b.tree) or ['']
        st = [(2, c) for c in tree]
        if b.toks: st += [(3, c) for c in items([i + u64(v) for i, v in b.toks], 6, rnd)]
        if b.regs: st += [(4, c) for c in chunks(b.regs, 255, rnd)]
        return st
    def attest(self, b, tok=None, rnd=None, **kw):
        """frames of the box, or None"""
        if not self.begin(self.attest_init(b, tok), **kw): return None
        for sub, c in self.box_steps(b, rnd):
            if not self.do(self.att(sub, c)): return None
        return [self.data() for i in range(int(self.data() or '0', 16)) if self.do(self.att(5, u8(i)))] \
            if False else self._frames()
    def _frames(self):
        n, out = int(self.data() or '0', 16), []
        for i in range(n):
            if not self.do(self.att(5, u8(i))): return None
            out.append(self.data())
        return out
    def frames(self, boxid, value, toks=(), per=4, skey=None, fc=None):
        """frames as the device issues them, made with this run's key"""
        toks = list(toks)
        n = max(1, (len(toks) + per - 1) // per)
        out = []
        for i in range(n):
            t = toks[per * i:per * i + per]
            body = boxid + u8(n if fc is None else fc) + u8(i) + u64(value) + u8(len(t)) + ''.join(x + u64(v) for x, v in t)
            out.append(body + ec.mac(skey or self.d.skey, body))
        return out

    # ---- signing
    def sg(self, sub, data='', sess=None): return apdu(0x21, sub, self.sess if sess is None else sess, data)
    def sign_init(self, path, net=0, tok=None):
        return apdu(0x21, 1, 1 if tok is None else 2, u8(net) + pth(path) + ('' if tok is None else u32(tok)))
    def start(self, nin, ndata, ntok, nout): return (0x10, u16(nin) + u16(ndata) + u8(ntok) + u16(nout))
    def input_steps(self, frames, ext, rnd=None):
        st = []
        for i, f in enumerate(frames):
            st.append((0x12, f + (u32(len(ext) // 2) if i == 0 else '')))
        return st + [(0x13, c) for c in chunks(ext, 255, rnd)]
    def out_steps(self, o, rnd=None):
        size = o.size if o.size is not None else (len(o.dest) // 2 if o.kind == 'tree' else 0)
        st = [(0x15, u64(o.value) + u32(size) + u32(o.height) + u8(len(o.toks)) + u32(len(o.regs) // 2))]
        if o.kind == 'tree': st += [(0x16, c) for c in (chunks(o.dest) or [''])]
        elif o.kind == 'fee': st.append((0x17, ''))
        else: st.append((0x18, pth(o.dest)))
        if o.toks: st += [(0x19, c) for c in items([u32(i) + u64(v) for i, v in o.toks], 21, rnd)]
        if o.regs: st += [(0x1a, c) for c in chunks(o.regs, 255, rnd)]
        return st
    def tx_steps(self, tx, rnd=None):
        st = [self.start(len(tx.inputs), len(tx.datas), len(tx.toks), len(tx.outs))]
        if tx.toks: st += [(0x11, c) for c in items(tx.toks, 7, rnd)]
        for f, e in tx.inputs: st += self.input_steps(f, e, rnd)
        if tx.datas: st += [(0x14, c) for c in items(tx.datas, 7, rnd)]
        for o in tx.outs: st += self.out_steps(o, rnd)
        return st + [(0x20, '')]
    def run(self, steps, **kw):
        """True when every step succeeded"""
        for sub, data in steps:
            if not self.do(self.sg(sub, data), **kw): return False
        return True
    def sign(self, tx, path=None, net=0, tok=None, rnd=None, **kw):
        path = path or addr()
        return self.begin(self.sign_init(path, net, tok), **kw) and self.run(self.tx_steps(tx, rnd), **kw)

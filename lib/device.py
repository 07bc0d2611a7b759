"""The real application under the simulator: runs requests and presses, records events for the specification."""
import json, os, random, subprocess, tempfile
from . import ec

class Crash(Exception): pass

FAULTS = ('derive', 'hash', 'mult', 'pair', 'addm', 'mulm', 'key')

class Recorder:
    """Events of one or more scenarios plus the oracle tables they need."""
    def __init__(self):
        self.events, self.H, self.M, self.paths = [], {}, {}, set()
        self.cost = 0
    def note_hash(self, pre, dig):
        ok = ec.blake(pre) == dig
        self.H[pre] = dig if ok else ec.blake(pre)
    def note_path(self, p):
        if 0 < len(p) <= 80 and len(p) % 8 == 0: self.paths.add(p)

class Device:
    def __init__(self, binary, seed, rec=None):
        self.bin, self.seed, self.rec = binary, seed, rec or Recorder()
        self.p = None
        self.path = None          # path of the signing session last started
        self.nonces = {}
        self.skey = ''
        self.name = ''

    def _spawn(self):
        self.err = tempfile.TemporaryFile()
        env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=1:handle_abort=1')
        self.p = subprocess.Popen([self.bin, str(self.seed)], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=self.err, text=True, env=env)
    def _line(self):
        import select
        r, _, _ = select.select([self.p.stdout], [], [], 20)
        l = self.p.stdout.readline() if r else ''
        if not l:
            self.err.seek(0)
            msg = self.err.read().decode(errors='replace')[-3000:] if r else 'no answer within 20 s'
            self.p.kill(); self.p.wait(); self.p = None
            raise Crash(msg)
        return json.loads(l)
    def _send(self, s):
        try:
            self.p.stdin.write(s + '\n'); self.p.stdin.flush()
        except BrokenPipeError:
            pass
    def close(self):
        if self.p:
            self._send('quit')
            try: self.p.wait(5)
            except subprocess.TimeoutExpired: self.p.kill(); self.p.wait()
            self.p = None

    # ---- events
    def boot(self, name=''):
        self.name = name
        try:
            if self.p is None: self._spawn()
            else: self._send('restart')
            o = self._line()
        except Crash as x:
            return self._event({'e': 'boot', 'name': name}, None, str(x))
        return self._event({'e': 'boot', 'name': name}, o)
    def apdu(self, raw):
        return self._do({'e': 'apdu', 'raw': raw}, 'apdu ' + raw)
    def press(self, b):
        return self._do({'e': b}, b)
    def _do(self, ev, cmd):
        if self.p is None: raise Crash('device is gone')
        try:
            self._send(cmd); o = self._line()
        except Crash as x:
            self._event(ev, None, str(x)); raise
        return self._event(ev, o)
    def fault(self, kind, n): self._send('fault %s %d' % (kind, n))
    def rng(self, h): self._send('rng ' + h)

    def _event(self, ev, o, crash=''):
        r = self.rec
        ev.update(resp=[], page=[], derive=[], exit=0, died=0, fault=0, sid='', sig='', w='', pts=[], skey='', leak=[],
                  crash='')
        ev.setdefault('raw', ''); ev.setdefault('name', self.name)
        if o is None:
            ev['crash'] = crash; r.events.append(ev); return ev
        for k in ('resp', 'exit', 'died', 'fault'): ev[k] = o[k]
        ev['page'] = list(o['page'])
        for h in o['hash']: r.note_hash(*h)
        for k, d, m in o['hmac']: r.M[k + d] = ec.mac(k, d)
        ev['derive'] = [p for p, _ in o['derive']]
        for p in ev['derive']: r.note_path(p)
        bad = [n for n in o['rng'] if len(n) == 64 and not 0 < int(n, 16) < ec.N]
        if len(bad) >= 50: ev['fault'] = 1          # no usable randomness: it may give up
        for n in o['rng']:
            if len(n) == 64 and n not in bad:
                pt = ec.comp(ec.mulg(int(n, 16) % ec.N)) or '?'
                self.nonces[n] = pt; ev['pts'].append(pt)
        if ev['e'] == 'boot' or o['exit'] or o['died']:
            self.skey = ''.join(o['rng'])[:32]; ev['skey'] = self.skey
        if ev['raw']: self._request(ev['raw'])
        if len(o['resp']) == 1:
            x = o['resp'][0]
            if len(x) == 6: ev['sid'] = x[:2]
            if len(x) == 116 and ev['e'] == 'both':
                ev['sig'] = x[:112]; ev['w'] = ec.commitment(ev['sig'], self.path) if self.path else '?'
        if len(ev['page']) == 2 and ev['page'][0] in ('Address', 'Script Hash'):
            h = ec.unb58(ev['page'][1])
            if h: ev['page'][1] = '@' + h; r.note_hash(h[:-8], ec.blake(h[:-8]))
        for kind, where, h in o['leak']:
            pt = next((p for n, p in self.nonces.items() if h in n), '?') if kind == 'nonce' else ''
            x = [kind, str(where), pt]
            if x not in ev['leak']: ev['leak'].append(x)
        r.events.append(ev); r.cost += 1 + len(ev['raw']) / 500
        return ev

    def _request(self, raw):
        """what the specification will ask its oracles about for this request"""
        if len(raw) < 10: return
        ins, p1, h = raw[2:4], raw[4:6], raw[10:]
        def path(i):
            if len(h) >= 2 * i + 2:
                n = int(h[2 * i:2 * i + 2], 16)
                if len(h) >= 2 * i + 2 + 8 * n: return h[2 * i + 2:2 * i + 2 + 8 * n]
            return ''
        p = path(0) if ins == '10' or (ins == '21' and p1 == '18') else path(1) if ins == '11' or (ins == '21' and p1 == '01') else ''
        if p:
            self.rec.note_path(p)
            if ins == '21' and p1 == '01': self.path = p
            if ins == '11' and int(h[:2], 16) <= 252 and len(p) % 8 == 0 and len(p) <= 80:
                a = '%02x' % (int(h[:2], 16) + 1) + (ec.comp(ec.pub(p)) or '')
                self.rec.note_hash(a, ec.blake(a))
        if ins == '21' and p1 == '12' and len(h) >= 86:
            n = 43 + 40 * int(h[84:86], 16)
            if len(h) >= 2 * n: self.rec.M[self.skey + h[:2 * n]] = ec.mac(self.skey, h[:2 * n])

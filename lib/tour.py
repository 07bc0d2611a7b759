"""Explores the device model (MC) with TLC and replays its transitions on the real application."""
import json, os, random, re
from collections import deque
from . import runner, ec
from .host import Host

CFG = runner.DEVICE_CONSTS + '''  HashOf <- McHash MacOf <- McMac PubOf <- McPub ChainOf <- McChain
  CheckNonce = TRUE Focus = "%s" Emit = %s
SPECIFICATION Spec
VIEW View
CONSTRAINT Bounded
INVARIANT PropertiesHold
INVARIANT Agree
INVARIANT Reachable
INVARIANT Decidable
CHECK_DEADLOCK FALSE
'''
class Graph:
    def __init__(self, out):
        self.acts, self.edges, self.init, self.prefix, self.taken = {}, {}, None, [], set()
        self.ends, self.open = set(), set()
        for l in out.splitlines():
            m = re.match(r'<<"(\w)", (-?\d+), (.*)>>$', l)
            if not m: continue
            if m.group(1) == 'E':
                a, b, mark = m.group(3).split(', ')
                self.edges.setdefault(int(m.group(2)), {})[int(a)] = int(b)
                if mark == '"end"': self.ends.add((int(m.group(2)), int(a)))
                elif mark == '"open"': self.open.add(int(b))
            elif m.group(1) == 'A': self.acts[int(m.group(2))] = json.loads(json.loads(m.group(3)))
            else: self.init = int(m.group(2)); self.prefix = json.loads(json.loads(m.group(3)))
    def stuck(self):
        """states of a session in progress from which no way leads to its end"""
        back, good = {}, {s for s, _ in self.ends}
        for s, e in self.edges.items():
            for t in e.values():
                back.setdefault(t, []).append(s)
                if t not in self.edges: good.add(t)      # beyond the bound
        todo = list(good)
        while todo:
            for s in back.get(todo.pop(), ()):
                if s not in good: good.add(s); todo.append(s)
        return [s for s in self.open if s not in good]
    def size(self): return sum(len(x) for x in self.edges.values())
    def walks(self, r, length=60, limit=None):
        """walks from the first state that between them take every transition (or about limit events of them)"""
        left = {s: sorted(e) for s, e in self.edges.items()}
        for s in left: r.shuffle(left[s])
        parent, q = {self.init: None}, deque([self.init])
        while q:
            s = q.popleft()
            for a, t in self.edges.get(s, {}).items():
                if t not in parent: parent[t] = (s, a); q.append(t)
        def way(s):
            w = []
            while parent[s]: s, a = parent[s]; w.append(a)
            return w[::-1]
        todo = [s for s in left if s in parent]; r.shuffle(todo)
        out, n = [], 0
        while todo and (limit is None or n < limit):
            s = todo[-1]
            if not left.get(s): todo.pop(); continue
            w = way(s)
            while len(w) < length:
                if left.get(s):
                    a = left[s].pop(); w.append(a); s = self.edges[s][a]; continue
                # the nearest state with something left
                back, q, goal = {s: None}, deque([(s, 0)]), None
                while q and goal is None:
                    u, d = q.popleft()
                    for a, t in self.edges.get(u, {}).items():
                        if t in back: continue
                        back[t] = (u, a)
                        if left.get(t): goal = t; break
                        if d < 4: q.append((t, d + 1))
                if goal is None: break
                p, t = [], goal
                while back[t]: t, a = back[t]; p.append(a)
                w += p[::-1]; s = goal
            u = self.init
            for a in w: self.taken.add((u, a)); u = self.edges[u][a]
            out.append(self.prefix + [self.acts[a] for a in w]); n += len(out[-1])
        return out

def explore(focus, work, workers, timeout, emit=True, extra=''):
    """(graph, distinct states, transitions, trouble)"""
    rc, out, sec = runner.tlc('MC', CFG % (focus, 'TRUE' if emit else 'FALSE') + extra, work, workers=workers, timeout=timeout, mem='6g')
    m = re.search(r'(\d+) states generated, (\d+) distinct states found, 0 states left', out)
    if rc or not m or 'No error has been found' not in out:
        text = '\n'.join(l for l in out.splitlines() if not l.startswith('<<"'))
        i = text.find('Error:')
        return None, 0, 0, 'the model %s failed:\n%s' % (focus, text[i if i >= 0 else -1500:][:1500])
    g = Graph(out) if emit else None
    return g, int(m.group(2)), int(m.group(1)), ''

def play(h, acts, r):
    """the acts of a walk on the device; session ids and codes are the device's own"""
    live, old = 0, 0
    for x in acts:
        a = x['a']
        if a in ('yes', 'no'):
            if h.ev['resp'] == []: h.decide(a == 'yes', r.choice(['right', 'left']))
        elif a in ('left', 'right', 'both'): h.press(a)
        else:
            body = x['data'] + (ec.mac(h.d.skey, x['data']) if x['mac'] == 'good' else '00' * 16 if x['mac'] == 'bad' else '') + x['tail']
            p2 = x['p2']
            if x['who'] == 'live': p2 = '%02x' % (live or old or 0x7f)
            if x['who'] == 'old': p2 = '%02x' % (old if old and old != live else (live ^ 0x55 or 1))
            h.send('e0' + x['ins'] + x['p1'] + p2 + '%02x' % (len(body) // 2) + body)
        if len(h.ev['resp']) == 1 and len(h.ev['resp'][0]) == 6 and h.ev['resp'][0].endswith('9000'):
            id = int(h.ev['resp'][0][:2], 16)      # a session id, or a frame count: told apart by the request
            if a in ('yes', 'both') or (x.get('p1') == '01' and x.get('ins') in ('20', '21')): live, old = id, live

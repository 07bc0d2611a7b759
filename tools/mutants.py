#!/usr/bin/env python3
"""mutants.py OUT.json [-j N] [-k SAMPLE] [FILE...]
Changes /repo's sources in small mechanical ways, in copies, and looks which changes no scenario and no operation notices.
Only a search for gaps: a changed event stream is taken as noticed once TLC rejects the scenario it differs in."""
import sys, os, re, json, random, subprocess, shutil, hashlib, glob, time, multiprocessing as mp
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib import campaign, props, libs, runner, scen
REPO, ROOT = '/repo', runner.ROOT
WORK = '/tmp/w/mut'

def strip(line):
    line = re.sub(r'//.*', '', line)
    return re.sub(r'"(\\.|[^"])*"', lambda m: '"' + '_' * (len(m.group(0)) - 2) + '"', line)
SIB = None
def siblings():
    global SIB
    if SIB is None:
        SIB = {}
        names = set()
        for f in glob.glob(REPO + '/src/**/*.h', recursive=True):
            for m in re.finditer(r'^\s*(?:#define\s+)?([A-Z][A-Z0-9_]{6,})\b(?!\()', open(f).read(), re.M): names.add(m.group(1))
        for n in names:
            p = n.rsplit('_', 1)[0]
            SIB.setdefault(p, []).append(n)
    return SIB
def mutate(path):
    """(line number, new line)"""
    out, comment = [], False
    for i, l in enumerate(open(path).read().split('\n')):
        s = strip(l)
        if comment:
            if '*/' in s: comment = False
            continue
        if '/*' in s:
            if '*/' not in s: comment = True
            continue
        if not s.strip() or re.match(r'\s*#\s*(include|if|endif|else|ifndef|ifdef|pragma|error)', s): continue
        if re.search(r'_Static_assert|static_assert', s): continue
        def sub(m, t): out.append((i, l[:m.start()] + t + l[m.end():]))
        for m in re.finditer(r'(?<![-<>=!+*/|&^%])(<=|>=|==|!=|<|>)(?![=<>])', s):
            o = m.group(1)
            if o in '<>' and (re.match(r'\s*#', s) or not re.match(r'[\s(]*[\w(]', s[m.end():])): continue
            if s[m.start()-1:m.start()] == '-': continue
            for t in {'<': ['<='], '<=': ['<'], '>': ['>='], '>=': ['>'], '==': ['!='], '!=': ['==']}[o]: sub(m, t)
        for m in re.finditer(r'&&', s): sub(m, '||')
        for m in re.finditer(r'\|\|', s): sub(m, '&&')
        for m in re.finditer(r' ([+-]) ', s): sub(m, {'+': ' - ', '-': ' + '}[m.group(1)])
        for m in re.finditer(r'\+=|-=', s): sub(m, '-=' if m.group(0) == '+=' else '+=')
        for m in re.finditer(r'\+\+|--', s): sub(m, '--' if m.group(0) == '++' else '++')
        for m in re.finditer(r'\b(true|false)\b', s): sub(m, 'false' if m.group(1) == 'true' else 'true')
        for m in re.finditer(r'(?<![\w.])(0[xX][0-9a-fA-F]+|\d+)([uUlL]*)\b', s):
            v = int(m.group(1), 0)
            sub(m, '%s%s' % (v + 1, m.group(2)))
            if v > 0: sub(m, '%s%s' % (v - 1, m.group(2)))
        for m in re.finditer(r'\b([A-Z][A-Z0-9_]{6,})\b', s):
            if re.match(r'\s*#\s*define\s+' + m.group(1), s): continue
            sib = [x for x in siblings().get(m.group(1).rsplit('_', 1)[0], []) if x != m.group(1)]
            for t in random.Random(path + str(i)).sample(sib, min(1, len(sib))): sub(m, t)
        m = re.search(r'\bif \((.*)\) \{?$', s.rstrip())
        if m and s.count('(') == s.count(')'):
            out.append((i, l[:m.start(1)] + '0 && (' + l[m.start(1):m.end(1)] + ')' + l[m.end(1):]))
            out.append((i, l[:m.start(1)] + '1 || (' + l[m.start(1):m.end(1)] + ')' + l[m.end(1):]))
        for m in re.finditer(r'!(?!=)', s): sub(m, '')
        if re.match(r'\s*[\w>.\-\[\]*()& ]+(\(.*\)|=[^=].*|\+\+|--);\s*(\\)?$', s) and not re.match(r'\s*(return|static|const|extern|typedef|[\w]+\s+\*?\w+\s*(=|;|\())', s) :
            k = re.search(r'\\$', l)
            out.append((i, re.match(r'\s*', l).group(0) + ';' + (' \\' if k else '')))
        if re.match(r'\s*break;', s): out.append((i, l.replace('break;', ';')))
        if re.match(r'\s*[A-Z_]+\(.*\);\s*\\?$', s): out.append((i, ' ;' + (' \\' if l.endswith('\\') else '')))
    seen = []
    for x in out:
        if x not in seen: seen.append(x)
    return seen

FL = ['-std=gnu11', '-g', '-w', '-I' + ROOT + '/harness/sdk', '-I' + ROOT + '/harness', '-DHAVE_BAGL', '-DAPPNAME="Ergo"', '-DAPPVERSION="0.0.5"',
      '-DMAJOR_VERSION=0', '-DMINOR_VERSION=0', '-DPATCH_VERSION=5', '-DMAX_BIP32_PATH=10', '-DUNUSED(x)=(void)x', '-U_FORTIFY_SOURCE', '-DVERIF_HARNESS']
KIND = dict(asan=['-O1', '-fsanitize=address', '-fno-omit-frame-pointer'], lib=['-O1', '-fsanitize=address', '-fno-omit-frame-pointer', '-DLIBDRV'],
            scan=['-O1', '-DSCAN', '-Wl,-z,now', '-no-pie', '-fno-pie', '-fno-stack-protector'])
class Tree:
    """a copy of the sources with its objects"""
    def __init__(self, dir):
        self.dir = dir
        shutil.rmtree(dir, ignore_errors=True); os.makedirs(dir)
        shutil.copytree(REPO + '/src', dir + '/src')
        self.src = sorted(glob.glob(dir + '/src/**/*.c', recursive=True)) + glob.glob(ROOT + '/harness/sdk/*.c') + [ROOT + '/harness/secp.c', ROOT + '/harness/devsim.c']
        self.dep = {}
    def cc(self, kind, f, suffix=''):
        o = '%s/%s-%s.o' % (self.dir, kind, f.replace('/', '_'))
        p = subprocess.run(['clang', *FL, '-I' + self.dir + '/src', *KIND[kind], '-D_GNU_SOURCE', '-include', 'string.h', '-MMD', '-MF', o + '.d', '-c', f, '-o', o + suffix], capture_output=True)
        if p.returncode: return None
        self.dep[kind, f] = [os.path.normpath(x) for x in re.sub(r'^[^:]*:', '', open(o + '.d').read()).replace('\\\n', ' ').split()]
        return o + suffix
    def build(self, kind, changed=None):
        """all objects, or what depends on a changed file, beside the originals"""
        os_, self.differs = [], changed is None
        for f in self.src:
            if changed is None: o = self.cc(kind, f)
            elif changed in self.dep[kind, f]:
                o = self.cc(kind, f, '.mut')
                if o and open(o, 'rb').read() != open(o[:-4], 'rb').read(): self.differs = True
            else: o = '%s/%s-%s.o' % (self.dir, kind, f.replace('/', '_'))
            if o is None: return None
            os_.append(o)
        out = '%s/devsim-%s' % (self.dir, kind)
        if subprocess.run(['clang', *FL, *KIND[kind], '-fuse-ld=lld' if shutil.which('ld.lld') else '-g', *os_, '-o', out], capture_output=True).returncode: return None
        return out

def scenarios():
    fams = {}
    for fl, d in props.TRACES.values():
        for f, n in d.items(): fams[f] = max(fams.get(f, 0), (scen.cases(f) if n is None else n))
    todo = campaign.plan({f: n if scen.FAMILIES[f][1] and scen.cases(f) < 1000 else n // 4 for f, n in fams.items()}, 1, 1)
    random.Random(3).shuffle(todo)
    return todo
def digest(rec): return hashlib.sha256(json.dumps(rec.events).encode()).hexdigest()
LIBJOBS = [('codec', 0, (300,)), ('arith', 0, (300,)), ('queue', 0, (300,)), ('serial', 0, (60,)), ('pure', 0, (150,)), ('queue_all', 0, (0, 64))] + \
          [(k, i, (n,)) for i in range(1, 4) for k, n in (('codec', 300), ('arith', 400), ('queue', 1500), ('serial', 300), ('pure', 150))]
def libevents(b, j):
    what, seed, args = j
    r = random.Random('%s/%s' % (what, seed))
    V = libs.queue_exhaustive(r, *args) if what == 'queue_all' else libs.GENERATORS[what](r, *args)
    lib = libs.Lib(b); libs.produce(lib, V); lib.close()
    return lib.events
def libdigest(b, j): return hashlib.sha256(json.dumps(libevents(b, j)).encode()).hexdigest()

def base(kind, todo):
    b = Tree(WORK + '/base').build(kind)
    with mp.Pool(8) as p: return p.starmap(one, [(b, x) for x in todo])
def one(b, x): return digest(campaign.record(b, *x))
def onelib(b, j): return libdigest(b, j)

def worker(k, q, out, todo, ref, libref, scan):
    t = Tree('%s/%d' % (WORK, k)); order = ['asan', 'lib'] + (['scan'] if scan else [])
    for kind in order: t.build(kind)
    while True:
        m = q.get()
        if m is None: break
        f, i, new = m
        p = t.dir + '/src/' + f
        text = open(p).read(); L = text.split('\n'); old = L[i]; L[i] = new
        res = dict(file=f, line=i + 1, old=old.strip(), new=new.strip(), result='survived')
        t0 = time.time()
        try:
            open(p, 'w').write('\n'.join(L))
            bins = {'asan': t.build('asan', p)}
            if bins['asan'] is None: res['result'] = 'not built'
            elif not t.differs: res['result'] = 'same code'
            else:
                if re.match('common|ergo|helpers|constants', f): bins['lib'] = t.build('lib', p)
                for j, d in zip(LIBJOBS, libref) if 'lib' in bins else []:
                    try: same = libdigest(bins['lib'], j) == d
                    except Exception: same = False
                    if not same:
                        res.update(result='lib', by=j); break
                if res['result'] == 'survived':
                    for x, d in zip(todo, ref):
                        try: same = digest(campaign.record(bins['asan'], *x)) == d
                        except Exception as e: same = False
                        if not same:
                            rec = campaign.record(bins['asan'], *x)
                            try:
                                ok, st, msg, at = campaign.judge(t.dir + '/t', rec, {'sw', 'pages', 'keys'})
                                shutil.rmtree(t.dir + '/t', ignore_errors=True)
                            except Exception as e: ok, msg = False, 'trouble %s' % e
                            if ok:      # differs, and is accepted: go on
                                res['accepted'] = res.get('accepted', 0) + 1
                                if res['accepted'] > 6: res['result'] = 'accepted'; break
                                continue
                            res.update(result='killed', by=x); break
                if res['result'] in ('survived', 'accepted') and scan:
                    bins['scan'] = t.build('scan', p)
                    for x, d in zip(scan[0], scan[1]):
                        if digest(campaign.record(bins['scan'], *x)) != d: res.update(result='scan', by=x); break
        except Exception as e: res['result'] = 'trouble ' + repr(e)[:300]
        open(p, 'w').write(text)
        res['s'] = round(time.time() - t0, 1)
        out.put(res)
    out.put(None)

def main():
    a = sys.argv[1:]; outf = a.pop(0); j, k = 8, None
    while a and a[0].startswith('-'):
        o = a.pop(0); v = int(a.pop(0))
        if o == '-j': j = v
        else: k = v
    files = a or sorted(os.path.relpath(f, REPO + '/src') for f in glob.glob(REPO + '/src/**/*.[ch]', recursive=True))
    done = []
    if os.path.exists(outf): done = json.load(open(outf))
    have = {(x['file'], x['line'], x['new']) for x in done}
    todo = scenarios()
    print(len(todo), 'scenarios'); os.makedirs(WORK, exist_ok=True)
    ref = base('asan', todo)
    bl = Tree(WORK + '/base').build('lib')
    with mp.Pool(8) as p: libref = p.starmap(onelib, [(bl, x) for x in LIBJOBS])
    sc = campaign.plan(props.TRACES['C17'][1], 1, 0.25); random.Random(4).shuffle(sc)
    scan = (sc, base('scan', sc))
    print('baseline done', flush=True)
    M = [(f, i, n) for f in files for i, n in mutate(REPO + '/src/' + f)]
    M = [(f, i, n) for f, i, n in M if (f, i + 1, n.strip()) not in have]
    random.Random(5).shuffle(M)
    per = {}
    for m in M: per.setdefault(m[:2], []).append(m)
    M = [m for L in per.values() for m in L[:2]]
    random.Random(6).shuffle(M)
    if k: M = M[:k]
    print(len(M), 'mutants', flush=True)
    q, out = mp.Queue(), mp.Queue()
    for m in M: q.put(m)
    for _ in range(j): q.put(None)
    P = [mp.Process(target=worker, args=(n, q, out, todo, ref, libref, scan)) for n in range(j)]
    for p in P: p.start()
    left, n = j, 0
    while left:
        r = out.get()
        if r is None: left -= 1; continue
        done.append(r); n += 1
        if n % 20 == 0:
            json.dump(done, open(outf, 'w'), indent=0)
            c = {}
            for x in done: c[x['result'][:12]] = c.get(x['result'][:12], 0) + 1
            print(n, c, flush=True)
    json.dump(done, open(outf, 'w'), indent=0)
    shutil.rmtree(WORK)
main()

"""Building the simulator, running scenarios on it in parallel and validating the traces with TLC."""
import json, os, random, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
from . import ec
from .device import Device, Recorder, Crash

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(ROOT, 'spec')
JAR = '/opt/veriftools/tla/tla2tools.jar'

class BuildError(Exception): pass

def build(kind, out):
    p = subprocess.run([os.path.join(ROOT, 'harness', 'build.sh'), out, kind], capture_output=True, text=True)
    if p.returncode: raise BuildError(p.stderr[-3000:])
    return os.path.join(out, 'devsim-' + kind)

DEVICE_CONSTS = '''CONSTANTS
  AmtW = 16 IdLen = 32 MaxTok = 20 FrameTok = 4 MaxPart = 32768 MinChunk = 255
  MaxGap = "00000014" PathPage = 59 ChangePage = 69
'''
TRACE_CFG = DEVICE_CONSTS + '''  HashOf <- TrHash MacOf <- TrMac PubOf <- TrPub ChainOf <- TrChain
  CheckNonce = %s SwExact = %s PagesOn = %s KeysOn = %s LeakOn = %s Judged = {%s}
SPECIFICATION Spec
VIEW Place
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
'''
def tlc(module, cfg, work, env=None, workers=1, timeout=840, mem='3g', args=(), spec=SPEC):
    os.makedirs(work, exist_ok=True)
    c = os.path.join(work, module + '.cfg')
    open(c, 'w').write(cfg)
    e = dict(os.environ); e.update(env or {})
    cmd = ['tlc-verif', ]
    cmd = ['java', '-Xmx' + mem, '-Xss64m', '-XX:+UseParallelGC', '-XX:ParallelGCThreads=2', '-cp', TLCCP, 'tlc2.TLC',
           '-config', c, '-metadir', os.path.join(work, 'meta'), '-workers', str(workers), '-noGenerateSpecTE', *args,
           os.path.join(spec, module + '.tla')]
    t = time.time()
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, env=e, timeout=timeout, cwd=spec)
        return p.returncode, p.stdout + p.stderr, time.time() - t
    except subprocess.TimeoutExpired as x:
        return -1, ((x.stdout or b'').decode() if isinstance(x.stdout, bytes) else (x.stdout or '')) + '\nTIMEOUT', time.time() - t

def _cp():
    s = open(shutil.which('tlc')).read()
    m = re.search(r'-cp\s+"?([^"\s]+)"?', s)
    return m.group(1) if m else JAR
TLCCP = _cp()

def write_trace(dir, events, rec):
    os.makedirs(dir, exist_ok=True)
    with open(os.path.join(dir, 'trace.ndjson'), 'w') as f:
        for e in events: f.write(json.dumps(e) + '\n')
    tabs = {'hash': dict(rec.H), 'mac': dict(rec.M), 'pub': {}, 'chain': {}}
    for p in rec.paths:
        tabs['pub'][p] = ec.comp(ec.pub(p)) or '?'; tabs['chain'][p] = ec.chain(p)
    for k in tabs: tabs[k]['-'] = '-'
    json.dump(tabs, open(os.path.join(dir, 'tables.json'), 'w'))

def validate(dir, flags, timeout=840):
    """flags: nonce, sw, pages, keys, leak. Returns (accepted, states, message, seconds)"""
    b = lambda k: 'TRUE' if k in flags else 'FALSE'
    rc, out, sec = tlc('TraceErgo', TRACE_CFG % (b('nonce'), b('sw'), b('pages'), b('keys'), b('leak'), ', '.join('"%s"' % f for f in sorted(flags) if re.match(r'C\d\d$', f))),
                       os.path.join(dir, 'tlc'), {'TRACEDIR': dir}, timeout=timeout)
    m = re.search(r'(\d+) states generated, (\d+) distinct', out)
    st = int(m.group(2)) if m else 0
    ok = rc == 0 and 'No error has been found' in out
    rej = [l for l in out.splitlines() if '"REJECT"' in l or l.startswith('<<"REJECT')]
    i = out.find('"REJECT"')
    msg = '' if ok else (out[i - 4:i + 3000] if i >= 0 else out[-3000:])
    return ok, st, msg, sec, i >= 0

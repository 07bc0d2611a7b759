"""Reference primitives used to feed the specification: secp256k1, hashes, base58, the simulator's keys."""
import hashlib, hmac as _hmac

P = 2**256 - 2**32 - 977
N = 0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141
G = (0x79BE667EF9DCBBAC55A06295CE870B07029BFCDB2DCE28D959F2815B16F81798,
     0x483ADA7726A3C4655DA4FBFC0E1108A8FD17B448A68554199C47D08FFB10D4B8)

def add(a, b):
    if a is None: return b
    if b is None: return a
    if a[0] == b[0]:
        if (a[1] + b[1]) % P == 0: return None
        m = 3 * a[0] * a[0] * pow(2 * a[1], -1, P) % P
    else:
        m = (b[1] - a[1]) * pow(b[0] - a[0], -1, P) % P
    x = (m * m - a[0] - b[0]) % P
    return (x, (m * (a[0] - x) - a[1]) % P)

_tab = None
def mulg(k):
    global _tab
    if _tab is None:
        t, g = [], G
        for _ in range(256):
            t.append(g); g = add(g, g)
        _tab = t
    return _sum([_tab[i] for i in range(256) if k >> i & 1])

def _sum(pts):
    r = None
    for p in pts: r = add(r, p)
    return r

def mul(k, p):
    r = None
    while k:
        if k & 1: r = add(r, p)
        p = add(p, p); k >>= 1
    return r

def comp(p):
    return None if p is None else ('03' if p[1] & 1 else '02') + '%064x' % p[0]

def neg(p): return None if p is None else (p[0], P - p[1])

def priv(pathhex): return int.from_bytes(hashlib.sha256(b'key' + bytes.fromhex(pathhex)).digest(), 'big')
def chain(pathhex): return hashlib.sha256(b'cc_' + bytes.fromhex(pathhex)).hexdigest()
_pub = {}
def pub(pathhex):
    if pathhex not in _pub: _pub[pathhex] = mulg(priv(pathhex) % N)
    return _pub[pathhex]

def commitment(sig, pathhex):
    """w of a Schnorr signature c|z under the key of the path (hex, or "?")"""
    c, z = int(sig[:48], 16), int(sig[48:], 16)
    return comp(add(mulg(z % N), neg(mul(c, pub(pathhex))))) or '?'

def blake(h): return hashlib.blake2b(bytes.fromhex(h), digest_size=32).hexdigest()
def mac(key, body): return _hmac.new(bytes.fromhex(key), bytes.fromhex(body), hashlib.sha256).hexdigest()[:32]

A58 = '123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz'
def unb58(s):
    n = 0
    for ch in s:
        i = A58.find(ch)
        if i < 0 or s == '': return None
        n = n * 58 + i
    h = '%x' % n if n else ''
    if len(h) % 2: h = '0' + h
    return '00' * (len(s) - len(s.lstrip('1'))) + h

"""Bit provenance of integer terms. A bit is 0, 1, ('b', atom, i) or None (unknown)."""
from .interp import RANGE, lin
W = {'b': 1}
for b in (8, 16, 32, 64):
    W['u%d' % b] = W['i%d' % b] = b

def width(tk): return W.get(tk)

def bits(x, t, w=None):
    """list of bits, least significant first. x: the interpreter state (types of atoms)"""
    r = _bits(x, t)
    if w is not None:
        r = r[:w] + [r[-1] if False else 0] * (w - len(r)) if len(r) < w else r[:w]
    return r

def ext(r, w, signed):
    if len(r) >= w: return r[:w]
    return r + [(r[-1] if signed else 0)] * (w - len(r))

def _bits(x, t):
    k = t[0]
    if k == 'c':
        n = t[1]
        return [(n >> i) & 1 for i in range(64)]
    if k == 'cast':
        w = W.get(t[1]); fw = W.get(t[2])
        if not w or not fw: return [None] * 64
        r = _bits(x, t[3])[:fw]
        r = ext(r, fw, False)
        return ext(r, w, t[2][0] == 'i')
    if k == 'lin':
        # disjoint addition
        acc = [0] * 64
        n = t[1]
        if n: acc = [(n >> i) & 1 for i in range(64)]
        for a, c in t[2]:
            if c <= 0 or c & (c - 1): return [None] * 64
            sh = c.bit_length() - 1
            r = [0] * sh + ext(_bits(x, a), 64, signed_of(x, a))
            acc = [por(p, q) for p, q in zip(acc, r[:64])]
        return acc
    if k == 'bin':
        op = t[1]
        if op in ('htons', 'ntohs'):
            r = ext(_bits(x, t[2]), 16, False)[:16]; return r[8:16] + r[0:8]
        if op in ('htonl', 'ntohl'):
            r = ext(_bits(x, t[2]), 32, signed_of(x, t[2]))[:32]; return r[24:32] + r[16:24] + r[8:16] + r[0:8]
        a, b = t[2], t[3]
        if op in ('<<', '>>', '*', '/') and b[0] == 'c':
            n = b[1]
            if op in ('*', '/'):
                if n <= 0 or n & (n - 1): return [None] * 64
                n = n.bit_length() - 1
            r = ext(_bits(x, a), 64, signed_of(x, a))
            if op in ('<<', '*'): return ([0] * n + r)[:64]
            if op == '/' and r[-1] != 0: return [None] * 64
            return ext(r[n:], 64, r[-1] != 0)
        if op == '*' and a[0] == 'c': return _bits(x, ('bin', '*', b, a))
        ra, rb = ext(_bits(x, a), 64, signed_of(x, a)), ext(_bits(x, b), 64, signed_of(x, b))
        if op == '|': return [por(p, q) for p, q in zip(ra, rb)]
        if op == '&': return [pand(p, q) for p, q in zip(ra, rb)]
        if op == '^': return [pxor(p, q) for p, q in zip(ra, rb)]
        if op == '%' and b[0] == 'c' and b[1] > 0 and not b[1] & (b[1] - 1):
            n = b[1].bit_length() - 1
            return ext(ra[:n], 64, False)
        return [None] * 64
    tk = x.xt.get(t)
    w = W.get(tk, 64)
    return ext([('b', t, i) for i in range(w)], 64, tk is not None and tk[0] == 'i')

def signed_of(x, t):
    if t[0] == 'cast': return t[1][0] == 'i'
    tk = x.xt.get(t)
    return tk is not None and tk[0] == 'i'

def por(a, b):
    if a == 0: return b
    if b == 0: return a
    if a == 1 or b == 1: return 1
    return a if a == b else None
def pand(a, b):
    if a == 0 or b == 0: return 0
    if a == 1: return b
    if b == 1: return a
    return a if a == b else None
def pxor(a, b):
    if a == 0: return b
    if b == 0: return a
    if a == 1 and b == 1: return 0
    return None

"""Packet buffers: an array with a read and a write position. Every public method is shown to keep
0 <= read position <= write position <= size and to touch only bytes inside; the invariant is then assumed."""
import re
from sa.model import AnalysisError
from sa.interp import *
from sa.interp import add, Thrown, Fact, Ev, short
from sa.app import AppPolicy

SDU, PDU = 'app::ua::OpcUaSduBuffer', 'app::modbus::PduBuffer'

class Layout:
    """which field is the array, the read and the write position"""
    def __init__(s, m, cls):
        s.cls = cls
        if cls not in m.recs: raise AnalysisError('class %s not found' % cls)
        fl = m.recs[cls]['f']
        arrs = [(g['n'], g) for g in fl if g['tk'] == 'a' or g['t'].startswith('std::array<')]
        if len(arrs) != 1: raise AnalysisError('%s: %d arrays' % (cls, len(arrs)))
        s.arr, g = arrs[0]
        s.N = g['size']
        s.fields = {g['n']: g['tk'] for g in fl}
        s.this = ('R', 'buf')
        s.R = s.W = None
        f = [f for f in m.method(cls, 'read') if f.get('body')]
        e = [f for f in m.method(cls, 'end') if f.get('body')]
        if not f or not e: raise AnalysisError('%s: read or end not found' % cls)
        for p in explore(m, BufPolicy([]), lambda x: s.raw(x, m, e[0])):
            v = p.ret
            if v[0] == 'ptr' and v[1][0] == '[]' and v[1][2][0] == 'in' and v[1][2][1][0] == '.': s.W = v[1][2][1][2]
        pol = BufPolicy([]); pol.seen = []
        pol.on_load = lambda x, loc: pol.seen.append(loc)
        explore(m, pol, lambda x: s.raw(x, m, f[0]))
        for loc in pol.seen:
            if loc[1] == ('.', s.this, s.arr) and loc[2][0] == 'in' and loc[2][1][0] == '.': s.R = loc[2][1][2]
        if None in (s.R, s.W) or s.R == s.W: raise AnalysisError('%s: read and write position not found' % cls)
    def raw(s, x, m, f):
        x.ltype[s.this] = s.cls
        for n, tk in s.fields.items():
            if tk in RANGE: x.xt[('in', ('.', s.this, n))] = tk
        return x.call_fn(f, s.this, [])

class BufPolicy(AppPolicy):
    """checks every byte access to the known buffers"""
    strict_sub = True
    max_loop = 3
    def __init__(self, lay):
        self.lay = {l.cls: l for l in lay}
    # -- invariant
    def setup(self, x, loc, L):
        x.ltype[loc] = L.cls
        if not hasattr(x, 'bufs'): x.bufs = {}; x.bad = []; x.acc = 0
        x.bufs[loc] = L
        for n, tk in L.fields.items():
            if tk in RANGE: x.xt.setdefault(x.get(('.', loc, n)), tk)
        self.assume_inv(x, loc, L)
    def pos(self, x, loc, L):
        r, w = x.get(('.', loc, L.R)), x.get(('.', loc, L.W))
        return r, w
    def assume_inv(self, x, loc, L):
        r, w = self.pos(x, loc, L)
        for v in (r, w):
            if v[0] not in ('c', 'lin'): x.xt.setdefault(v, 'u32')
        x.assume('<=', w, C(L.N)); x.assume('<=', r, w)
    def inv_ok(self, x, loc, L):
        r, w = self.pos(x, loc, L)
        return self.ge0(x, r) and self.ge0(x, add(w, r, -1)) and self.ge0(x, add(C(L.N), w, -1))
    def ge0(self, x, t):
        lo, hi = x.facts.bounds(t)
        return lo is not None and lo >= 0
    def turn_end(self, x, n):
        for loc, L in getattr(x, 'bufs', {}).items():
            if not self.inv_ok(x, loc, L): x.bad.append(('position', x.src, 'the positions may leave the buffer in a loop turn'))
    def turn_start(self, x, n):
        for loc, L in getattr(x, 'bufs', {}).items(): self.assume_inv(x, loc, L)
    # -- accesses
    def inbuf(self, x, loc):
        if loc[0] != '[]' or loc[1][0] != '.': return None
        b = loc[1][1]
        L = getattr(x, 'bufs', {}).get(b)
        if L is None:
            t = x.ltype.get(b)
            L = self.lay.get(t)
            if L is not None and hasattr(x, 'bufs'): self.setup(x, b, L)
            if not hasattr(x, 'bufs'): return None
        if L is None or loc[1][2] != L.arr: return None
        return b, L
    def on_load(self, x, loc):
        h = self.inbuf(x, loc)
        if not h: return
        b, L = h
        r, w = self.pos(x, b, L)
        x.acc += 1
        if not (self.ge0(x, loc[2]) and self.ge0(x, add(add(w, loc[2], -1), C(1), -1))):
            x.bad.append(('read', x.src, 'byte %s is read, received are %s' % (show(loc[2]), show(w))))
    def on_write(self, x, loc, val, src):
        h = self.inbuf(x, loc) if loc[0] == '[]' else None
        if not h: return
        b, L = h
        x.acc += 1
        if not (self.ge0(x, loc[2]) and self.ge0(x, add(C(L.N - 1), loc[2], -1))):
            x.bad.append(('write', src, 'byte %s is written, the buffer has %d' % (show(loc[2]), L.N)))
    def block(self, x, ptr, n, write, what):
        """n bytes at ptr are read or written"""
        if ptr[0] != 'ptr': return
        l = ptr[1]
        h = self.inbuf(x, l)
        if not h: return
        b, L = h
        r, w = self.pos(x, b, L)
        x.acc += 1
        end = add(l[2], n)
        lim = C(L.N) if write else w
        if not (self.ge0(x, l[2]) and self.ge0(x, n) and self.ge0(x, add(lim, end, -1))):
            x.bad.append(('write' if write else 'read', x.src, '%s: %s bytes at %s of %s' % (what, show(n), show(l[2]), show(lim))))
    def hook(self, x, n, qn, this, args):
        if args is not None:
            q = short(qn).lstrip(':')
            nm = q.rsplit('::', 1)[-1]
            if nm in ('memcpy', 'memmove') and len(args) == 3:
                self.block(x, args[0], args[2], True, nm); self.block(x, args[1], args[2], False, nm)
            elif nm in ('memcmp', 'strncmp', 'bcmp') and len(args) == 3:
                self.block(x, args[0], args[2], False, nm); self.block(x, args[1], args[2], False, nm)
            elif nm == 'memset' and len(args) == 3: self.block(x, args[0], args[2], True, nm)
        return AppPolicy.hook(self, x, n, qn, this, args)

def methods(m, R, L, rule, roles):
    """the invariant and the meaning of the methods of one buffer class"""
    c = L.cls.rsplit('::', 1)[-1]
    pol = BufPolicy([L])
    ct = [f for f in m.fns.values() if f.get('ctor') and f.get('cls') == L.cls and not f.get('copyctor')]
    for f in ct:
        for p in explore(m, BufPolicy([L]), lambda x: x.run_ctor(f, L.this, [])):
            g = lambda n: p.store.get(('.', L.this, n))
            R.check(g(L.R) == C(0) and g(L.W) == C(0), rule, c + '::<ctor>', f['l'], 'a new buffer is not empty', p.trace)
    seen = 0
    for f in sorted(m.fns.values(), key=lambda f: f['id']):
        if f.get('cls') != L.cls or not f.get('body') or f.get('ctor') or f.get('dtor') or f.get('static') or f.get('acc') != 'public' or f['name'].startswith('~'): continue
        seen += 1
        args = []
        def entry(x):
            pol.setup(x, L.this, L)
            a = []
            for i, q in enumerate(f['p']):
                if q['tk'] in RANGE:
                    v = ('in', ('R', 'a%d' % i)); x.xt[v] = q['tk']; a.append(v)
                else: a.append(('ptr', ('R', 'a%d' % i)))
            x.a = a
            return x.call_fn(f, L.this, a)
        name = '%s::%s/%d' % (c, f['name'], len(f['p']))
        norm = 0
        for p in explore(m, pol, entry):
            for k, src, msg in p.x.bad: R.fail(rule, name, src, msg, p.trace)
            R.check(pol.inv_ok(p.x, L.this, L), rule, name + ' positions', f['l'], 'the read and write positions may leave the buffer', p.trace)
            R.check(p.outcome in ('normal', 'throw') and (p.outcome == 'normal' or p.detail.typ.startswith('std::')), rule, name + ' refusal', f['l'], 'an access that is refused is not reported by a standard exception (%s)' % p.outcome, p.trace)
            if p.outcome == 'throw':
                R.check(same(p, L), rule, name + ' unchanged', f['l'], 'a refused access changes the positions', p.trace) if f['name'] in ('read', 'write', 'seek') else None
                continue
            norm += 1
            r0, w0 = ('in', ('.', L.this, L.R)), ('in', ('.', L.this, L.W))
            r1, w1 = pol.pos(p.x, L.this, L)
            A = p.x.a
            n, k = f['name'], len(f['p'])
            def chk(cond, msg): R.check(cond, roles, name, f['l'], msg, p.trace)
            if n == 'read' and k == 0:
                chk(r1 == add(r0, C(1)) and w1 == w0 and unc(p.ret) == ('in', ('[]', ('.', L.this, L.arr), r0)), 'does not return the next unread byte once (returns %s)' % show(p.ret))
            elif n == 'write' and k == 1:
                st = [(l, v) for l, v in p.store.items() if l[0] == '[]' and l[1] == ('.', L.this, L.arr)]
                chk(w1 == add(w0, C(1)) and r1 == r0 and len(st) == 1 and st[0][0][2] == w0 and low8(st[0][1]) == A[0], 'does not append the byte once')
            elif n == 'write' and k == 2:
                mc = p.events('memcpy')
                zero = hi0(p.x, A[1])
                chk(w1 == add(w0, A[1]) and r1 == r0 and (zero or (len(mc) == 1 and mc[0].args[0] == ('ptr', ('[]', ('.', L.this, L.arr), w0)) and mc[0].args[1] == A[0] and unc(mc[0].args[2]) == A[1])), 'does not append the block once')
            elif n == 'seek': chk(w1 == add(w0, A[0]) and r1 == r0, 'does not extend the data by the given length')
            elif n == 'reset': chk(r1 == C(0) and w1 == C(0), 'does not empty the buffer')
            elif n == 'capacity': chk(unc(p.ret) == add(C(L.N), w0, -1) and same(p, L), 'is %s' % show(p.ret))
            elif n == 'size':
                beg = ('in', ('.', L.this, L.R)) if L.cls == SDU else C(0)
                chk(unc(p.ret) == add(w0, beg, -1) and same(p, L), 'is %s' % show(p.ret))
            elif n == 'begin':
                chk(same(p, L) and p.ret[0] == 'ptr' and (p.ret[1] == ('[]', ('.', L.this, L.arr), r0 if L.cls == SDU else C(0)) or (L.cls != SDU and p.ret[1] == ('.', L.this, L.arr))), 'is %s' % show(p.ret))
            elif n == 'end': chk(same(p, L) and p.ret == ('ptr', ('[]', ('.', L.this, L.arr), w0)), 'is %s' % show(p.ret))
            else:
                # any other method: may only append or consume
                chk(pol.ge0(p.x, add(r1, r0, -1)) and pol.ge0(p.x, add(w1, w0, -1)) or (r1 == C(0) and w1 == C(0)), 'moves the positions back')
        R.check(norm > 0, roles, name + ' succeeds', f['l'], 'never succeeds')
    if seen < 6: raise AnalysisError('%s: only %d methods' % (L.cls, seen))

def same(p, L):
    return all(p.store.get(('.', L.this, n), ('in', ('.', L.this, n))) == ('in', ('.', L.this, n)) for n in (L.R, L.W))

def unc(v):
    while v[0] == 'cast' and v[2] in RANGE and v[1] in RANGE: v = v[3]
    return v
def low8(v):
    if v[0] == 'cast' and v[1] in ('u8', 'i8'): v = v[3]
    if v[0] == 'bin' and v[1] == '&' and C(255) in v[2:]: v = v[2] if v[3] == C(255) else v[3]
    return unc(v)
def hi0(x, v):
    lo, hi = x.facts.bounds(v)
    return hi == 0

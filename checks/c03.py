"""C03: each Modbus encoder is analysed path by path over an abstract byte stream: the bytes of every accepted frame
are compared with the layout the protocol prescribes for its function (transaction id, protocol id 0, length of what
follows, unit, function, fields; big endian), then the decoder is run over exactly that stream and has to accept it
and return the same fields. Each decoder is also run over an arbitrary frame: on every path that accepts, the facts
on the path have to imply the consistency conditions, the whole frame is consumed, and no payload element outside
the payload buffer is written."""
from sa.model import AnalysisError, walk
from sa.interp import *
from sa.interp import add, scale, lin, Thrown, Fact, Ev, short
from sa.bits import bits, W
from checks.fifo import FifoPolicy, Mismatch
from checks.common import contradictory
from checks.buffers import Layout, methods, PDU

TECHNIQUE = 'provenance dataflow over an abstract byte stream (encoder/decoder composition) and path facts of the decoders (linear equalities, intervals)'
ASSUMPTIONS = ['values fit the width of their wire field']

COD, BUF, V, D = ('R', 'codec'), ('R', 'buf'), ('R', 'v'), ('R', 'd')
STREAM = ('R', 'stream')
REG = 'registers'
# function code -> fields after the function code: (field, bytes)
REQ = {1: [('startItem', 2), ('numItems', 2)], 2: [('startItem', 2), ('numItems', 2)], 3: [('startItem', 2), ('numItems', 2)],
       4: [('startItem', 2), ('numItems', 2)], 5: [('startItem', 2), ('data', 2)], 6: [('startItem', 2), ('data', 2)],
       16: [('startItem', 2), ('numItems', 2), ('numBytes', 1), (REG, 0)]}
RSP = {1: None, 2: None, 3: [('numBytes', 1), (REG, 0)], 4: [('numBytes', 1), (REG, 0)], 5: [('startItem', 2), ('data', 2)], 6: [('startItem', 2), ('data', 2)],
       16: [('startItem', 2), ('numItems', 2)]}
ERR = [('error', 1)]
COIL = ((0xFF, 0), (0, 0))      # on, off

class P(FifoPolicy):
    """modes: enc (records), dec (consumes what was recorded), free (consumes an arbitrary stream)"""
    def start(self, x, free=False):
        x.fifo = []; x.mode = 'free' if free else 'enc'; x.eaten = C(0); x.total = None
        x.bad = []; x.written = []
    def inline(self, x, f, n): return True
    def simplify(self, x, t):
        if t[0] == 'lin':
            d = dict(t[2])
            if t[1] or sorted(d.values()) != [1, 256]: return t
            u, w = [[a for a in d if d[a] == c][0] for c in (256, 1)]
            q = ('bin', '|', ('bin', '<<', u, C(8)), w)
            if None in x.facts.bounds(w) or x.facts.bounds(w)[1] > 255 or x.facts.bounds(w)[0] < 0: return t
            x.xt.setdefault(q, x.xt.get(t, 'u32')); x.xt.setdefault(q[2], 'u32')
            r = self.simplify(x, q)
            return t if r is q else r
        a = self.whole(x, t)
        if a is None and t[0] == 'bin' and t[1] == '|':
            for u, w in ((t[2], t[3]), (t[3], t[2])):
                v = strip8(w)
                if u[0] == 'bin' and u[1] == '<<' and u[3] == C(8) and strip8(u[2]) == ('bin', '>>', v, C(8)) and x.isnum(v):
                    lo, hi = x.facts.bounds(v)
                    if lo is not None and lo >= 0 and hi is not None and hi < 65536: a = v
        return t if a is None else a
    def hook(self, x, n, qn, this, args):
        if args is None: return NotImplemented
        q = short(qn).lstrip(':'); nm = q.rsplit('::', 1)[-1]
        if n.get('cls', '') == PDU or (this is not None and this == BUF):
            if nm == 'write' and len(args) == 1:
                if x.mode != 'enc': raise Mismatch('decoding writes')
                self.put(x, ('B', args[0])); return C(0)
            if nm == 'read' and not args:
                if x.mode == 'enc': raise Mismatch('encoding reads')
                return self.nextb(x)
            if nm == 'size':
                if x.mode == 'enc': return self.count(x, x.fifo)
                if x.mode == 'dec': return x.total
                return self.sz(x)
            if nm == 'capacity' or nm == 'full':
                v = ('un', x.fresh(), 'space'); x.xt[v] = 'u32'; return v
            if nm == 'begin': return ('ptr', ('[]', STREAM, C(0)))
            if nm in ('end', 'seek', 'reset'): raise AnalysisError('the codec uses %s at %s' % (q, x.src))
        return FifoPolicy.hook(self, x, n, qn, this, args)
    def sz(self, x):
        v = ('in', ('.', STREAM, 'size')); x.xt[v] = 'u32'
        x.assume('<=', v, C(512))
        return v
    def nextb(self, x):
        if x.mode == 'free':
            t = x.get(('[]', STREAM, x.eaten), 'u8')
            x.xt.setdefault(t, 'u8')
            x.eaten = add(x.eaten, C(1))
            return t
        v = self.take_byte(x)
        return v if v[0] == 'c' else self.low(x, v)
    def low(self, x, v):
        t = x.conv(v, x.xt.get(v, 'u32'), 'u8')
        return t
    def count(self, x, items):
        r = C(0)
        for it in items: r = add(r, C(1) if it[0] == 'B' else scale(it[1], lin(self.count(x, it[3]))[0]))
        return r
    def quot(self, x, d, k):
        """d / k for d a multiple of k"""
        k0, dd = lin(unfold(x, d))
        for e in eqs(x):
            ke, de = lin(e)
            for a, c in dd.items():
                if abs(de.get(a, 0)) != abs(c): continue
                r = add(unfold(x, d), scale(e, -c // de[a]))
                kr, dr = lin(r)
                if a not in dr and kr % k == 0 and all(v % k == 0 for v in dr.values()) and dr:
                    h = C(kr // k)
                    for z, v in dr.items(): h = add(h, scale(z, v // k))
                    x.assume('==', d, scale(h, k))
                    return h
        m = ('bin', '%', d, C(k))
        lo, hi = x.facts.bounds(m)
        if (lo, hi) == (0, 0) or x.facts.tr.get(('==',) + tuple(sorted((m, C(0)), key=repr))) is True:
            h = ('bin', '/', d, C(k)); x.xt[h] = 'u32'
            x.assume('==', d, scale(h, k))
            return h
        r = ('bin', '/', add(d, C(k - 1)), C(k)); x.xt[r] = 'u32'
        return r
    def body(self, x, n, N, iota):
        if x.mode != 'free': return FifoPolicy.body(self, x, n, N, iota)
        e0 = x.eaten
        x.eaten = add(e0, ('un', x.fresh(), 'turns'))
        e1 = x.eaten
        self.turn(x, n)
        k, d = lin(add(x.eaten, e1, -1))
        if d: raise AnalysisError('decoding loop consumes a varying number of bytes at ' + n['l'])
        x.eaten = add(e0, scale(N, k))
    def eqterm(self, x, a, b, w=64):
        if FifoPolicy.eqterm(self, x, a, b, w): return True
        na, nb = self.norm(x, a), self.norm(x, b)
        return x.isnum(na) and x.isnum(nb) and zero(x, add(na, nb, -1))
    def on_write(self, x, loc, val, src):
        if loc[0] == '[]' and loc[1][0] != 'R' and x.mode != 'enc': x.written.append((loc, src))
        return FifoPolicy.on_write(self, x, loc, val, src)

def eqs(x):
    """linear terms that are 0 on this path"""
    out = []
    for e in x.trace:
        if isinstance(e, Fact):
            f = e
            a, b, op, tr = f.a, f.b, f.op, f.truth
            if op == '==' and x.isnum(a) and x.isnum(b):
                if tr: out.append(add(unfold(x, a), unfold(x, b), -1))
                d = parity(a, b, tr)
                if d is not None: out.append(add(unfold(x, d), scale(unfold(x, ('bin', '/', d, C(2))), 2), -1))
    return out

def parity(a, b, tr):
    """d when the fact says that d is even"""
    for u, w in ((a, b), (b, a)):
        if u[0] == 'bin' and ((u[1] == '%' and u[3] == C(2)) or (u[1] == '&' and C(1) in u[2:])) and w in (C(0), C(1)) and tr == (w == C(0)):
            return u[2] if u[2] != C(1) else u[3]
    return None

def unfold(x, t):
    """conversions that keep the value are dropped"""
    k, d = lin(t)
    r = C(k)
    for a, c in d.items():
        b = a
        while b[0] == 'cast' and b[1] in RANGE and x.isnum(b[3]):
            lo, hi = x.facts.bounds(b[3])
            if lo is None or hi is None or lo < RANGE[b[1]][0] or hi > RANGE[b[1]][1]: break
            b = b[3]
            if b[0] == 'lin': b = unfold(x, b); break
        if b[0] != 'lin' and b[0] != 'c':
            lo, hi = x.facts.atom_bounds(b)
            if lo == hi and lo is not None: b = C(lo)
        if b[0] == 'bin' and b[1] in ('/', '>>') and b[3][0] == 'c' and x.isnum(b[2]) and b[3][1] > 0:
            q = unfold(x, b[2])
            lo, hi = x.facts.bounds(q)
            n = C(2 ** b[3][1]) if b[1] == '>>' else b[3]
            b2 = ('bin', '/', q, n) if lo is not None and lo >= 0 else ('bin', b[1], q, b[3])
            if b2 != b: x.xt.setdefault(b2, x.xt.get(b, 'u32')); b = b2
        if b[0] == 'bin' and b[1] == '|':
            for u, w in ((b[2], b[3]), (b[3], b[2])):
                hw = x.facts.bounds(w)
                if u[0] == 'bin' and u[1] == '<<' and u[3][0] == 'c' and None not in hw and 0 <= hw[0] and hw[1] < 2 ** u[3][1]:
                    b = add(scale(unfold(x, u[2]), 2 ** u[3][1]), unfold(x, w)); break
        r = add(r, scale(b, c))
    return r

def zero(x, t):
    """t == 0 follows from the linear equalities on the path"""
    t = unfold(x, t)
    if lin(t) == (0, {}): return True
    rows = []
    def reduce(r):
        for p, row in rows:
            c = dict(lin(r)[1]).get(p, 0)
            if c: r = add(scale(r, dict(lin(row)[1])[p]), scale(row, c), -1)
        return r
    for e in eqs(x):
        e = reduce(e)
        d = lin(e)[1]
        if d:
            p = sorted(d, key=repr)[0]
            rows = [(q, add(scale(w, d[p]), scale(e, dict(lin(w)[1]).get(p, 0)), -1)) for q, w in rows]
            rows.append((p, e))
    k, d = lin(reduce(t))
    return not d and k == 0

def setup(x, m, adu, loc):
    x.ltype[COD] = [r for r in m.recs if r.endswith('::ModbusCodec')][0]
    refs = [g['n'] for g in m.recs[x.ltype[COD]]['f'] if g['tk'] in ('r', 'p') and 'PduBuffer' in g['t']]
    if len(refs) != 1: raise AnalysisError('the codec has %d buffers' % len(refs))
    x.ltype[BUF] = PDU
    x.store[('.', COD, refs[0])] = ('ptr', BUF)
    x.ltype[loc] = adu
    for g in m.recs[adu]['f']:
        if g['tk'] == 'p': x.store[('.', loc, g['n'])] = ('ptr', ('[]', ('R', 'payload of ' + loc[1]), C(0)))
        elif g['tk'] in RANGE: x.get(('.', loc, g['n']), g['tk'])
    assume = x.assume
    t = x.get(('.', loc, 'transactId'))
    x.xt.setdefault(t, 'u32')
    assume('<=', t, C(65535))
    for w, fl in ((255, ('addr', 'numBytes')),):
        for f in fl: assume('<=', x.get(('.', loc, f)), C(w))

def payload(m, x, adu, loc):
    g = [g for g in m.recs[adu]['f'] if g['n'] == 'data']
    if not g: raise AnalysisError('payload of ' + adu)
    return ('R', 'payload of ' + loc[1]) if g[0]['tk'] == 'p' else ('.', loc, 'data')

class Frame:
    """checks the bytes of one encoded frame"""
    def __init__(s, pol, x, m, adu, spec):
        s.pol, s.x, s.m, s.adu, s.spec = pol, x, m, adu, spec
        s.i = 0
    def byte(s):
        if s.i >= len(s.x.items): return None
        it = s.x.items[s.i]
        if it[0] != 'B': return None
        s.i += 1
        return it[1]
    def val(s, what, want, n):
        """the next n bytes, big endian, hold want"""
        got = []
        for k in range(n):
            b = s.byte()
            if b is None: return '%s is missing' % what
            lo, hi = s.x.facts.bounds(b) if s.x.isnum(b) else (None, 0)
            if lo == hi: b = C(lo)
            got = bits(s.x, b, 8) + got
        lo, hi = s.x.facts.bounds(want)
        if lo == hi and lo is not None: want = C(lo)
        w = bits(s.x, want, 8 * n)
        if None not in got and got == w: return None
        if n == 2 and s.hi_lo(want): return None
        return '%s is not %s, big endian (is %s)' % (what, show(want)[:60], ' '.join(show(i[1])[:40] for i in s.x.items[s.i - n:s.i]))
    def hi_lo(s, want):
        a, b = strip8(s.x.items[s.i - 2][1]), strip8(s.x.items[s.i - 1][1])
        if a == ('bin', '>>', b, C(8)) and s.pol.eqterm(s.x, b, want, 16): return True
        comb = s.x.arith('|', s.x.arith('<<', s.x.conv(a, s.x.xt.get(a, 'u32'), 'u8') if a[0] != 'c' else C(a[1] & 255), C(8), 'u32'),
                         s.x.conv(b, s.x.xt.get(b, 'u32'), 'u8') if b[0] != 'c' else C(b[1] & 255), 'u32')
        return s.pol.eqterm(s.x, comb, want, 16)
    def run(s):
        x = s.x
        g = lambda f: x.get(('.', V, f))
        total = s.pol.count(x, x.items)
        e = s.val('the transaction id', g('transactId'), 2) or s.val('the protocol id', C(0), 2) \
            or s.val('the length', add(total, C(6), -1), 2) or s.val('the unit address', g('addr'), 1)
        if e: return e
        fv = s.byte()
        lo, hi = x.facts.bounds(g('func'))
        if fv is None or lo != hi or lo is None: return 'the function code is missing'
        fl, fh = x.facts.bounds(fv) if x.isnum(fv) else (None, None)
        if not (fv == C(lo) or (fl == fh == lo)): return 'the function code is %s' % show(fv)
        spec = s.spec.get(lo, ERR if lo >= 128 else None)
        if spec is None: return 'function %d cannot be laid out' % lo
        for f, n in spec:
            if f == REG: e = s.regs()
            elif f == 'data': 
                p = payload(s.m, x, s.adu, V)
                e = s.val('the value (high byte)', x.get(('[]', p, C(1)), 'u8'), 1) or s.val('the value (low byte)', x.get(('[]', p, C(0)), 'u8'), 1)
            else: e = s.val('field ' + f, g(f), n)
            if e: return e
        if s.i != len(x.items): return '%d more items follow the fields of function %d' % (len(x.items) - s.i, lo)
        return None
    def regs(s):
        x = s.x
        nb = x.get(('.', V, 'numBytes'))
        if s.i >= len(x.items): return None if x.facts.bounds(nb)[1] == 0 or zero(x, nb) else 'the registers are missing'
        it = x.items[s.i]
        if it[0] != 'REP': return 'the registers are not written one by one'
        s.i += 1
        if not s.pol.eqterm(x, scale(it[1], 2), nb): return '%s registers are written, %s bytes announced' % (show(it[1]), show(nb))
        p = payload(s.m, x, s.adu, V)
        want = [x.get(('[]', p, add(scale(it[2], 2), C(1))), 'u8'), x.get(('[]', p, scale(it[2], 2)), 'u8')]
        if len(it[3]) != 2: return 'a register is written as %d bytes' % len(it[3])
        for w, b in zip(want, it[3]):
            if b[0] != 'B' or bits(x, b[1], 8) != bits(x, w, 8): return 'a register is not written high byte first'
        return None

def strip8(t):
    while True:
        if t[0] == 'cast' and t[1] in RANGE: t = t[3]
        elif t[0] == 'bin' and t[1] == '&' and C(255) in t[2:]: t = t[3] if t[2] == C(255) else t[2]
        else: return t

def same(pol, x, m, adu, spec):
    g = lambda l, f: x.get(('.', l, f))
    lo, hi = x.facts.bounds(g(V, 'func'))
    if not pol.eqterm(x, g(V, 'func'), g(D, 'func'), 8): return 'the function differs after decoding'
    for f in ['transactId', 'addr'] + [f for f, n in spec.get(lo, ERR) or []]:
        if f == 'data':
            for i in (0, 1):
                a, b = x.get(('[]', payload(m, x, adu, V), C(i)), 'u8'), x.get(('[]', payload(m, x, adu, D), C(i)), 'u8')
                if not pol.eqterm(x, a, b, 8): return 'byte %d of the value differs after decoding' % i
            if not pol.eqterm(x, g(V, 'numBytes'), g(D, 'numBytes')): return 'numBytes differs after decoding'
        elif f == REG:
            v = x.get(payload(m, x, adu, D))
            if v[0] != 'arrv':
                if x.facts.bounds(g(V, 'numBytes'))[1] == 0 or zero(x, g(V, 'numBytes')): continue
                return 'the registers are not decoded'
            got = dict((add(i, scale(v[2], 2), -1), l) for i, l in v[3])
            if not pol.eqterm(x, scale(v[1], 2), g(V, 'numBytes')) or set(got) != {C(0), C(1)}: return 'not all registers are decoded'
            for k in (0, 1):
                a = x.get(('[]', payload(m, x, adu, V), add(scale(v[2], 2), C(k))), 'u8')
                if not pol.eqterm(x, a, x.get(got[C(k)]), 8): return 'a register differs after decoding'
        elif f == 'error':
            if not pol.eqterm(x, g(V, f), g(D, f), 8): return 'the exception code differs after decoding'
        else:
            if not pol.eqterm(x, g(V, f), g(D, f)): return '%s is %s after decoding, %s when encoded' % (f, show(g(D, f))[:80], show(g(V, f))[:80])
    return None

def truth(x, v):
    if v[0] == 'c': return bool(v[1])
    lo, hi = x.facts.bounds(v)
    if lo == hi and lo is not None: return bool(lo)
    return None

def exceptions(m):
    e = [e for n, e in m.enums.items() if n.rsplit('::', 1)[-1] == 'ModbusError']
    if len(e) != 1: raise AnalysisError('enum ModbusError not found')
    return sorted(set(dict(e[0]['c']).values()) - {0})

def roundtrip(m, R, adu, spec, enc, dec):
    nm = adu.rsplit('::', 1)[-1]
    pol = P()
    def entry(x):
        pol.start(x); setup(x, m, adu, V)
        r = x.call_fn(enc, COD, [('ptr', V)])
        x.ok = x.truth(r)
        x.lay = x.why = None
        if not x.ok: return C(0)
        fl, fh = x.facts.bounds(x.get(('.', V, 'func')))
        if fl is not None and fl >= 128:
            e = x.facts.bounds(x.get(('.', V, 'error')))
            if e[0] is None or e[0] != e[1]:
                # any of the exception codes (anything else is none)
                vs = exceptions(m)
                if not x.cmp('==', x.get(('.', V, 'error')), C(vs[x.choose(len(vs))])): raise Infeasible()
        x.items = list(x.fifo)
        x.lay = Frame(pol, x, m, adu, spec).run()
        x.total = pol.count(x, x.items)
        for i, it in enumerate(x.items):
            if it[0] != 'B': break
            x.store[('[]', STREAM, C(i))] = pol.low(x, it[1]) if it[1][0] != 'c' else C(it[1][1] & 255)
        x.mode = 'dec'
        x.ltype[D] = adu
        for g in m.recs[adu]['f']:
            if g['tk'] == 'p': x.store[('.', D, g['n'])] = ('ptr', ('[]', ('R', 'payload of d'), C(0)))
            else: x.store[('.', D, g['n'])] = ('un', x.fresh(), 'unset ' + g['n'])
        try:
            r = x.call_fn(dec, COD, [('ptr', D)])
            if not x.truth(r): x.why = 'decoding refuses what was encoded'
            elif x.fifo: x.why = 'decoding leaves %d of the encoded items unread' % len(x.fifo)
            else: x.why = same(pol, x, m, adu, spec)
        except Mismatch as e: x.why = str(e)
        except Thrown as e: x.why = 'decoding refuses what was encoded (%s)' % e.src
        if (x.why or x.lay) and contradictory(x, unfold): raise Infeasible()
        return C(1)
    seen, coil = set(), set()
    for p in explore(m, pol, entry, enough=lambda p: getattr(p.x, 'why', None) or getattr(p.x, 'lay', None)):
        if p.outcome != 'normal':
            R.check(p.outcome == 'throw', 'layout', nm, enc['l'], 'encoding ends by ' + p.outcome, p.trace); continue
        if not p.x.ok: continue
        f = p.x.facts.bounds(p.x.get(('.', V, 'func')))[0]
        seen.add(f)
        k = '%s function %s' % (nm, f)
        R.check(p.x.lay is None, 'layout', k, enc['l'], '%s: %s' % (k, p.x.lay), p.trace)
        R.check(p.x.why is None, 'inverse', k, dec['l'], '%s: %s' % (k, p.x.why), p.trace)
        if 'Request' in nm and f in LIMIT:
            v = most(p.x, p.x.get(('.', V, 'numItems')), LIMIT[f])
            if f == 16 and v is not None: v = most(p.x, p.x.get(('.', V, 'numBytes')), 2 * LIMIT[f])   # two bytes an item (layout)
            R.check(v is None, 'fits', k, enc['l'], '%s: %s items are asked for, a packet has room for %d' % (k, v, LIMIT[f]), p.trace)
        if f == 5 and p.x.lay is None:
            v = [p.x.facts.bounds(it[1]) for it in p.x.items[10:12]]
            v = tuple(lo if lo == hi else None for lo, hi in v)
            if None in v: v = values(p.x, p.x.items[10][1], p.x.items[11][1]) or v
            if R.check(v in COIL, 'coil', k, enc['l'], '%s: the value of the coil is encoded as %s' % (k, ', '.join('any' if t is None else '0x%02x' % t for t in v)), p.trace): coil.add(v)
    if 5 in seen: R.check(coil == set(COIL), 'coil', nm + ' values', enc['l'], '%s: a coil can not be switched %s' % (nm, 'on' if COIL[0] not in coil else 'off'))
    return seen

# most items one packet of 253 bytes can carry: bits of a response, registers of a response, registers of a request
LIMIT = {1: 2008, 2: 2008, 3: 125, 4: 125, 16: 123}

def twobytes(n):
    """the high and the low byte a number is put together from, however that is written"""
    leaves = set()
    def walk(t):
        if t[0] in ('in', 'un'): leaves.add(t)
        elif t[0] == 'lin': [walk(q) for q, c in t[2]]
        elif t[0] == 'cast': walk(t[3])
        elif t[0] == 'bin': walk(t[2]); walk(t[3])
        elif t[0] != 'c': leaves.add(None)
    walk(n)
    if len(leaves) != 2 or None in leaves: return None
    def ev(t, e):
        if t in e: return e[t]
        if t[0] == 'c': return t[1]
        if t[0] == 'lin': return t[1] + sum(c * ev(q, e) for q, c in t[2])
        if t[0] == 'cast': return wrap(ev(t[3], e), t[1]) if t[1] in RANGE else ev(t[3], e)
        p, q = ev(t[2], e), ev(t[3], e)
        return {'+': p + q, '-': p - q, '*': p * q, '|': p | q, '^': p ^ q, '<<': p << (q & 31)}.get(t[1])
    a, b = leaves
    try:
        for h, l in ((a, b), (b, a)):
            if all(ev(n, {h: u, l: w}) == u * 256 + w for u, w in ((0, 0), (1, 0), (0, 1), (18, 52), (255, 255), (128, 127))): return h, l
    except TypeError: pass

def most(x, n, lim):
    """a count above lim that the conditions passed on this path admit, None when there is none: the conditions that
    depend on the count alone are evaluated on its domain"""
    n = uncast8(n)
    hb = twobytes(n)
    def ev(t, v):
        if t == n: return v
        if hb and t in hb: return v >> 8 if t == hb[0] else v & 255
        k = t[0]
        if k == 'c': return t[1]
        if k == 'lin': return t[1] + sum(c * ev(q, v) for q, c in t[2])
        if k == 'cast': return wrap(ev(t[3], v), t[1]) if t[1] in RANGE else ev(t[3], v)
        if k == 'bin' and t[1] in ('+', '-', '*', '/', '%', '|', '&', '^', '<<', '>>'):
            p, q = ev(t[2], v), ev(t[3], v)
            if t[1] in '/%' and q <= 0: raise KeyError(t)
            return {'+': lambda: p + q, '-': lambda: p - q, '*': lambda: p * q, '/': lambda: p // q, '%': lambda: p % q, '|': lambda: p | q, '&': lambda: p & q, '^': lambda: p ^ q, '<<': lambda: p << min(q, 64), '>>': lambda: p >> min(q, 64)}[t[1]]()
        raise KeyError(t)
    fs = []
    for e in x.trace:
        if not isinstance(e, Fact) or e.op not in ('==', '<', '<='): continue
        try: ev(e.a, 1); ev(e.b, 1)
        except KeyError: continue
        if e.a[0] != 'c' or e.b[0] != 'c': fs.append(e)
    lo, hi = x.facts.bounds(n)
    cmp = {'==': lambda a, b: a == b, '<': lambda a, b: a < b, '<=': lambda a, b: a <= b}
    for v in range(max(lim + 1, lo or 0), min(65535, hi if hi is not None else 65535) + 1):
        if all(cmp[e.op](ev(e.a, v), ev(e.b, v)) == bool(e.truth) for e in fs): return v

def values(x, a, b):
    """the value of the two bytes when the facts about them leave a single one"""
    a, b = uncast8(a), uncast8(b)
    def ev(t, u, w):
        if t == a: return u
        if t == b: return w
        if t[0] == 'c': return t[1]
        if t[0] == 'lin': return t[1] + sum(c * ev(q, u, w) for q, c in t[2])
        if t[0] == 'cast': return wrap(ev(t[3], u, w), t[1]) if t[1] in RANGE else ev(t[3], u, w)
        if t[0] == 'bin' and t[1] in ('|', '&', '^', '<<', '>>'):
            p, q = ev(t[2], u, w), ev(t[3], u, w)
            return p | q if t[1] == '|' else p & q if t[1] == '&' else p ^ q if t[1] == '^' else p << q if t[1] == '<<' else p >> q
        raise KeyError(t)
    fs = []
    for e in x.trace:
        if not isinstance(e, Fact) or e.op not in ('==', '<', '<='): continue
        try: ev(e.a, 0, 0); ev(e.b, 0, 0)
        except KeyError: continue
        fs.append(e)
    def holds(e, u, w):
        p, q = ev(e.a, u, w), ev(e.b, u, w)
        return (p == q if e.op == '==' else p < q if e.op == '<' else p <= q) == e.truth
    got = [(u, w) for u in range(256) for w in range(256) if all(holds(e, u, w) for e in fs)] if fs else []
    return got[0] if len(got) == 1 else None

def uncast8(t):
    while t[0] == 'cast': t = t[3]
    return t

def declared(m, adu, dec):
    """local variables a response is decoded into, with their initialisation"""
    r = []
    for f in m.fns.values():
        if not f.get('body'): continue
        vs, called = [], False
        for n in walk(f['body']):
            if not isinstance(n, dict): continue
            if n.get('k') == 'Var' and n.get('tk') == 'o' and n.get('t', '').replace('const ', '').strip() == adu and n.get('init'): vs.append(n)
            if n.get('fn') == dec['id']: called = True
        if called: r += vs
    return r

def freedec(m, R, adu, spec, dec, cap, decl=None):
    """the decoder over an arbitrary frame"""
    nm = adu.rsplit('::', 1)[-1]
    pol = P()
    def entry(x):
        pol.start(x, True)
        setup0(x, m, adu, D)
        if decl is not None:
            x.init(D, decl['init'], decl['t']); x.ltype[D] = adu
        r = x.call_fn(dec, COD, [('ptr', D)])
        x.ok = x.truth(r)
        return C(0)
    acc = set()
    for p in explore(m, pol, entry):
        x = p.x
        if p.outcome != 'normal':
            R.check(p.outcome == 'throw' and p.detail.typ.startswith('std::'), 'reject', nm, dec['l'], 'decoding ends by ' + p.outcome, p.trace); continue
        pl = payload(m, x, adu, D)
        for loc, src in x.written:
            if loc[1] != pl: continue
            lo, hi = x.facts.bounds(loc[2])
            if lo is None or lo < 0 or hi is None or hi >= cap:
                lim = x.facts.bounds(add(C(cap - 1), loc[2], -1))[0]
                R.check(lo is not None and lo >= 0 and lim is not None and lim >= 0, 'payload', nm, src, 'element %s is written, the payload has %d bytes' % (show(loc[2]), cap), p.trace)
            else: R.ok('payload', '%s %s' % (nm, src))
        if not x.ok: R.ok('reject', nm + ' refused'); continue
        b = lambda i: x.get(('[]', STREAM, C(i)), 'u8')
        be = lambda i: x.arith('|', x.arith('<<', b(i), C(8), 'u32'), b(i + 1), 'u32')
        SZ = pol.sz(x)
        L = be(4)
        def chk(c, what): R.check(c, 'reject', '%s: %s' % (nm, what), dec['l'], 'a frame is accepted although %s is not checked' % what, p.trace)
        chk(zero(x, be(2)) or bothzero(x, b(2), b(3)), 'the protocol id')
        chk(zero(x, add(add(L, C(6)), SZ, -1)), 'the declared length against the received size')
        chk(zero(x, add(x.eaten, SZ, -1)), 'the declared length against the fields')
        f = x.facts.bounds(x.get(('.', D, 'func')))
        chk(f[0] == f[1] and f[0] is not None and (spec.get(f[0]) is not None or f[0] >= 128), 'the function')
        acc.add(f[0])
        if 'Request' in nm:
            a = x.facts.bounds(x.get(('.', D, 'addr')))
            chk(a[1] is not None and a[1] <= 247, 'the unit address')
        if 'Request' in nm and f[0] in LIMIT and f[0] != 16:
            v = most(x, x.get(('.', D, 'numItems')), LIMIT[f[0]])
            R.check(v is None, 'fits', '%s function %s decoded' % (nm, f[0]), dec['l'], 'a request for %s items is accepted, a packet has room for %d' % (v, LIMIT[f[0]]), p.trace)
        fl = [q for q, n in spec.get(f[0]) or []]
        if ('Request' in nm or decl) and REG not in fl and 'data' not in fl and f[0] is not None and f[0] < 128:
            nb = x.get(('.', D, 'numBytes'))
            R.check(zero(x, nb), 'content', '%s function %s' % (nm, f[0]), dec['l'], 'a frame without a payload is taken for one with %s bytes' % show(nb)[:60], p.trace)
        if ('Request' in nm or decl) and 'data' in fl:
            nb = x.get(('.', D, 'numBytes'))
            R.check(zero(x, add(nb, C(2), -1)), 'content', '%s function %s' % (nm, f[0]), dec['l'], 'a frame with a value of two bytes is taken for one with %s bytes' % show(nb)[:60], p.trace)
        if REG in fl:
            nb = x.get(('.', D, 'numBytes'))
            ev = ('bin', '%', unfold(x, nb), C(2))
            even = 'numItems' in fl and zero(x, add(nb, scale(x.get(('.', D, 'numItems')), 2), -1))
            if 'numItems' in fl: chk(even, 'the byte count against the item count')
            else: chk(zero(x, ev) or (0, 0) == x.facts.bounds(('bin', '%', nb, C(2))) or any(evenq(e) for e in eqs(x)), 'that the byte count is even')
    return acc

def evenq(e):
    k, d = lin(e)
    return k == 0 and len(d) == 1 and list(d)[0][0] == 'bin' and list(d)[0][1] in ('%', '&')

def bothzero(x, a, b): return x.facts.bounds(a) == (0, 0) == x.facts.bounds(b)

def setup0(x, m, adu, loc):
    x.ltype[COD] = [r for r in m.recs if r.endswith('::ModbusCodec')][0]
    refs = [g['n'] for g in m.recs[x.ltype[COD]]['f'] if g['tk'] in ('r', 'p') and 'PduBuffer' in g['t']]
    x.ltype[BUF] = PDU
    x.store[('.', COD, refs[0])] = ('ptr', BUF)
    x.ltype[loc] = adu
    for g in m.recs[adu]['f']:
        if g['tk'] == 'p': x.store[('.', loc, g['n'])] = ('ptr', ('[]', ('R', 'payload of ' + loc[1]), C(0)))

def capacity(m, adu):
    """smallest payload buffer a frame is decoded into"""
    g = [g for g in m.recs[adu]['f'] if g['n'] == 'data'][0]
    if g['tk'] != 'p': return g['size']
    best = None
    for f in m.fns.values():
        for n in walk(f.get('body')) if f.get('body') else []: pass
        for c in f.get('init', []) or []:
            pass
    for f in m.fns.values():
        for n in walk(f):
            if isinstance(n, dict) and n.get('k') == 'Ctor' and n.get('cls') == adu and len(n.get('a', [])) == 1:
                for z in walk(n['a'][0]):
                    if isinstance(z, dict) and z.get('k') in ('Mem', 'Ref') :
                        sz = arrsize(z.get('t', ''))
                        if sz is None and z.get('k') == 'Mem':
                            pass
                        if sz: best = sz if best is None else min(best, sz)
    if best is None: raise AnalysisError('no payload buffer of %s found' % adu)
    return best

def arrsize(t):
    import re
    t = t.strip()
    mm = re.search(r'\[(\d+)\]$', t)
    if mm: return int(mm.group(1))
    mm = re.match(r'(?:const )?std::array<.*,\s*(\d+)', t)
    return int(mm.group(1)) if mm else None

def check(m, R, tier):
    R.rule('buffer', 'the packet buffer appends and returns bytes in order and refuses to leave its bounds')
    R.rule('layout', 'every encoded frame has the layout the protocol prescribes')
    R.rule('coil', 'a single coil is written with the value FF00 (on) or 0000 (off)')
    R.rule('inverse', 'decoding an encoded frame accepts it, consumes all of it and returns the same fields')
    R.rule('reject', 'a frame is accepted only if protocol id, length, unit, function and counts are consistent')
    R.rule('fits', 'a request is encoded or accepted only for as many items as a packet can carry')
    R.rule('content', 'a decoded frame announces exactly the payload bytes it carried')
    R.rule('payload', 'no element outside the payload buffer is written')
    L = Layout(m, PDU)
    methods(m, R, L, 'buffer', 'buffer')
    cls = [r for r in m.recs if r.endswith('::ModbusCodec')]
    if len(cls) != 1: raise AnalysisError('ModbusCodec not found')
    fs = {}
    for f in m.method(cls[0], 'encode') + m.method(cls[0], 'decode'):
        if not f.get('body') or len(f['p']) != 1: continue
        t = f['p'][0]['t'].replace('const', '').replace('&', '').strip()
        fs[(f['name'], t)] = f
    types = sorted({t for _, t in fs})
    if len(types) != 2 or len(fs) != 4: raise AnalysisError('Modbus codec: %s' % sorted(fs))
    info = {}
    for t in types:
        spec = REQ if 'Request' in t else RSP
        e = roundtrip(m, R, t, spec, fs[('encode', t)], fs[('decode', t)])
        a = freedec(m, R, t, spec, fs[('decode', t)], capacity(m, t))
        if 'Request' not in t:
            for d in declared(m, t, fs[('decode', t)]): freedec(m, R, t, spec, fs[('decode', t)], capacity(m, t), d)
        R.check(len(e) >= 4, 'layout', t + ' functions', fs[('encode', t)]['l'], 'only functions %s can be encoded' % sorted(e, key=repr))
        R.check(e <= a, 'reject', t + ' functions', fs[('decode', t)]['l'], 'functions %s can be encoded but not decoded' % sorted(e - a, key=repr))
        info[t] = {'encoded': sorted(e, key=repr), 'decoded': sorted(a, key=repr)}
    R.info.update(functions=info)
    R.need('layout', 8); R.need('inverse', 8); R.need('reject', 10); R.need('payload', 2)

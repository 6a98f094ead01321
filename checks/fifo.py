"""Composition of an encoder and a decoder over an abstract byte stream.
The stream is a list of items: ('B', term) one byte, ('E', T, loc) one value of type T (its own pair of
operators is analysed separately), ('REP', n, iota, items) n repetitions for iota = 0..n-1."""
from sa.model import AnalysisError
from sa.interp import *
from sa.interp import add, scale, lin, mklin, canon, Thrown, Fact, Ev, short, Brk, Cont, rebase
from sa.bits import bits, W
from sa.app import AppPolicy
from checks.common import dist, subst as lsubst

class Mismatch(Exception): pass

def tsub(t, a, b):
    """replace the term a by b everywhere in t (re-normalising linear terms)"""
    if t == a: return b
    if not isinstance(t, tuple): return t
    if t and t[0] == 'lin':
        r = C(t[1])
        for at, c in t[2]: r = add(r, scale(tsub(at, a, b), c))
        return r
    return tuple(tsub(y, a, b) for y in t)

class FifoPolicy(AppPolicy):
    max_loop = 20
    strict_sub = False
    # -- stream ---------------------------------------------------------------------------
    def start(self, x):
        x.fifo = []; x.mode = 'enc'; x.consumed = 0
    def put(self, x, item): x.fifo.append(item)
    def take(self, x):
        if not x.fifo: raise Mismatch('decoding reads more than encoding wrote')
        return x.fifo.pop(0)
    def take_byte(self, x):
        while True:
            if not x.fifo: raise Mismatch('decoding reads more than encoding wrote')
            it = x.fifo[0]
            if it[0] == 'B': return x.fifo.pop(0)[1]
            if it[0] == 'E': self.expand(x)
            else: raise Mismatch('decoding reads a single byte where encoding repeats %s times' % show(it[1]))
    def expand(self, x):
        raise Mismatch('unexpected item')
    def isub(self, x, items, a, b):
        out = []
        for it in items:
            if it[0] == 'B':
                t = tsub(it[1], a, b); self.retype(x, it[1], a, b); out.append(('B', t))
            elif it[0] == 'E':
                l = x.temp(x.ltype.get(it[2]))
                for k in [it[2]] + x.under(it[2]):
                    if k in x.store:
                        self.retype(x, x.store[k], a, b)
                        x.store[tsub(rebase(k, it[2], l), a, b)] = tsub(x.store[k], a, b)
                out.append(('E', it[1], l))
            else: out.append(('REP', tsub(it[1], a, b), it[2], self.isub(x, it[3], a, b)))
        return out
    def retype(self, x, t, a, b):
        """types of the atoms survive the substitution"""
        if not isinstance(t, tuple): return
        if t in x.xt and t != a:
            n = tsub(t, a, b)
            if n[0] != 'c': x.xt.setdefault(n, x.xt[t])
        for y in t: self.retype(x, y, a, b)
    # -- loops ----------------------------------------------------------------------------
    def on_loop(self, x, n):
        if n['k'] == 'ForRange': return self.range_loop(x, n)
        if n['k'] in ('For', 'While', 'Do'): return self.count_loop(x, n)
        return NotImplemented
    def size_of(self, x, loc, t):
        t = strip_cv(t).rstrip('& ')
        if t.startswith('std::array<'):
            return C(int(targs_of(t)[-1].rstrip('UL')))
        v = x.get(loc)
        if v[0] == 'seq': return v[2]
        if v[0] == 'list': return C(v[1])
        if v[0] == 'arrv': return v[1]
        if v[0] in ('zero', 'empty'): return C(0)
        r = ('m', 'std::vector::size' if 'vector' in t else 'std::basic_string::size', x.content(loc))
        x.xt[r] = 'u64'
        x.assume('<=', r, C(2 ** 31 - 1))
        return r
    def range_loop(self, x, n):
        f = x.frames[-1]
        if n.get('init'): x.run(n['init'])
        rng = x.reflv(n['range'])
        if x.get(rng)[0] == 'list': return NotImplemented
        N = self.size_of(x, rng, n['range']['t'])
        if N[0] != 'c':
            if x.cmp('==', N, C(0)): return True
        elif N[1] == 0: return True
        v = n['var']
        iota = ('un', x.fresh(), 'iota'); x.xt[iota] = 'u64'
        x.assume('<', iota, N)
        loc = ('L', f.n, v['id'], v['n'])
        f.env[v['id']] = loc
        el = ('[]', rng, iota)
        if v['tk'] == 'r': x.store[loc] = ('ptr', el)
        else: x.copy(loc, el)
        w0 = len(x.wlog)
        self.body(x, n, N, iota)
        self.collect(x, w0, N, iota)
        return True
    def count_loop(self, x, n):
        f = x.frames[-1]
        mark = len(f.locals)
        if n.get('init'): x.run(n['init'])
        if n.get('c') is None: raise AnalysisError('loop without condition in a codec at ' + n['l'])
        # find the counters: run one turn and roll back
        do = n['k'] == 'Do'
        if not do and not x.cond(n['c']): x.unwind(f, mark); return True
        save = (Store_copy(x.store), list(x.wlog), len(x.trace), list(x.fifo), {k: [v[0], v[1], set(v[2])] for k, v in x.facts.num.items()}, dict(x.facts.tr), list(x.frames[-1].locals))
        ea = getattr(x, 'eaten', None)
        w0 = len(x.wlog)
        if x.mode == 'dec':
            if x.fifo and x.fifo[0][0] == 'REP':
                r = x.fifo[0]
                x.fifo[0:1] = self.isub(x, r[3], r[2], C(0))
        before = dict(x.store)
        try: x.run(n['body'])
        except Cont: pass
        if n.get('inc'): x.ev(n['inc'])
        if do:
            sv = x.choose; x.choose = lambda k, why='': 0
            try: x.cond(n['c'])
            finally: x.choose = sv
        step = {}
        for l in dict.fromkeys(x.wlog[w0:]):
            if not x.live(l) or l[0] == '[]': continue
            a, b = before.get(l), x.store.get(l)
            if a is None or b is None or not (x.isnum(a) and x.isnum(b)): continue
            k, d = lin(add(b, a, -1))
            if not d and k: step[l] = (a, k)
        x.store, x.wlog, x.fifo = save[0], save[1], save[3]
        del x.trace[save[2]:]
        x.facts.num, x.facts.tr = save[4], save[5]
        x.frames[-1].locals[:] = save[6]
        if ea is not None: x.eaten = ea
        # generic turn
        pre = Store_copy(x.store)
        iota = ('un', x.fresh(), 'iota'); x.xt[iota] = 'u64'
        for l, (a, k) in step.items(): x.store[l] = add(a, scale(iota, k))
        # condition at iota: its distance gives the number of turns
        tr = len(x.trace)
        sv = x.choose; x.choose = lambda k, why='': 0
        num = {k: [v[0], v[1], set(v[2])] for k, v in x.facts.num.items()}; t0 = dict(x.facts.tr)
        st0 = Store_copy(x.store)
        try: ok = x.cond(n['c'])
        finally: x.choose = sv
        fs = [e for e in x.trace[tr:] if isinstance(e, Fact)]
        N = None
        if fs:
            ds = dist(fs[-1])
            if fs[-1].op == '==' and fs[-1].truth and not ok: ds = [add(fs[-1].b, fs[-1].a, -1), add(fs[-1].a, fs[-1].b, -1)]    # left when equal
            for d in ds:
                k = dict(lin(d)[1]).get(iota, 0)
                if k < 0:
                    d0 = add(d, scale(iota, k), -1)
                    N = d0 if k == -1 else self.quot(x, d0, -k)
        x.facts.num, x.facts.tr = num, t0
        if do:
            x.store = st0
            if N is not None: N = add(N, C(1))
        if N is not None and N[0] == 'c' and N[1] <= self.max_loop - 2:
            x.store = pre; x.unwind(f, mark); return NotImplemented
        if N is None: raise AnalysisError('codec loop is not counted at ' + n['l'])
        x.assume('<', iota, N)
        w0 = len(x.wlog)
        self.body(x, n, N, iota)
        self.collect(x, w0, N, iota)
        for l, (a, k) in step.items(): x.set(l, add(a, scale(N, k)), log=False)
        x.unwind(f, mark)
        return True
    def quot(self, x, d, k):
        if d[0] == 'c': return C(-(-d[1] // k))
        r = ('bin', '/', d, C(k)); x.xt[r] = 'u64'
        return r
    def body(self, x, n, N, iota):
        outer = x.fifo
        if x.mode == 'enc':
            x.fifo = []
            self.turn(x, n)
            outer.append(('REP', N, iota, x.fifo)); x.fifo = outer
        else:
            if not outer: raise Mismatch('decoding repeats where encoding wrote nothing more')
            r = outer.pop(0)
            if r[0] != 'REP': raise Mismatch('decoding repeats %s times where encoding wrote a single item' % show(N))
            if not self.eqterm(x, r[1], N): raise Mismatch('decoding repeats %s times, encoding %s times' % (show(N), show(r[1])))
            x.fifo = self.isub(x, r[3], r[2], iota)
            self.turn(x, n)
            if x.fifo: raise Mismatch('a turn of the decoding loop leaves data of the encoding loop unread')
            x.fifo = outer
    def turn(self, x, n):
        try: x.run(n['body'])
        except Cont: pass
        except Brk: raise AnalysisError('codec loop left by break at ' + n['l'])
        if n.get('inc') and n['k'] == 'For': pass
    def collect(self, x, w0, N, iota):
        """elements written in the generic turn become the content of their array"""
        by = {}
        for l in dict.fromkeys(x.wlog[w0:]):
            k = l
            while k[0] in ('.', '[]'):
                if k[0] == '[]' and iota in lin(k[2])[1] or (k[0] == '[]' and iota_in(k[2], iota)):
                    by.setdefault(k[1], {})[k[2]] = k; break
                k = k[1]
        for base, els in by.items():
            out = []
            for idx, loc in sorted(els.items(), key=repr):
                t = x.temp(x.ltype.get(loc)); x.copy(t, loc); out.append((idx, t))
            x.set(base, ('arrv', N, iota, tuple(out)), log=False)
    # -- comparison -----------------------------------------------------------------------
    def eqterm(self, x, a, b, w=64):
        if a == b: return True
        na, nb = self.norm(x, a), self.norm(x, b)
        if na == nb: return True
        if x.isnum(na) and x.isnum(nb):
            lo, hi = x.facts.bounds(add(na, nb, -1))
            if lo == hi == 0: return True
            ba, bb = bits(x, na, w), bits(x, nb, w)
            if None not in ba and ba == bb: return True
        return False
    def norm(self, x, t):
        """drop conversions that keep the value; reassemble split values"""
        if t[0] == 'cast' and t[1] in RANGE:
            v = self.norm(x, t[3])
            lo, hi = x.facts.bounds(v) if x.isnum(v) else (None, None)
            if lo is not None and hi is not None and RANGE[t[1]][0] <= lo and hi <= RANGE[t[1]][1]: return v
            r = ('cast', t[1], t[2], v)
            x.xt.setdefault(r, t[1])
            t = r
        if t[0] == 'mem':
            v = self.norm(x, t[1])
            a = self.whole(x, v)
            if a is not None and a[0] == 'mem': return a[1]
            return ('mem', v)
        if t[0] in ('bin', 'cast', 'lin'):
            a = self.whole(x, t)
            if a is not None: return a
        return t
    def whole(self, x, t):
        """the atom t consists of, all its bits in order"""
        if not x.isnum(t): return None
        w = W.get(x.xt.get(t)) or (W.get(t[1]) if t[0] == 'cast' else None) or 64
        b = bits(x, t)
        if None in b: return None
        at = {y[1] for y in b if isinstance(y, tuple)}
        if len(at) != 1: return None
        a = at.pop()
        aw = W.get(x.xt.get(a))
        if not aw: return None
        if [y for y in b[:aw]] != [('b', a, i) for i in range(aw)]: return None
        rest = b[aw:]
        sg = x.xt.get(a)[0] == 'i'
        if all(y == 0 for y in rest) or (sg and all(y == ('b', a, aw - 1) for y in rest)) : return a
        if aw <= w <= 64 and all(y == 0 for y in b[w:]): return a
        return None

def iota_in(t, iota):
    return t == iota or (isinstance(t, tuple) and any(iota_in(y, iota) for y in t))

def Store_copy(s):
    n = type(s)()
    for k, v in s.items(): n[k] = v
    return n

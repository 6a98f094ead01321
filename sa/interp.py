"""Path-sensitive abstract interpreter over the AST model.

Values are provenance terms (tuples):
  ('c',n) constant           ('str',s) literal            ('null',)
  ('ptr',loc) address        ('obj',loc) object by location
  ('in',loc) initial content ('fld',v,name) part of an opaque value
  ('lin',k,((atom,coef),..)) linear integer combination
  ('bin',op,a,b) ('un',op,a) ('cast',to,from,v)
  ('ev',i,tag) result/output of boundary event i, ('un',..)
Locations are tuples as well: ('L',frame,id) ('T',n) ('G',id) ('R',name) ('.',loc,field)
  ('[]',loc,index) ('*',pointer value).

A path is enumerated by replaying a decision list; a branch is infeasible only when it contradicts
a recorded fact (interval per linear form, or truth of an opaque term). No solver is involved.
Loops: first iteration, then one generic iteration on a state in which everything the body writes
is forgotten, then exit.
"""
import re
import functools
from .model import AnalysisError, walk

class Ret(Exception):
    def __init__(self, v): self.v = v
class Brk(Exception): pass
class Cont(Exception): pass
class Thrown(Exception):
    def __init__(self, typ, src, why=''): self.typ, self.src, self.why = typ, src, why
class Infeasible(Exception): pass
class Restart(Exception): pass
class Diverge(Exception):
    def __init__(self, why, src): self.why, self.src = why, src
class Terminate(Exception):
    def __init__(self, why, src): self.why, self.src = why, src

def C(n): return ('c', int(n))
NULL = ('null',)

RANGE = {}
for _b in (8, 16, 32, 64):
    RANGE['u%d' % _b] = (0, 2 ** _b - 1)
    RANGE['i%d' % _b] = (-2 ** (_b - 1), 2 ** (_b - 1) - 1)
RANGE['b'] = (0, 1)

def is_int_tk(tk): return tk in RANGE

def preserving(frm, to):
    if frm == to: return True
    if frm not in RANGE or to not in RANGE: return False
    a, b = RANGE[frm], RANGE[to]
    return a[0] >= b[0] and a[1] <= b[1]

def lin(t):
    k = t[0]
    if k == 'c': return t[1], {}
    if k == 'lin': return t[1], dict(t[2])
    if k == 'cast' and preserving(t[2], t[1]): return lin(t[3])
    return 0, {t: 1}

def mklin(k, d):
    d = {a: c for a, c in d.items() if c}
    if not d: return ('c', k)
    if k == 0 and len(d) == 1:
        (a, c), = d.items()
        if c == 1: return a
    return ('lin', k, tuple(sorted(d.items(), key=lambda x: repr(x[0]))))

def add(a, b, s=1):
    ka, da = lin(a); kb, db = lin(b)
    d = dict(da)
    for x, c in db.items():
        d[x] = d.get(x, 0) + s * c
    return mklin(ka + s * kb, d)

def scale(a, n):
    k, d = lin(a)
    return mklin(k * n, {x: c * n for x, c in d.items()})

def wrap(n, tk):
    if tk not in RANGE: return n
    lo, hi = RANGE[tk]
    m = hi - lo + 1
    return (n - lo) % m + lo

class Ev:
    __slots__ = ('kind', 'name', 'obj', 'args', 'src', 'ret', 'i', 'x', 'node', 'loops', 'stack')
    def __init__(s, kind, name, obj=None, args=(), src='', node=None, **x):
        s.kind, s.name, s.obj, s.args, s.src, s.node, s.x = kind, name, obj, list(args), src, node, x
        s.ret = None; s.i = None; s.loops = (); s.stack = ()
    def __repr__(s): return '<%s %s obj=%s args=%s @%s>' % (s.kind, s.name, show(s.obj), [show(a) for a in s.args], s.src)

class Fact:
    __slots__ = ('op', 'a', 'b', 'truth', 'src')
    def __init__(s, op, a, b, truth, src): s.op, s.a, s.b, s.truth, s.src = op, a, b, truth, src
    def __repr__(s): return '[%s%s %s %s @%s]' % ('' if s.truth else 'not ', show(s.a), s.op, show(s.b), s.src)

def show(t):
    if not isinstance(t, tuple): return str(t)
    if not t: return '()'
    k = t[0]
    if k == 'c': return str(t[1])
    if k == 'str': return repr(t[1])
    if k == 'ptr': return '&' + show(t[1])
    if k == 'obj': return show(t[1])
    if k == 'in': return show(t[1])
    if k == '.': return show(t[1]) + '.' + str(t[2])
    if k == '[]': return show(t[1]) + '[' + show(t[2]) + ']'
    if k == '*': return '*(' + show(t[1]) + ')'
    if k == 'L': return str(t[3] if len(t) > 3 else t[2])
    if k == 'R': return str(t[1])
    if k == 'lin':
        return '(' + ' + '.join(['%s%s' % ('' if c == 1 else '%d*' % c, show(a)) for a, c in t[2]] + ([str(t[1])] if t[1] else [])) + ')'
    if k == 'bin': return '(%s %s %s)' % (show(t[2]), t[1], show(t[3]))
    if k == 'cast': return '%s(%s)' % (t[1], show(t[3]))
    if k == 'fld': return show(t[1]) + '.' + str(t[2])
    if k == 'ev': return '#%s:%s' % (t[1], t[2])
    return '(' + ' '.join(show(x) for x in t) + ')'

class Facts:
    def __init__(s, xt):
        s.num = {}      # S -> [lo, hi, set(neq)]
        s.tr = {}
        s.xt = xt       # atom -> type kind
    def atom_bounds(s, a):
        lo = hi = None
        r = s.num.get(((a, 1),))
        if r: lo, hi = r[0], r[1]
        tb = None
        tk = s.xt.get(a)
        if tk in RANGE: tb = RANGE[tk]
        elif a[0] == 'cast' and a[1] in RANGE: tb = RANGE[a[1]]
        elif a[0] == 'bin' and a[1] == '&':
            for z in (a[2], a[3]):
                if z[0] == 'c' and z[1] >= 0: tb = (0, z[1])
        if tb:
            lo = tb[0] if lo is None else max(lo, tb[0])
            hi = tb[1] if hi is None else min(hi, tb[1])
        if a[0] == 'bin' and a[1] in ('/', '>>') and a[3][0] == 'c' and a[3][1] > 0:
            l2, h2 = s.bounds(a[2])
            dv = a[3][1] if a[1] == '/' else 2 ** a[3][1]
            if l2 is not None and l2 >= 0:
                lo = max(lo or 0, l2 // dv)
                if h2 is not None: hi = h2 // dv if hi is None else min(hi, h2 // dv)
        elif a[0] == 'bin' and a[1] == '%' and a[3][0] == 'c' and a[3][1] > 0:
            l2, h2 = s.bounds(a[2])
            n = a[3][1]
            nlo = 0 if l2 is not None and l2 >= 0 else 1 - n
            lo = nlo if lo is None else max(lo, nlo)
            hi = n - 1 if hi is None else min(hi, n - 1)
        elif a[0] == 'bin' and a[1] == '<<' and a[3][0] == 'c' and 0 <= a[3][1] < 64:
            l2, h2 = s.bounds(a[2])
            if l2 is not None and l2 >= 0 and h2 is not None and (hi is None or h2 << a[3][1] <= hi):
                lo, hi = max(lo or 0, l2 << a[3][1]), h2 << a[3][1]
        elif a[0] == 'bin' and a[1] == '|':
            l2, h2 = s.bounds(a[2]); l3, h3 = s.bounds(a[3])
            if None not in (l2, l3, h2, h3) and l2 >= 0 and l3 >= 0:
                top = 2 ** max(h2.bit_length(), h3.bit_length()) - 1
                lo = max(lo or 0, l2, l3)
                hi = top if hi is None else min(hi, top)
        return lo, hi
    def bounds(s, t):
        k, d = lin(t)
        lo = hi = k
        for a, c in d.items():
            l, h = s.atom_bounds(a)
            if c < 0: l, h = h, l
            lo = None if (lo is None or l is None) else lo + c * l
            hi = None if (hi is None or h is None) else hi + c * h
        # x - n * (x / n) is x % n
        for a, c in d.items():
            if a[0] == 'bin' and a[1] == '/' and a[3][0] == 'c' and a[3][1] > 0 and c % a[3][1] == 0:
                n = a[3][1]; q = -c // n
                rest = add(add(t, ('lin', 0, ((a, 1),)), -c), a[2], -q)
                if len(lin(rest)[1]) >= len(d): continue
                l, h = s.bounds(rest)
                ml, mh = s.atom_bounds(('bin', '%', a[2], a[3]))
                if q < 0: ml, mh = mh, ml
                if l is not None: lo = l + q * ml if lo is None else max(lo, l + q * ml)
                if h is not None: hi = h + q * mh if hi is None else min(hi, h + q * mh)
        # facts about the whole linear form
        if len(d) > 1 or (d and list(d.values())[0] != 1):
            S, sg, kk = canon(t)
            r = s.num.get(S)
            if r:
                l, h = r[0], r[1]
                if sg < 0: l, h = (None if h is None else -h), (None if l is None else -l)
                if l is not None: lo = l + k if lo is None else max(lo, l + k)
                if h is not None: hi = h + k if hi is None else min(hi, h + k)
            # combine with one recorded form at a time: t = form + rest
            for S2, r2 in list(s.num.items()):
                if len(S2) < 2: continue
                mul = {1, -1} | {d[a2] // c2 for a2, c2 in S2 if a2 in d and d[a2] % c2 == 0}
                for sg2 in sorted(mul):
                    rest = add(t, ('lin', 0, S2), -sg2)
                    kr, dr = lin(rest)
                    if len(dr) > max(len(d), 2): continue
                    rl, rh = kr, kr
                    for a, c in dr.items():
                        l, h = s.atom_bounds(a)
                        if c < 0: l, h = h, l
                        rl = None if (rl is None or l is None) else rl + c * l
                        rh = None if (rh is None or h is None) else rh + c * h
                    l, h = (r2[0], r2[1]) if sg2 > 0 else (r2[1], r2[0])
                    l, h = None if l is None else l * sg2, None if h is None else h * sg2
                    if l is not None and rl is not None: lo = l + rl if lo is None else max(lo, l + rl)
                    if h is not None and rh is not None: hi = h + rh if hi is None else min(hi, h + rh)
        return lo, hi

def canon(t):
    """linear term -> (S, sign, k): t = sign*S + k with S's leading coefficient positive"""
    k, d = lin(t)
    items = tuple(sorted(d.items(), key=lambda x: repr(x[0])))
    if not items: return (), 1, k
    if items[0][1] < 0:
        return tuple((a, -c) for a, c in items), -1, k
    return items, 1, k

class Frame:
    __slots__ = ('env', 'this', 'fn', 'n', 'locals')
    def __init__(s, fn, n, this, env=None):
        s.fn, s.n, s.this, s.env, s.locals = fn, n, this, dict(env or {}), []

class Path:
    def __init__(s, x, outcome, detail=None):
        s.trace = x.trace; s.facts = x.facts; s.store = x.store; s.outcome = outcome; s.detail = detail; s.x = x
        s.ret = x.result
    def events(s, *kinds):
        return [e for e in s.trace if isinstance(e, Ev) and (not kinds or e.kind in kinds)]
    def calls(s, *names):
        return [e for e in s.trace if isinstance(e, Ev) and e.kind == 'call' and any(e.name == n or e.name.endswith('::' + n) for n in names)]

class Policy:
    """default policy; checks subclass it"""
    max_depth = 48
    max_loop = 70
    def hook(self, x, n, qn, this, args):
        """return NotImplemented to continue, else a value"""
        return NotImplemented
    def throws(self, x, n, qn):
        return False
    def inline(self, x, fn, n):
        return True
    def on_log(self, x, n): pass
    def on_mem(self, x, loc, n): pass
    on_load = None          # (x, loc): an array element is read
    on_stmtexpr = None      # (x, n): a statement expression of a system macro
    on_memcpy = None       # (x, event): before a memcpy
    on_elem = None          # (x, container, index, n): an element of a container is referred to
    copyloops = False       # byte loops that copy a block are seen as a block copy
    def on_loop(self, x, n): return NotImplemented
    def heap(self, x, t, n): return ('N', x.fresh())     # location of a new object
    def turn_end(self, x, n): pass       # before the written locations are forgotten
    def turn_start(self, x, n): pass     # after
    simplify = None         # (x, term): an equal term
    dispose = None          # (x, pointer, n): the object a unique_ptr owns is deleted
    strict_sub = False      # unsigned subtraction may wrap
    def on_write(self, x, loc, val, src): pass

@functools.lru_cache(maxsize=None)
def short(qn):
    """qualified name without template arguments"""
    out, d = [], 0
    i = 0
    while i < len(qn):
        ch = qn[i]
        if qn.startswith('operator', i) and (i == 0 or qn[i-1] == ':'):
            rest = qn[i:]
            for op in ('operator<<', 'operator>>', 'operator->', 'operator<=', 'operator>=', 'operator<', 'operator>'):
                if rest.startswith(op) and d == 0:
                    out.append(op); i += len(op); break
            else:
                if d == 0: out.append('operator')
                i += 8
            continue
        if ch == '<': d += 1
        elif ch == '>': d -= 1
        elif d == 0: out.append(ch)
        i += 1
    return ''.join(out)

def optarg(t):
    """the type in an optional"""
    i = t.find('std::optional<')
    return t[i + 14:t.rindex('>')] if i >= 0 else t

class Store(dict):
    """location -> value, with an index of the locations below each location"""
    def __init__(s): s.kids = {}
    def __setitem__(s, k, v):
        if k not in s:
            l = k
            while l[0] in ('.', '[]'):
                l = l[1]
                s.kids.setdefault(l, {})[k] = None
        dict.__setitem__(s, k, v)
    def __delitem__(s, k):
        dict.__delitem__(s, k)
        l = k
        while l[0] in ('.', '[]'):
            l = l[1]
            d = s.kids.get(l)
            if d is not None: d.pop(k, None)
    def setdefault(s, k, v):
        if k not in s: s[k] = v
        return s[k]

class X:
    """one abstract execution"""
    def __init__(s, model, policy, dec):
        s.m, s.pol, s.dec, s.pos = model, policy, dec, 0
        s.store, s.trace = Store(), []
        s.xt = {}
        s.facts = Facts(s.xt)
        s.ltype = {}
        s.frames = []
        s.nf = 0; s.nt = 0
        s.wlog = []
        s.loops = []
        s.src = ''
        s.result = None
        s.steps = 0
        s.excs = []

    # ---- decisions -----------------------------------------------------------------
    def choose(s, n, why=''):
        if n <= 1: return 0
        if s.pos < len(s.dec):
            c = s.dec[s.pos][0]
        else:
            c = 0
            s.dec.append((0, n))
        s.pos += 1
        return c

    def fact(s, op, a, b, truth):
        s.trace.append(Fact(op, a, b, truth, s.src))

    def cmp(s, op, a, b):
        """decide a op b, op in == < <= (others reduced)"""
        if op == '!=':
            r = not s.cmp('==', a, b)
            if r: s.lastne = within(a, b) or (a, b)
            return r
        if op == '>': return s.cmp('<', b, a)
        if op == '>=': return not s.cmp('<', a, b)
        numeric = s.isnum(a) and s.isnum(b)
        if not numeric:
            pr = within(a, b)
            if pr is not None and s.isnum(pr[0]) and s.isnum(pr[1]): return s.cmp(op, *pr)
            if op == '<=' or op == '<':
                key = (op, a, b)
                return s.opaque(key, op, a, b)
            if a == b: return True
            r = s.known_neq(a, b)
            if r: return False
            x, y = sorted((a, b), key=repr)
            return s.opaque(('==', x, y), '==', x, y)
        if op == '==':
            S, sg, k = canon(add(a, b, -1))
            if not S: return k == 0
            v = -k * sg
            r = s.facts.num.get(S)
            lo, hi = s.facts.bounds(('lin', 0, S))
            if lo is not None and lo == hi: return v == lo
            if (lo is not None and v < lo) or (hi is not None and v > hi): return False
            if r and v in r[2]: return False
            t = s.choose(2) == 0
            r = s.facts.num.setdefault(S, [None, None, set()])
            if t: r[0] = r[1] = v
            else:
                r[2].add(v)
                if r[0] is not None or lo is not None:
                    l = max(z for z in (r[0], lo) if z is not None)
                    while l in r[2]: l += 1
                    r[0] = l
                if hi is not None and hi in r[2]:
                    h = hi
                    while h in r[2]: h -= 1
                    r[1] = h if r[1] is None else min(r[1], h)
            s.fact('==', a, b, t)
            return t
        # a <= b  <=>  a-b <= 0 ; a < b <=> a-b <= -1
        d = add(a, b, -1)
        S, sg, k = canon(d)
        bound = 0 if op == '<=' else -1
        if not S: return k <= bound
        lo, hi = s.facts.bounds(d)
        if hi is not None and hi <= bound: return True
        if lo is not None and lo > bound: return False
        t = s.choose(2) == 0
        r = s.facts.num.setdefault(S, [None, None, set()])
        # d = sg*S + k ; want d<=bound (t) or d>=bound+1
        if t:
            if sg > 0: v = bound - k; r[1] = v if r[1] is None else min(r[1], v)
            else: v = k - bound; r[0] = v if r[0] is None else max(r[0], v)
        else:
            if sg > 0: v = bound + 1 - k; r[0] = v if r[0] is None else max(r[0], v)
            else: v = k - bound - 1; r[1] = v if r[1] is None else min(r[1], v)
        while r[0] is not None and r[0] in r[2]: r[0] += 1
        while r[1] is not None and r[1] in r[2]: r[1] -= 1
        if r[0] is not None and r[1] is not None and r[0] > r[1]: raise Infeasible()
        s.fact(op, a, b, t)
        for at, c in S:
            if at[0] == 'cast' and at[1][0] == 'u' and at[2] == 'i' + at[1][1:] and r[1 if c > 0 else 0] is not None: s.signed_view(S, at, c, r)
        return t

    def signed_view(s, S, at, c, r):
        """uN(v) is bounded below 2^(N-1): then v is not negative and equals it"""
        if abs(c) != 1: return
        rest = [x for x in S if x[0] != at]
        hi = r[1] if c > 0 else -r[0]
        for x, k in rest:
            l, h = s.facts.atom_bounds(x)
            z = l if c * k > 0 else h
            if z is None: return
            hi -= c * k * z
        if hi <= RANGE[at[2]][1]:
            e, sg, k = canon(add(at[3], at, -1))
            q = s.facts.num.setdefault(e, [None, None, set()])
            q[0] = q[1] = -k * sg
            if at[3][0] not in ('c', 'lin'):
                q = s.facts.num.setdefault(((at[3], 1),), [None, None, set()])
                q[0] = 0 if q[0] is None else max(q[0], 0)
                q[1] = hi if q[1] is None else min(q[1], hi)
                if q[0] > q[1]: raise Infeasible()

    def opaque(s, key, op, a, b):
        if key in s.facts.tr: return s.facts.tr[key]
        t = s.choose(2) == 0
        s.facts.tr[key] = t
        s.fact(op, a, b, t)
        return t

    def assume(s, op, a, b, truth=True):
        """record a fact without branching (infeasible when contradicted)"""
        if op == '!=': return s.assume('==', a, b, not truth)
        if op == '>=': return s.assume('<', a, b, not truth)
        # decide with forced choice
        save = s.choose
        s.choose = lambda k, why='': 0 if truth else 1
        try:
            r = s.cmp(op, a, b)
        finally:
            s.choose = save
        if r != truth: raise Infeasible()

    def isnum(s, t):
        k = t[0]
        if k in ('c', 'lin'): return True
        if k in ('null', 'str', 'ptr', 'obj', 'lam', 'new', 'fn'): return False
        tk = s.xt.get(t)
        if tk is not None: return tk in RANGE
        if k == 'cast': return t[1] in RANGE
        if k == 'bin': return True
        return False

    def known_neq(s, a, b):
        solid = ('ptr', 'lam', 'new', 'fn')
        if a == NULL and b[0] in solid: return True
        if b == NULL and a[0] in solid: return True
        if a[0] == b[0] == 'str' and a != b: return True
        if a[0] == 'ptr' and b[0] == 'ptr':
            if a[1][0] == 'G' and b[1][0] == 'G' and a != b: return True
        return False

    def truth(s, v):
        if v[0] == 'c': return v[1] != 0
        if v == NULL: return False
        if v[0] in ('ptr', 'lam', 'new', 'fn', 'str'): return True
        if v[0] == 'obj':
            return s.truth(s.get(v[1]))
        if s.isnum(v):
            return s.cmp('!=', v, C(0))
        if s.xt.get(v) == 'p' or v[0] in ('in', 'ev', 'fld'):
            return not s.cmp('==', v, NULL)
        return s.opaque(('t', v), 'true', v, C(1))

    # ---- store -----------------------------------------------------------------------
    def get(s, loc, tk=None):
        st = s.store
        if s.pol.on_load is not None and loc[0] == '[]':
            r = s.pol.on_load(s, loc)
            if r is not None: return r
        if loc in st:
            v = st[loc]
        elif loc[0] == '[]' and loc[1][0] == 'G' and loc[2][0] == 'c' and str(loc[1][1]).startswith('str:'):
            z = loc[1][1][4:] + chr(0)
            v = C(ord(z[loc[2][1]])) if 0 <= loc[2][1] < len(z) else s.derive(loc)
        else:
            v = s.derive(loc)
        if tk and v[0] not in ('c',) and v not in s.xt:
            s.xt[v] = tk
        return v

    def derive(s, loc):
        st = s.store
        # find nearest ancestor with a value
        path = []
        l = loc
        while True:
            if l in st:
                v = st[l]
                break
            if l[0] in ('.', '[]'):
                path.append(l); l = l[1]
            else:
                return ('in', loc)
        for p in reversed(path):
            key = p[2]
            if v[0] == 'in':
                v = ('in', (p[0], v[1], key))
            elif v[0] == 'zero':
                v = v
            elif v[0] == 'str' and p[0] == '[]' and key[0] == 'c' and 0 <= key[1] <= len(v[1]):
                v = C(ord((v[1] + chr(0))[key[1]]))
            else:
                v = ('fld', v, key if p[0] == '.' else ('[]', key))
        if v[0] == 'zero': return C(0)
        return v

    def under(s, loc):
        """store keys strictly below loc"""
        d = s.store.kids.get(loc)
        return list(d) if d else []

    def set(s, loc, val, log=True):
        for k in s.under(loc):
            del s.store[k]
        if loc[0] == '[]' and loc[2][0] != 'c':
            base = loc[1]
            for k in [k for k in s.under(base) if k != loc and not s.isunder(k, loc) and not s.apart(k, base, loc[2])]:
                del s.store[k]
            s.store.setdefault(base, ('un', s.fresh(), 'arr'))
        s.store[loc] = val
        s.wlog.append(loc)
        if log:
            s.pol.on_write(s, loc, val, s.src)

    def apart(s, k, base, i):
        """k lies in an element of base other than i"""
        while k[1] != base: k = k[1]
        if k[0] != '[]' or not (s.isnum(k[2]) and s.isnum(i)): return False
        kk, d = lin(add(k[2], i, -1))
        return not d and kk != 0

    def isunder(s, k, loc):
        while k[0] in ('.', '[]'):
            k = k[1]
            if k == loc: return True
        return False

    def fresh(s):
        s.nt += 1
        return s.nt

    def havoc(s, loc, why='havoc'):
        s.set(loc, ('un', s.fresh(), why), log=False)

    def copy(s, dst, src):
        if dst == src: return
        sub = [(k, s.store[k]) for k in s.under(src)]
        base = s.store.get(src)
        if base is None: base = s.derive(src)
        s.set(dst, base)
        for k, v in sub:
            nk = rebase(k, src, dst)
            s.store[nk] = v
            s.pol.on_write(s, nk, v, s.src)
        if src in s.ltype: s.ltype[dst] = s.ltype[src]

    def temp(s, typ=None):
        t = ('T', s.fresh())
        if typ: s.ltype[t] = typ
        return t

    def deref(s, v):
        if v[0] == 'ptr': return v[1]
        if v[0] == 'obj': return v[1]
        if v[0] == 'str' or v[0] == 'padd' and v[1][0] == 'str': return s.elem(v, C(0))
        return ('*', v)

    # ---- events ----------------------------------------------------------------------
    def event(s, kind, name, obj=None, args=(), node=None, **x):
        e = Ev(kind, name, obj, args, s.src, node, **x)
        e.i = len(s.trace)
        e.loops = tuple(s.loops)
        e.stack = tuple(f.fn.get('qn', '?') for f in s.frames)
        s.trace.append(e)
        return e

    # ---- statements -------------------------------------------------------------------
    def run(s, n):
        if n is None: return
        s.steps += 1
        if s.steps > 60000: raise AnalysisError('abstract path too long at ' + n.get('l', '?'))
        k = n['k']
        if 'l' in n: s.src = n['l']
        if k == 'Block': return s.block(n['s'])
        if k == 'Expr':
            s.ev(n['e']); return
        if k == 'Decl':
            for d in n['d']: s.decl(d)
            return
        if k == 'If': return s.if_(n)
        if k == 'Return':
            if 'e' in n:
                f = s.frames[-1]
                if f.fn.get('rtk') == 'r':
                    raise Ret(('ptr', s.reflv(n['e'])))
                v = s.ev(n['e'])
                if v[0] == 'obj':
                    t = s.temp()
                    s.copyobj(t, v[1], n['e'])
                    v = ('obj', t)
                raise Ret(v)
            raise Ret(C(0))
        if k == 'Log': return s.pol.on_log(s, n)
        if k == 'Null': return
        if k in ('For', 'While', 'Do'): return s.loop(n)
        if k == 'ForRange': return s.forrange(n)
        if k == 'Switch': return s.switch(n)
        if k == 'Break': raise Brk()
        if k == 'Continue': raise Cont()
        if k == 'Try': return s.try_(n)
        if k in ('Case', 'Default'): return s.run(n['body'])
        if k == 'UnkS':
            return
        raise AnalysisError('statement kind ' + k)

    def copyobj(s, dst, src, n=None):
        s.copy(dst, src)

    def block(s, stmts):
        f = s.frames[-1]
        mark = len(f.locals)
        try:
            for x in stmts:
                s.run(x)
        except Terminate:
            raise
        except (Infeasible, Restart):
            raise
        except AnalysisError:
            raise
        except BaseException:
            s.unwind(f, mark)
            raise
        s.unwind(f, mark)

    def unwind(s, f, mark):
        while len(f.locals) > mark:
            loc, d = f.locals.pop()
            s.destroy(loc, d)

    def destroy(s, loc, d):
        t = d.get('t', '')
        src = s.src
        if t.startswith(('std::lock_guard', 'std::unique_lock', 'std::scoped_lock')):
            g = s.get(loc)
            if g[0] == 'guard' and g[2]:
                s.event('unlock', 'mutex', g[1])
            return
        if t.startswith('std::unique_ptr'):
            v = s.get(loc)
            if v == NULL: return
            s.event('drop', t, loc, [v])
            if s.pol.dispose: s.pol.dispose(s, v, d)
            return
        fn = s.m.fns.get(d.get('dtor'))
        if fn and fn.get('body') and fn['body'].get('s') and s.pol.inline(s, fn, d):
            s.call_fn(fn, loc, [], d)
        s.src = src

    def decl(s, d):
        if d['k'] == 'Decomp':
            s.decl(d['var'])
            f = s.frames[-1]
            base = f.env[d['var']['id']]
            tup = s.get(base)
            if tup[0] == 'ptr': tup = s.get(tup[1])
            for i, b in enumerate(d['b']):
                if tup[0] == 'tuple' and i < len(tup[1]):
                    l = s.deref(tup[1][i])
                    if 'e' in b and 'id' in b['e']: f.env[b['e']['id']] = l
                else: l = s.reflv(b['e']) if 'e' in b else ('.', base, b['n'])
                f.env[b['id']] = l
            return
        f = s.frames[-1]
        if d.get('static'):
            loc = ('G', d['id'])
            f.env[d['id']] = loc
            s.ltype[loc] = strip_cv(d['t'])
            if 'init' in d and d['tk'] == 'a' and 'const' in d['t'] and d['init']['k'] in ('InitList', 'Str') and loc not in s.store:
                s.init(loc, d['init'], d['t'])                          # a constant table
            elif 'init' in d and d['tk'] != 'o' and loc not in s.store:
                if 'cv' in d['init'] and 'const' in d['t']: s.set(loc, s.ev(d['init']))
                elif s.choose(2) == 0: s.set(loc, s.ev(d['init']))     # else: initialised in an earlier call
            return
        loc = ('L', f.n, d['id'], d['n'])
        f.env[d['id']] = loc
        s.ltype[loc] = strip_cv(d['t'])
        if d['tk'] == 'r':
            s.set(loc, ('ptr', s.reflv(d['init'])))
            return
        for k in s.under(loc): del s.store[k]
        if 'init' in d:
            s.init(loc, d['init'], d['t'])
            if d['tk'] == 'a': s.ltype[loc] = strip_cv(d['t'])
        else:
            s.set(loc, ('un', s.fresh(), 'uninit:' + d['n']))
        if d.get('dtor'):
            f.locals.append((loc, d))

    def init(s, loc, n, typ=None):
        """initialise the object at loc from expression n"""
        if typ: s.ltype.setdefault(loc, strip_cv(typ))
        k = n['k']
        if n['tk'] == 'o' or n['tk'] == 'a':
            if k == 'Ctor': return s.construct(n, loc)
            if k == 'InitList': return s.initlist(n, loc)
            if k == 'Zero':
                return s.set(loc, ('zero',))
            v = s.ev(n)
            if v[0] == 'obj': s.moveinto(loc, v[1], n.get('t', ''))
            else: s.set(loc, v)
            return
        s.set(loc, s.ev(n))

    def moveinto(s, dst, src, t):
        s.copy(dst, src)

    def initlist(s, n, loc):
        if n['tk'] == 'o' and 'f' in n:
            s.set(loc, ('zero',))
            for f, e in zip(n['f'], n['a']):
                if f.startswith('base:'):
                    s.init(loc, e)
                    continue
                fd = s.m.field(strip_cv(n.get('t', '')), f)
                if fd and fd['tk'] == 'r': s.set(('.', loc, f), ('ptr', s.reflv(e)))
                else: s.init(('.', loc, f), e)
        elif n['tk'] == 'a':
            s.set(loc, ('zero',))
            for i, e in enumerate(n['a']):
                s.init(('[]', loc, C(i)), e)
        else:
            if len(n['a']) == 1: s.set(loc, s.ev(n['a'][0]))
            else: s.set(loc, C(0))

    def cond(s, n):
        return s.truth(s.ev(n))

    def if_(s, n):
        f = s.frames[-1]
        mark = len(f.locals)
        if n.get('init'): s.run(n['init'])
        if n.get('cv'): s.decl(n['cv'])
        if n['c'] is None: return
        if n.get('cx') and 'cv' in n['c']:
            t = n['c']['cv'] != 0
        else:
            t = s.cond(n['c'])
        try:
            if t: s.run(n['then'])
            elif n.get('else'): s.run(n['else'])
        finally:
            pass
        s.unwind(f, mark)

    def switch(s, n):
        if n.get('init'): s.run(n['init'])
        if n.get('cv'): s.decl(n['cv'])
        v = s.ev(n['c'])
        body = n['body']
        stmts = body['s'] if body['k'] == 'Block' else [body]
        # flatten labels
        flat = []
        def flatten(x):
            if x['k'] in ('Case', 'Default'):
                flat.append(('label', x)); flatten(x['body'])
            else:
                flat.append(('stmt', x))
        for x in stmts:
            if x is not None: flatten(x)
        start = None; default = None
        for i, (kk, x) in enumerate(flat):
            if kk != 'label': continue
            if x['k'] == 'Default': default = i; continue
            cv = C(x['v']['cv']) if 'cv' in x['v'] else s.ev(x['v'])
            if 'v2' in x:
                if not s.cmp('<', v, cv) and s.cmp('<=', v, C(x['v2']['cv'])): start = i; break
            elif s.cmp('==', v, cv): start = i; break
        if start is None:
            if n.get('all') and v[0] != 'c' and s.pol_closed_enum(n, v):
                raise Infeasible()
            start = default
        if start is None: return
        f = s.frames[-1]
        mark = len(f.locals)
        try:
            for kk, x in flat[start:]:
                if kk == 'stmt': s.run(x)
        except Brk:
            pass
        s.unwind(f, mark)

    def pol_closed_enum(s, n, v):
        fnc = getattr(s.pol, 'closed_enum', None)
        return fnc(s, n, v) if fnc else False

    def try_(s, n):
        try:
            s.run(n['body'])
        except Thrown as t:
            for h in n['h']:
                if catches(h['t'], t.typ):
                    s.event('catch', h['t'], None, [], h, why=t.why, typ=t.typ, tsrc=t.src)
                    if 'id' in h:
                        f = s.frames[-1]
                        loc = ('L', f.n, h['id'], 'exc')
                        f.env[h['id']] = loc
                        l2 = s.temp(strip_cv(h['t']).rstrip('& '))
                        s.set(loc, ('ptr', l2) if h.get('tk') == 'r' else ('un', s.fresh(), 'exc'))
                    s.excs.append(t)
                    try:
                        s.run(h['body'])
                    finally:
                        s.excs.pop()
                    return
            raise

    def copyloop(s, n):
        """for (i = 0; i < N; ++i) dst[i] = src[i] over bytes is the block copy it stands for"""
        if n['k'] != 'For' or not all(n.get(k) for k in ('init', 'c', 'inc', 'body')): return False
        d = n['init'].get('d', ())
        if n['init'].get('k') != 'Decl' or len(d) != 1 or d[0].get('k') != 'Var' or (d[0].get('init') or {}).get('cv') != 0: return False
        i = d[0]['id']
        ref = lambda e: e.get('k') == 'Ref' and e.get('id') == i
        def peel(e):
            while e.get('k') in ('L2R', 'Cast', 'Paren'): e = e['e']
            return e
        has = lambda e: any(ref(q) for q in walk(e))
        def lastadd(e):
            e = peel(e)
            return ref(e) or (e.get('k') == 'Bin' and e.get('op') == '+' and (lastadd(e['x']) or lastadd(e['y'])))
        c, inc = peel(n['c']), peel(n['inc'])
        if not (c.get('k') == 'Bin' and c.get('op') in ('<', '!=') and ref(peel(c['x'])) and not has(c['y'])): return False
        if not (inc.get('k') == 'Un' and inc.get('op') == '++' and ref(peel(inc['e']))): return False
        b = n['body']
        if b.get('k') == 'Block':
            if len(b['s']) != 1: return False
            b = b['s'][0]
        if b.get('k') != 'Expr': return False
        b = peel(b['e'])
        if not (b.get('k') == 'Bin' and b.get('op') == '='): return False
        l, r = peel(b['x']), peel(b['y'])
        def sub(e):
            if e.get('k') == 'Sub': return e['b'], e['i']
            if e.get('k') == 'OpCall' and e.get('name') == 'operator[]' and e.get('cls', '').startswith(('std::array<', 'std::vector<')):
                p = ([e['obj']] if e.get('obj') else []) + list(e.get('a', ()))
                return (p[0], p[1]) if len(p) == 2 else (None, None)
            return None, None
        for e in (l, r):
            q = sub(e)
            if q[0] is None or e.get('tk') not in ('u8', 'i8') or has(q[0]) or len([z for z in walk(q[1]) if ref(z)]) != 1 or not lastadd(q[1]): return False
        f = s.frames[-1]
        mark = len(f.locals)
        s.run(n['init'])
        dst, src = [s.ev(sub(e)[0]) if e.get('k') == 'Sub' and ref(peel(sub(e)[1])) else ('ptr', s.lv(e)) for e in (l, r)]
        s.memcpy(n, [dst, src, s.ev(c['y'])])
        s.unwind(f, mark)
        return True

    def loop(s, n):
        if s.pol.copyloops and s.copyloop(n): return
        if n['k'] == 'Do' and n['c'].get('cv') == 0 or (n['k'] == 'Do' and n['c'].get('k') == 'Cast' and n['c']['e'].get('cv') == 0):
            try: s.run(n['body'])                   # do ... while (0)
            except (Cont, Brk): pass
            return
        if s.pol.on_loop(s, n) is not NotImplemented: return
        f = s.frames[-1]
        mark = len(f.locals)
        if n.get('init'): s.run(n['init'])
        it = 0
        gen = 0
        w0 = len(s.wlog)
        snap0 = dict(s.store)
        mono = Mono()
        first = n['k'] == 'Do'
        while True:
            concrete = True
            start = {l: s.store[l] for l in dict.fromkeys(s.wlog[w0:]) if l in s.store and s.live(l)} if gen else {}
            if n.get('cv'): s.decl(n['cv'])
            if not (first and it == 0) and n.get('c') is not None:
                p0 = s.pos
                s.lastne = None
                t = s.cond(n['c'])
                mono.guard = s.lastne
                concrete = s.pos == p0
                if not t: break
            else: p0 = s.pos; mono.guard = None
            if n.get('c') is None: concrete = False
            if first and it == 0: concrete = False
            if not concrete: gen += 1
            if gen > 2:
                # generic iteration done: leave (anything later repeats it)
                raise Infeasible()
            if concrete and it >= s.pol.max_loop:
                # long counted loop: continue with one generic iteration
                s.pol.turn_end(s, n)
                s.forget(n, w0, snap0, mono)
                s.pol.turn_start(s, n)
                gen = 1; it += 1
                if n.get('c') is not None and s.pos == p0 and it > s.pol.max_loop + 2:
                    raise Diverge('loop does not end', n['l'])
                continue
            s.loops.append((n['l'], it, 'generic' if (not concrete and it >= 1) else 'first'))
            s.event('loop', n['l'], None, [], n, it=it)
            try:
                s.run(n['body'])
            except Cont:
                pass
            except Brk:
                s.loops.pop()
                s.event('endloop', n['l'], None, [], n, it=it, brk=True)
                s.unwind(f, mark)
                return
            except BaseException:
                s.loops.pop()
                raise
            s.loops.pop()
            if n.get('inc'): s.ev(n['inc'])
            if start: s.event('turn', n['l'], None, [], n, delta={l: (v, s.store[l]) for l, v in start.items() if l in s.store})
            if not concrete:
                s.pol.turn_end(s, n)
                s.forget(n, w0, snap0, mono)
                s.pol.turn_start(s, n)
            it += 1
        s.event('endloop', n['l'], None, [], n, it=it)
        s.unwind(f, mark)

    def forget(s, n, w0, snap0, mono):
        """forget what the turns wrote; a counter that only grows stays at or above its first value (checked at
        the end of each turn; when it turns out not to grow the exploration restarts without the assumption)"""
        for loc, (tok, key) in mono.items():
            v = s.store.get(loc)
            if v is not None and v[0] == 'ptr' and v[1][0] == '[]': v = v[1][2]
            lo = s.facts.bounds(add(v, tok, -1))[0] if v is not None and s.isnum(v) else None
            if lo is None or lo < 0:
                s.m.nomono.add(key); raise Restart()
        for loc, (tok, y, key) in mono.upto.items():
            v = s.store.get(loc)
            if v is not None and v[0] == 'ptr' and v[1][0] == '[]': v = v[1][2]
            if mono.guard != (tok, y) or v is None or not s.isnum(v) or add(v, tok, -1) != C(1):
                s.m.nomono.add(key); raise Restart()
        mono.upto.clear()
        locs = [l for l in dict.fromkeys(s.wlog[w0:]) if s.live(l)]
        ends = {l: s.store.get(l) for l in locs}
        mono.clear()
        for loc in locs:
            v0, v1 = snap0.get(loc), ends[loc]
            pr = within(v0, v1) if v0 is not None and v1 is not None else None
            key = (n['l'], loc[-1] if loc[0] == 'L' else loc, 'p')
            if loc in mono.walk and pr is None: s.m.nomono.add(key); raise Restart()
            if pr is not None and pr[0] != pr[1] and s.isnum(pr[1]) and s.isnum(pr[0]) and key not in s.m.nomono:
                # a pointer that walks through one array
                base = v1[1][1] if v1[1][0] == '[]' else v0[1][1]
                tok = ('un', s.fresh(), 'loop'); s.xt[tok] = 'i64'
                s.set(loc, ('ptr', ('[]', base, tok)), log=False)
                mono.walk.add(loc)
                d = s.facts.bounds(add(pr[1], pr[0], -1))[0]
                k2 = key + ('up',)
                if d is not None and d >= 0 and k2 not in s.m.nomono:
                    mono[loc] = (tok, k2)
                    s.assume('<=', pr[0], tok)
                s.upto(mono, loc, tok, pr[1], key + ('ne',))
            else: s.havoc(loc, 'loop')
        for loc in locs:
            v0, v1 = snap0.get(loc), ends[loc]
            key = (n['l'], loc[-1] if loc[0] == 'L' else loc)
            if v0 is None or v1 is None or key in s.m.nomono or loc not in s.store: continue
            if v0[0] not in ('c', 'in', 'lin', 'ev', 'un') or not (s.isnum(v0) and s.isnum(v1)): continue
            tk = s.xt.get(v0) or s.xt.get(v1)
            tok = s.store[loc]
            t = None
            tl = s.ltype.get(loc)
            for k, nm in (('i32', 'int'), ('u32', 'unsigned int'), ('u64', 'unsigned long'), ('i64', 'long'), ('u16', 'unsigned short'), ('u8', 'unsigned char')):
                if tl == nm: t = k
            t = t or tk
            if t not in RANGE: continue
            s.xt.setdefault(tok, t)
            d = s.facts.bounds(add(v1, v0, -1))[0]
            if d is not None and d >= 0:
                mono[loc] = (tok, key)
                s.assume('<=', v0, tok)
            s.upto(mono, loc, tok, v1, key + ('ne',))

    def upto(s, mono, loc, tok, v1, key):
        """a counter that grows by one and is compared with != against the same end at every turn stays at or below
        that end (checked like the growing counters)"""
        g = mono.guard
        if g is None or key in s.m.nomono or not (s.isnum(g[0]) and s.isnum(g[1]) and s.isnum(v1)): return
        if add(v1, g[0], -1) != C(1): return
        lo = s.facts.bounds(add(g[1], g[0], -1))[0]
        if lo is None or lo < 0: return
        mono.upto[loc] = (tok, g[1], key)
        s.assume('<=', tok, g[1])

    def live(s, loc):
        """may loc matter after the current iteration (not a temporary / inner frame local)"""
        l = loc
        while l[0] in ('.', '[]'): l = l[1]
        if l[0] == 'T': return False
        if l[0] == 'L': return any(f.n == l[1] for f in s.frames)
        return True

    def forrange(s, n):
        if s.pol.on_loop(s, n) is not NotImplemented: return
        f = s.frames[-1]
        if n.get('init'): s.run(n['init'])
        rng = s.reflv(n['range'])
        w0 = len(s.wlog)
        it = 0
        known = s.get(rng)
        elems = None
        if known[0] == 'list': elems = [('[]', rng, C(i)) for i in range(known[1])]
        elif s.extent(rng, n['range'].get('t')): elems = [('[]', rng, C(i)) for i in range(s.extent(rng, n['range'].get('t')))]
        while True:
            if elems is not None:
                if it >= len(elems): break
            else:
                more = s.choose(2) == 0 if it < 2 else False
                s.fact('more', known, C(it), more)
                if not more: break
            s.loops.append((n['l'], it, 'generic' if it else 'first'))
            s.event('loop', n['l'], rng, [], n, it=it)
            v = n['var']
            loc = ('L', f.n, v['id'], v['n'])
            f.env[v['id']] = loc
            el = ('[]', rng, ('un', s.fresh(), 'elem')) if elems is None else elems[it]
            s.elem_type(el, n)
            if v['tk'] == 'r': s.set(loc, ('ptr', el))
            else: s.copy(loc, el)
            vt = re.sub(r'\b(const|volatile)\b|&', '', v['t']).strip()
            base = el if v['tk'] == 'r' else loc
            for i, b in enumerate(n.get('b', ())):
                f.env[b['id']] = ('.', base, b.get('f') or ('arg%d' % i if vt.startswith('std::tuple') else ('first', 'second')[i] if vt.startswith('std::pair') else b['n']))
            try:
                s.run(n['body'])
            except Cont: pass
            except Brk:
                s.loops.pop(); s.event('endloop', n['l'], rng, [], n, it=it, brk=True); return
            except BaseException:
                s.loops.pop()
                raise
            s.loops.pop()
            if elems is None:
                s.pol.turn_end(s, n)
                for l in list(dict.fromkeys(s.wlog[w0:])):
                    if s.live(l): s.havoc(l, 'loop')
                s.pol.turn_start(s, n)
            it += 1
        s.event('endloop', n['l'], rng, [], n, it=it)

    def elem_type(s, el, n): pass

    def array_type(s, loc, t=None):
        """(element type, length) of the array at loc, None if it is not known to be one"""
        for x in (s.dyn_type(loc, None), strip_cv(t or '')):
            m = x and (re.match(r'^std::array<(.*), (\d+)>$', x) or re.match(r'^(.*?) ?\[(\d+)\]$', x))
            if m: return m.group(1), int(m.group(2))

    def extent(s, loc, t=None):
        """the length of a short array, which is walked element by element"""
        a = s.array_type(loc, t)
        return a[1] if a and a[1] <= 4 else None

    # ---- expressions --------------------------------------------------------------------
    def reflv(s, n):
        if n.get('lv') or n['tk'] == 'o': return s.lv(n)
        t = s.temp(n['t'])
        if n['tk'] == 'a': s.init(t, n); return t
        s.set(t, s.ev(n), log=False)
        return t

    def lookup(s, n):
        i = n['id']
        for f in reversed(s.frames[-1:]):
            if i in f.env: return f.env[i]
        loc = ('G', i)
        if loc not in s.ltype: s.ltype[loc] = strip_cv(n.get('t', ''))
        if loc not in s.store:
            if 'cv' in n: s.store[loc] = C(n['cv'])
            elif n.get('t', '').startswith('const ') and isinstance(i, str) and i.startswith('g:'):
                g = s.m.globs.get(i[2:])
                if g and (g.get('init') or {}).get('cv') is not None: s.store[loc] = C(g['init']['cv'])
        return loc

    def lv(s, n):
        k = n['k']
        if k == 'Ref':
            loc = s.lookup(n)
            if n.get('vtk') == 'r':
                v = s.get(loc)
                return s.deref(v)
            return loc
        if k == 'Mem':
            base = s.deref(s.ev(n['b'])) if n['arrow'] else s.reflv(n['b'])
            loc = ('.', base, n['n'])
            s.pol.on_mem(s, loc, n)
            if base[0] == 'mpair':
                loc = ('[]', base[1], base[2]) if n['n'] == 'second' else s.tmpval(base[2])
            if n['ftk'] == 'r':
                return s.deref(s.get(loc))
            return loc
        if k == 'This': return s.temp_ptr(s.frames[-1].this)
        if k == 'Un':
            op = n['op']
            if op == '*': return s.deref(s.ev(n['e']))
            if op in ('++', '--'):
                loc = s.lv(n['e'])
                s.step(n, loc)
                return loc
            if op in ('__extension__', '__real', '+'): return s.lv(n['e'])
        if k == 'Sub':
            b = s.ev(n['b']); i = s.ev(n['i'])
            return s.elem(b, i)
        if k == 'Bin':
            if n['op'] == '=':
                loc = s.lv(n['x'])
                if n['x']['tk'] == 'o':
                    s.init(loc, n['y'])
                else:
                    s.set(loc, s.ev(n['y']))
                return loc
            if n['op'] == ',':
                s.ev(n['x']); return s.lv(n['y'])
            if n['op'] in ('.*', '->*'):
                return ('*', ('un', s.fresh(), 'memptr'))
        if k == 'CAsg':
            loc = s.lv(n['x'])
            y = s.ev(n['y'])
            v = s.arith(n['op'], s.get(loc, n['x']['tk']), y, n.get('ctk', n['tk']))
            s.set(loc, s.conv(v, n.get('ctk', n['tk']), n['tk']))
            return loc
        if k == 'Cond':
            return s.reflv(n['x']) if s.cond(n['c']) else s.reflv(n['y'])
        if k in ('Same', 'Cast'):
            return s.reflv(n['e'])
        if k in ('L2R',):
            v = s.ev(n)
            if v[0] == 'obj': return v[1]
            t = s.temp(n['t']); s.set(t, v, log=False); return t
        if k == 'Str':
            t = ('G', 'str:' + n['v']); return t
        v = s.ev(n)
        if v[0] in ('ptr', 'obj'): return v[1]
        if n.get('lv'): return ('*', v)
        t = s.temp(n['t']); s.set(t, v, log=False)
        return t

    def temp_ptr(s, loc):
        t = s.temp(); s.set(t, ('ptr', loc), log=False); return t

    def elem(s, b, i):
        if b[0] == 'ptr':
            l = b[1]
            if l[0] == '[]': return ('[]', l[1], add(l[2], i))
            if i == C(0): return l
            return ('[]', l, i)
        if b[0] == 'padd': return s.elem(b[1], add(b[2], i))
        if b[0] == 'str': return ('[]', ('G', 'str:' + b[1]), i)
        return ('[]', ('*', b), i)

    def step(s, n, loc):
        tk = n['e']['tk']
        v = s.get(loc, tk)
        d = 1 if n['op'] == '++' else -1
        if tk == 'p': nv = s.padd(v, C(d))
        else:
            nv = add(v, C(d))
            if nv[0] == 'c': nv = C(wrap(nv[1], tk))
        if tk in RANGE and nv[0] != 'c': s.xt.setdefault(nv, tk) if nv[0] not in ('lin',) else None
        s.set(loc, nv)
        return v, nv

    def padd(s, p, i):
        if p[0] == 'ptr':
            l = p[1]
            if l[0] == '[]': return ('ptr', ('[]', l[1], add(l[2], i)))
            if i == C(0): return p
            return ('ptr', ('[]', l, i))
        if p[0] == 'padd':
            r = add(p[2], i)
            return p[1] if r == C(0) else ('padd', p[1], r)
        if i == C(0): return p
        return ('padd', p, i)

    def conv(s, v, frm, to):
        if to == 'b':
            if frm == 'b': return v
            if v[0] == 'c': return C(v[1] != 0)
            return C(s.truth(v))
        if to in RANGE:
            if v[0] == 'c': return C(wrap(v[1], to))
            if frm == to: return v
            if preserving(frm, to): return v
            if v[0] == 'cast' and v[1] == frm and v[2] == to and False: return v[3]
            r = ('cast', to, frm, v)
            lo, hi = s.facts.bounds(v) if s.isnum(v) else (None, None)
            if lo is not None and hi is not None and to in RANGE and lo >= RANGE[to][0] and hi <= RANGE[to][1]:
                return v
            s.xt[r] = to
            return r
        return v

    def arith(s, op, a, b, tk):
        if op in ('+', '-') and tk == 'p':
            if op == '-' and (a[0] in ('ptr', 'padd') or not s.isnum(a)) and not s.isnum(b):
                return ('bin', '-', a, b)
            return s.padd(a, b if op == '+' else scale(b, -1))
        if op == '+': r = add(a, b)
        elif op == '-':
            if not (s.isnum(a) or a[0] in ('in', 'un', 'ev', 'fld')): r = ('bin', '-', a, b)
            else: r = add(a, b, -1)
        elif op == '*':
            if a[0] == 'c': r = scale(b, a[1])
            elif b[0] == 'c': r = scale(a, b[1])
            else: r = ('bin', '*') + tuple(sorted((a, b), key=repr))
        else:
            if a[0] == 'c' and b[0] == 'c':
                x, y = a[1], b[1]
                try:
                    n = {'/': lambda: int(x / y) if abs(x) < 2**50 else x // y, '%': lambda: x - y * int(x / y) if abs(x) < 2**50 else x % y,
                         '<<': lambda: x << y, '>>': lambda: x >> y, '&': lambda: x & y, '|': lambda: x | y, '^': lambda: x ^ y}[op]()
                    r = C(n)
                    if op in ('<<', '>>') and tk in RANGE and y >= int(tk[1:] or 64): r = ('un', s.fresh(), 'shift')      # undefined
                except (ZeroDivisionError, KeyError, ValueError):
                    r = ('bin', op, a, b)
            else:
                if op in ('&', '|', '^') and repr(a) > repr(b): a, b = b, a
                if op == '|' and a == C(0): return b
                if op == '|' and b == C(0): return a
                if op in ('<<', '>>', '/') and ((op == '/' and b == C(1)) or (op != '/' and b == C(0))): return a
                if op == '%' and b[0] == 'c' and b[1] > 0 and s.isnum(a):
                    lo, hi = s.facts.bounds(a)
                    if lo is not None and lo >= 0 and hi is not None and hi < b[1]: return a
                r = ('bin', op, a, b)
                s.xt.setdefault(r, tk)
                if op == '|' and s.pol.simplify: r = s.pol.simplify(s, r)
        if op == '+' and r[0] == 'lin' and s.pol.simplify: r = s.pol.simplify(s, r)
        if r[0] == 'c': r = C(wrap(r[1], tk))
        elif op == '-' and s.pol.strict_sub and tk in ('u32', 'u64', 'u16', 'u8'):
            lo, hi = s.facts.bounds(r)
            if lo is None or lo < 0:
                r = ('cast', tk, 'int', r); s.xt[r] = tk
        return r

    def ev(s, n):
        s.steps += 1
        if s.steps > 200000: raise AnalysisError('abstract path too long at ' + n.get('l', '?'))
        k = n['k']
        if 'cv' in n and k not in ('Call', 'MCall', 'OpCall', 'Ctor', 'Bin', 'Un', 'CAsg', 'Cond'):
            return C(n['cv'])
        if 'cv' in n and k in ('Bin', 'Un', 'Cond', 'Call', 'MCall', 'OpCall'):
            return C(n['cv'])
        if k == 'L2R':
            loc = s.lv(n['e'])
            if n['tk'] == 'o': return ('obj', loc)
            if n['e'].get('cv') is not None: return C(n['e']['cv'])
            return s.get(loc, n['tk'])
        if k == 'Same':
            return s.ev(n['e'])
        if k == 'Cast': return s.cast(n)
        if k == 'Bin': return s.bin(n)
        if k == 'Un': return s.un(n)
        if k in ('Call', 'MCall', 'OpCall'):
            src = s.src
            s.src = n['l']
            r = s.call(n)
            s.src = src
            return r
        if k == 'This': return ('ptr', s.frames[-1].this)
        if k in ('Ref', 'Mem'):
            if k == 'Ref' and n.get('dk') == 'fn': return ('fn', n['fn'], n['qn'])
            if k == 'Ref' and n.get('dk') == 'enum' and 'cv' in n: return C(n['cv'])
            if n['tk'] == 'o': return ('obj', s.lv(n))
            return s.get(s.lv(n), n['tk'])
        if k == 'Sub':
            if n['tk'] == 'o': return ('obj', s.lv(n))
            return s.get(s.lv(n), n['tk'])
        if k in ('CAsg',):
            return s.get(s.lv(n))
        if k == 'Cond':
            return s.ev(n['x']) if s.cond(n['c']) else s.ev(n['y'])
        if k == 'Ctor':
            t = s.temp(n['cls'])
            s.construct(n, t)
            return ('obj', t)
        if k == 'InitList':
            t = s.temp(n['t'])
            if n['tk'] in ('o', 'a'):
                s.initlist(n, t)
                return ('obj', t)
            if len(n['a']) == 1: return s.ev(n['a'][0])
            return C(0)
        if k == 'Zero':
            if n['tk'] == 'o':
                t = s.temp(n['t']); s.set(t, ('zero',), log=False); return ('obj', t)
            if n['tk'] == 'p': return NULL
            return C(0)
        if k == 'Str': return ('str', n['v'])
        if k == 'NullP': return NULL
        if k == 'Int': return C(n.get('cv', 0))
        if k == 'Float': return ('float', n['v'])
        if k == 'Lambda': return s.mklambda(n)
        if k == 'New':
            if n['pl']:
                p = s.ev(n['pl'][-1])
                loc = s.deref(p)
            else:
                loc = s.pol.heap(s, strip_cv(n['at']), n)
            s.ltype[loc] = strip_cv(n['at'])
            if n.get('init'): s.init(loc, n['init'])
            e = s.event('new', n['at'], loc, [], n)
            return ('ptr', loc)
        if k == 'Delete':
            v = s.ev(n['e']); s.event('delete', n['e']['t'], None, [v], n); return C(0)
        if k == 'Throw':
            if 'e' not in n:
                if s.excs: raise s.excs[-1]
                s.event('terminate', 'rethrow without active exception', None, [], n)
                raise Terminate('rethrow without active exception', n['l'])
            s.ev(n['e'])
            t = strip_cv(n['e']['t'])
            s.event('throw', t, None, [], n)
            raise Thrown(t, n['l'])
        if k == 'StmtExpr':
            if s.pol.on_stmtexpr is not None:
                v = s.pol.on_stmtexpr(s, n)
                if v is not NotImplemented: return v
            b = n['body'].get('s', [])
            f = s.frames[-1]; mark = len(f.locals)
            for z in b[:-1]: s.run(z)
            v = C(0)
            if b and b[-1]['k'] == 'Expr': v = s.ev(b[-1]['e'])
            elif b: s.run(b[-1])
            s.unwind(f, mark)
            return v
        if k == 'SizeOf': return C(n.get('cv', 0))
        if k == 'MemFn': return ('fn', n.get('fn'), n.get('qn'))
        if k in ('UnkE', 'Fold', 'PDtor'):
            for a in n.get('a', ()): s.ev(a)
            return ('un', s.fresh(), n.get('cls', k))
        raise AnalysisError('expression kind %s at %s' % (k, n.get('l')))

    def cast(s, n):
        ck = n['ck']
        e = n['e']
        if ck == 'ArrayToPointerDecay':
            if e['k'] == 'Str': return ('str', e['v'])
            loc = s.lv(e)
            if loc[0] == 'G' and loc[1].startswith('str:'): return ('str', loc[1][4:])
            return ('ptr', ('[]', loc, C(0)))
        if ck in ('IntegralCast', 'IntegralToBoolean', 'BooleanToSignedIntegral'):
            return s.conv(s.ev(e), e['tk'], n['tk'])
        if ck == 'PointerToBoolean':
            return C(s.truth(s.ev(e)))
        if ck == 'NullToPointer': return NULL
        if ck == 'ToVoid':
            s.ev(e); return C(0)
        if ck == 'LValueBitCast':
            return s.get(s.lv(e))
        if n['tk'] == 'o' or e['tk'] == 'o':
            return s.ev(e)
        v = s.ev(e)
        if ck in ('BitCast', 'NoOp', 'DerivedToBase', 'BaseToDerived', 'Dynamic', 'LValueToRValue', 'AddressSpaceConversion', 'ReinterpretMemberPointer'):
            return v
        if ck in ('IntegralToPointer', 'PointerToIntegral'):
            r = ('cast', n['tk'], e['tk'], v); return r
        r = ('cast', n['tk'], e['tk'], v)
        return r

    def un(s, n):
        op = n['op']
        if op == '!':
            return C(not s.cond(n['e']))
        if op == '&':
            if n['e']['k'] in ('Ref', 'MemFn') and n['e'].get('dk') == 'fn':
                return ('fn', n['e']['fn'], n['e']['qn'])
            return ('ptr', s.lv(n['e']))
        if op == '*':
            loc = s.lv(n)
            if n['tk'] == 'o': return ('obj', loc)
            return s.get(loc, n['tk'])
        if op in ('++', '--'):
            loc = s.lv(n['e'])
            old, new = s.step(n, loc)
            return old if n['post'] else new
        v = s.ev(n['e'])
        if op == '-':
            r = scale(v, -1)
            return C(wrap(r[1], n['tk'])) if r[0] == 'c' else r
        if op == '+': return v
        if op == '~':
            if v[0] == 'c': return C(wrap(~v[1], n['tk']))
            r = ('bin', '^', v, C(-1)); s.xt.setdefault(r, n['tk']); return r
        return ('un1', op, v)

    def bin(s, n):
        op = n['op']
        if op == '&&':
            return C(s.cond(n['x']) and s.cond(n['y']))
        if op == '||':
            return C(s.cond(n['x']) or s.cond(n['y']))
        if op == ',':
            s.ev(n['x']); return s.ev(n['y'])
        if op == '=':
            loc = s.lv(n)
            if n['tk'] == 'o': return ('obj', loc)
            v = s.store.get(loc)
            return v if v is not None else s.get(loc)
        if op in ('==', '!=', '<', '>', '<=', '>='):
            a, b = s.ev(n['x']), s.ev(n['y'])
            return C(s.cmp(op, a, b))
        a, b = s.ev(n['x']), s.ev(n['y'])
        return s.arith(op, a, b, n['tk'])

    def mklambda(s, n):
        env = {}
        this = None
        f = s.frames[-1]
        for c in n['cap']:
            if c.get('this'): this = f.this
            elif 'id' in c:
                cur = f.env.get(c['id'])
                if cur is None: continue
                if c['ref']: env[c['id']] = cur
                else:
                    t = ('R', 'capture', n['l'], c['id']); s.copy(t, cur); env[c['id']] = t
                    if cur in s.ltype: s.ltype[t] = s.ltype[cur]
        if this is None: this = f.this
        # the same expression in the same object with the same captured variables is the same function
        key = (n['l'], this, tuple(sorted(env.items(), key=repr)))
        s.lams = getattr(s, 'lams', {})
        s.lams[key] = (n, env, this)
        t = s.temp(n['t'])
        s.set(t, ('lam', key, n['l']), log=False)
        return ('obj', t)

    def call_lambda(s, v, args, node):
        n, env, this = s.lams[v[1]]
        ops = [s.m.fns[o] for o in n['ops'] if o in s.m.fns]
        ops = [o for o in ops if len(o['p']) == len(args)] or ops
        if not ops:
            raise AnalysisError('lambda without body at ' + n['l'])
        if len(ops) > 1:
            ops = s.pick_op(ops, args)
        return s.call_fn(ops[0], this, args, node, env)

    def pick_op(s, ops, args):
        for a in args:
            if a[0] == 'ptr' and a[1] in s.ltype:
                t = s.ltype[a[1]]
                r = [o for o in ops if any(t in p['t'] for p in o['p'])]
                if r: return r
        return ops

    # ---- calls ---------------------------------------------------------------------------
    def evargs(s, argn, pk):
        out = []
        for i, a in enumerate(argn):
            kind = pk[i] if i < len(pk) else 'x'
            if kind in ('r', 'cr', 'rr'):
                out.append(('ptr', s.reflv(a)))
            elif a['tk'] == 'o':
                v = s.ev(a)
                t = s.temp(a['t'])
                if v[0] == 'obj': s.copy(t, v[1])
                else: s.set(t, v, log=False)
                out.append(('obj', t))
            else:
                out.append(s.ev(a))
        return out

    def call(s, n):
        k = n['k']
        argn = n['a']
        this = None
        if k == 'MCall':
            if 'obj' not in n: raise AnalysisError('member call without object at ' + n['l'])
            this = s.deref(s.ev(n['obj'])) if n.get('arrow') else s.reflv(n['obj'])
        elif k == 'OpCall' and n.get('mem'):
            this = s.reflv(argn[0]); argn = argn[1:]
        if 'fn' not in n:
            # call through a pointer
            cv = s.ev(n['callee']) if 'callee' in n else ('un', s.fresh(), 'callee')
            args = s.evargs(argn, [])
            if cv[0] == 'fn' and cv[1] in s.m.fns: return s.call_fn(s.m.fns[cv[1]], None, args, n)
            if cv[0] == 'obj':
                lv_ = s.get(cv[1])
                if lv_[0] == 'lam': return s.call_lambda(lv_, args, n)
            if cv[0] == 'lam': return s.call_lambda(cv, args, n)
            return s.external(n, '?', None, args)
        args = s.evargs(argn, n['pk'])
        return s.invoke(n, n['fn'], n['qn'], this, args)

    def dyn_type(s, loc, n):
        if loc in s.ltype: return s.ltype[loc]
        if loc[0] == '.':
            bt = s.dyn_type(loc[1], None)
            if bt:
                f = s.m.field(bt, loc[2])
                if f and f['tk'] not in ('r', 'p'): return strip_cv(f['t'])
        return None

    def invoke(s, n, fid, qn, this, args):
        r = s.pol.hook(s, n, qn, this, args)
        if r is not NotImplemented: return r
        if n.get('virt') and not n.get('qual'):
            dt = s.dyn_type(this, n)
            target = None
            if dt and dt in s.m.recs:
                target = s.m.dispatch(dt, fid)
            if target is None or not s.bodyof(target):
                if target is None:
                    fam = [m for m in [fid] + s.m.all_over(fid) if s.bodyof(m) or m in s.m.fns]
                    cands = [m for m in fam if s.bodyof(m)]
                    if len(cands) == 1 and not s.m.all_over(fid):
                        target = cands[0]
                    elif len(cands) == 1 and s.pol_unique(n): target = cands[0]
            if target is None or target not in s.m.fns:
                return s.external(n, qn, this, args)
            fid = target
        fn = s.m.fns.get(fid)
        std = s.stdcall(n, qn, this, args)
        if std is not NotImplemented: return std
        if fn is not None:
            if fn.get('body') and s.pol.inline(s, fn, n):
                if len(s.frames) > s.pol.max_depth or sum(1 for f in s.frames if f.fn is fn) > 2:
                    return s.external(n, qn, this, args, rec=True)
                if n.get('name') == 'operator()' and this is not None:
                    v = s.store.get(this)
                    if v is not None and v[0] == 'lam' and v[1] in s.lams:
                        ln, env, lthis = s.lams[v[1]]
                        return s.call_fn(fn, lthis, args, n, env)
                return s.call_fn(fn, this, args, n)
            if fn.get('defaulted') and fn['name'] == 'operator=' and args:
                s.copy(this, s.deref(args[0])); return ('ptr', this)
        if n.get('name') == 'operator=' and n.get('mem') and args and args[0][0] in ('ptr', 'obj') and (n.get('own') or
                (n.get('cls') and '::' not in n['cls'] and str(n.get('fn')).endswith(('aSEOS_', 'aSERKS_')))):   # a plain C struct
            s.copy(this, args[0][1]); return ('ptr', this)
        return s.external(n, qn, this, args)

    def pol_unique(s, n):
        f = getattr(s.pol, 'unique_override', None)
        return f(s, n) if f else False

    def bodyof(s, fid):
        f = s.m.fns.get(fid)
        return f is not None and f.get('body') is not None

    def call_fn(s, fn, this, args, node=None, env=None):
        s.nf += 1
        f = Frame(fn, s.nf, this, env)
        for p, a in zip(fn['p'], args):
            loc = ('L', f.n, p['id'], p['n'])
            f.env[p['id']] = loc
            s.ltype[loc] = strip_cv(p['t'])
            if p['tk'] == 'o':
                if a[0] == 'obj': s.copy(loc, a[1])
                elif a[0] == 'ptr': s.copy(loc, a[1])
                else: s.set(loc, a, log=False)
            elif p['tk'] == 'r':
                s.store[loc] = a if a[0] == 'ptr' else ('ptr', s.tmpval(a))
            else:
                if a[0] == 'ptr' and p['tk'] in RANGE: a = s.get(a[1], p['tk'])
                s.store[loc] = a
                if a[0] not in ('c', 'lin') and p['tk'] in RANGE: s.xt.setdefault(a, p['tk'])
        s.frames.append(f)
        src = s.src
        try:
            s.run(fn['body'])
            r = C(0)
        except Ret as e:
            r = e.v
        finally:
            s.frames.pop()
        s.src = src
        if fn.get('rtk') == 'b' and r[0] not in ('c', 'ptr'):
            pass
        return r

    def tmpval(s, a):
        if a[0] == 'obj': return a[1]
        t = s.temp(); s.set(t, a, log=False); return t

    def external(s, n, qn, this, args, rec=False, kind='call', pure=None):
        """boundary call: record it, forget what it may write, maybe throw"""
        cm = n.get('cm')
        rtk = n.get('rtk', n.get('tk'))
        if pure is None:
            pure = False
        e = s.event(kind, short(qn), this, args, n, fn=n.get('fn'), rec=rec, qn=qn)
        pk = n.get('pk', [])
        for i, a in enumerate(args):
            knd = pk[i] if i < len(pk) else 'x'
            if knd == 'r' and a[0] == 'ptr':
                if not s.get(a[1])[0] == 'lam':
                    s.set(a[1], ('ev', e.i, 'out%d' % i), log=False)
            elif knd == 'p' and a[0] == 'ptr':
                base = a[1][1] if a[1][0] == '[]' else a[1]
                s.set(base, ('ev', e.i, 'out%d' % i), log=False)
        if s.pol.throws(s, n, qn):
            if s.choose(2) == 1:
                s.fact('throws', ('ev', e.i, short(qn)), C(0), True)
                e.x['threw'] = True
                raise Thrown('std::runtime_error', s.src, short(qn))
        if n.get('noret') or short(qn) in ('std::terminate', 'abort', 'exit', '::abort'):
            raise Terminate(qn, s.src)
        r = s.result_of(n, e, rtk)
        e.ret = r
        return r

    def result_of(s, n, e, rtk):
        tag = short(e.name)
        if rtk == 'r':
            t = ('X', e.i)
            s.store[t] = ('ev', e.i, tag)
            rt = n.get('rt', '')
            return ('ptr', t)
        v = ('ev', e.i, tag)
        if rtk == 'o':
            t = s.temp(strip_cv(n.get('rt', n.get('t', ''))))
            s.set(t, v, log=False)
            return ('obj', t)
        if rtk: s.xt[v] = rtk
        return v

    # ---- construction ---------------------------------------------------------------------
    def construct(s, n, loc):
        cls = n['cls']
        s.ltype[loc] = cls
        r = s.pol.hook(s, n, cls + '::<ctor>', loc, None)
        if r is not NotImplemented: return
        if cls.startswith('std::'):
            return s.stdctor(n, loc, cls)
        if n.get('copy'):
            a = n['a'][0]
            fn = s.m.fns.get(n['fn'])
            if not (fn and fn.get('body')):
                src = s.reflv(a)
                s.copy(loc, src)
                s.ltype[loc] = cls
                return
        fn = s.m.fns.get(n['fn'])
        if fn is None or ('inits' not in fn and not fn.get('body')):
            for a in n['a']: s.ev(a)
            if n.get('zero') : s.set(loc, ('zero',))
            elif n.get('triv') and n.get('def'):
                s.set(loc, ('un', s.fresh(), 'uninit:' + cls))
            else:
                s.set(loc, ('un', s.fresh(), 'ctor:' + cls))
            return
        if n.get('zero') and (n.get('triv') or fn.get('defaulted')): s.set(loc, ('zero',))
        else: s.set(loc, ('un', s.fresh(), 'uninit:' + cls))
        args = s.evargs(n['a'], n['pk'])
        s.run_ctor(fn, loc, args, n)
        s.ltype[loc] = cls

    def run_ctor(s, fn, loc, args, n=None):
        s.nf += 1
        f = Frame(fn, s.nf, loc)
        for p, a in zip(fn['p'], args):
            l = ('L', f.n, p['id'], p['n'])
            f.env[p['id']] = l
            s.ltype[l] = strip_cv(p['t'])
            if p['tk'] == 'o' and a[0] in ('obj', 'ptr'): s.copy(l, a[1])
            elif p['tk'] == 'r': s.store[l] = a if a[0] == 'ptr' else ('ptr', s.tmpval(a))
            elif p['tk'] in RANGE and a[0] == 'ptr': s.store[l] = s.get(a[1], p['tk'])        # forwarded by reference
            else: s.store[l] = a
        s.frames.append(f)
        src = s.src
        try:
            for i in fn.get('inits', ()):
                s.src = i['l'] if i.get('written') else s.src
                e = i['e']
                if 'f' in i:
                    fl = ('.', loc, i['f'])
                    if i['ftk'] == 'r': s.set(fl, ('ptr', s.reflv(e)))
                    else: s.init(fl, e, i.get('ft'))
                elif e is not None and e['k'] == 'Ctor':
                    lt = s.ltype.get(loc)
                    # base or delegating constructor: same object
                    bf = s.m.fns.get(e['fn'])
                    if bf is not None and ('inits' in bf or bf.get('body')) and not e['cls'].startswith('std::'):
                        r = s.pol.hook(s, e, e['cls'] + '::<ctor>', loc, None)
                        if r is NotImplemented:
                            a2 = s.evargs(e['a'], e.get('pk', []))
                            s.run_ctor(bf, loc, a2, e)
                    if lt: s.ltype[loc] = lt
            if fn.get('body'): s.run(fn['body'])
        except Ret:
            pass
        finally:
            s.frames.pop()
        s.src = src

    # ---- standard library models -------------------------------------------------------------
    def stdctor(s, n, loc, cls):
        a = n['a']
        if cls.startswith(('std::lock_guard', 'std::unique_lock', 'std::scoped_lock')):
            mu = s.reflv(a[0]) if a else None
            s.event('lock', 'mutex', mu, [], n)
            s.set(loc, ('guard', mu, True), log=False)
            return
        if cls.startswith('std::optional'):
            if not a or (len(a) == 1 and 'nullopt' in a[0]['t']):
                s.set(loc, ('opt',)); s.store[('.', loc, '?')] = C(0); return
            if n.get('copy'):
                s.copy(loc, s.reflv(a[0])); return
            s.set(loc, ('opt',)); s.store[('.', loc, '?')] = C(1)
            l = s.reflv(a[0]); s.copy(('.', loc, '!'), l)
            return
        if cls.startswith('std::unique_ptr'):
            if not a or a[0]['k'] == 'NullP': s.set(loc, NULL); return
            if len(a) >= 2 or not n.get('copy'):
                v = s.ev(a[0])
                if v[0] == 'obj':
                    src = v[1]; v = s.get(src); s.set(src, NULL)
                    s.set(loc, v); return
                if len(a) > 1:
                    d = s.ev(a[1])
                    dl = s.get(d[1]) if d[0] == 'obj' else d
                    s.set(loc, v)
                    s.event('own', cls, loc, [v, dl], n)
                    return
                s.set(loc, v); return
            src = s.reflv(a[0])
            v = s.get(src)
            s.set(loc, v)
            s.set(src, NULL)
            return
        if cls.startswith('std::function'):
            if not a: s.set(loc, NULL); return
            l = s.reflv(a[0])
            s.set(loc, s.get(l))
            return
        if cls.startswith('std::atomic'):
            s.set(loc, s.ev(a[0]) if a else C(0)); return
        if cls.startswith('std::variant'):
            if n.get('copy'): s.copy(loc, s.reflv(a[0])); return
            if not a:
                s.set(loc, ('variant',)); s.store[('.', loc, 'tag')] = ('str', first_targ(cls)); return
            l = s.reflv(a[0])
            s.set(loc, ('variant',))
            t = strip_cv(a[0]['t'])
            s.store[('.', loc, 'tag')] = ('str', t)
            s.copy(('.', loc, 'as:' + t), l)
            return
        if n.get('copy') and a:
            s.copy(loc, s.reflv(a[0])); return
        if 'basic_string' in cls:
            vals = [s.ev(x) for x in a]
            if not a: s.set(loc, ('str', '')); return
            if vals[0][0] == 'str': s.set(loc, vals[0]); return
            if vals[0][0] == 'obj': s.copy(loc, vals[0][1]); return
            s.set(loc, ('mk', 'string') + tuple(vals)); return
        if cls.startswith(('std::vector', 'std::list', 'std::deque', 'std::initializer_list', 'std::set', 'std::map')) and a and a[0]['k'] == 'InitList' and a[0]['tk'] == 'a':
            s.set(loc, ('list', len(a[0]['a'])))
            for i, e in enumerate(a[0]['a']): s.init(('[]', loc, C(i)), e)
            return
        if cls.startswith(('std::tuple', 'std::pair')):
            s.set(loc, ('mk', s.fresh(), cls))
            for i, x in enumerate(a):
                fl = ('.', loc, 'arg%d' % i) if cls.startswith('std::tuple') else ('.', loc, ('first', 'second')[i])
                s.init(fl, x)
                v = s.get(fl)
            return
        vals = []
        for x in a:
            v = s.ev(x)
            vals.append(v)
        if not vals and cls.startswith(('std::vector', 'std::map', 'std::list', 'std::deque', 'std::set')):
            s.set(loc, ('empty', cls)); return
        if vals and cls.startswith('std::vector') and (a[0].get('tk') in RANGE or vals[0][0] == 'c') and vals[0][0] not in ('ptr', 'obj', 'it'):
            s.set(loc, ('seq', s.fresh(), vals[0])); return
        s.set(loc, ('mk', s.fresh(), cls))
        for i, v in enumerate(vals):
            if v[0] == 'obj': s.copy(('.', loc, 'arg%d' % i), v[1])

    REFMETH = {'operator[]', 'at', 'front', 'back', 'begin', 'end', 'data', 'find', 'emplace_back', 'cbegin', 'cend'}

    def stdcall(s, n, qn, this, args):
        if n.get('own'): return NotImplemented
        cls = n.get('cls', '')
        name = n.get('name', '')
        if this is not None and cls.startswith('std::'):
            return s.stdmethod(n, qn, this, args, cls, name)
        q = short(qn)
        if q in ('std::move', 'std::forward', 'std::as_const', 'std::addressof'):
            return args[0] if q != 'std::addressof' else args[0]
        if q in ('std::min', 'std::max') and len(args) == 2:
            a, b = s.get(args[0][1]), s.get(args[1][1])
            if q == 'std::min': return args[1] if s.cmp('<', b, a) else args[0]
            return args[1] if s.cmp('<', a, b) else args[0]
        if q in ('memcpy', 'std::memcpy', 'memmove', 'std::memmove', '__builtin_memcpy'):
            return s.memcpy(n, args)
        if q in ('std::copy', 'std::copy_n') and len(args) == 3:
            r = s.stdcopy(n, q, args)
            if r is not None: return r
        if q == 'std::make_unique':
            return s.make_unique(n, args)
        if q == 'std::holds_alternative':
            v = args[0][1]
            t = s.get(('.', v, 'tag'))
            return C(s.cmp('==', t, ('str', n['targs'][0])))
        if q == 'std::get_if' and args and args[0][0] == 'ptr' and n.get('targs'):
            v = args[0][1]
            if not s.cmp('==', s.get(('.', v, 'tag')), ('str', n['targs'][0])): return NULL
            return ('ptr', ('.', v, 'as:' + n['targs'][0]))
        if q == 'std::get' and args and args[0][0] == 'ptr' and n.get('targs'):
            v = args[0][1]
            t0 = n['targs'][0]
            at = strip_cv(n['a'][0]['t'])
            if at.startswith('std::tuple') or at.startswith('std::pair'):
                ta = targs_of(at)
                i = int(t0.rstrip('UL')) if t0.rstrip('UL').isdigit() else (ta.index(t0) if t0 in ta else None)
                if i is not None:
                    return ('ptr', ('.', v, 'arg%d' % i if at.startswith('std::tuple') else ('first', 'second')[i]))
            return ('ptr', ('.', v, 'as:' + t0))
        if q == 'std::swap' and len(args) == 2 and args[0][0] == 'ptr':
            t = s.temp(); s.copy(t, args[0][1]); s.copy(args[0][1], args[1][1]); s.copy(args[1][1], t)
            return C(0)
        if q in ('std::operator==', 'std::operator!=') and len(args) == 2:
            return s.stdeq(n, q, args)
        if q in ('htons', 'htonl', 'ntohs', 'ntohl') :
            r = ('bin', q, args[0], C(0)); s.xt[r] = n['tk']; return r
        if q in ('__errno_location',):
            return ('ptr', ('G', 'errno'))
        return NotImplemented

    def single(s, loc, t):
        """the one scalar an object of type t consists of"""
        r = s.m.recs.get(strip_cv(t).rstrip('& '))
        if r is None or s.m.all_bases(strip_cv(t).rstrip('& ')): return loc
        fl = [f for f in r['f'] if not f.get('static')]
        return ('.', loc, fl[0]['n']) if len(fl) == 1 and fl[0].get('tk', 'o') != 'o' else loc

    def stdeq(s, n, q, args):
        la = args[0][1] if args[0][0] in ('ptr', 'obj') else None
        lb = args[1][1] if args[1][0] in ('ptr', 'obj') else None
        ta = s.dyn_type(la, None) or '' if la else ''
        tb = s.dyn_type(lb, None) or '' if lb else ''
        at = [a.get('t', '') for a in n['a']]
        def isopt(i): return 'std::optional<' in at[i]
        res = None
        if any('nullopt' in t for t in at):
            o = la if isopt(0) else lb
            res = not s.truth(s.get(('.', o, '?'), 'b'))
        elif isopt(0) and isopt(1):
            ha, hb = s.truth(s.get(('.', la, '?'), 'b')), s.truth(s.get(('.', lb, '?'), 'b'))
            res = ha == hb and (not ha or s.cmp('==', s.get(s.single(('.', la, '!'), optarg(at[0]))), s.get(s.single(('.', lb, '!'), optarg(at[1])))))
        elif isopt(0) or isopt(1):
            o, v, vi = (la, lb, 1) if isopt(0) else (lb, la, 0)
            tk = n['a'][vi]['tk']
            ol, vl = s.single(('.', o, '!'), optarg(at[1 - vi])), s.single(v, at[vi])
            if ol != ('.', o, '!') or vl != v: tk = None
            res = s.truth(s.get(('.', o, '?'), 'b')) and s.cmp('==', s.get(ol, tk), s.get(vl, tk))
        elif any('unique_ptr' in t or 'nullptr' in t or 'function' in t for t in at):
            va = NULL if 'nullptr' in at[0] else s.get(la)
            vb = NULL if 'nullptr' in at[1] else s.get(lb)
            res = s.cmp('==', va, vb)
        else:
            va = s.get(la) if la else args[0]
            vb = s.get(lb) if lb else args[1]
            res = s.cmp('==', va, vb)
        if q.endswith('!='): res = not res
        return C(res)

    def make_unique(s, n, args):
        t = (n.get('targs') or ['?'])[0]
        loc = s.pol.heap(s, t, n)
        s.ltype[loc] = t
        s.event('new', t, loc, args, n)
        res = s.temp(n.get('rt'))
        if t in s.m.recs and s.pol.inline(s, {'qn': t + '::<ctor>', 'cls': t}, n):
            ctors = [f for f in s.m.ctors(t) if len(f['p']) == len(args)]
            if len(ctors) == 1: s.run_ctor(ctors[0], loc, args, n)
            s.ltype[loc] = t
        s.set(res, ('ptr', loc), log=False)
        return ('obj', res)

    def stdcopy(s, n, q, args):
        """a block copy between byte arrays"""
        a = [s.get(v[1]) if v[0] == 'obj' else v for v in args]
        src, dst = a[0], a[2]
        if src[0] not in ('ptr', 'str') or dst[0] != 'ptr': return None
        if q == 'std::copy_n': num = a[1]
        else:
            if src[0] == 'str' or a[1][0] != 'ptr': return None
            b, e = [(l[1], l[2]) if l[0] == '[]' else (l, C(0)) for l in (src[1], a[1][1])]
            if b[0] != e[0]: return None
            num = add(e[1], b[1], -1)
        s.memcpy(n, [dst, src, num])
        l = dst[1]
        return ('ptr', ('[]', l[1], add(l[2], num)) if l[0] == '[]' else ('[]', l, num))

    def memcpy(s, n, args):
        e = s.event('memcpy', 'memcpy', None, args, n)
        if s.pol.on_memcpy is not None: s.pol.on_memcpy(s, e)
        d = args[0]
        src = args[1]
        if d[0] == 'ptr':
            base = d[1]
            if src[0] == 'ptr' and d[1][0] != '[]' and src[1][0] != '[]':
                v = s.get(src[1])
                s.set(base, ('mem', v))
            else:
                if not s.copy_const(base, src, args[2]):
                    if base[0] == '[]': base = base[1]
                    s.set(base, ('ev', e.i, 'memcpy'), log=True)
        return d

    def copy_const(s, dst, src, num):
        """a short copy of known bytes"""
        if num[0] != 'c' or not 0 < num[1] <= 16: return False
        vals = []
        for i in range(num[1]):
            l = s.elem(src, C(i)) if src[0] in ('str', 'padd') or src[0] == 'ptr' and src[1][0] == '[]' else None
            v = s.get(l) if l is not None else None
            if v is None or v[0] != 'c' or not 0 <= v[1] < 128: return False
            vals.append(v)
        arr, off = (dst[1], dst[2]) if dst[0] == '[]' else (dst, C(0))
        a = s.array_type(arr)
        if a is None: return False
        r = s.m.recs.get(a[0])
        f = r['f'] if r else ()
        if r and len(f) != 1: return False
        if not r and a[0] not in ('char', 'unsigned char', 'signed char', 'std::byte'): return False
        for i, v in enumerate(vals):
            el = ('[]', arr, add(off, C(i)))
            s.set(('.', el, f[0]['n']) if r else el, v)
        return True

    def stdmethod(s, n, qn, this, args, cls, name):
        if cls.startswith('std::unique_ptr') or cls.startswith('std::__uniq_ptr') or cls.startswith('std::shared_ptr'):
            if name in ('operator->', 'get'): return s.get(this, 'p')
            if name == 'operator*':
                return ('ptr', s.deref(s.get(this, 'p')))
            if name == 'operator bool': return C(s.truth(s.get(this, 'p')))
            if name == 'reset':
                v = s.get(this)
                e = s.event('reset', cls, this, [v] + list(args), n)
                s.set(this, args[0] if args else NULL)
                if s.pol.dispose and v != NULL: s.pol.dispose(s, v, n)
                return C(0)
            if name == 'release':
                v = s.get(this); s.event('ptrrelease', cls, this, [v], n); s.set(this, NULL); return v
            if name == 'operator=':
                a = args[0]
                if a == NULL or 'nullptr' in n['a'][-1]['t']:
                    v = s.get(this)
                    s.event('reset', cls, this, [v], n); s.set(this, NULL)
                    if s.pol.dispose and v != NULL: s.pol.dispose(s, v, n)
                    return ('ptr', this)
                src = s.deref(a)
                v = s.get(this)
                if v != NULL: s.event('reset', cls, this, [v], n, repl=True)
                s.set(this, s.get(src)); s.set(src, NULL)
                if s.pol.dispose and v != NULL: s.pol.dispose(s, v, n)
                return ('ptr', this)
        if cls.startswith('std::optional') or cls.startswith('std::_Optional'):
            if name in ('operator bool', 'has_value'): return C(s.truth(s.get(('.', this, '?'), 'b')))
            if name in ('operator*', 'value'): return ('ptr', ('.', this, '!'))
            if name == 'operator->': return ('ptr', ('.', this, '!'))
            if name == 'value_or':
                if s.truth(s.get(('.', this, '?'), 'b')): return s.get(('.', this, '!'), n['tk'])
                return s.get(s.deref(args[0]), n['tk'])
            if name == 'reset':
                s.set(this, ('opt',)); s.store[('.', this, '?')] = C(0); s.pol.on_write(s, ('.', this, '?'), C(0), s.src); return C(0)
            if name == 'emplace':
                s.set(this, ('opt',)); s.store[('.', this, '?')] = C(1)
                if args: s.copy(('.', this, '!'), s.deref(args[0]))
                return ('ptr', ('.', this, '!'))
            if name == 'operator=':
                a = args[0]
                t = n['a'][-1]['t']
                if 'nullopt' in t:
                    s.set(this, ('opt',)); s.store[('.', this, '?')] = C(0); s.pol.on_write(s, ('.', this, '?'), C(0), s.src)
                elif 'std::optional' in t:
                    s.copy(this, s.deref(a))
                else:
                    l = s.deref(a) if a[0] in ('ptr', 'obj') else s.tmpval(a)
                    s.set(this, ('opt',)); s.store[('.', this, '?')] = C(1)
                    s.copy(('.', this, '!'), l)
                    tk = n['a'][-1]['tk']
                    s.get(('.', this, '!'), tk)
                return ('ptr', this)
        if cls.startswith('std::function'):
            if name == 'operator bool': return C(s.truth(s.get(this)))
            if name == 'operator()':
                v = s.get(this)
                if v[0] == 'lam':
                    return s.call_lambda(v, args, n)
                return s.external(n, 'std::function::operator()', this, [v] + args)
            if name == 'operator=':
                a = args[0]
                l = s.deref(a) if a[0] in ('ptr', 'obj') else None
                s.set(this, s.get(l) if l else a)
                return ('ptr', this)
        if cls.startswith(('std::lock_guard', 'std::unique_lock', 'std::scoped_lock')):
            g = s.get(this)
            if name == 'unlock': s.event('unlock', 'mutex', g[1]); s.set(this, ('guard', g[1], False)); return C(0)
            if name == 'lock': s.event('lock', 'mutex', g[1]); s.set(this, ('guard', g[1], True)); return C(0)
        if cls.startswith('std::mutex') or cls.startswith('std::recursive_mutex'):
            if name in ('lock', 'unlock'): s.event(name, 'mutex', this, [], n); return C(0)
        if cls.startswith(('std::atomic', 'std::__atomic')):
            if name in ('operator bool', 'load') or name.startswith('operator '):
                # another thread may have written it since
                e = s.event('atomic', 'load', this, [], n)
                v = ('ev', e.i, 'atomic'); s.xt[v] = n.get('rtk') or ('b' if 'bool' in cls else 'i32')
                return v
            if name in ('store', 'operator='):
                v = args[0]
                s.set(this, v); s.event('atomic', 'store', this, [v], n); return v
        if cls.startswith('std::variant'):
            if name == 'emplace':
                t = n['targs'][0]
                s.set(this, ('variant',)); s.store[('.', this, 'tag')] = ('str', t)
                dst = ('.', this, 'as:' + t)
                s.ltype[dst] = t
                if args:
                    a = args[0]
                    s.vinit(dst, t, a)
                else: s.set(dst, ('zero',))
                return ('ptr', dst)
            if name == 'index':
                return ('bin', 'index', s.get(('.', this, 'tag')), C(0))
            if name == 'operator=':
                l = s.deref(args[0])
                if 'std::variant' in n['a'][-1]['t']: s.copy(this, l)
                else:
                    t = strip_cv(n['a'][-1]['t'])
                    s.set(this, ('variant',)); s.store[('.', this, 'tag')] = ('str', t)
                    s.copy(('.', this, 'as:' + t), l)
                return ('ptr', this)
        if cls.startswith('std::array') and name in ('operator[]', 'at', 'front'):
            i = args[0] if args else C(0)
            if i[0] == 'ptr': i = s.get(i[1])
            return ('ptr', ('[]', this, i))
        if cls.startswith('std::array') and name in ('data', 'begin'):
            return ('ptr', ('[]', this, C(0)))
        if name in ('operator[]', 'at') and args:
            i = args[0]
            if i[0] == 'ptr': i = s.get(i[1])
            if i[0] == 'obj': i = s.get(i[1])
            if name == 'at' and s.pol.throws(s, n, cls.split('<')[0] + '::at'):
                e = s.event('call', cls.split('<')[0] + '::at', this, [i], n)
                if s.choose(2) == 1: raise Thrown('std::out_of_range', s.src, 'at')
            if s.pol.on_elem is not None: s.pol.on_elem(s, this, i, n)
            loc = ('[]', this, i)
            return ('ptr', loc)
        if name == 'resize' and len(args) == 1 and cls.startswith(('std::vector', 'std::basic_string', 'std::__cxx11::basic_string')):
            v = args[0] if args[0][0] not in ('ptr', 'obj') else s.get(args[0][1])
            s.event('resize', short(qn), this, [v], n)
            s.set(this, ('seq', s.fresh(), v)); return C(0)
        if name in ('size', 'length', 'empty') and s.get(this)[0] == 'seq':
            v = s.get(this)[2]
            return v if name != 'empty' else C(s.cmp('==', v, C(0)))
        if name == 'clear' and cls.startswith(('std::vector', 'std::basic_string', 'std::__cxx11::basic_string')):
            s.set(this, ('seq', s.fresh(), C(0))); return C(0)
        if name in ('c_str', 'data') and 'basic_string' in cls:
            return ('ptr', ('[]', this, C(0)))
        if name == 'operator=' and args:
            a = args[0]
            if a[0] in ('ptr', 'obj'): s.copy(this, a[1])
            else: s.set(this, a)
            return ('ptr', this)
        if name == 'find' and cls.startswith(('std::map', 'std::unordered_map', 'std::set')) and len(args) == 1:
            t = s.temp(n.get('rt')); k = s.get(args[0][1]) if args[0][0] in ('ptr', 'obj') else args[0]
            s.set(t, ('iter', this, k, s.content(this)), log=False); return ('obj', t)
        if name in ('operator->', 'operator*') and s.get(this)[0] == 'iter':
            it = s.get(this)
            return ('ptr', ('mpair', it[1], it[2]))
        if name in ('size', 'empty') and s.get(this)[0] in ('list', 'empty'):
            k = s.get(this); k = k[1] if k[0] == 'list' else 0
            return C(k) if name == 'size' else C(k == 0)
        if n.get('cm') and name not in ('operator()',):
            # observers: deterministic over the current content
            av = tuple(s.get(a[1]) if a[0] in ('ptr', 'obj') else a for a in args)
            v = ('m', short(qn), s.content(this)) + av
            rtk = n.get('rtk')
            if rtk == 'r': 
                return ('ptr', ('.', this, name))
            if rtk == 'o':
                t = s.temp(n.get('rt')); s.set(t, v, log=False); return ('obj', t)
            if rtk: s.xt[v] = rtk
            return v
        if name in s.REFMETH and name != 'emplace_back':
            if n.get('rtk') == 'r': return ('ptr', ('.', this, name))
            v = ('m', short(qn), s.content(this))
            if n.get('rtk') == 'o':
                t = s.temp(n.get('rt')); s.set(t, v, log=False); return ('obj', t)
            return v
        # mutators
        e = s.event('call', short(qn), this, args, n, std=True)
        if s.pol.throws(s, n, short(qn)) and s.choose(2) == 1:
            raise Thrown('std::bad_alloc', s.src, short(qn))
        s.set(this, ('ev', e.i, name))
        if name == 'emplace_back':
            t = ('.', this, 'back%d' % e.i)
            s.ltype[t] = first_targ(cls)
            return ('ptr', t)
        return s.result_of(n, e, n.get('rtk'))

    def vinit(s, dst, t, a):
        if a[0] in ('ptr', 'obj'): s.copy(dst, a[1])
        else: s.set(dst, a)

    def content(s, loc):
        v = s.get(loc)
        sub = s.under(loc)
        if sub:
            return ('val', v, tuple(sorted(((rebase(k, loc, ('@',)), s.store[k]) for k in sub), key=repr)))
        return v

class Mono(dict):
    def __init__(s): s.walk = set(); s.upto = {}; s.guard = None

def within(a, b):
    """positions of two pointers into the same array, or None"""
    if a[0] != 'ptr' or b[0] != 'ptr': return None
    la, lb = a[1], b[1]
    if la[0] == '[]' and lb[0] == '[]' and la[1] == lb[1]: return la[2], lb[2]
    if la[0] == '[]' and la[1] == lb: return la[2], C(0)
    if lb[0] == '[]' and lb[1] == la: return C(0), lb[2]
    return None

def rebase(k, src, dst):
    if k == src: return dst
    return (k[0], rebase(k[1], src, dst)) + k[2:]

@functools.lru_cache(maxsize=None)
def strip_cv(t):
    t = t.strip()
    while True:
        t0 = t
        for p in ('const ', 'volatile ', 'struct ', 'class ', 'enum '):
            if t.startswith(p): t = t[len(p):]
        for q in (' &&', ' &', '&', ' const'):
            if t.endswith(q): t = t[:-len(q)]
        t = t.strip()
        if t == t0: return t

def first_targ(cls):
    i = cls.find('<')
    d = 0
    for j in range(i + 1, len(cls)):
        ch = cls[j]
        if ch == '<': d += 1
        elif ch == '>':
            if d == 0: return cls[i + 1:j].strip()
            d -= 1
        elif ch == ',' and d == 0: return cls[i + 1:j].strip()
    return '?'

def targs_of(cls):
    i = cls.find('<')
    d = 0; out = []; st = i + 1
    for j in range(i + 1, len(cls)):
        ch = cls[j]
        if ch in '<(': d += 1
        elif ch in '>)':
            if d == 0: out.append(cls[st:j].strip()); break
            d -= 1
        elif ch == ',' and d == 0: out.append(cls[st:j].strip()); st = j + 1
    return out

def catches(handler, typ):
    h = strip_cv(handler)
    if h == '...': return True
    if h == typ: return True
    if h == 'std::exception': return typ.startswith('std::')
    if h == 'std::runtime_error': return typ in ('std::runtime_error', 'std::range_error', 'std::overflow_error', 'std::system_error')
    if h == 'std::logic_error': return typ in ('std::logic_error', 'std::out_of_range', 'std::invalid_argument', 'std::length_error')
    return False

def explore(model, policy, entry, limit=40000, enough=None):
    """all abstract paths of entry(x); returns [Path]"""
    paths = []
    dec = []
    n = 0
    while True:
        n += 1
        if n > limit: raise AnalysisError('more than %d abstract paths' % limit)
        x = X(model, policy, dec)
        out, det = 'normal', None
        ok = True
        try:
            x.result = entry(x)
        except Ret as r:
            x.result = r.v
        except Thrown as t:
            out, det = 'throw', t
        except Terminate as t:
            out, det = 'terminate', t
        except Diverge as t:
            out, det = 'diverge', t
        except Infeasible:
            ok = False
        except Restart:
            paths, dec, n = [], [], 0
            continue
        del dec[x.pos:]
        if ok:
            paths.append(Path(x, out, det))
            if enough and enough(paths[-1]): break
        while dec and dec[-1][0] + 1 >= dec[-1][1]: dec.pop()
        if not dec: break
        dec[-1] = (dec[-1][0] + 1, dec[-1][1])
    return paths

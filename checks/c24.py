"""C24: the comparison operators of the value types. Every operator== that compares two values of one class is run on two
arbitrary values. Each comparison it makes of corresponding parts is a fork; comparing parts that do not correspond is a
violation. A path that answers "equal" must know every part to be equal, a path that answers "different" must have found a
part that differs. Operators of the parts (own types) are covered by their own analysis, those of the standard library are taken
as given (element-wise)."""
from sa.model import AnalysisError
from sa.interp import *
from sa.interp import Thrown, Fact, Ev, short, add, canon
from checks.fifo import FifoPolicy, Mismatch
from checks.c04 import strip
from checks.c02 import P as CodecPolicy, canon_t, tname_prim, targs_of

TECHNIQUE = 'path enumeration of the comparison operators over two arbitrary values with per-part obligations, structural induction over the types'
ASSUMPTIONS = ['comparison operators of the standard library compare element by element', 'an optional string, byte string or number whose size is 0 equals an absent one (as the wire format has it)']

A, B = ('R', 'lhs'), ('R', 'rhs')

def where(loc):
    """(root, parts) of a location inside one of the two values"""
    out = []
    while True:
        if loc[0] in ('.', '[]'): out.append(loc[2]); loc = loc[1]
        elif loc[0] == '*' and loc[1][0] == 'in': out.append('*'); loc = loc[1][1]
        else: return loc, tuple(reversed(out))

class P(CodecPolicy):
    def __init__(self): self.ops, self.deep = {}, False
    max_loop = 64
    def on_loop(self, x, n): return NotImplemented       # over the elements of an array: unrolled
    def hook(self, x, n, qn, this, args):
        if args is None: return NotImplemented
        q = short(qn); nm = q.rsplit('::', 1)[-1]
        if nm in ('operator==', 'operator!=', 'equal', 'compare') and len(x.frames) >= 1:
            f = x.m.fns.get(n.get('fn'))
            ops = ([('ptr', this)] if this is not None else []) + list(args)
            if len(ops) == 2 and all(o[0] in ('ptr', 'obj') for o in ops) and nm.startswith('operator') and not (f is not None and f.get('body') and self.helper(x, f)):
                ts = [strip(a['t']) for a in ([n['obj']] if n.get('obj') else []) + list(n.get('a', ()))]
                if len(ts) == 2 and all(t.startswith('std::unique_ptr<') for t in ts):
                    # the pointers themselves: two owners never hold one object
                    na, nb = [not x.truth(x.get(x.deref(o))) for o in ops]
                    r = na and nb
                else: r = self.equal(x, ops[0], ops[1])
                return C(r if nm == 'operator==' else not r)
        if nm == 'size' and q.startswith('std::array') and this is not None:
            t = n.get('cls', '')
            if t.startswith('std::array<'): return C(int(targs_of(t)[-1].rstrip('UL')))
        if nm == 'compare' and 'basic_string' in q and len(args) == 1 and args[0][0] in ('ptr', 'obj') and this is not None:
            return C(0 if self.equal(x, ('ptr', this), args[0]) else 1)
        if q == 'std::equal' and len(args) in (3, 4):
            # whole arrays, begin to end
            ls = [a[1] if a[0] == 'ptr' and a[1][0] == '[]' and a[1][2] == C(0) else None for a in (args[0], args[2])]
            if None not in ls and all(y['k'] in ('MCall', 'Call') and 'end' in short(y.get('qn', y.get('n', ''))) for y in [n['a'][1]] + n['a'][3:]):
                return C(self.equal(x, ('ptr', ls[0][1]), ('ptr', ls[1][1])))
        if q in ('std::make_tuple', 'std::tie', 'std::forward_as_tuple', 'std::make_pair'):
            l = x.temp('std::tuple')
            x.store[l] = ('tuple', tuple(('ptr', self.origin(x, a)) for a in args))
            return ('obj', l)
        if q == 'std::get' and args and args[0][0] in ('ptr', 'obj'):
            v = x.get(x.deref(args[0]))
            if v[0] == 'tuple': return v[1][int(n['targs'][0].rstrip('UL'))]
        return CodecPolicy.hook(self, x, n, qn, this, args)
    def helper(self, x, f):
        """an operator of something that is not one of the types analysed on its own"""
        return f.get('id') not in x.known
    def origin(self, x, a):
        l = x.deref(a)
        v = x.get(l)
        if not x.under(l) and v[0] == 'in': return v[1]
        return l
    def equal(self, x, a, b):
        va, vb = x.get(x.deref(a)), x.get(x.deref(b))
        if va[0] == 'tuple' and vb[0] == 'tuple' and len(va[1]) == len(vb[1]):
            for p, q in zip(va[1], vb[1]):
                if not self.equal(x, p, q): return False
            return True
        la, lb = self.origin(x, a), self.origin(x, b)
        (ra, pa), (rb, pb) = where(la), where(lb)
        if {ra, rb} != {A, B}: raise Mismatch('%s is compared with itself or something else' % (nmof(pa) or 'the value'))
        if pa != pb: raise Mismatch('%s is compared with %s' % (nmof(pa), nmof(pb)))
        if pa not in x.eqs:
            x.eqs[pa] = not x.choose(2, 'equal')
            x.trace.append(Fact('==', ('str', nmof(pa)), ('str', nmof(pa)), x.eqs[pa], x.src))
        return x.eqs[pa]

def nmof(p): return '.'.join(str(y) for y in p)

class Judge:
    """what a path knows about two corresponding parts: 'eq', 'ne' or None"""
    def __init__(s, pol, x, m): s.pol, s.x, s.m = pol, x, m
    def flag(s, loc):
        v = s.x.get(loc, 'b')
        if v[0] == 'c': return bool(v[1])
        lo, hi = s.x.facts.bounds(v)
        return bool(lo) if lo == hi and lo is not None else None
    def null(s, v):
        if v == NULL: return True
        return s.x.facts.tr.get(('==',) + tuple(sorted((v, NULL), key=repr)))
    def num(s, a, b):
        x = s.x
        d = add(x.get(a), x.get(b), -1)
        lo, hi = x.facts.bounds(d)
        if lo == hi == 0: return 'eq'
        if lo is not None and lo > 0 or hi is not None and hi < 0: return 'ne'
        if s.other(x.get(a), x.get(b)): return 'ne'
        return None
    def other(s, a, b):
        """found different"""
        S, sg, k = canon(add(a, b, -1))
        r = s.x.facts.num.get(S) if S else None
        if r and -k * sg in r[2]: return True
        return s.x.facts.tr.get(('==',) + tuple(sorted((a, b), key=repr))) is False
    def empty(s, u, loc):
        """the value has no content: True, False or None"""
        if u.startswith('std::vector<') or 'basic_string' in u:
            lo, hi = s.x.facts.bounds(s.pol.size_of(s.x, loc, u))
            if hi == 0: return True
            if lo is not None and lo > 0: return False
            return False if s.other(s.pol.size_of(s.x, loc, u), C(0)) else None
        if tname_prim(u): return False
        fl = [g for bb in s.m.all_bases(u) + [u] if bb in s.m.recs for g in s.m.recs[bb]['f'] if not g.get('static')]
        if len(fl) == 1: return s.empty(strip(fl[0]['t']), ('.', loc, fl[0]['n']))
        return False
    def part(s, t, a, b):
        x = s.x
        p = where(a)[1]
        if p in x.eqs: return 'eq' if x.eqs[p] else 'ne'
        if t.startswith('std::optional<'):
            u = targs_of(t)[0]
            ha, hb = s.flag(('.', a, '?')), s.flag(('.', b, '?'))
            if ha and hb: return s.part(u, ('.', a, '!'), ('.', b, '!'))
            ea = True if ha is False else s.empty(u, ('.', a, '!')) if ha else None
            eb = True if hb is False else s.empty(u, ('.', b, '!')) if hb else None
            if ea and eb: return 'eq'
            if ha is False and eb is False or hb is False and ea is False: return 'ne'
            return None
        if t.startswith('std::unique_ptr<'):
            va, vb = x.get(a), x.get(b)
            na, nb = s.null(va), s.null(vb)
            if na and nb: return 'eq'
            if na is None or nb is None: return None
            if na != nb: return 'ne'
            return s.part(targs_of(t)[0], x.deref(va), x.deref(vb))
        if t.startswith('std::array<'):
            u, k = targs_of(t)
            got = [s.part(strip(u), ('[]', a, C(i)), ('[]', b, C(i))) for i in range(int(k.rstrip('UL')))]
            return 'ne' if 'ne' in got else None if None in got else 'eq'
        if tname_prim(t): return s.num(('.', a, 'val'), ('.', b, 'val'))
        r = s.m.recs.get(t)
        if r is None or t.startswith('std::'):
            return s.num(a, b) if not t.startswith('std::') else None
        got = []
        for bb in s.m.all_bases(t) + [t]:
            rb = s.m.recs.get(bb)
            for g in rb['f'] if rb else ():
                if g.get('static'): continue
                got.append((s.part(strip(g['t']), ('.', a, g['n']), ('.', b, g['n'])), g['n']))
        s.open = [n for k, n in got if k is None]
        s.differ = [n for k, n in got if k == 'ne']
        if s.differ: return 'ne'
        return None if s.open else 'eq'

def operators(m):
    for f in m.fns.values():
        if f['name'] != 'operator==' or not f.get('qn', '').startswith('app::') or not f.get('body'): continue
        ts = ([f['cls']] if f.get('cls') and not f.get('static') else []) + [strip(q['t']) for q in f['p']]
        if len(ts) == 2 and canon_t(ts[0]) == canon_t(ts[1]) and ts[1] in m.recs: yield ts[1], f

def check(m, R, tier):
    R.rule('equal', 'a comparison that answers "equal" found every part equal')
    R.rule('different', 'a comparison that answers "different" found a part that differs')
    ops = dict((t, f) for t, f in operators(m))
    known = {f.get('id') for f in ops.values()}
    total = 0
    for t, f in sorted(ops.items()):
        pol = P()
        def entry(x):
            x.eqs, x.known, x.why = {}, known, None
            x.mode = 'enc'; x.fifo = []; x.depth0 = False; x.deepen = False
            x.ltype[A] = x.ltype[B] = t
            try:
                a = [('ptr', A), ('ptr', B)]
                r = x.call_fn(f, A, a[1:]) if f.get('cls') else x.call_fn(f, None, a)
                x.answer = x.truth(r)
            except Mismatch as e: x.why = str(e); x.answer = None
            return C(0)
        ps = explore(m, pol, entry)
        ct = canon_t(t)
        seen = set()
        for p in ps:
            total += 1
            x = p.x
            if p.outcome != 'normal': R.fail('equal', ct, f['l'], 'the comparison ends by ' + p.outcome, p.trace); continue
            if x.why: R.fail('equal', ct, x.src or f['l'], x.why, p.trace); continue
            j = Judge(pol, x, m)
            k = j.part(t, A, B)
            seen.add(x.answer)
            if x.answer: R.check(k == 'eq', 'equal', ct, f['l'], '%s: called equal although %s' % (ct, ', '.join(getattr(j, 'differ', ())) + ' differs' if k == 'ne' else ', '.join(getattr(j, 'open', ())) + ' may differ'), p.trace)
            else: R.check(k == 'ne', 'different', ct, f['l'], '%s: called different although every part may be equal' % ct, p.trace)
        if seen and None not in seen: R.check(True in seen, 'equal', ct, f['l'], '%s: no value equals another one' % ct)
    R.info.update(operators=len(ops), paths=total)
    R.need('equal', 6)
    R.need('different', 6)

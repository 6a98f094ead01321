"""Rules for the ring queue app::Queue: it is a bounded FIFO."""
from sa.model import AnalysisError
from sa.interp import *
from sa.app import AppPolicy, entity

def fifo_rules(m, R, rule):
    qs = sorted(n for n in m.recs if n.startswith('app::Queue<'))
    if not qs: raise AnalysisError('app::Queue is not instantiated')
    for q in qs: one(m, R, rule, q)

def one(m, R, rule, cls):
    this = ('R', 'this')
    def paths(name, args):
        f = [g for g in m.fns.values() if g.get('cls') == cls and g['name'] == name and g.get('body')]
        if len(f) != 1: return None, []
        def go(x):
            x.ltype[this] = cls
            for fl in m.recs[cls]['f']:
                if fl['tk'] in RANGE:
                    v = ('in', ('.', this, fl['n'])); x.xt[v] = fl['tk']
                    x.facts.num[((v, 1),)] = [0, 2 ** 32, set()]
            return x.call_fn(f[0], this, args)
        return f[0], explore(m, AppPolicy(), go, 200)
    def fld(n): return ('in', ('.', this, n))
    ints = [f['n'] for f in m.recs[cls]['f'] if f['tk'] in RANGE]
    f, ps = paths('front', [])
    if f is None: return           # never used in this instantiation
    heads = set(); data = set()
    for p in ps:
        r = p.ret
        if r[0] == 'ptr' and r[1][0] == '[]' and r[1][2][0] == 'in':
            heads.add(r[1][2][1][2]); data.add(r[1][1])
        else: R.fail(rule, cls + '::front', f['l'], 'front does not refer to an element', p.trace)
    if len(heads) != 1 or len(data) != 1: R.fail(rule, cls + '::front', f['l'], 'front uses %d positions' % len(heads)); return
    head = heads.pop(); data = data.pop()
    # count: the field empty() looks at
    f, ps = paths('empty', [])
    cnt = None
    for n in ints:
        if f and all(p.ret == C(1) and zero(p, fld(n)) is True or p.ret == C(0) and zero(p, fld(n)) is False or boolof(p.ret, fld(n)) for p in ps): cnt = n
    if f is None: raise AnalysisError(cls + '::empty not found')
    if cnt is None: R.fail(rule, cls + '::empty', f['l'], 'empty is not equivalent to a count of zero'); return
    f, ps = paths('push', [('ptr', ('R', 'val'))])
    if f is None: raise AnalysisError(cls + '::push not found')
    tails = set()
    for p in ps:
        ws = [k for k in p.store if k[0] == '[]' and k[1] == data]
        for k in ws:
            if k[2][0] == 'in' and k[2][1][0] == '.': tails.add(k[2][1][2])
            else: R.fail(rule, cls + '::push', f['l'], 'the element is stored at %s' % show(k[2]), p.trace)
            R.check(p.store[k] == ('in', ('R', 'val')), rule, cls + '::push', f['l'], 'what is stored is not what was pushed', p.trace)
        R.check(len(ws) == 1, rule, cls + '::push', f['l'], 'push stores %d elements' % len(ws), p.trace)
    if len(tails) != 1: R.fail(rule, cls + '::push', f['l'], 'push uses %d positions' % len(tails)); return
    tail = tails.pop()
    rest = [n for n in ints if n not in (head, tail, cnt)]
    if len(rest) != 1 or len({head, tail, cnt}) != 3: R.fail(rule, cls, f['l'], 'positions and count are not separate fields'); return
    cap = rest[0]
    def stepped(p, n):
        got = p.x.get(('.', this, n))
        nxt = add(fld(n), C(1))
        if got[0] == 'bin' and got[1] == '%' and got[2] == nxt and got[3] == fld(cap): return True
        for fct in p.trace:
            if isinstance(fct, Fact) and {fct.a, fct.b} == {nxt, fld(cap)}:
                eqv = (fct.op == '==') == fct.truth if fct.op in ('==', '!=') else None
                if eqv is True: return got == C(0)
                if eqv is False: return got == nxt
                # >= / <
                ge = None
                if fct.a == nxt and fct.op in ('>=', '<'): ge = (fct.op == '>=') == fct.truth
                if fct.b == nxt and fct.op in ('<=', '>'): ge = (fct.op == '<=') == fct.truth
                if ge is True: return got == C(0)
                if ge is False: return got == nxt
        return False
    def same(p, n): return p.x.get(('.', this, n)) == fld(n)
    for p in ps:
        R.check(stepped(p, tail), rule, cls + '::push', f['l'], 'the write position does not advance by one modulo the capacity: %s' % show(p.x.get(('.', this, tail))), p.trace)
        R.check(p.x.get(('.', this, cnt)) == add(fld(cnt), C(1)), rule, cls + '::push', f['l'], 'the count does not grow by one', p.trace)
        R.check(same(p, head) and same(p, cap), rule, cls + '::push', f['l'], 'push moves the read position', p.trace)
    f, ps = paths('pop', [])
    if f is not None:
        for p in ps:
            R.check(stepped(p, head), rule, cls + '::pop', f['l'], 'the read position does not advance by one modulo the capacity: %s' % show(p.x.get(('.', this, head))), p.trace)
            R.check(p.x.get(('.', this, cnt)) == add(fld(cnt), C(1), -1), rule, cls + '::pop', f['l'], 'the count does not shrink by one', p.trace)
            R.check(same(p, tail) and same(p, cap), rule, cls + '::pop', f['l'], 'pop moves the write position', p.trace)
    ct = m.ctors(cls)
    if len(ct) != 1: raise AnalysisError('%s: %d constructors' % (cls, len(ct)))
    def go(x):
        x.ltype[this] = cls
        v = ('in', ('R', 'cap')); x.xt[v] = 'u64'
        x.run_ctor(ct[0], this, [v]); return C(0)
    for p in explore(m, AppPolicy(), go, 50):
        g = lambda n: p.x.get(('.', this, n))
        R.check(g(head) == C(0) and g(tail) == C(0) and g(cnt) == C(0), rule, cls + '::init', ct[0]['l'], 'a new queue is not empty', p.trace)
        R.check(g(cap) == ('in', ('R', 'cap')), rule, cls + '::init', ct[0]['l'], 'the capacity is not the one asked for', p.trace)

def boolof(r, v):
    return r[0] in ('bin', 'cmp', 'rel') and v in r

def zero(p, v):
    for f in p.trace:
        if isinstance(f, Fact) and f.a == v and f.b == C(0) and f.op in ('==', '!='):
            return (f.op == '==') == f.truth
        if isinstance(f, Fact) and f.a == v and f.op == '>' and f.b == C(0): return not f.truth
    b = p.facts.bounds(v)
    if b == (0, 0): return True
    if b[0] is not None and b[0] > 0: return False
    return None

"""C06: the chain of delivery is checked link by link on every path: the ring queue (next index, length,
front), the slot storage (an accepted message takes exactly one free slot, is copied whole into it and queued
once; a refused one changes nothing; taking one returns its slot), the event loop's send (one wake-up per
accepted message, none for a refused one), the wake-up counter (each adds one; what is read is what the loop
handles), and the handling loop (its trip count is the number of wake-ups, by a linear ranking of its
condition; each turn takes one message and calls one handler with it, and an error raised by a handler stays
inside its turn)."""
from sa.model import AnalysisError, walk
from sa.interp import *
from sa.interp import Thrown, Fact, Ev, canon, add
from sa.app import AppPolicy, entity
from checks.common import trip, counted

TECHNIQUE = 'path-sensitive dataflow analysis of the delivery chain (abstract interpretation over the AST with linear terms, loop ranking, event order)'
ASSUMPTIONS = ['eventfd keeps its counter: write adds, read returns and clears the sum, and a write of 1 does not fail',
               'one thread runs each event loop (checked by C07)']

def fn(m, cls, name, n=None):
    fs = [f for f in m.method(cls, name) if f.get('body')]
    if n is not None: fs = [f for f in fs if len(f['p']) == n]
    if not fs: raise AnalysisError('%s::%s not found' % (cls, name))
    return fs[0]

# ---- ring queue ---------------------------------------------------------------------------
def queue(m, R):
    qs = [c for c in m.recs if c.startswith('app::Queue<')]
    if not qs: raise AnalysisError('class Queue not found')
    for cls in qs:
        fl = {g['n']: g['t'] for g in m.recs[cls]['f']}
        this = ('R', 'this')
        std = [n for n, t in fl.items() if t.startswith(('std::deque', 'std::queue', 'std::list'))]
        if std and len(fl) <= 2:
            delegated(m, R, cls, std[0]); continue
        ring(m, R, cls, this)

def delegated(m, R, cls, fld):
    want = {'push': ('push', 'push_back'), 'pop': ('pop', 'pop_front')}
    for name, ok in want.items():
        f = fn(m, cls, name)
        for p in explore(m, AppPolicy(), lambda x: x.call_fn(f, entity(x, m, cls), [('ptr', ('R', 'v'))] if f['p'] else [])):
            c = [e for e in p.events('call') if e.obj == ('.', ('R', 'this'), fld)]
            R.check(len(c) == 1 and c[0].name.rsplit('::', 1)[-1] in ok, 'queue', '%s::%s' % (cls, name), f['l'], 'does not add at the end / take from the front exactly once', p.trace)

def ring(m, R, cls, this):
    F = lambda n: ('.', this, n)
    push, pop, front, empty = (fn(m, cls, n) for n in ('push', 'pop', 'front', 'empty'))
    def runit(f, args=()):
        def entry(x):
            x.ltype[this] = cls
            for g in m.recs[cls]['f']:
                if g.get('tk') in RANGE: x.xt[('in', F(g['n']))] = g['tk']
            return x.call_fn(f, this, list(args))
        return explore(m, AppPolicy(), entry)
    # the constructor fixes the meaning of the fields
    ct = [f for f in m.fns.values() if f.get('ctor') and f.get('cls') == cls and not f.get('copyctor')]
    if not ct: raise AnalysisError('constructor of %s' % cls)
    ints = [g['n'] for g in m.recs[cls]['f'] if g.get('tk') in RANGE or g['t'].endswith('unsigned long') or g['t'].endswith('int')]
    init = {}
    def centry(x):
        x.xt[('in', ('R', 'cap'))] = 'u64'
        x.run_ctor(ct[0], this, [('in', ('R', 'cap'))])
    for p in explore(m, AppPolicy(), centry):
        for n in ints: init[n] = p.store.get(F(n))
    caps = [n for n in ints if init[n] == ('in', ('R', 'cap'))]
    # which field front() reads through, which push() writes through
    rd = [p.ret for p in runit(front)]
    arr = None; bi = None
    for v in rd:
        if v[0] == 'ptr' and v[1][0] == '[]':
            i = v[1][2]
            if i[0] == 'in' and i[1][0] == '.' and i[1][1] == this: bi = i[1][2]; arr = v[1][1]
    if not R.check(bi is not None and caps, 'queue', cls + '::front', front['l'], 'front is not the element at the read position'): return
    ln = None
    for p in runit(empty):
        for e in p.trace:
            if isinstance(e, Fact):
                for t in (e.a, e.b):
                    if t[0] == 'in' and t[1][0] == '.' and t[1][1] == this: ln = t[1][2]
        if ln is not None:
            v = truthval(p)
            fz = [e for e in p.trace if isinstance(e, Fact) and e.op == '==' and C(0) in (e.a, e.b)]
            R.check(p.ret == C(bool(fz and fz[0].truth)), 'queue', cls + '::empty', empty['l'], 'empty is not "length is zero"', p.trace)
    if not R.check(ln is not None, 'queue', cls + '::empty', empty['l'], 'empty does not compare the length'): return
    val = ('R', 'val')
    ei = None
    for p in runit(push, [('ptr', val)]):
        w = {k: v for k, v in p.store.items() if k[0] == '[]' and k[1] == arr}
        ok = len(w) == 1 and list(w.values())[0] == ('in', val)
        if not R.check(ok, 'queue', cls + '::push', push['l'], 'the value is not stored exactly once', p.trace): continue
        i = list(w)[0][2]
        if not R.check(i[0] == 'in' and i[1][0] == '.' and i[1][1] == this and i[1][2] != bi, 'queue', cls + '::push/index', push['l'], 'the value is stored at %s, not at the write position' % show(i), p.trace): continue
        ei = i[1][2]
        R.check(is_next(p, p.store.get(F(ei)), F(ei), [F(c) for c in caps]), 'queue', cls + '::push/advance', push['l'], 'the write position becomes %s' % show(p.store.get(F(ei), ('un', 0, 'unchanged'))), p.trace)
        R.check(p.store.get(F(ln)) == add(('in', F(ln)), C(1)), 'queue', cls + '::push/length', push['l'], 'the length becomes %s' % show(p.store.get(F(ln), ('un', 0, 'unchanged'))), p.trace)
        R.check(F(bi) not in p.store or p.store[F(bi)] == ('in', F(bi)), 'queue', cls + '::push/read-position', push['l'], 'push moves the read position', p.trace)
    for p in runit(pop):
        R.check(is_next(p, p.store.get(F(bi)), F(bi), [F(c) for c in caps]), 'queue', cls + '::pop/advance', pop['l'], 'the read position becomes %s' % show(p.store.get(F(bi), ('un', 0, 'unchanged'))), p.trace)
        R.check(p.store.get(F(ln)) == add(('in', F(ln)), C(1), -1), 'queue', cls + '::pop/length', pop['l'], 'the length becomes %s' % show(p.store.get(F(ln), ('un', 0, 'unchanged'))), p.trace)
        R.check(ei is None or F(ei) not in p.store or p.store[F(ei)] == ('in', F(ei)), 'queue', cls + '::pop/write-position', pop['l'], 'pop moves the write position', p.trace)
    R.check(init.get(ln) == C(0) and init.get(bi) == init.get(ei) and init.get(bi) == C(0), 'queue', cls + '::<ctor>', ct[0]['l'], 'a new queue is not empty with equal positions')

def truthval(p): return p.ret

def is_next(p, v, loc, caps):
    """v == (loc + 1) mod capacity, in the forms (i+1)%cap and i+1 wrapped to 0 when it reaches cap"""
    if v is None: return False
    nxt = add(('in', loc), C(1))
    for c in caps:
        cap = ('in', c)
        if v[0] == 'bin' and v[1] == '%' and v[2] == nxt and v[3] == cap: return True
        for e in p.trace:
            if not isinstance(e, Fact): continue
            d = {add(e.a, e.b, -1), add(e.b, e.a, -1)}
            if add(nxt, cap, -1) in d:
                if e.op == '==': wrapped = e.truth
                elif e.op == '<': wrapped = not e.truth if add(e.a, e.b, -1) == add(nxt, cap, -1) else None
                elif e.op == '<=': wrapped = e.truth if add(e.b, e.a, -1) == add(nxt, cap, -1) else None
                else: wrapped = None
                if wrapped is True and v == C(0): return True
                if wrapped is False and v == nxt: return True
    return False

# ---- slot storage ---------------------------------------------------------------------------
class QPolicy(AppPolicy):
    """the queues as abstract FIFOs"""
    def hook(self, x, n, qn, this, args):
        if args is None:
            if qn.startswith('app::Queue<'):
                a = x.evargs(n['a'], n['pk'])
                x.event('qnew', '', this, [y if y[0] not in ('ptr', 'obj') else x.get(y[1]) for y in a], n)
                x.set(this, ('un', x.fresh(), 'queue'), log=False); return C(0)
            return NotImplemented
        if n.get('cls', '').startswith('app::Queue<'):
            nm = n['name']
            if nm == 'empty':
                v = ('un', x.fresh(), 'len'); x.xt[v] = 'u64'
                k = ('qempty', this, len([e for e in x.trace if isinstance(e, Ev) and e.kind == 'q' and e.obj == this]))
                t = x.opaque(k, 'empty', ('in', this), C(1))
                x.event('qtest', 'empty', this, [C(t)], n)
                return C(t)
            if nm == 'front':
                e = x.event('q?', 'front', this, [], n)
                k = len([e for e in x.trace if isinstance(e, Ev) and e.kind == 'q' and e.obj == this and e.name == 'pop'])
                l = ('R', ('front', this, k))
                x.xt[('in', l)] = 'u32'
                return ('ptr', l)
            if nm in ('push', 'pop'):
                a = [x.get(y[1]) if y[0] in ('ptr', 'obj') else y for y in args]
                x.event('q', nm, this, a, n); return C(0)
        return AppPolicy.hook(self, x, n, qn, this, args)

def base_off(p):
    """pointer value -> (base term, offset term)"""
    if p[0] == 'padd': return p[1], p[2]
    return p, C(0)

def storage(m, R):
    cls = 'app::reactor::MsgMemStorage'
    this = ('R', 'this')
    F = lambda n: ('.', this, n)
    qs = [g['n'] for g in m.recs[cls]['f'] if g['t'].startswith('app::Queue<')]
    if len(qs) != 2: raise AnalysisError('MsgMemStorage has %d queues' % len(qs))
    push, pop = fn(m, cls, 'push'), fn(m, cls, 'pop')
    # constructor: which queue starts with all slots
    ct = [f for f in m.fns.values() if f.get('ctor') and f.get('cls') == cls and not f.get('copyctor')][0]
    free = None
    class CP(QPolicy):
        max_loop = 2
    def entry(x):
        for i in range(2): x.xt[('in', ('R', 'a%d' % i))] = 'u64'
        x.run_ctor(ct, this, [('in', ('R', 'a0')), ('in', ('R', 'a1'))])
    N = ('in', ('R', 'a1'))
    for p in explore(m, CP(), entry):
        if p.outcome != 'normal': continue
        for e in p.events('qnew'):
            R.check(e.args and e.args[0] == N, 'slots', 'queue-capacity:%s' % e.obj[2], ct['l'], 'the queue %s holds %s entries, there are %s slots' % (e.obj[2], show(e.args[0]) if e.args else '?', show(N)), p.trace)
        pu = p.events('q')
        for e in pu:
            free = e.obj if free in (None, e.obj) else 'both'
        t = trip(p)
        if not t: continue
        ok = counted(p, N)
        if ok is not None: R.check(ok, 'slots', 'ctor-count', ct['l'], 'the constructor does not provide one entry per slot', p.trace)
        # one push per turn, of the turn's own counter
        for k, it in enumerate(turns(p)):
            q = [e for e in it if isinstance(e, Ev) and e.kind == 'q']
            R.check(len(q) == 1 and q[0].name == 'push', 'slots', 'ctor-push', ct['l'], 'a turn of the constructor provides %d slots' % len(q), p.trace)
            if len(q) == 1 and k == 0: R.check(q[0].args[0] == C(0), 'slots', 'ctor-first', ct['l'], 'the first slot is %s' % show(q[0].args[0]), p.trace)
            if len(q) == 1 and k == 1: R.check(t and unc(q[0].args[0]) == t[0].get('var'), 'slots', 'ctor-each', ct['l'], 'the slot provided is %s' % show(q[0].args[0]), p.trace)
    if not R.check(free not in (None, 'both'), 'slots', 'ctor', ct['l'], 'the free slots are not kept in one queue'): return
    busy = [F(q) for q in qs if F(q) != free][0]
    def run(f, args):
        def entry(x):
            x.ltype[this] = cls
            for g in m.recs[cls]['f']:
                if g.get('tk') in RANGE: x.xt[('in', F(g['n']))] = g['tk']
            for a in args:
                if a[0] == 'in': x.xt[a] = 'u64'
            return x.call_fn(f, this, list(args))
        return explore(m, QPolicy(), entry)
    D, L = ('ptr', ('R', 'data')), ('in', ('R', 'len'))
    acc = ref = 0
    for p in run(push, [D, L]):
        q = [(e.obj, e.name, tuple(e.args)) for e in p.events('q')]
        mc = p.events('memcpy')
        if p.ret == C(0):
            ref += 1
            R.check(not q and not mc, 'refused', 'push', push['l'], 'a refused message changes the queues: %s' % names(q), p.trace)
            continue
        acc += 1
        R.check(p.ret == C(1) and p.outcome == 'normal', 'accepted', 'push/result', push['l'], 'push yields %s' % show(p.ret), p.trace)
        fr = ('in', ('R', ('front', free, 0)))
        # front before pop, pop free once, push that id once into busy
        ok = sorted(q, key=repr) == sorted([(free, 'pop', ()), (busy, 'push', (fr,))], key=repr)
        R.check(ok, 'accepted', 'push/queues', push['l'], 'accepting a message does %s, expected: take the first free slot and queue it once' % names(q), p.trace)
        tested = [e for e in p.events('qtest') if e.obj == free and e.args[0] == C(0)]
        R.check(bool(tested), 'accepted', 'push/free', push['l'], 'a slot is taken without checking that one is free', p.trace)
        ok = len(mc) == 1 and mc[0].args[1] == D and mc[0].args[2] == L
        R.check(ok, 'accepted', 'push/copy', push['l'], 'the message is not copied whole exactly once', p.trace)
        if ok:
            sl = slot_of(p, m, mc[0].args[0], cls)
            R.check(sl is not None and sl == fr, 'accepted', 'push/slot', mc[0].src, 'the message is copied to the slot %s, queued is the slot %s' % (show(sl) if sl else 'unknown', show(fr)), p.trace)
    R.check(acc > 0 and ref > 0, 'accepted', 'push/paths', push['l'], 'push never accepts or never refuses')
    got = none = 0
    O = ('ptr', ('R', 'out'))
    for p in run(pop, [O]):
        q = [(e.obj, e.name, tuple(e.args)) for e in p.events('q')]
        mc = p.events('memcpy')
        if p.ret == C(0):
            none += 1
            tested = [e for e in p.events('qtest') if e.obj == busy]
            R.check(not q and not mc and tested and tested[-1].args[0] == C(1), 'taken', 'pop/none', pop['l'], 'pop yields nothing although %s' % (names(q) or 'a message is queued'), p.trace)
            continue
        got += 1
        fr = ('in', ('R', ('front', busy, 0)))
        ok = sorted(q, key=repr) == sorted([(busy, 'pop', ()), (free, 'push', (fr,))], key=repr)
        R.check(ok and p.outcome == 'normal', 'taken', 'pop/queues', pop['l'], 'taking a message does %s, expected: take the first queued slot and free it once' % names(q), p.trace)
        tested = [e for e in p.events('qtest') if e.obj == busy and e.args[0] == C(0)]
        R.check(bool(tested), 'taken', 'pop/queued', pop['l'], 'a slot is taken without checking that one is queued', p.trace)
        ok = len(mc) == 1 and mc[0].args[0] == O
        if R.check(ok, 'taken', 'pop/copy', pop['l'], 'the message is not copied out exactly once', p.trace):
            sl = slot_of(p, m, mc[0].args[1], cls)
            R.check(sl is not None and sl == fr, 'taken', 'pop/slot', mc[0].src, 'the message is copied from the slot %s, taken is the slot %s' % (show(sl) if sl else 'unknown', show(fr)), p.trace)
            ln = mc[0].args[2]
            R.check(is_len(ln, mc[0].args[1]), 'taken', 'pop/length', mc[0].src, 'the number of bytes copied is %s, not the length stored with the message' % show(ln), p.trace)
    R.check(got > 0 and none > 0, 'taken', 'pop/paths', pop['l'], 'pop never yields or always yields')
    # push stores the length where pop reads it
    for p in run(push, [D, L]):
        if p.ret != C(1): continue
        w = [k for k, v in p.store.items() if v == L and k[0] == '.' and k[2] == 'len' or (v == L and k[0] == '.' and 'len' in str(k[2]))]
        R.check(bool(w), 'accepted', 'push/length', push['l'], 'the length is not stored with the message', p.trace)
        rd = [e for q in run(pop, [O]) if q.ret == C(1) for e in q.events('memcpy')]
        R.check(bool(rd) and all(any(same_place(k, e.args[2], busy, free) for k in w) for e in rd), 'taken', 'pop/length-place', pop['l'], 'the length used is not read where it was stored', p.trace)

def unc(v):
    while v[0] == 'cast': v = v[3]
    return v

def names(q): return ', '.join('%s.%s(%s)' % (o[2], n, ','.join(show(y) for y in a)) for o, n, a in q)

def slot_of(p, m, v, cls):
    """the slot id a pointer into the storage is computed from: ptr + chunkSize*id"""
    found = []
    def has(t): return isinstance(t, tuple) and (front(t) or any(has(y) for y in t))
    def front(t): return len(t) == 2 and t[0] == 'in' and isinstance(t[1], tuple) and t[1][:1] == ('R',) and isinstance(t[1][1], tuple) and t[1][1][0] == 'front'
    def rec(t):
        if not isinstance(t, tuple): return
        if front(t): found.append(t); return
        if t[:1] == ('bin',) and has(t):
            # the address must tell slots apart: id * stride + base
            if t[1] not in ('*', '+', '<<') or (has(t[2]) and has(t[3])): found.append(None); return
        if t[:1] == ('cast',) and has(t) and RANGE.get(t[1], (0, 2 ** 64))[1] < 2 ** 31: found.append(None); return
        for y in t: rec(y)
    rec(v)
    s = set(found)
    return s.pop() if len(s) == 1 else None

def is_len(ln, src):
    return ln[0] == 'in' and ln[1][0] == '.' and 'len' in ln[1][2]

def same_place(k, v, busy, free):
    """stored location k (in push) and loaded value v (in pop) differ only by the queue the slot comes from"""
    if v[0] != 'in': return False
    a = repr(k).replace(repr(free), 'Q').replace(repr(busy), 'Q')
    b = repr(v[1]).replace(repr(busy), 'Q').replace(repr(free), 'Q')
    return a == b

def turns(p):
    """events of each loop turn (outermost loop only)"""
    out, cur, depth = [], None, 0
    for e in p.trace:
        if isinstance(e, Ev) and e.kind == 'loop':
            if cur is not None: out.append(cur)
            cur = []
        elif isinstance(e, Ev) and e.kind == 'endloop':
            if cur is not None: out.append(cur); cur = None
        elif cur is not None: cur.append(e)
    if cur is not None: out.append(cur)
    return out

# ---- wake-up and handling --------------------------------------------------------------------
def loopsend(m, R):
    cls = 'app::reactor::Reactor'
    f = fn(m, cls, 'send', 1)
    class P(AppPolicy):
        def hook(self, x, n, qn, this, args):
            if args is None: return NotImplemented
            q = short(qn)
            if q.endswith('MsgMemStorage::push'):
                x.event('push', q, this, args, n)
                x.pushed = x.choose(2) == 0
                return C(x.pushed)
            if q.endswith('Event::send'):
                x.event('wake', q, this, args, n); return C(0)
            if q.rsplit('::', 1)[-1] == 'size' and this == ('R', 'msg'):
                return ('sizeof', 'msg')
            return AppPolicy.hook(self, x, n, qn, this, args)
    def entry(x):
        x.ltype[('R', 'msg')] = 'app::reactor::MsgInterface'
        return x.call_fn(f, entity(x, m, cls), [('ptr', ('R', 'msg'))])
    k = 0
    for p in explore(m, P(), entry):
        pu, wk = p.events('push'), p.events('wake')
        if not R.check(len(pu) == 1, 'wake-up', 'Reactor::send', f['l'], 'the message is queued %d times' % len(pu), p.trace): continue
        R.check(pu[0].args[0] == ('ptr', ('R', 'msg')) and pu[0].args[1] == ('sizeof', 'msg'), 'wake-up', 'Reactor::send/whole', pu[0].src, 'not the whole message is queued', p.trace)
        acc = accepted(p)
        R.check(len(wk) == (1 if acc else 0), 'wake-up', 'Reactor::send/%s' % ('accepted' if acc else 'refused'), f['l'],
                '%d wake-ups for %s message' % (len(wk), 'an accepted' if acc else 'a refused'), p.trace)
        if wk: R.check(wk[0].i > pu[0].i, 'wake-up', 'Reactor::send/order', wk[0].src, 'the wake-up precedes the message', p.trace)
        k += 1
    R.check(k >= 2, 'wake-up', 'Reactor::send/paths', f['l'], 'only %d paths' % k)
    # event descriptor
    ev = 'app::reactor::Event'
    ct = [g for g in m.fns.values() if g.get('ctor') and g.get('cls') == ev and not g.get('copyctor')][0]
    class P2(AppPolicy):
        def hook(self, x, n, qn, this, args):
            if args is None: return NotImplemented
            q = short(qn).lstrip(':')
            if q == 'eventfd':
                x.event('eventfd', q, None, args, n); r = ('un', x.fresh(), 'fd'); x.xt[r] = 'i32'; return r
            if q.endswith('EpollInterface::add') or q.endswith('Epoll::add'):
                x.event('add', q, this, args, n); return C(0)
            if q in ('write', 'send'):
                l = x.deref(args[1])
                x.event('write', q, None, args, n, val=x.get(l))
                return C(8) if x.choose(2) == 0 else C(-1)
            if q in ('read', 'recv'):
                l = x.deref(args[1])
                if x.choose(2) == 1: return C(-1)
                e = x.event('read', q, None, args, n)
                v = ('ev', e.i, 'count'); x.xt[v] = 'u64'; x.set(l, v)
                return C(8)
            if q.endswith('::onFdEvent'):
                x.event('handle', q, this, args, n); return C(0)
            return AppPolicy.hook(self, x, n, qn, this, args)
    for p in explore(m, P2(), lambda x: x.run_ctor(ct, ('R', 'this'), [('ptr', ('R', 'e')), ('ptr', ('R', 'h'))])):
        if p.outcome != 'normal': continue
        e = p.events('eventfd'); a = p.events('add')
        ok = len(e) == 1 and e[0].args[0] == C(0) and e[0].args[1][0] == 'c' and not (e[0].args[1][1] & 1)
        R.check(ok, 'counter', 'eventfd', ct['l'], 'the wake-up counter does not start at 0, or hands out wake-ups one by one to a handler that is called once', p.trace)
        R.check(len(a) == 1 and a[0].args[1][0] == 'c' and a[0].args[1][1] & 1, 'counter', 'registered', ct['l'], 'the wake-up is not registered for reading', p.trace)
    f = fn(m, ev, 'send')
    k = 0
    for p in explore(m, P2(), lambda x: x.call_fn(f, entity(x, m, ev), [])):
        w = p.events('write')
        if p.outcome != 'normal': continue
        k += 1
        R.check(len(w) == 1 and w[0].x['val'] == C(1) and w[0].args[2] == C(8), 'counter', 'Event::send', f['l'], 'a wake-up adds %s to the counter' % (show(w[0].x['val']) if w else 'nothing'), p.trace)
    R.check(k > 0, 'counter', 'Event::send/path', f['l'], 'no wake-up is written')
    f = fn(m, ev, 'onFileDescriptorEvent')
    k = 0
    for p in explore(m, P2(), lambda x: x.call_fn(f, entity(x, m, ev), [('in', ('R', 'events'))])):
        h, r = p.events('handle'), p.events('read')
        if not r:
            R.check(not h, 'counter', 'Event::onFileDescriptorEvent/nothing', f['l'], 'messages are handled without a wake-up', p.trace); continue
        k += 1
        R.check(len(r) == 1 and len(h) == 1 and h[0].args[0] == ('ev', r[0].i, 'count'), 'counter', 'Event::onFileDescriptorEvent', f['l'], 'the number of wake-ups read is not what is handled, once', p.trace)
    R.check(k > 0, 'counter', 'Event::onFileDescriptorEvent/path', f['l'], 'no path handles a wake-up')

def accepted(p):
    # the decision taken for push: first event push is followed by the choice recorded as return value
    return p.x.pushed if hasattr(p.x, 'pushed') else None

def handle(m, R):
    cls = 'app::reactor::Reactor'
    f = fn(m, cls, 'onFdEvent', 1)
    class P(AppPolicy):
        def hook(self, x, n, qn, this, args):
            if args is None: return NotImplemented
            q = short(qn)
            if q.endswith('MsgMemStorage::pop'):
                ok = x.choose(2) == 0
                x.event('pop', q, this, args, n, ok=ok)
                if ok:
                    l = x.deref(args[0])
                    if l[0] == '[]' and l[2] == C(0): l = l[1]
                    x.set(l, ('un', x.fresh(), 'message'))
                return C(ok)
            if q.rsplit('::', 1)[-1] == 'getMsgId':
                r = ('msgid', this, x.get(this if this[0] != '[]' else this[1])); x.xt[r] = 'u64'
                return r
            if n.get('cls', '').startswith('std::function') and n['name'] == 'operator()':
                thr = x.choose(2) == 1
                x.event('handler', 'call', this, args, n, threw=thr)
                if thr: raise Thrown('std::runtime_error', x.src, 'handler')
                return C(0)
            return AppPolicy.hook(self, x, n, qn, this, args)
    V = ('in', ('R', 'val'))
    def entry(x):
        x.xt[V] = 'u64'
        return x.call_fn(f, entity(x, m, cls), [V])
    called = 0
    ps = explore(m, P(), entry)
    for p in ps:
        R.check(p.outcome == 'normal', 'contained', 'Reactor::onFdEvent', p.detail.src if p.detail else f['l'], 'an error raised by one handler ends the handling of the other messages', p.trace)
        t = trip(p)
        pops = p.events('pop')
        stopped = any(isinstance(e, Ev) and e.kind == 'atomic' for e in p.trace)
        empty = pops and not pops[-1].x['ok']
        if not t:
            why = [e for e in p.trace if isinstance(e, Fact)]
            isstop = any('atomic' in repr(e.a) + repr(e.b) and e.truth != (C(0) in (e.a, e.b)) for e in why)
            if not pops: R.check(isstop or empty or p.outcome != 'normal' or zero(why, V), 'all-handled', 'Reactor::onFdEvent', f['l'], 'wake-ups are dropped without handling although the loop is not stopped', p.trace)
            continue
        ok = counted(p, V)
        if not empty and ok is not None:
            R.check(ok, 'all-handled', 'Reactor::onFdEvent', f['l'],
                    'the number of messages handled is not the number of wake-ups (%s, step %s%s)' % (show(t[0]['n0']) if t[0]['n0'] else '?', t[0]['step'], ', loop left early' if t[0].get('brk') else ''), p.trace)
        for it in turns(p):
            pp = [e for e in it if isinstance(e, Ev) and e.kind == 'pop']
            hh = [e for e in it if isinstance(e, Ev) and e.kind == 'handler']
            R.check(len(pp) == 1, 'one-per-turn', 'Reactor::onFdEvent', f['l'], '%d messages are taken in one turn' % len(pp), p.trace)
            if not pp: continue
            if not pp[0].x['ok']:
                R.check(not hh, 'one-per-turn', 'Reactor::onFdEvent/empty', f['l'], 'a handler is called without a message', p.trace); continue
            R.check(len(hh) <= 1, 'one-per-turn', 'Reactor::onFdEvent/repeat', f['l'], 'the message is handled %d times' % len(hh), p.trace)
            fl = [e for e in it if isinstance(e, Fact)]
            if not hh:
                # only when no handler is registered under the identifier
                miss = any(e.op == '==' and NULL in (e.a, e.b) and e.truth and 'handlers' in repr((e.a, e.b)) for e in fl) or any('handlers' in repr((e.a, e.b)) for e in fl)
                R.check(miss, 'one-per-turn', 'Reactor::onFdEvent/dropped', f['l'], 'a message is taken and no handler is called', p.trace)
            else:
                called += 1
                buf = p.x.deref(pp[0].args[0]) if pp[0].args[0][0] == 'ptr' else None
                b0 = buf[1] if buf and buf[0] == '[]' else buf
                a = hh[0].args[-1]
                al = a[1] if a[0] in ('ptr', 'obj') else None
                al0 = al[1] if al and al[0] == '[]' else al
                pos = lambda l: l[2] if l and l[0] == '[]' else C(0)
                R.check(al0 == b0 and pos(al) == pos(buf), 'one-per-turn', 'Reactor::onFdEvent/message', hh[0].src, 'the handler gets another object than the message taken', p.trace)
                R.check('msgid' in repr(hh[0].obj) and 'handlers' in repr(hh[0].obj), 'one-per-turn', 'Reactor::onFdEvent/handler', hh[0].src, 'the handler is not the one registered under the identifier of the message', p.trace)
    R.check(called > 0, 'one-per-turn', 'Reactor::onFdEvent/path', f['l'], 'no path calls a handler')

def zero(facts, V):
    for e in facts:
        d = add(e.a, e.b, -1) if e.op in ('<', '<=', '==') else None
        if d in (add(C(0), V, -1), V): return True
    return False

def wait(m, R):
    """every event reported by the operating system is handed to its owner once"""
    cls = 'app::reactor::Epoll'
    f = fn(m, cls, 'wait')
    class P(AppPolicy):
        def hook(self, x, n, qn, this, args):
            if args is None: return NotImplemented
            q = short(qn).lstrip(':')
            if q == 'epoll_wait':
                e = x.event('epoll_wait', q, None, args, n)
                v = ('ev', e.i, 'nfds'); x.xt[v] = 'i32'
                x.assume('>=', v, C(-1))
                l = x.deref(args[1]); l = l[1] if l[0] == '[]' else l
                x.nfds = v; x.evs = l
                return v
            if q.endswith('::onFileDescriptorEvent'):
                thr = x.choose(2) == 1
                x.event('fdevent', q, this, args, n, threw=thr)
                if thr: raise Thrown('std::runtime_error', x.src, 'event handler')
                return C(0)
            return AppPolicy.hook(self, x, n, qn, this, args)
    called = 0
    for p in explore(m, P(), lambda x: x.call_fn(f, entity(x, m, cls), [])):
        ev = p.events('fdevent')
        w = p.events('epoll_wait')
        R.check(len(w) == 1, 'events', 'Epoll::wait', f['l'], 'the operating system is asked %d times' % len(w), p.trace)
        if p.outcome == 'throw':
            thr = [e for e in ev if e.x['threw']]
            R.check(p.detail.why != 'event handler', 'contained', 'Epoll::wait', f['l'], 'an error raised for one event drops the other events', p.trace)
        t = trip(p)
        if t and p.outcome == 'normal':
            ok = counted(p, p.x.nfds)
            if ok is not None: R.check(ok, 'events', 'Epoll::wait/all', f['l'], 'not every reported event is handled', p.trace)
            for it in turns(p):
                h = [e for e in it if isinstance(e, Ev) and e.kind == 'fdevent']
                R.check(len(h) == 1, 'events', 'Epoll::wait/once', f['l'], 'a reported event is handed over %d times' % len(h), p.trace)
                if len(h) == 1:
                    called += 1
                    o = h[0].obj; a = h[0].args[0]
                    R.check('ptr' in repr(o) and 'data' in repr(o) and same_index(p, o, a), 'events', 'Epoll::wait/owner', h[0].src, 'the event %s is handed to %s' % (show(a), show(('in', o))), p.trace)
    R.check(called > 0, 'events', 'Epoll::wait/path', f['l'], 'no path hands an event over')

def same_index(p, o, a):
    """owner and event mask come from the same entry"""
    def idx(t, out):
        if isinstance(t, tuple):
            if len(t) == 3 and t[0] == '[]' and t[1] == p.x.evs: out.append(t[2])
            elif len(t) == 3 and t[0] == 'fld' and isinstance(t[2], tuple) and t[2][0] == '[]': out.append(t[2][1])
            for y in t: idx(y, out)
        return out
    i, j = set(idx(o, [])), set(idx(a, []))
    return len(i) == 1 and i == j

def check(m, R, tier):
    R.rule('queue', 'the ring queue stores at the write position, reads at the read position, and advances each by one modulo the capacity')
    R.rule('slots', 'every slot is provided exactly once and both queues can hold all slots')
    R.rule('accepted', 'an accepted message takes the first free slot, is copied whole into it, and that slot is queued once')
    R.rule('refused', 'a refused message changes nothing')
    R.rule('taken', 'taking a message takes the first queued slot, copies it out with its own length and frees the slot once')
    R.rule('wake-up', 'one wake-up per accepted message, none for a refused one')
    R.rule('counter', 'a wake-up adds one; the sum read is what is handled')
    R.rule('all-handled', 'the handling loop makes as many turns as there were wake-ups')
    R.rule('one-per-turn', 'each turn takes one message and calls the handler registered for it once, with it')
    R.rule('contained', 'an error raised by one handler does not end the handling of the others')
    R.rule('events', 'each reported event is handed to its owner exactly once')
    queue(m, R); storage(m, R); loopsend(m, R); handle(m, R); wait(m, R)
    for r, i in (('slots', 'ctor-count'), ('all-handled', 'Reactor::onFdEvent'), ('events', 'Epoll::wait/all')):
        if not R.bad and not any(o[0] == r and o[1] == i for o in R.obl): raise AnalysisError('no path shows the turns of the loop: ' + i)


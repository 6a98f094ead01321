"""C25: the threads of the event loops. The class that creates threads is found by its call of pthread_create; its life
(constructor, every order of its methods, destructor) is explored with every call failing or succeeding: a thread that was
created is joined once, one that was not is never joined, a failure is reported. With every CPU mask of one CPU (and of all but
one) followed through the source as a constant, the set given to the kernel has exactly these CPUs. The class that owns the
threads and the one that owns those are found by their fields: stop is announced before each thread is joined, and both happen
before anything the threads use is destroyed. The loop function asks for the stop request before every (bounded) wait."""
from sa.model import AnalysisError, walk
from sa.interp import *
from sa.interp import Thrown, short
from sa.app import AppPolicy
from sa.machine import root
from checks.c08 import ctor_of
from checks.c04 import strip

TECHNIQUE = 'typestate of threads over all paths with constant propagation of the CPU masks; destruction order of the owners'
ASSUMPTIONS = ['the owner of a reactor uses it from one thread', 'CPU_* are the macros of glibc', 'loops treat the elements of a container alike (three are followed)']
THIS = ('R', 'this')

def holds(t, c):
    """a container of owning pointers to c"""
    return t.startswith('std::') and '_ptr<' in t and t[t.index('_ptr<') + 5:].startswith((c + '>', c + ',', c + ' >'))

class P(AppPolicy):
    max_loop = 70
    copyloops = False
    local = False           # the object is used by one thread
    fail = True             # system calls may fail
    thread = owner = root = None
    parts = ()
    def throws(self, x, n, qn): return False
    def hook(self, x, n, qn, this, args):
        if args is None: return NotImplemented
        q = short(qn).lstrip(':'); base = q.rsplit('::', 1)[-1]
        if this is None and base.startswith('pthread_'):
            ok = not self.fail or x.choose(2) == 0
            e = x.event('sys', base, None, args, n, ok=ok)
            if ok and base == 'pthread_create':
                t = ('str', '#tid%d' % len(x.made)); x.made.append(t); e.x['tid'] = t
                x.set(x.deref(args[0]), t)
            if ok and base == 'pthread_getaffinity_np': x.set(x.deref(args[2]), ('cpus', 'kernel'))
            if base in ('pthread_join', 'pthread_detach', 'pthread_timedjoin_np', 'pthread_tryjoin_np'): e.x['tid'] = args[0]
            if base == 'pthread_setaffinity_np': e.x['tid'], e.x['set'] = args[0], x.get(x.deref(args[2]))
            return C(0) if ok else C(22)
        if this is None and base in ('memset', '__builtin_memset', 'bzero') and args[0][0] == 'ptr' and 'cpu_set_t' in x.ltype.get(args[0][1], ''):
            x.set(args[0][1], ('cpus', frozenset())); return args[0]
        if this is None and base in ('memcmp', '__builtin_memcmp') and len(args) == 3 and all(a[0] == 'ptr' for a in args[:2]):
            v = [('cpus', frozenset()) if x.get(a[1]) == ('zero',) else x.get(a[1]) for a in args[:2]]
            if any(y[0] == 'cpus' for y in v):
                same = x.choose(2) == 0
                x.event('cpucmp', '', None, v, n, same=same)
                return C(0) if same else C(1)
        if self.local and this is not None and n.get('cls', '').startswith(('std::atomic', 'std::__atomic')):
            old = x.get(this)
            if old == ('zero',): old = C(0)
            if base in ('load',) or base.startswith('operator ') or base in ('test',): return old
            if base in ('store', 'operator='): x.set(this, args[0]); return args[0]
            if base in ('exchange', 'test_and_set'): x.set(this, args[0] if base == 'exchange' else C(1)); return old
            if base == 'clear': x.set(this, C(0)); return C(0)
        if this is not None and this[0] == 'R' and this[1].startswith('part') :
            x.event('part', base, this, args, n); return C(0)
        if this is not None and q.startswith('std::') and base in ('clear', 'resize', 'erase', 'pop_back') and this in self.parts:
            x.event('cleared', base, this, args, n); return C(0)
        r = self.iterators(x, n, q, base, this, args)
        if r is not NotImplemented: return r
        if base in ('sleep_for', 'sleep_until'): return C(0)
        if base == self.waits: x.event('wait', base, this, args, n); return C(0)
        return AppPolicy.hook(self, x, n, qn, this, args)
    def iterators(self, x, n, q, base, this, args):
        """iterators of a container of known size"""
        c = this if this is not None else x.deref(args[0]) if args and args[0][0] in ('ptr', 'obj') and q in ('std::begin', 'std::end', 'std::cbegin', 'std::cend') else None
        if c in self.parts and x.get(c)[0] == 'list' and base in ('begin', 'cbegin', 'end', 'cend'):
            t = x.temp(n.get('rt')); x.set(t, ('it', c, 0 if 'begin' in base else x.get(c)[1]), log=False)
            return ('obj', t)
        val = lambda a: x.get(x.deref(a)) if a[0] in ('ptr', 'obj') else a
        ops = ([('ptr', this)] if this is not None else []) + list(args)
        if q == 'std::for_each' and len(ops) == 3 and val(ops[0])[0] == 'it':
            a, b = val(ops[0]), val(ops[1])
            for i in range(a[2], b[2]): x.call_lambda(ops[2] if ops[2][0] == 'lam' else val(ops[2]), [('ptr', ('[]', a[1], C(i)))], n)
            return C(0)
        if ops and base.startswith('operator') and val(ops[0])[0] == 'it':
            v = val(ops[0])
            if base in ('operator!=', 'operator==') and len(ops) == 2 and val(ops[1])[0] == 'it': return C((v == val(ops[1])) == (base == 'operator=='))
            if base == 'operator++': x.set(x.deref(ops[0]), ('it', v[1], v[2] + 1), log=False); return ops[0]
            if base in ('operator*', 'operator->'): return ('ptr', ('[]', v[1], C(v[2])))
        return NotImplemented
    waits = None
    def on_stmtexpr(self, x, n):
        b = n['body'].get('s', [])
        if not b or b[0].get('k') != 'Decl' or b[0]['d'][0].get('n') != '__cpu': return NotImplemented
        cpu = x.ev(b[0]['d'][0]['init'])
        tgt = [y for z in b[1:] for y in walk(z) if y.get('k') == 'Un' and y.get('op') == '&' and 'cpu_set_t' in y.get('t', '')]
        ops = [y['op'] for z in b[1:] for y in walk(z) if y.get('k') == 'CAsg']
        if not tgt or not ops: return NotImplemented
        l = x.deref(x.ev(tgt[0]))
        v = x.get(l)
        if v == ('zero',): v = ('cpus', frozenset())
        if v[0] != 'cpus' or not isinstance(v[1], frozenset): x.set(l, ('cpus', None)); return C(0)         # the mask is not known
        while cpu[0] == 'cast': cpu = cpu[3]
        if cpu[0] != 'c': raise AnalysisError('CPU number %r at %s' % (cpu, n['l']))
        x.set(l, ('cpus', v[1] | {cpu[1]} if ops == ['|'] else v[1] - {cpu[1]}))
        return C(0)

class L(P): local = True

def calls(m, f, name, seen=None):
    seen = set() if seen is None else seen
    if f['id'] in seen: return False
    seen.add(f['id'])
    for n in walk(f.get('body') or {}):
        if n.get('k') in ('Call', 'MCall', 'OpCall'):
            if short(n.get('qn', '')).rsplit('::', 1)[-1] == name: return True
            g = m.fns.get(n.get('fn'))
            if g is not None and g.get('cls') == f.get('cls') and calls(m, g, name, seen): return True
    return False

def arg(x, q, i, **given):
    t = strip(q['t'])
    for k, v in given.items():
        if k in t or (k == 'mask' and q.get('tk') == 'u64'): return v
    r = ('R', 'arg%d' % i); x.ltype[r] = t
    if q['t'].rstrip().endswith(('&', '*')): return ('ptr', r)
    if q.get('tk') == 'o': return ('obj', r)
    x.xt[('in', r)] = q.get('tk', 'i32')
    return ('in', r)

def methods(m, cls): return sorted([f for f in m.fns.values() if f.get('cls') == cls and f.get('body') and not f.get('ctor') and not f.get('dtor') and not f.get('lambda') and not f.get('static') and f.get('acc', 'public') == 'public'], key=lambda f: f['id'])
def dtor_of(m, cls): return next((f for f in m.fns.values() if f.get('dtor') and f.get('cls') == cls and f.get('body')), None)

def threads(m, R, cls):
    """the class that creates a thread; returns the names of its methods that join it"""
    ct = ctor_of(m, cls)
    if len(ct) != 1: raise AnalysisError('%d constructors of %s' % (len(ct), cls))
    ms = methods(m, cls)
    st = [f for f in ms if calls(m, f, 'pthread_create')]
    # its creating method, or its constructor
    if len(st) > 1: raise AnalysisError('%s creates threads in several methods' % cls)
    others = [f for f in ms if f not in st and not f['p']]
    dt = dtor_of(m, cls)
    seqs = [[]] + [[o] for o in others] + [st] + [st + [o] for o in others] + [st + [o, p] for o in others for p in others]
    if not st: seqs = [[]] + [[o] for o in others]
    joins = {f['name'] for f in others}
    dj = True
    for seq, mk0 in [(q, k) for q in seqs for k in (0, 5)]:
        def entry(x):
            x.made = []; x.out = []
            x.ltype[THIS] = cls
            x.run_ctor(ct[0], THIS, [arg(x, q, i, mask=C(mk0)) for i, q in enumerate(ct[0]['p'])])
            x.ltype[THIS] = cls
            for f in seq:
                k = len(x.trace)
                try:
                    r = x.call_fn(f, THIS, [arg(x, q, i) for i, q in enumerate(f['p'])])
                    x.out.append((f, 'normal', k, len(x.trace), r))
                except Thrown: x.out.append((f, 'throw', k, len(x.trace), None))
            x.mark = len(x.trace)
            if dt is not None: x.call_fn(dt, THIS, [])
            return C(0)
        inst = '%s:%s' % (cls.rsplit('::', 1)[-1], '+'.join(f['name'] for f in seq) or 'unused')
        for p in explore(m, L(), entry):
            x = p.x
            ev = [e for e in x.trace if getattr(e, 'kind', None) == 'sys']
            if p.outcome == 'throw' and not x.out and not hasattr(x, 'mark'): continue          # not constructed
            if p.outcome != 'normal': R.fail('join', inst, dt['l'] if dt else '', 'the destructor ends by ' + p.outcome, p.trace); continue
            made = [e.x['tid'] for e in ev if e.name == 'pthread_create' and e.x['ok']]
            j = [e.x['tid'] for e in ev if e.name == 'pthread_join']
            for e in ev:
                if e.name == 'pthread_join' and e.x['tid'] not in made: R.fail('join', inst, e.src, 'a thread is joined that was not created', p.trace); break
                if e.name == 'pthread_detach': R.fail('join', inst, e.src, 'a thread is left to itself', p.trace); break
            else:
                R.check(all(j.count(t) == 1 for t in made), 'join', inst, dt['l'] if dt else ct[0]['l'], 'a thread that was created is joined %d times' % (j.count(made[0]) if made else 0), p.trace)
            for f, o, a, b, r in x.out:
                if f in st:
                    bad = [e for e in x.trace[a:b] if getattr(e, 'kind', None) == 'sys' and not e.x['ok'] and e.name in ('pthread_create', 'pthread_setaffinity_np')]
                    mis = [e for e in x.trace[a:b] if getattr(e, 'kind', None) == 'cpucmp' and not e.x['same']]
                    if bad or mis: R.check(o == 'throw', 'reported', inst, (bad + mis)[0].src, 'a thread that could not be %s goes unnoticed' % ('created' if bad and bad[0].name == 'pthread_create' else 'bound to its CPUs'), p.trace)
                    elif o == 'throw' and all(e.x['ok'] for e in x.trace[a:b] if getattr(e, 'kind', None) == 'sys'): R.fail('reported', inst, f['l'], 'a thread that runs as configured is reported as failed', p.trace)
                    else: R.ok('reported', inst)
            # what joins a running thread
            if seq[:1] == st and st and x.out and made:
                for f, o, a, b, r in x.out[1:2]:
                    if not any(getattr(e, 'kind', None) == 'sys' and e.name == 'pthread_join' for e in x.trace[a:b]): joins.discard(f['name'])
                if len(seq) == 1 and not any(getattr(e, 'kind', None) == 'sys' and e.name == 'pthread_join' for e in x.trace[x.mark:]): dj = False
    # the CPUs
    full = 2 ** 64 - 1
    masks = [1 << b for b in range(64)] + [full ^ 1 << b for b in (0, 31, 32, 63)] + [full, 0]
    n = 0
    for mk in masks:
        pol = L(); pol.fail = False
        def entry(x):
            x.made = []
            x.ltype[THIS] = cls
            x.run_ctor(ct[0], THIS, [arg(x, q, i, mask=C(mk)) for i, q in enumerate(ct[0]['p'])])
            x.ltype[THIS] = cls
            if st: x.call_fn(st[0], THIS, [arg(x, q, i) for i, q in enumerate(st[0]['p'])])
            return C(0)
        inst = 'mask %#x' % mk
        want = frozenset(b for b in range(64) if mk >> b & 1)
        for p in explore(m, pol, entry):
            sets = [e for e in p.events('sys') if e.name == 'pthread_setaffinity_np']
            if p.outcome != 'normal': continue
            n += 1
            if not mk: R.check(not sets, 'cpus', inst, st[0]['l'] if st else ct[0]['l'], 'a thread that may run anywhere is bound to CPUs', p.trace); continue
            ok = R.check(bool(sets), 'cpus', inst, (st or ct)[0]['l'], 'a thread is not bound to its CPUs', p.trace)
            if ok:
                got = sets[-1].x['set'][1] if sets[-1].x['set'][0] == 'cpus' else None
                if got is None or not isinstance(got, frozenset): raise AnalysisError('CPU set of unknown content at ' + sets[-1].src + inst + repr(sets[-1].x['set']) + repr([str(t) for t in p.trace][:12]))
                R.check(got == want and sets[-1].x['tid'] in p.x.made, 'cpus', inst, sets[-1].src, 'the thread is bound to the CPUs %s' % sorted(got)[:6], p.trace)
    if n < 60: raise AnalysisError('the CPU masks could not be followed')
    return joins, dj, st[0]['name'] if st else None

def entered(m, R, cls, name):
    """the function a thread begins with runs the loop the thread was made for, once"""
    ct = ctor_of(m, cls)[0]
    st = [f for f in methods(m, cls) if calls(m, f, 'pthread_create')]
    fs = set()
    for f in m.fns.values():
        for n in walk(f.get('body') or {}):
            if n.get('k') == 'Call' and short(n.get('qn', '')).lstrip(':') == 'pthread_create' and len(n['a']) == 4:
                lam = [q for q in walk(n['a'][2]) if q.get('k') == 'Lambda']
                if lam: fs |= {i for q in lam for i in q.get('ops', ())}
                else: fs |= {q.get('id') or q.get('fn') for q in walk(n['a'][2]) if q.get('k') == 'Ref'}
    fs = [m.fns[i] for i in fs if i in m.fns and m.fns[i].get('body')]
    if len(fs) != 1: raise AnalysisError('%d functions threads begin with' % len(fs))
    pol = L(); pol.fail = False
    class E(L):
        fail = False
        def hook(self, x, n, qn, this, args):
            if args is not None and this is not None and this[0] == 'R' and this[1].startswith('arg') and short(qn).rsplit('::', 1)[-1] == name:
                x.event('ran', name, this, args, n); return C(0)
            return L.hook(self, x, n, qn, this, args)
    def entry(x):
        x.made = []; x.given = []; x.ltype[THIS] = cls
        a = [arg(x, q, i, mask=C(0)) for i, q in enumerate(ct['p'])]
        x.given = [v[1] for v in a if v[0] == 'ptr']
        x.run_ctor(ct, THIS, a)
        x.ltype[THIS] = cls
        if st: x.call_fn(st[0], THIS, [arg(x, q, i + 9) for i, q in enumerate(st[0]['p'])])
        for e in [e for e in x.trace if getattr(e, 'kind', None) == 'sys' and e.name == 'pthread_create']:
            x.call_fn(fs[0], None, [e.args[3]])
        return C(0)
    k = 0
    for p in explore(m, E(), entry):
        k += 1
        r = p.events('ran')
        R.check(p.outcome == 'normal' and len(r) == 1 and r[0].obj in p.x.given, 'all', cls + '/entry', fs[0]['l'], 'a thread runs its event loop %d times' % len(r), p.trace)
    R.check(k > 0, 'all', cls + '/entry:path', fs[0]['l'], 'no thread is ever started')

def fill(x, loc, cls, k=3):
    """a container of k owned objects"""
    x.store[loc] = ('list', k)
    out = []
    for i in range(k):
        r = ('R', 'part%d' % i); x.ltype[r] = cls
        x.store[('[]', loc, C(i))] = ('ptr', r); out.append(r)
    return out

def check(m, R, tier):
    R.rule('join', 'a thread that was created is joined exactly once, one that was not is never joined')
    R.rule('reported', 'a thread that cannot be created or bound is reported')
    R.rule('cpus', 'a thread is bound to exactly the CPUs of its mask')
    R.rule('stop', 'stopping announces the stop and then waits for every thread')
    R.rule('alive', 'nothing the threads use is destroyed before they have ended')
    R.rule('loop', 'the loop function sees the stop request')
    R.rule('all', 'every configured thread is created and started')
    tc = sorted({f['cls'] for f in m.fns.values() if f.get('cls') and f.get('body') and any(n.get('k') == 'Call' and short(n.get('qn', '')).lstrip(':') == 'pthread_create' for n in walk(f['body']))})
    if len(tc) != 1: raise AnalysisError('%d classes that create threads' % len(tc))
    cls = tc[0]
    joins, dj, start = threads(m, R, cls)
    owners = [(c, f['n']) for c, r in m.recs.items() for f in r['f'] if holds(strip(f['t']), cls)]
    if len(owners) != 1: raise AnalysisError('%d owners of threads' % len(owners))
    own, vec = owners[0]
    V = ('.', THIS, vec)
    flags = {f['n'] for f in m.recs[own]['f'] if strip(f['t']).startswith(('std::atomic<bool', 'std::atomic_bool', 'std::atomic_flag'))} | {f['n'] for f in m.recs[own]['f'] if strip(f['t']) == 'bool'}
    run = [f for f in methods(m, own) if any(n.get('k') in ('While', 'Do', 'For') for n in walk(f['body'])) and any(n.get('k') in ('Call', 'MCall') and n.get('name') == 'wait' for n in walk(f['body']))]
    stops = [f for f in methods(m, own) if f['name'] == 'stop']
    if not run: run = [f for f in methods(m, own) if any(n.get('k') in ('While', 'Do', 'For') for n in walk(f['body'])) and calls(m, f, 'wait')]
    if not run:
        lo = [f for f in methods(m, own) if any(n.get('k') in ('While', 'Do') for n in walk(f['body']))]
        if lo: R.fail('loop', lo[0]['qn'], lo[0]['l'], 'the loop never waits for events', []); return
    if len(run) != 1 or len(stops) != 1: raise AnalysisError('loop function or stop of %s not found' % own)
    entered(m, R, cls, run[0]['name'])
    def base(x, k=3):
        x.made = []; x.ltype[THIS] = own
        return fill(x, V, cls, k)
    # which flag ends the loop
    flag = None
    for n in walk(run[0]['body']):
        if n.get('k') == 'Mem' and n.get('n') in flags: flag = n['n']
    if flag is None:
        R.fail('loop', run[0]['qn'], run[0]['l'], 'the loop does not ask for a stop request', [])
        return
    FL = ('.', THIS, flag)
    def ended(p, inst, f, rule):
        """stop announced, then every thread joined"""
        x = p.x
        seq = [e for e in x.trace if getattr(e, 'kind', None) in ('part', 'atomic', 'cleared') or getattr(e, 'kind', None) == 'set']
        told = False; got = []
        for e in seq:
            if e.kind == 'atomic' and e.name == 'store' and e.obj == FL: told = e.args[0] not in (C(0),)
            if e.kind == 'part' and e.name in joins:
                if not told: R.fail(rule, inst, e.src, 'a thread is waited for that was not told to stop', p.trace); return
                got.append(e.obj)
            if e.kind == 'cleared':
                if not (dj and told and e.obj == V and e.name == 'clear'):
                    R.fail(rule, inst, e.src, 'objects of the threads are destroyed before the threads have ended', p.trace); return
                got = [('R', 'part%d' % i) for i in range(3)]
        if x.get(FL) not in (C(1),) and not told: R.fail(rule, inst, f['l'], 'the threads are not told to stop', p.trace); return
        R.check(set(got) >= {('R', 'part%d' % i) for i in range(3)}, rule, inst, f['l'], 'not every thread has ended when this function returns', p.trace)
    pol = P(); pol.parts = (V,)
    for f in stops:
        def entry(x): base(x); return x.call_fn(f, THIS, [arg(x, q, i) for i, q in enumerate(f['p'])])
        for p in explore(m, pol, entry):
            if p.outcome != 'normal': R.fail('stop', f['qn'], f['l'], 'stopping ends by ' + p.outcome, p.trace); continue
            ended(p, f['qn'], f, 'stop')
    dt = dtor_of(m, own)
    if dt is None: R.fail('alive', own, m.recs[own]['l'], 'no destructor waits for the threads', [])
    else:
        def entry(x): base(x); return x.call_fn(dt, THIS, [])
        for p in explore(m, pol, entry):
            if p.outcome != 'normal': R.fail('alive', own + '/destructor', dt['l'], 'the destructor ends by ' + p.outcome, p.trace); continue
            ended(p, own + '/destructor', dt, 'alive')
    # the owner of the owners
    ifs = [own] + m.all_bases(own)
    tops = [(c, f['n'], i) for c, r in m.recs.items() for f in r['f'] for i in ifs if holds(strip(f['t']), i)]
    if not tops: raise AnalysisError('nobody owns the event loops')
    for top, tv, ti in tops:
        TV = ('.', THIS, tv)
        pol = P(); pol.parts = tuple(('.', THIS, f['n']) for f in m.recs[top]['f'] if strip(f['t']).startswith('std::'))
        fs = [(f, 'stop') for f in methods(m, top) if f['name'] == stops[0]['name']]
        d = dtor_of(m, top)
        if d is None: R.fail('alive', top, m.recs[top]['l'], 'no destructor stops the event loops', [])
        else: fs.append((d, 'alive'))
        for f, rule in fs:
            def entry(x):
                x.made = []; x.ltype[THIS] = top
                fill(x, TV, ti)
                return x.call_fn(f, THIS, [arg(x, q, i) for i, q in enumerate(f['p'])])
            for p in explore(m, pol, entry):
                if p.outcome != 'normal': R.fail(rule, f['qn'], f['l'], 'ends by ' + p.outcome, p.trace); continue
                got = set(); bad = None
                for e in p.x.trace:
                    if getattr(e, 'kind', None) == 'part' and e.name == stops[0]['name']: got.add(e.obj)
                    if getattr(e, 'kind', None) == 'cleared' and len(got) < 3: bad = e
                if bad is not None: R.fail(rule, f['qn'], bad.src, 'objects are destroyed while event loops run', p.trace)
                else: R.check(len(got) == 3, rule, f['qn'], f['l'], 'only %d of 3 event loops are stopped' % len(got), p.trace)
        # a loop that is handed over is kept
        class K(P):
            def hook(self, x, n, qn, this, args):
                b = short(qn).rsplit('::', 1)[-1]
                if args is not None and this == TV and b in ('push_back', 'emplace_back', 'push_front', 'emplace_front', 'insert', 'emplace'):
                    for a in args: x.event('kept', b, this, [x.get(a[1]) if a[0] in ('ptr', 'obj') and a[1] != ('R', 'theLoop') else a], n)
                    t = x.temp(n.get('rt')); return ('ptr', t)
                return P.hook(self, x, n, qn, this, args)
        for f in methods(m, top):
            own1 = [i for i, q in enumerate(f['p']) if holds(strip(q['t'].rstrip('& ')), ti)]
            if len(own1) != 1: continue
            def entry(x):
                x.made = []; x.ltype[THIS] = top
                g = ('R', 'given'); x.ltype[g] = strip(f['p'][own1[0]]['t'].rstrip('& ')); x.store[g] = ('ptr', ('R', 'theLoop'))
                return x.call_fn(f, THIS, [(('ptr' if f['p'][i].get('tk') == 'r' else 'obj'), g) if i == own1[0] else arg(x, q, i) for i, q in enumerate(f['p'])])
            for p in explore(m, K(), entry):
                if p.outcome != 'normal': continue
                R.check(any(e.args[0] == ('ptr', ('R', 'theLoop')) for e in p.events('kept')) or any(v == ('ptr', ('R', 'theLoop')) for k, v in p.x.store.items() if k != ('R', 'given') and root(k) == THIS), 'all', f['qn'], f['l'], 'an event loop handed over is not kept', p.trace)
        for f in methods(m, top):
            if f['name'] != 'start': continue
            def entry(x):
                x.made = []; x.ltype[THIS] = top
                fill(x, TV, ti)
                return x.call_fn(f, THIS, [])
            for p in explore(m, pol, entry):
                got = [e.obj for e in p.x.trace if getattr(e, 'kind', None) == 'part' and e.name == 'start']
                R.check(p.outcome == 'normal' and sorted(got) == [('R', 'part%d' % i) for i in range(3)], 'all', f['qn'], f['l'], 'of 3 event loops %d are started' % len(set(got)), p.trace)
    # the owner: creation and start
    for f in methods(m, own):
        if f['name'] != 'start': continue
        pol = P(); pol.parts = (V,)
        def entry(x): base(x); return x.call_fn(f, THIS, [])
        for p in explore(m, pol, entry):
            got = [e.obj for e in p.x.trace if getattr(e, 'kind', None) == 'part' and e.name == start]
            R.check(p.outcome == 'normal' and sorted(got) == [('R', 'part%d' % i) for i in range(3)], 'all', f['qn'], f['l'], 'of 3 threads %d are started' % len(set(got)), p.trace)
    for ct in ctor_of(m, own):
        if len(ct['p']) != 1 or strip(ct['p'][0]['t']) not in m.recs: continue
        it = strip(ct['p'][0]['t']); names = {f['n'] for f in m.recs[it]['f']}
        if not {'numThreads', 'cpuMask'} <= names: continue
        for k in (1, 3):
            I = ('R', 'init')
            pol = P(); pol.fail = False; pol.max_loop = 4
            def entry(x):
                x.made = []; x.ltype[THIS] = own; x.ltype[I] = it
                x.store[('.', I, 'numThreads')] = C(k)
                x.run_ctor(ct, THIS, [('ptr', I)])
                return C(0)
            for p in explore(m, pol, entry):
                if p.outcome != 'normal': continue
                new = [e for e in p.x.trace if getattr(e, 'kind', None) == 'new' and e.name == cls]
                R.check(len(new) == k, 'all', '%s/%d threads' % (own, k), ct['l'], '%d threads are made for %d configured' % (len(new), k), p.trace)
                vals = [[p.x.get(a[1]) if a[0] == 'ptr' and a[1] != THIS else a for a in e.args] for e in new]
                R.check(all(('in', ('.', I, 'cpuMask')) in v and ('ptr', THIS) in v for v in vals), 'all', '%s/%d threads:mask' % (own, k), ct['l'], 'a thread is made for other CPUs or another loop than configured', p.trace)
    # the loop
    pol = P(); pol.waits = 'wait'; pol.max_loop = 3
    seen = 0
    def entry(x):
        x.made = []; x.ltype[THIS] = own; x.xt[('in', FL)] = 'b'
        return x.call_fn(run[0], THIS, [])
    for p in explore(m, pol, entry):
        fresh = False; over = False; bad = None
        for e in p.x.trace:
            k = getattr(e, 'kind', None)
            if k == 'atomic' and e.name == 'load' and e.obj == FL:
                fresh = True
                over = over or p.x.facts.bounds(('ev', e.i, 'atomic'))[0] == 1
            if k == 'wait':
                if not fresh: bad = (e, 'the loop waits again without asking for the stop request')
                elif over: bad = (e, 'the loop goes on after the stop request')
                fresh = False
        if bad: R.fail('loop', run[0]['qn'], bad[0].src, bad[1], p.trace)
        elif p.outcome == 'normal': seen += 1; R.check(over, 'loop', run[0]['qn'], run[0]['l'], 'the loop ends without a stop request', p.trace)
    R.check(seen > 0, 'loop', run[0]['qn'], run[0]['l'], 'the loop never ends')
    for f in m.fns.values():
        for n in walk(f.get('body') or {}):
            if n.get('k') == 'Call' and short(n.get('qn', '')).lstrip(':') in ('epoll_wait', 'epoll_pwait'):
                t = n['a'][3]
                v = t.get('cv')
                if v is None: continue
                R.check(v >= 0, 'loop', f['qn'] + '/bounded', n['l'], 'the wait has no bound, so that a stop request is never seen')
    R.need('all', 5)
    R.info.update(thread=cls, owner=own)
    for r in ('join', 'reported', 'stop', 'alive', 'loop', 'all'): R.need(r, 1)
    R.need('cpus', 60)

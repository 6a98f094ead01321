"""C07: lock-set analysis. The functions that several threads execute on the same object (the message
manager, the event loop's send and stop, the logger) are found by reachability from those entry points; every
field they touch must be atomic, never written after the event loops start, or accessed - anywhere in code that
runs while they run - only with one and the same mutex held. Locks are tracked on every path (guards, explicit
lock/unlock, exceptions): none is held on exit, taken twice, or taken in conflicting orders (log statements
count as taking the logger's lock). Everything else is confined: one thread per event loop, and every
mutable static object is used by the components of a single event loop."""
from sa.model import AnalysisError, walk
from sa.interp import *
from sa.interp import Thrown
from sa.app import AppPolicy, entity
from checks.c01 import deployed, handlers, ids, reach

TECHNIQUE = 'static lock-set, lock-order and thread-confinement analysis (call graph reachability plus path-sensitive abstract interpretation over the AST)'
ASSUMPTIONS = ['objects owned by a component are reached only through that component (instance confinement), apart from statics, which are checked',
               'destruction after the event loops have been stopped is not concurrent with them (ReactorManager::stop waits)']

NONREENTRANT = {'localtime', 'gmtime', 'ctime', 'asctime', 'strtok', 'strerror', 'inet_ntoa', 'gethostbyname', 'setenv', 'putenv', 'setlocale', 'tmpnam'}
OUTPUT = {'printf', 'puts', 'fputs', 'putchar', 'fprintf', 'fwrite', 'fputc', 'vprintf', 'vfprintf', 'fflush'}
ELEM = {'begin', 'end', 'cbegin', 'cend', 'operator[]', 'at', 'front', 'back', 'data', 'find', 'operator->', 'operator*', 'get', 'operator bool', 'size', 'empty', 'rbegin', 'rend', 'operator()'}

class LockPolicy(AppPolicy):
    """records accesses: x.acc = [(class, field, held, write, src)]"""
    max_loop = 3
    def __init__(self, m, f):
        self.cls = f.get('cls')
        self.emb = {strip_cv(g['t']) for g in m.recs.get(self.cls, {}).get('f', ())}
    def inline(self, x, fn, n):
        """other objects are judged by themselves, unless a lock is held"""
        c = fn.get('cls')
        return not c or c == self.cls or c in self.emb or bool(self.held(x))
    def held(self, x):
        h = []
        for e in x.trace:
            if getattr(e, 'kind', None) == 'lock': h.append(e.obj)
            elif getattr(e, 'kind', None) == 'unlock':
                if e.obj in h: h.remove(e.obj)
        return h
    def root(self, loc):
        """outermost field of the containing object"""
        fl = []
        l = loc
        while l[0] in ('.', '[]'):
            fl.append(l); l = l[1]
        for f in reversed(fl):
            if f[0] == '.': return f
        return None
    def on_mem(self, x, loc, n):
        if loc[1][0] in ('.', '[]') and loc[1] not in x.clsof:
            # sub-object of a field: the field itself was recorded
            r = self.root(loc)
            if r in x.clsof: return
        x.clsof[loc] = n['rec']
        x.acc.append((n['rec'], n['n'], tuple(self.held(x)), False, n['l'], loc[1]))
    def on_write(self, x, loc, val, src):
        r = self.root(loc)
        if r in x.clsof:
            x.acc.append((x.clsof[r], r[2], tuple(self.held(x)), True, src, r[1]))
        elif loc[0] == 'G' or self.groot(loc):
            x.gw.append((self.groot(loc) or loc, tuple(self.held(x)), src))
    def groot(self, loc):
        while loc[0] in ('.', '[]'): loc = loc[1]
        return loc if loc[0] == 'G' else None
    def on_log(self, x, n):
        h = self.held(x)
        if h: x.logs.append((tuple(h), n['l']))
    def hook(self, x, n, qn, this, args):
        if args is None: return NotImplemented
        q = short(qn); base = q.rsplit('::', 1)[-1]
        if this is not None:
            r = self.root(this)
            if r in x.clsof and n.get('cls', '').startswith('std::') and not n.get('cm'):
                c = n['cls']
                w = base not in ELEM or (base == 'operator[]' and ('map<' in c))
                if 'mutex' in c or 'lock' in c.split('<')[0]: w = False
                if c.startswith('std::function'): w = base == 'operator='
                if 'atomic' in c: w = False
                if w: x.acc.append((x.clsof[r], r[2], tuple(self.held(x)), True, n['l'], r[1]))
        qq = q[2:] if q.startswith('::') else q
        if this is None and (qq in NONREENTRANT or 'std::' + qq in NONREENTRANT or qq.replace('std::', '') in NONREENTRANT | OUTPUT):
            x.event('libc', qq.replace('std::', ''), None, [], n, held=tuple(self.held(x)))
        if this is None and qq in ('write', 'send', 'read', 'epoll_wait', 'close'):
            return NotImplemented
        if n.get('cls', '').startswith('std::function') and base == 'operator()':
            x.event('callback', 'handler', this, args, n, held=tuple(self.held(x)))
            if x.choose(2): raise Thrown('std::runtime_error', x.src, 'handler')
            return C(0)
        return AppPolicy.hook(self, x, n, qn, this, args)

def run(m, f, R=None):
    """explore one function, any arguments"""
    def entry(x):
        x.acc = []; x.gw = []; x.logs = []; x.clsof = {}
        this = None
        if f.get('cls') and not f.get('static'):
            this = ('R', 'this'); x.ltype[this] = f['cls']
        args = []
        for i, q in enumerate(f['p']):
            l = ('R', 'arg%d' % i); t = strip_cv(q['t'])
            if q['t'].rstrip().endswith(('&', '*')): x.ltype[l] = t.rstrip(' *'); args.append(('ptr', l))
            elif q.get('tk') == 'o': x.ltype[l] = t; args.append(('obj', l))
            else: x.xt[('in', l)] = q.get('tk', 'i32'); args.append(('in', l))
        return x.call_fn(f, this, args)
    return explore(m, LockPolicy(m, f), entry)

def thread_time(m, R):
    """functions that run while the event loops run"""
    mains = [g for g in m.fns.values() if g['qn'] == 'main' and g.get('body')]
    if not mains: raise AnalysisError('main not found')
    calls = []
    for n in walk(mains[0]['body']):
        if n.get('k') in ('MCall', 'Call') and n.get('fn') in m.fns and n.get('own'): calls.append(n)
    def is_start(n): return n['qn'].endswith('ReactorManager::start')
    # in source order: what comes at or after the start of the loops
    later, on = [], False
    for n in calls:
        if is_start(n): on = True
        if on: later.append(n['fn'])
    if not later: raise AnalysisError('main does not start the event loops')
    runs = [f['id'] for f in m.method('app::reactor::Reactor', 'run')]
    lam = [f['id'] for f in m.fns.values() if f['name'] == 'operator()' and f.get('body') and 'lambda' in f.get('cls', 'lambda')]
    return set(reach(m, later + runs + lam)), later

def check(m, R, tier):
    R.rule('guarded', 'a field that several threads touch is atomic, constant while they run, or accessed only with its mutex held')
    R.rule('lock-released', 'no lock is held when a function is left, by return or exception')
    R.rule('lock-once', 'a lock is not taken while the same thread holds it')
    R.rule('lock-order', 'locks are taken in a consistent order')
    R.rule('statics', 'code run by several threads writes no static object without a lock')
    R.rule('output', 'log lines are written, and functions with static buffers are used, under a lock')
    R.rule('one-thread', 'each event loop runs in exactly one thread')
    R.rule('confined', 'a mutable static object is used by the components of one event loop only')
    T, later = thread_time(m, R)
    logm = [f['id'] for f in m.fns.values() if f.get('cls') == 'app::Logger' and f.get('body') and f['name'] in ('dispatch', 'getTaskLogLevel', 'getInst')]
    if not logm: raise AnalysisError('Logger not found')
    mgr = [f for f in m.fns.values() if f.get('cls') == 'app::reactor::ReactorManager' and f['name'] in ('send', 'stop', 'start') and f.get('body')]
    if len(mgr) < 3: raise AnalysisError('ReactorManager not found')
    # main starts the threads; what a thread itself runs is confined
    own = set()
    runs = {f['id'] for f in m.method('app::reactor::Reactor', 'run')}
    ctors = {f['id'] for f in m.fns.values() if f.get('ctor')}
    X = set(reach_from(m, [g['id'] for g in mgr] + logm, runs | ctors))
    Xf = [m.fns[i] for i in X if i in m.fns and m.fns[i].get('body') and m.fns[i].get('qn', '').startswith('app::') and not m.fns[i].get('ctor') and not m.fns[i].get('dtor')]
    # a message is private to the thread that builds or handles it
    Xf = [f for f in Xf if f.get('cls') != 'app::reactor::MsgInterface' and 'app::reactor::MsgInterface' not in m.all_bases(f.get('cls') or '')]
    shared = {}
    paths = {}
    def runc(f):
        if f['id'] not in paths:
            import os, time; t0 = time.time()
            if os.environ.get('DBG'): print('>', f['qn'], f['l'], flush=True)
            paths[f['id']] = run(m, f)
            if os.environ.get('DBG'): print(f['qn'], len(paths[f['id']]), '%.1f' % (time.time() - t0), flush=True)
        return paths[f['id']]
    called_by = {}
    for i in T | X:
        f = m.fns.get(i)
        if not f or not f.get('body'): continue
        for n in walk(f['body']):
            if n.get('fn'): called_by.setdefault(n['fn'], set()).add(i)
    def topmost(fs):
        """a private helper is judged through its callers"""
        tops = set()
        for f in fs:
            st, seen = [f], set()
            while st:
                g = st.pop()
                if g['id'] in seen: continue
                seen.add(g['id'])
                helper = g.get('acc') in ('private', 'protected') or not g.get('cls')
                up = [m.fns[c] for c in called_by.get(g['id'], ()) if c in m.fns and (m.fns[c].get('cls') == f.get('cls') or not g.get('cls'))]
                if helper and up: st.extend(up)
                else: tops.add(g['id'])
        return tops
    emb = {strip_cv(g['t']) for r in m.recs.values() for g in r.get('f', ())}
    ismsg = lambda c: 'app::reactor::MsgInterface' in m.all_bases(c or '')
    entries = [m.fns[i] for i in sorted(topmost([f for f in Xf if f.get('cls') not in emb or f['cls'] in ('app::reactor::ReactorManager',)])) if not ismsg(m.fns[i].get('cls'))]
    for f in entries:
        for p in runc(f):
            for c, fl, held, w, src, base in p.x.acc:
                if c.startswith('app::') and not local(base): shared.setdefault((c, fl), f['qn'])
            for l, held, src in p.x.gw:
                if l[1] == 'errno': continue
                R.check(bool(held), 'statics', '%s in %s' % (show(('in', l)), f['qn']), src, 'a static object is written by code that several threads run')
            R.ok('statics', f['qn'])
    # all accesses in thread-time code
    classes = {c for c, _ in shared if c in m.recs}
    touch = []
    for i in T:
        f = m.fns.get(i)
        if not f or not f.get('body') or f.get('ctor') or f.get('dtor'): continue
        if any(n.get('k') == 'Mem' and (n.get('rec'), n.get('n')) in shared for n in walk(f['body'])): touch.append(f)
    def construction(f):
        cb = [m.fns[c] for c in called_by.get(f['id'], ()) if c in m.fns]
        return bool(cb) and f['id'] not in X and f['id'] not in later and all((c.get('ctor') or c.get('dtor')) and c.get('cls') == f.get('cls') for c in cb)
    touch = [f for f in touch if not construction(f)]
    tops = topmost([f for f in touch if not str(f.get('cls')).startswith('app::Queue<')])
    acc = {}
    for i in sorted(tops | {f['id'] for f in entries}):
        f = m.fns[i]
        if f.get('ctor') or f.get('dtor') or i not in T: continue
        for p in runc(f):
            for c, fl, held, w, src, base in p.x.acc:
                if (c, fl) in shared: acc.setdefault((c, fl), []).append((held, w, src, f['qn'], p))
    nshared = 0
    lockname = {}
    for (c, fl), first in sorted(shared.items()):
        r = m.recs.get(c)
        if not r or not c.startswith('app::'): continue
        g = [x for x in r['f'] if x['n'] == fl]
        if not g: continue
        t = g[0]['t']
        a = acc.get((c, fl), [])
        inst = '%s::%s' % (c, fl)
        nshared += 1
        if c == 'app::Queue' or c.startswith('app::Queue<'):
            continue    # embedded in the object that is judged
        if 'std::mutex' in t or 'std::recursive_mutex' in t or t.startswith(('std::atomic', 'const std::atomic')):
            R.ok('guarded', inst); continue
        wr = [x for x in a if x[1]]
        if not wr or t.startswith('const ') and not t.rstrip().endswith('*') or g[0].get('tk') == 'r':
            R.ok('guarded', inst); continue
        common = None
        for held, w, src, qn, p in a:
            h = {mutex_name(x) for x in held}
            common = h if common is None else common & h
        if common:
            R.ok('guarded', inst); lockname[inst] = sorted(common); continue
        off = [x for x in a if not x[0]] or a
        held, w, src, qn, p = off[0]
        R.fail('guarded', inst, src, '%s is written while several threads use it, and %s accesses it without the lock' % (inst, qn), p.trace)
    R.check(nshared >= 8, 'guarded', 'count', 'src/app/common/reactor', 'only %d shared fields found' % nshared)
    # lock discipline everywhere
    lockers = []
    for f in m.fns.values():
        if not f.get('body') or not f.get('qn', '').startswith('app::'): continue
        if any(n.get('k') in ('Var', 'Decl', 'MCall', 'Ctor') and ('lock_guard' in str(n.get('t', '')) or 'unique_lock' in str(n.get('t', '')) or 'scoped_lock' in str(n.get('t', '')) or n.get('cls', '').startswith('std::mutex')) for n in walk(f['body'])):
            lockers.append(f)
    R.check(len(lockers) >= 1, 'lock-released', 'count', 'src/app/common', 'only %d functions take a lock' % len(lockers))
    edges = {}
    judged = {}
    for f in list(lockers) + entries + [m.fns[i] for i in tops]:
        judged[f['id']] = f
    for f in judged.values():
        for p in runc(f):
            h = []
            for e in p.trace:
                k = getattr(e, 'kind', None)
                if k == 'lock':
                    nm = mutex_name(e.obj)
                    R.check(e.obj not in h, 'lock-once', f['qn'], e.src, 'the lock %s is taken while it is held' % nm, p.trace)
                    for o in h: edges.setdefault((mutex_name(o), nm), (f['qn'], e.src))
                    h.append(e.obj)
                elif k == 'unlock' and e.obj in h: h.remove(e.obj)
                elif k == 'callback' and h:
                    R.fail('lock-order', f['qn'] + '/callback', e.src, 'a handler is called while a lock is held', p.trace)
            R.check(not h, 'lock-released', f['qn'], f['l'], 'the lock %s is still held when the function is left (%s)' % ([mutex_name(o) for o in h], p.outcome), p.trace)
            for held, src in p.x.logs:
                for o in held:
                    nm = mutex_name(o)
                    if f.get('cls') == 'app::Logger' or nm == 'app::Logger::mutex':
                        R.fail('lock-once', f['qn'] + '/log', src, 'a log statement inside the logger takes its lock twice', p.trace)
                    edges.setdefault((nm if not nm.startswith('this.') else f.get('cls', '') + nm[4:], 'log'), (f['qn'], src))
    order(R, edges)
    # output
    nout = 0
    for f in m.fns.values():
        if f['id'] not in T or not f.get('body') or not f.get('qn', '').startswith('app::'): continue
        names = {n.get('qn', '').replace('std::', '').lstrip(':') for n in walk(f['body']) if n.get('k') == 'Call'}
        if not names & (NONREENTRANT | OUTPUT): continue
        if f['id'] not in paths and f.get('cls') != 'app::Logger': pass
        for p in runc(f):
            for e in p.events('libc'):
                if e.name in OUTPUT and f.get('cls') != 'app::Logger': continue
                nout += 1
                R.check(bool(e.x['held']), 'output', '%s/%s' % (f['qn'], e.name), e.src, '%s is used without a lock' % e.name, p.trace)
    R.check(nout > 0, 'output', 'count', 'src/app/common/logger', 'no log output found')
    # confinement
    class Q:    # obligations of the deployment belong to C01
        def __getattr__(s, k): return lambda *a, **b: True
    q = Q()
    comps, _ = deployed(m, q)
    home = q.home
    for c in comps:
        R.check(c in home, 'one-thread', c, m.recs[c]['l'], 'the event loop of the component is unknown')
    for i, v in sorted(set(home.values()), key=repr):
        R.check(v == C(1), 'one-thread', 'loop%d' % i, 'src/app/Deployer.cpp', 'event loop %d is run by %s threads' % (i, show(v)))
    threads_per_loop(m, R)
    types = ids(m, q)
    users = {}
    for c in comps:
        H = handlers(m, q, c, types)
        roots = [d['fn']['id'] for d in H.values() if d['fn']]
        stop = runs | {f['id'] for f in mgr}
        seen = reach_from(m, roots, stop)
        for i in seen:
            f = m.fns.get(i)
            if not f: continue
            for part in (f.get('body'), f.get('inits')):
                if not part: continue
                for n in walk(part):
                    if n.get('k') == 'Ref' and n.get('dk') in ('sdm', 'slocal', 'global') and mutable_static(m, n):
                        users.setdefault(n.get('qn') or n['id'], {}).setdefault(home.get(c), (f['qn'], n['l']))
    for k, u in sorted(users.items()):
        R.check(len(u) <= 1, 'confined', k, list(u.values())[-1][1], '%s is used by components of different event loops (%s)' % (k, sorted(x[0] for x in u.values())))
    R.check(len(users) >= 8, 'confined', 'count', 'src/app', 'only %d mutable statics found' % len(users))
    R.info = {'thread-time functions': len(T), 'functions run by several threads': len(Xf), 'shared fields': ['%s::%s' % k for k in sorted(shared)],
              'guards': lockname, 'lock order': ['%s -> %s' % e for e in edges], 'mutable statics': sorted(users)}

def mutable_static(m, n):
    t = n.get('t', '')
    if t.startswith('const ') or t.startswith('std::basic_ostream'): return False
    if t == 'app::Logger': return False          # judged by its own rules
    r = m.recs.get(t)
    if r is not None and not r.get('f') and not any(m.recs.get(b, {}).get('f') for b in m.all_bases(t)): return False
    return True

def local(loc):
    while loc[0] in ('.', '[]'): loc = loc[1]
    return loc[0] in ('L', 'T')

def mutex_name(loc):
    if loc is None: return '?'
    l = loc
    out = []
    while l[0] in ('.', '[]'):
        if l[0] == '.': out.append(l[2])
        l = l[1]
    return '.'.join(['this' if l == ('R', 'this') else str(show(('in', l)))] + out[::-1])

def order(R, edges):
    g = {}
    for (a, b), w in edges.items(): g.setdefault(a, set()).add(b)
    def path(a, b, seen):
        if a == b: return True
        if a in seen: return False
        seen.add(a)
        return any(path(c, b, seen) for c in g.get(a, ()))
    for (a, b), w in sorted(edges.items()):
        R.check(not path(b, a, set()), 'lock-order', '%s -> %s' % (a, b), w[1], 'locks %s and %s are taken in both orders' % (a, b))
    R.ok('lock-order', 'graph')

def threads_per_loop(m, R):
    cs = [f for f in m.fns.values() if f.get('ctor') and f.get('cls') == 'app::reactor::Reactor' and not f.get('copyctor')]
    if not cs: raise AnalysisError('constructor of Reactor not found')
    class P(AppPolicy):
        def hook(self, x, n, qn, this, args):
            if args is not None and short(qn) == 'std::make_unique' and n.get('targs'):
                x.event('made', n['targs'][0], None, args, n)
                t = x.temp(n.get('rt')); x.set(t, ('ptr', ('N', x.fresh())), log=False); return ('obj', t)
            if args is None and ('EntityPool' in qn):
                x.set(this, ('un', x.fresh(), 'pool')); return C(0)
            return AppPolicy.hook(self, x, n, qn, this, args)
    def entry(x):
        l = ('R', 'init'); x.ltype[l] = 'app::reactor::Reactor::Init'
        x.store[('.', l, 'numThreads')] = C(1)
        x.run_ctor(cs[0], ('R', 'this'), [('ptr', l)])
    k = 0
    for p in explore(m, P(), entry):
        if p.outcome != 'normal': continue
        k += 1
        th = [e for e in p.events('made') if e.name.endswith('::Thread')]
        R.check(len(th) == 1, 'one-thread', 'Reactor', cs[0]['l'], '%d threads are created for one' % len(th), p.trace)
    R.check(k > 0, 'one-thread', 'Reactor/path', cs[0]['l'], 'no path creates the event loop')

def reach_from(m, roots, stop):
    from checks.c01 import reach_without
    return reach_without(m, roots, stop)

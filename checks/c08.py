"""C08: typestate of every descriptor. Each class that obtains descriptors from the operating system is found
by its system calls; its constructor, destructor and every method are explored from every state reachable by
earlier calls (a fixpoint over {no descriptor, open and registered}) with every system call failing or
succeeding and every handler call re-entering the object. On every way out (return or exception) each
descriptor obtained must be closed exactly once, or be held by its owner and registered exactly once."""
from sa.model import AnalysisError, walk
from sa.interp import *
from sa.interp import Thrown
from sa.app import AppPolicy, entity
from sa.report import Report

TECHNIQUE = 'static typestate analysis of descriptors (path-sensitive abstract interpretation over the AST, fixpoint over object states)'
ASSUMPTIONS = ['timerfd_settime does not fail on a valid timer descriptor',
               'close releases the descriptor also when it reports an error (Linux)',
               'a handler called by the event loop may close or reopen the link it belongs to, but does not destroy the object whose method is running']

ACQ = {'socket', 'accept', 'accept4', 'timerfd_create', 'eventfd', 'epoll_create1', 'epoll_create', 'open', 'openat', 'creat', 'dup', 'dup2', 'dup3',
       'signalfd', 'inotify_init', 'inotify_init1', 'memfd_create', 'fcntl_dup', 'pidfd_open', 'userfaultfd'}
FAILING = {'fcntl', 'bind', 'listen', 'connect', 'setsockopt', 'getsockopt', 'ioctl', 'shutdown', 'read', 'write', 'send', 'recv', 'sendto', 'recvfrom'}

def sysname(q):
    return q[2:] if q.startswith('::') else q

class FdPolicy(AppPolicy):
    """x.fd: token -> [state, registrations]; state open / closed"""
    again = ()          # states another call on the object can bring it to
    def fdev(self, x, what, msg, n):
        x.event('bad', what, None, [], n, msg=msg)
    def tok(self, x):
        t = ('un', x.fresh(), 'fd'); x.xt[t] = 'i32'
        x.assume('>=', t, C(0))
        x.fd[t] = ['open', 0]
        return t
    def fdof(self, x, obj):
        """descriptor of a FileDescriptorInterface object"""
        if obj in x.owned: return x.owned[obj]
        cls = x.ltype.get(obj)
        cand = x.m.method(cls, 'fileDescriptor') if cls and cls in x.m.recs else []
        if cand and cand[0].get('body'):
            return x.call_fn(cand[0], obj, [])
        return None
    def hook(self, x, n, qn, this, args):
        if args is None: return NotImplemented
        q = sysname(short(qn)); own = n.get('own')
        base = q.rsplit('::', 1)[-1]
        if this is None and q in ACQ:
            x.event('acquire', q, None, args, n)
            self.sites.add(n['l'])
            if x.choose(2) == 1: return C(-1)
            return self.tok(x)
        if this is None and q == 'close' and len(args) == 1:
            v = args[0]
            st = x.fd.get(v)
            if st is None: self.fdev(x, 'close-other', 'closes %s, which is not a descriptor held' % show(v), n)
            elif st[0] != 'open': self.fdev(x, 'double-close', 'closes the same descriptor twice', n)
            else:
                if st[1] > 0: self.fdev(x, 'close-registered', 'closes the descriptor while it is registered for events', n)
                st[0] = 'closed'; st[1] = 0
            return C(0) if x.choose(2) == 0 else C(-1)
        if this is None and q in FAILING:
            e = x.event('sys', q, None, args, n)
            if q in ('read', 'write', 'send', 'recv', 'recvfrom', 'sendto'):
                r = ('ev', e.i, q); x.xt[r] = n.get('rtk') or 'i64'; return r
            return C(0) if x.choose(2) == 0 else C(-1)
        if this is None and q == 'timerfd_settime':
            return C(0) if x.fd.get(args[0], ['closed'])[0] == 'open' else C(-1)
        if this is None and q == 'clock_gettime': return C(0)
        if this is not None and base in ('add', 'mod', 'del') and q.split('::')[-2:-1][0] in ('EpollInterface', 'Epoll'):
            obj = x.deref(args[0])
            v = self.fdof(x, obj)
            st = x.fd.get(v)
            if st is None or st[0] != 'open':
                if base != 'mod': self.fdev(x, base + '-not-open', 'epoll %s for %s, which is not open' % (base, show(v) if v else 'unknown'), n)
                return C(-1)
            if base == 'add':
                if st[1] > 0: self.fdev(x, 'registered-twice', 'registers the descriptor for events twice', n)
                if x.choose(2) == 1: return C(-1)
                st[1] += 1; return C(0)
            if base == 'del':
                st[1] = 0
                return C(0) if x.choose(2) == 0 else C(-1)
            return C(0) if x.choose(2) == 0 else C(-1)
        # the link an accepted connection is handed to
        if this is not None and this[0] == 'R' and this[1] == 'peerlink':
            if base == 'setFileDescriptor':
                if x.choose(2) == 1: raise Thrown('std::runtime_error', x.src, 'already connected')
                if x.owned.get(this) is not None: self.fdev(x, 'overwritten', 'gives a second descriptor to the link', n)
                x.owned[this] = args[0]
                return C(0)
            if base in ('close', 'release'):
                v = x.owned.get(this)
                if v is not None:
                    st = x.fd[v]; st[1] = 0
                    if st[0] != 'open': self.fdev(x, 'double-close', 'the link closes a descriptor that is closed', n)
                    st[0] = 'closed'
                    x.owned[this] = None
                return C(0)
            if base == 'fileDescriptor': return x.owned.get(this) or C(-1)
        if this is not None and base in ('onFdEvent', 'onThreadEvent') and n.get('virt'):
            x.event('handler', 'handler', this, args, n)
            if x.choose(2) == 1: raise Thrown('std::runtime_error', x.src, 'handler')
            return C(0)
        if q == 'std::function::operator()' or (n.get('cls', '').startswith('std::function') and n.get('name') == 'operator()'):
            x.event('handler', 'handler', this, args, n)
            self.reentry(x)
            if x.choose(2) == 1: raise Thrown('std::runtime_error', x.src, 'handler')
            return C(0)
        return AppPolicy.hook(self, x, n, qn, this, args)
    def reentry(self, x):
        if not self.fld: return
        loc = ('.', ('R', 'this'), self.fld)
        v = x.get(loc)
        ks = [None] + sorted(self.again)
        k = ks[x.choose(len(ks))] if len(ks) > 1 else None
        if k is None: return
        if v in x.fd and x.fd[v][0] == 'open':
            x.fd[v][:] = ['closed', 0]; x.set(loc, C(-1), log=False)
        if k == 'open':
            t = self.tok(x); x.fd[t][1] = 1; x.set(loc, t, log=False)

def owner_classes(m):
    """class -> (fields that hold descriptors)"""
    out = {}
    for f in m.fns.values():
        if not f.get('body') or not f.get('cls'): continue
        for n in walk(f['body']):
            if n.get('k') == 'Call' and sysname(short(n.get('qn', ''))) in ACQ | {'close'}:
                out.setdefault(f['cls'], set())
    return out

def fields(m, cls):
    return [g['n'] for g in m.recs[cls]['f'] if g['t'] == 'int']

def check(m, R, tier):
    R.rule('no-leak', 'on every way out every descriptor obtained is closed or held by its owner')
    R.rule('registered', 'a descriptor that stays open is registered for events exactly once')
    R.rule('close-once', 'a descriptor is closed exactly once, deregistered before, and never one that is not held')
    R.rule('forgotten', 'after closing the owner does not refer to the descriptor any more')
    R.rule('closes', 'destructor, close and release leave no descriptor open')
    R.rule('usable', 'the operation that obtains a descriptor can succeed, and again after the object was closed')
    R.rule('covered', 'every call that obtains a descriptor is analysed')
    R.rule('epoll-args', 'the event registration names the descriptor and the object of its owner')
    R.rule('owner-release', 'giving a link, timer or acceptor back to its pool closes its descriptor')
    R.rule('destruction-order', 'an object that deregisters on destruction is destroyed before the event registry it uses')
    owners = owner_classes(m)
    sites = set()
    res = {}
    for cls in sorted(owners):
        if cls not in m.recs: continue
        # first without re-entrance, to learn the reachable states; then with handlers that re-enter the object
        st = analyse(m, Report('dry'), cls, sites, ())
        res[cls] = analyse(m, R, cls, sites, (st or set()) - {'new'}) if st else None
    helper = [c for c in res if res[c] is None]
    allsites = {n['l']: f for f in m.fns.values() if f.get('body') for n in walk(f['body'])
                if n.get('k') == 'Call' and sysname(short(n.get('qn', ''))) in ACQ}
    for l, f in sorted(allsites.items()):
        if l not in sites and not f.get('cls'):
            # a free function that no owner calls: it must not leave anything open except what it returns
            free(m, R, f, sites)
        R.check(l in sites, 'covered', '%s' % f['qn'], l, 'descriptor obtained in code that no analysed owner reaches')
    R.check(len(allsites) >= 6, 'covered', 'count', 'src/app/common/reactor', 'only %d calls obtaining descriptors found' % len(allsites))
    epoll_args(m, R)
    deleters(m, R)
    order(m, R)
    R.info = {'owner classes': sorted(res), 'acquiring calls': sorted(allsites)}

def final(x):
    return {t: tuple(s) for t, s in x.fd.items()}

def ctor_of(m, cls):
    return [f for f in m.fns.values() if f.get('ctor') and f.get('cls') == cls and not f.get('copyctor') and not f.get('movector') and (f.get('body') or f.get('inits'))]

def analyse(m, R, cls, sites, again):
    flds = fields(m, cls)
    # descriptor field: the int member that is closed / returned
    fld = None
    for f in m.fns.values():
        if f.get('cls') != cls or not f.get('body'): continue
        for n in walk(f['body']):
            if n.get('k') == 'Call' and sysname(short(n.get('qn', ''))) == 'close':
                for q in walk(n['a']):
                    if q.get('k') == 'Mem' and q['n'] in flds: fld = q['n']
            if n.get('k') in ('Bin',) and n.get('op') == '=' and n['x'].get('k') == 'Mem' and n['x']['n'] in flds:
                for q in walk(n['y']):
                    if q.get('k') == 'Call' and sysname(short(q.get('qn', ''))) in ACQ and fld is None: fld = n['x']['n']
    class P(FdPolicy): pass
    P.sites = sites; P.fld = fld; P.again = again
    this = ('R', 'this')
    floc = ('.', this, fld) if fld else None
    needreg = cls.rsplit('::', 1)[-1] != 'Epoll' and bool(fld)
    def args_for(x, f):
        out = []
        for i, q in enumerate(f['p']):
            t = strip_cv(q['t'])
            r = ('R', 'peerlink') if 'LinkInterface' in t else ('R', 'arg%d' % i)
            if q['t'].rstrip().endswith(('&', '*')):
                x.ltype[r] = t.rstrip(' *')
                out.append(('ptr', r))
            elif q.get('tk') == 'o' or '::' in t:
                x.ltype[r] = t; out.append(('obj', r))
            else:
                x.xt[('in', r)] = q.get('tk', 'i32'); out.append(('in', r))
        return out
    def prep(x, state):
        x.fd = {}; x.owned = {}; x.t0 = None
        x.ltype[this] = cls
        if state == 'closed': x.store[floc] = C(-1)
        if state == 'open':
            t = ('un', 0, 'fd')
            x.xt[t] = 'i32'; x.assume('>=', t, C(0)); x.fd[t] = ['open', 1 if needreg else 0]
            x.store[floc] = t; x.t0 = t
    def judge(p, f, state, kind):
        x = p.x
        inst = '%s/%s' % (f['qn'], state)
        where = f['l']
        bad = p.events('bad')
        for e in bad:
            R.fail('close-once' if e.name != 'registered-twice' else 'registered', inst, e.src, e.x['msg'], p.trace)
        if not bad: R.ok('close-once', inst)
        v = x.get(floc) if floc else None
        held = {v} if v is not None and kind != 'dtor' else set()
        if kind == 'ctor' and p.outcome == 'throw': held = set()
        held |= {o for o in x.owned.values() if o}
        returned = p.ret if f.get('static') or not fld else None
        for t, (st, reg) in x.fd.items():
            if st == 'open':
                if t == returned: continue
                if not R.check(t in held, 'no-leak', inst, where, 'a descriptor stays open that nobody holds after %s (%s)' % (f['name'], p.outcome), p.trace): continue
                if t in x.owned.values() or (needreg and t == v):
                    R.check(reg == 1, 'registered', inst, where, 'a descriptor that stays open is registered %d times (%s)' % (reg, p.outcome), p.trace)
            else:
                R.check(t not in held, 'forgotten', inst, where, 'the owner still refers to a descriptor it has closed', p.trace)
        if floc and kind != 'dtor' and not (kind == 'ctor' and p.outcome == 'throw'):
            ok = v == C(-1) or v in x.fd
            if f.get('acc') == 'public' or True:
                if not ok and f['name'] == 'setFileDescriptor':
                    return 'open' if True else None
                R.check(ok, 'forgotten', inst + '/value', where, 'the descriptor field holds %s, neither a descriptor nor -1' % show(v), p.trace)
            if v in x.fd and x.fd[v][0] == 'open': return 'open'
            return 'closed'
        return None
    if fld is None:
        return None
    states = set(); opened = {}
    cts = ctor_of(m, cls)
    if not cts: raise AnalysisError('no constructor of %s' % cls)
    for f in cts:
        def entry(x):
            prep(x, None)
            x.run_ctor(f, this, args_for(x, f))
            x.ltype[this] = cls
        for p in explore(m, P(), entry):
            s = judge(p, f, 'new', 'ctor')
            if s: states.add(s); opened.setdefault(s, set()).add(f['name'])
    dt = [f for f in m.fns.values() if f.get('dtor') and f.get('cls') == cls and f.get('body')]
    methods = [f for f in m.fns.values() if f.get('cls') == cls and f.get('body') and not f.get('ctor') and not f.get('dtor') and not f.get('lambda') and f.get('acc', 'public') == 'public']
    done = set()
    succ = {}
    while states - done:
        st = sorted(states - done)[0]; done.add(st)
        for f in sorted(methods, key=lambda f: f['id']):
            if f['name'] == 'setFileDescriptor':
                if 'app::reactor::LinkInterface' not in m.all_bases(cls): continue
                # a descriptor is handed over by the acceptor
                def entry(x):
                    prep(x, st)
                    t = ('un', -1, 'fd'); x.xt[t] = 'i32'; x.assume('>=', t, C(0)); x.fd[t] = ['open', 1 if needreg else 0]
                    x.given = t
                    x.call_fn(f, this, [t])
                for p in explore(m, P(), entry):
                    x = p.x
                    took = x.get(floc) == x.given
                    if p.outcome == 'throw':
                        R.check(not took, 'no-leak', f['qn'] + '/' + st, f['l'], 'refuses the descriptor but keeps it', p.trace)
                    else:
                        R.check(took and (st == 'closed' or x.fd[x.t0][0] == 'closed'), 'no-leak', f['qn'] + '/' + st, f['l'], 'takes a descriptor while holding another, or does not take it', p.trace)
                        states.add('open'); succ.setdefault((f['qn'], st), set()).add('open')
                continue
            def entry(x):
                prep(x, st)
                x.call_fn(f, this, args_for(x, f))
            for p in explore(m, P(), entry):
                s = judge(p, f, st, 'method')
                if s: states.add(s)
                if p.outcome == 'normal': succ.setdefault((f['qn'], st), set()).add(s)
                if p.events('acquire') and s == 'open' and p.outcome == 'normal' and st == 'closed': opened.setdefault('open', set()).add(f['name'])
                if p.outcome == 'normal' and f['name'] in ('close', 'release'):
                    R.check(s == 'closed', 'closes', '%s/%s' % (f['qn'], st), f['l'], 'the descriptor is still open after %s' % f['name'], p.trace)
    for st in sorted(done):
        for f in dt:
            def entry(x):
                prep(x, st)
                x.call_fn(f, this, [])
            for p in explore(m, P(), entry):
                judge(p, f, st, 'dtor')
                R.check(all(s == 'closed' for s, r in p.x.fd.values()), 'closes', '%s/%s' % (f['qn'], st), f['l'], 'the descriptor is still open after destruction', p.trace)
        if not dt and 'open' in done:
            R.fail('closes', cls + '/destructor', m.recs[cls]['l'], 'no destructor closes the descriptor')
    R.check('open' in states and opened.get('open'), 'usable', cls, m.recs[cls]['l'], 'no operation obtains a descriptor successfully')
    return done

def free(m, R, f, sites):
    class P(FdPolicy): pass
    P.sites = sites; P.fld = None
    def entry(x):
        x.fd = {}; x.owned = {}
        return x.call_fn(f, None, [('in', ('R', 'arg%d' % i)) for i, q in enumerate(f['p'])])
    for p in explore(m, P(), entry):
        for t, (st, reg) in p.x.fd.items():
            R.check(st == 'closed' or p.ret == t, 'no-leak', f['qn'], f['l'], 'a descriptor is left open', p.trace)

def epoll_args(m, R):
    ep = [c for c in m.recs if c.rsplit('::', 1)[-1] == 'Epoll']
    if len(ep) != 1: raise AnalysisError('class Epoll: %d candidates' % len(ep))
    OPS = {'add': 1, 'del': 2, 'mod': 3}
    for name, op in OPS.items():
        fs = [f for f in m.method(ep[0], name) if f.get('body')]
        if not fs: raise AnalysisError('Epoll::%s not found' % name)
        f = fs[0]
        class P(AppPolicy):
            def hook(self, x, n, qn, this, args):
                if args is None: return NotImplemented
                q = sysname(short(qn))
                if q == 'epoll_ctl':
                    l = x.deref(args[3])
                    e = x.event('ctl', q, None, args, n, ptr=x.get(('.', ('.', l, 'data'), 'ptr')), ev=x.get(('.', l, 'events')))
                    r = ('ev', e.i, q); x.xt[r] = 'i32'; return r
                if q.endswith('::fileDescriptor'):
                    x.event('fdof', q, this, args, n); return ('fdof', this)
                return NotImplemented
        def entry(x):
            x.ltype[('R', 'obj')] = 'app::reactor::FileDescriptorInterface'
            a = [('ptr', ('R', 'obj'))] + ([('in', ('R', 'events'))] if len(f['p']) > 1 else [])
            return x.call_fn(f, entity(x, m, ep[0]), a)
        for p in explore(m, P(), entry):
            e = p.events('ctl')
            if not R.check(len(e) == 1 and p.outcome == 'normal', 'epoll-args', name, f['l'], '%d epoll_ctl calls' % len(e), p.trace): continue
            e = e[0]
            ok = e.args[1] == C(op) and e.args[2] == ('fdof', ('R', 'obj')) and (op == 2 or (e.x['ptr'] == ('ptr', ('R', 'obj')) and strip(e.x['ev']) == ('in', ('R', 'events'))))
            R.check(ok, 'epoll-args', name, e.src, 'epoll_ctl(%s, fd %s, ptr %s, events %s)' % (show(e.args[1]), show(e.args[2]), show(e.x['ptr']), show(e.x['ev'])), p.trace)
            R.check(strip(p.ret) == ('ev', e.i, 'epoll_ctl'), 'epoll-args', name + '/result', f['l'], 'the result of epoll_ctl is not returned', p.trace)

def strip(v):
    while v and v[0] == 'cast': v = v[3]
    return v

KIND = {'createLink': 'Link', 'createTimer': 'Timer', 'createAcceptor': 'Acceptor'}
def deleters(m, R):
    rc = [c for c in m.recs if c == 'app::reactor::Reactor']
    if not rc: raise AnalysisError('class Reactor not found')
    for meth, kind in KIND.items():
        f = [f for f in m.method(rc[0], meth) if f.get('body')]
        if not f: raise AnalysisError('Reactor::%s not found' % meth)
        f = f[0]
        cls = 'app::reactor::' + kind
        fld = None
        class P(FdPolicy):
            def hook(self, x, n, qn, this, args):
                if args is not None and n.get('name') == 'get' and 'EntityPool' in n.get('cls', ''):
                    return ('ptr', ('R', 'pooled'))
                return FdPolicy.hook(self, x, n, qn, this, args)
        P.sites = set(); P.fld = None
        def entry(x):
            x.fd = {}; x.owned = {}
            x.ltype[('R', 'pooled')] = cls
            for g in m.recs[cls]['f']:
                if g['t'] == 'int': x.store[('.', ('R', 'pooled'), g['n'])] = C(-1)
            h = ('R', 'handler'); x.store[h] = ('un', 0, 'handler')
            res = x.call_fn(f, entity(x, m, rc[0]), [('obj', h)])
            own = [e for e in x.trace if getattr(e, 'kind', '') == 'own']
            x.own = own
            if len(own) != 1: return
            v, lam = own[0].args
            x.obj = v
            loc = x.deref(v)
            # the object as it may be when it is given back: open
            ff = [g['n'] for g in m.recs[cls]['f'] if g['t'] == 'int']
            fdl = [g for g in ff if ('.', loc, g) in x.store] or ff[:1]
            for g in ff:
                if x.get(('.', loc, g)) not in x.fd:
                    t = ('un', -2, 'fd'); x.xt[t] = 'i32'; x.assume('>=', t, C(0)); x.fd[t] = ['open', 1]
                    x.set(('.', loc, g), t, log=False)
            x.ltype[loc] = cls
            x.event('give-back', meth)
            if lam[0] != 'lam': return
            x.before = {t: list(s) for t, s in x.fd.items()}
            x.call_lambda(lam, [v], f['body'])
        hit = 0
        for p in explore(m, P(), entry):
            if not p.events('give-back'):
                R.check(not p.x.fd or all(s == 'closed' for s, r in p.x.fd.values()), 'owner-release', meth + '/failed', f['l'], 'creation fails but a descriptor stays open', p.trace)
                continue
            hit += 1
            b = p.events('bad')
            R.check(not b, 'owner-release', meth + '/typestate', f['l'], b[0].x['msg'] if b else '', p.trace)
            R.check(p.outcome == 'normal' and all(s == 'closed' for s, r in p.x.fd.values()), 'owner-release', meth, f['l'], 'the descriptor is still open after the %s was given back' % kind, p.trace)
        R.check(hit > 0, 'owner-release', meth + '/path', f['l'], 'no path hands out a %s with a clean-up action' % kind)

def order(m, R):
    """fields initialised from *epoll come after epoll, so that they are destroyed first"""
    for cls, r in sorted(m.recs.items()):
        names = [g['n'] for g in r.get('f', ())]
        if 'epoll' not in names or not cls.startswith('app::'): continue
        ctors = ctor_of(m, cls)
        for c in ctors:
            for i in c.get('inits', ()):
                if 'f' not in i or i['f'] == 'epoll' or i['e'] is None: continue
                if any(n.get('k') == 'Mem' and n.get('n') == 'epoll' for n in walk(i['e'])):
                    R.check(names.index('epoll') < names.index(i['f']), 'destruction-order', cls + '::' + i['f'], i.get('l', c['l']), '%s uses the event registry but outlives it' % i['f'])

"""C22: every class that registers descriptors for events is found by its registrations. Its methods are explored with every
system call failing or succeeding; each registration is judged by what was done with the descriptor before it: the
subscription asks for what the user waits for, cannot lose an announcement, and the descriptor cannot block. The event
entries are explored with every combination of reported conditions, with and without a handler: one report, of the right
kind, to the handler of the object. The creation functions of the event loop hand the handler given to the object given
out, setHandler stores it, release drops it. Where links are edge triggered, the receiving machines of C16 must ask for
everything the buffer can hold."""
from sa.model import AnalysisError, walk
from sa.interp import *
from sa.interp import Thrown
from sa.app import AppPolicy
from checks import c16
from checks.c08 import sysname, ACQ, FAILING
from checks.c11 import eq, where

TECHNIQUE = 'static analysis of event registrations and event entries (path-sensitive abstract interpretation over the AST)'
ASSUMPTIONS = ['epoll reports a condition that holds when a descriptor is added or modified (Linux)',
               'an event reported together with others may be stale when it is handled']
IN, OUT, ERR, HUP, ONESHOT, ET = 1, 4, 8, 16, 1 << 30, 1 << 31
NONBLOCK = {'fcntl': 0x800, 'timerfd_create': 0x800, 'socket': 0x800, 'accept4': 0x800}
THIS = ('R', 'this')
GIVEN = ('str', '#handler')
ERRNO = ('R', 'errno')

class EvPolicy(AppPolicy):
    max_loop = 3
    def hook(self, x, n, qn, this, args):
        cls = n.get('cls', '')
        if args is None: return NotImplemented
        q = sysname(short(qn)); base = q.rsplit('::', 1)[-1]
        if this is None and q in ACQ:
            e = x.event('sys', q, None, args, n)
            if x.choose(2) == 1: return C(-1)
            t = ('un', x.fresh(), q); x.xt[t] = 'i32'; x.assume('>=', t, C(0))
            e.ret = t
            return t
        if this is None and base == '__errno_location':
            x.ltype[ERRNO] = 'int'; x.xt[('in', ERRNO)] = 'i32'; return ('ptr', ERRNO)
        if this is None and q == 'connect':
            e = x.event('sys', q, None, args, n)
            k = x.choose(4)             # done or failed, with each kind of error number (an old one if done)
            e.ret = C(0 if k < 2 else -1); e.x['pending'] = k == 3
            x.store[ERRNO] = C(115 if k % 2 else 111)
            return e.ret
        if this is None and q in FAILING | {'close', 'timerfd_settime', 'clock_gettime'}:
            e = x.event('sys', q, None, args, n)
            if q in ('read', 'write', 'send', 'recv', 'recvfrom', 'sendto'):
                e.ret = C(8) if x.choose(2) == 0 else C(-1); return e.ret
            r = C(0) if q == 'close' or x.choose(2) == 0 else C(-1)
            e.ret = r
            return r
        if this is not None and base in ('add', 'mod', 'del') and 'Epoll' in cls and cls != 'app::reactor::Epoll':
            o = x.deref(args[0])
            e = x.event('ep', base, o, args[1:], n, fd=self.fd(x, o))
            e.ret = C(0) if x.choose(2) == 0 else C(-1)
            return e.ret
        if this is not None and base == 'setFileDescriptor' and this[0] == 'R' and this != THIS:
            x.store[('.', this, '#fd')] = args[0]; x.event('given', base, this, args, n); return C(0)
        if this is not None and this[0] == 'R' and this != THIS and base in ('close', 'release') and this[1].startswith('p'): return C(0)
        if this is not None and cls.startswith('std::function'):
            v = x.store.get(this)
            if n['name'] == 'operator()':
                x.event('handler', '', this, args, n, set=v == GIVEN, fd=x.get(('.', THIS, self.fld)) if self.fld else None)
                return C(0)
            if n['name'] == 'operator bool': return C(v == GIVEN)
            if n['name'] == 'swap' and len(args) == 1: return self.swap(x, this, x.deref(args[0]))
        if this is None and short(qn) == 'std::swap' and len(args) == 2 and any(x.store.get(x.deref(a)) == GIVEN for a in args): return self.swap(x, x.deref(args[0]), x.deref(args[1]))
        if this is not None and base in ('onFdEvent', 'onThreadEvent') and n.get('virt'):
            x.event('handler', '', this, args, n, set=True, fd=None); return C(0)
        return AppPolicy.hook(self, x, n, qn, this, args)
    def swap(self, x, a, b):
        v, w = x.get(a), x.get(b)
        x.set(a, w, log=False); x.set(b, v, log=False)
        return C(0)
    fld = None
    def fd(self, x, o):
        if o == THIS and self.fld: return x.get(('.', THIS, self.fld))
        return x.store.get(('.', o, '#fd'))

def users(m):
    """classes whose methods register descriptors, with the outermost of these methods"""
    out, calls = {}, {}
    for f in m.fns.values():
        if not f.get('body') or not f.get('cls'): continue
        for n in walk(f):
            if n.get('k') == 'MCall' and n.get('name') in ('add', 'mod') and 'EpollInterface' in n.get('cls', ''): out.setdefault(f['cls'], {})[f['id']] = f
            g = m.fns.get(n.get('fn')) if n.get('fn') else None
            if g and g is not f and g.get('cls') == f['cls'] and n.get('k') in ('MCall', 'Call'): calls.setdefault(g['id'], {})[f['id']] = f
    for c, d in out.items():
        w = list(d)
        while w:
            for i, f in calls.get(w.pop(), {}).items():
                if i not in d: d[i] = f; w.append(i)
        out[c] = [f for i, f in d.items() if not calls.get(i)] or list(d.values())
    return out

def params(x, f):
    out = []
    for i, p in enumerate(f['p']):
        l = ('R', 'p%d' % i); x.ltype[l] = strip_cv(p['t'])
        if p['tk'] in RANGE and '&' not in p['t']:
            x.xt[('in', l)] = p['tk']; out.append(('in', l))
        else: out.append(('ptr', l))
    return out

def fdfield(m, cls):
    f = [g['n'] for g in m.recs[cls]['f'] if g['t'] == 'int']
    return f[0] if len(f) == 1 else None

def hfield(m, cls):
    f = [g['n'] for g in m.recs[cls]['f'] if strip_cv(g['t']).startswith('std::function') or strip_cv(g['t']).endswith('Handler')]
    if len(f) != 1: raise AnalysisError('%s: %d handlers' % (cls, len(f)))
    return f[0]

def run(m, cls, f, given=True, opened=None, args=None):
    pol = EvPolicy(); pol.fld = fdfield(m, cls)
    def go(x):
        x.ltype[THIS] = cls
        if pol.fld and opened is not None:
            l = ('.', THIS, pol.fld)
            if opened:
                v = ('in', l); x.xt[v] = 'i32'; x.assume('>=', v, C(0))
            else: x.store[l] = C(-1)
        h = hfield(m, cls)
        if '&' not in m.field(cls, h)['t']: x.store[('.', THIS, h)] = GIVEN if given else NULL
        if f.get('ctor'): return x.run_ctor(f, THIS, params(x, f))
        return x.call_fn(f, THIS, args if args is not None else params(x, f))
    return explore(m, pol, go)

def check(m, R, tier):
    R.rule('subscribed', 'a descriptor is registered for what its user waits for, and no announcement can be lost')
    R.rule('attempt', 'a connect that succeeds at once or is in progress is waited for, one that fails at once is reported')
    R.rule('no-wait', 'a descriptor that is read when an event is reported cannot block the event loop')
    R.rule('reported', 'every reported event is passed on once, as what it is, to the handler of its object')
    R.rule('given', 'the handler given to the event loop is the one of the object handed out; released objects have none')
    R.rule('drained', 'an edge triggered link is read with all the room of the buffer')
    us = users(m)
    if not us: raise AnalysisError('no class registers descriptors')
    edge = False
    for cls in sorted(us):
        nm = short(cls).rsplit('::', 1)[-1]
        k = 0
        for f in {g['qn'] + str(len(g['p'])): g for g in us[cls]}.values():
            for opened in ((None,) if f.get('ctor') else (True, False)):
                for p in run(m, cls, f, True, opened, [C(OUT)] if f['name'] == 'onFileDescriptorEvent' else None):
                    for c in [e for e in p.events('sys') if e.name == 'connect']:
                        i = '%s::%s' % (nm, f['name'])
                        sub = any(e.name == 'add' and e.i > c.i for e in p.events('ep'))
                        if c.ret == C(0): R.check(sub, 'attempt', i + ':immediate', c.src, 'a connect that succeeds at once is given up', p.trace)
                        elif c.x['pending']: R.check(sub, 'attempt', i + ':pending', c.src, 'a connect in progress is given up', p.trace)
                        else: R.check(not sub and p.outcome == 'throw', 'attempt', i + ':refused', c.src, 'a connect that failed at once is not reported', p.trace)
                    for e in p.events('ep'):
                        if e.name == 'del': continue
                        k += 1
                        if subscribed(R, nm, f, p, e): edge = True
        R.check(k > 0, 'subscribed', nm + ':any', cls, 'no path registers the descriptor')
        events(m, R, cls, nm)
    loop(m, R)
    watched(m, R)
    if edge: drained(m, R)
    else: R.check(True, 'drained', 'level', '', '')
    R.need('subscribed', 8); R.need('attempt', 3); R.need('no-wait', 3); R.need('reported', 15); R.need('given', 8); R.need('drained', 1)

def subscribed(R, nm, f, p, e):
    """judges a registration; True if it is an edge triggered link"""
    inst = '%s::%s' % (nm, f['name'])
    mask = e.args[0]
    if not R.check(mask[0] == 'c', 'subscribed', inst + ':mask', e.src, 'the conditions subscribed are %s' % show(mask), p.trace): return False
    mask = mask[1] & 0xffffffff
    sys = {q.name for q in p.events('sys') if q.i < e.i}
    R.check(not mask & ONESHOT, 'subscribed', inst + ':once', e.src, 'the subscription ends with the first event', p.trace)
    if 'listen' in sys:
        R.check(mask & IN and not mask & OUT, 'subscribed', inst + ':listening', e.src, 'a listening socket is subscribed for 0x%x' % mask, p.trace)
        R.check(not mask & ET, 'subscribed', inst + ':every connection', e.src, 'a listening socket is edge triggered: of connections that arrive together only one is announced', p.trace)
        return False
    if e.name == 'add' and 'connect' in sys:
        R.check(mask & OUT, 'subscribed', inst + ':outcome', e.src, 'the outcome of a connect is not subscribed (0x%x)' % mask, p.trace)
    else:
        R.check(mask & IN, 'subscribed', inst + ':input', e.src, 'incoming data is not subscribed (0x%x)' % mask, p.trace)
        R.check(not mask & OUT, 'subscribed', inst + ':output', e.src, 'the descriptor stays subscribed for being writable (0x%x)' % mask, p.trace)
    if e.name == 'add' and sys & {'connect', 'accept', 'accept4', 'timerfd_create'}:
        fd = e.x['fd']
        got = [q for q in p.events('sys') if q.i < e.i and q.ret == fd and q.name in ('socket', 'accept', 'accept4', 'timerfd_create')]
        ok = False
        for q in got:
            if q.name in NONBLOCK and any(a[0] == 'c' and a[1] & 0x800 for a in q.args[1:]): ok = True
        for q in p.events('sys'):
            if q.name == 'fcntl' and q.i < e.i and q.args[0] == fd and q.args[1] == C(4) and len(q.args) > 2 and nonblock(q.args[2]) and q.ret == C(0): ok = True
            if q.name == 'ioctl' and q.i < e.i and q.args[0] == fd and q.args[1] == C(0x5421): ok = True
        if 'connect' in sys and ok:
            c = [q for q in p.events('sys') if q.name == 'connect'][0]
            s = [q for q in p.events('sys') if q.name == 'fcntl' and q.args[0] == fd]
            ok = not s or s[0].i < c.i
        R.check(bool(got) and ok, 'no-wait', inst, e.src, 'the descriptor can block the event loop', p.trace)
    return bool(mask & ET) and nm in ('Link', 'Acceptor')

def nonblock(v):
    if v[0] == 'c': return bool(v[1] & 0x800)
    if v[0] == 'bin' and v[1] == '|': return nonblock(v[2]) or nonblock(v[3])
    while v[0] == 'cast': return nonblock(v[3])
    return False

def events(m, R, cls, nm):
    f = [g for g in m.method(cls, 'onFileDescriptorEvent', 1) if g.get('body')]
    if len(f) != 1: raise AnalysisError('%s: no event entry' % nm)
    f = f[0]
    ref = '&' in m.field(cls, hfield(m, cls))['t']
    EV = [dict(v['c']) for k, v in m.enums.items() if k.endswith('LinkEvent')]
    if len(EV) != 1: raise AnalysisError('enumeration LinkEvent: %d candidates' % len(EV))
    EV = EV[0]
    link = 'app::reactor::LinkInterface' in m.all_bases(cls)
    masks = {'IN': 1}
    if link: masks.update({'OUT': 4, 'IN+OUT': 5, 'ERR': 8, 'HUP': 16, 'ERR+HUP': 24, 'IN+HUP': 17, 'IN+ERR+HUP': 25, 'OUT+HUP': 20, 'OUT+ERR+HUP': 28, 'IN+OUT+ERR+HUP': 29})
    for mn, v in masks.items():
        for given in (True, False):
            if ref and not given: continue
            for p in run(m, cls, f, given, True, [C(v)]):
                i = '%s:%s%s' % (nm, mn, '' if given else ':no handler')
                h = p.events('handler')
                if not given:
                    R.check(not h, 'reported', i, h[0].src if h else where(p), 'an event is passed on although there is no handler', p.trace); continue
                rd = [e for e in p.events('sys') if e.name == 'read']
                if p.outcome != 'normal':
                    R.check(not link and bool(rd), 'reported', i + ':fails', where(p), 'the event ends with an exception', p.trace); continue
                if not link:
                    if rd:
                        if rd[-1].ret != C(8):
                            R.check(not h, 'reported', i + ':unread', where(p), 'an event is passed on although nothing could be read', p.trace); continue
                    R.check(len(h) == 1, 'reported', i, h[-1].src if h else where(p), 'the event is passed on %d times' % len(h), p.trace)
                    continue
                got = [[k for k, c in EV.items() if C(c) == e.args[0]] for e in h]
                got = [g[0] if g else '?' for g in got]
                src = h[0].src if h else where(p)
                md = [e for e in p.events('ep') if e.name == 'mod']
                dl = [e for e in p.events('ep') if e.name == 'del']
                if v & (ERR | HUP): ok = got in (['error'], ['data']) if v & IN else got == ['error']
                elif v == IN: ok = got == ['data']
                else:
                    good = not md or md[-1].ret == C(0)
                    if got and got[0] == 'connected': R.check(bool(md), 'reported', i + ':once', src, 'the link stays subscribed for being writable: it is reported as connected again', p.trace)
                    ok = (got in (['connected'], ['connected', 'data']) if v & IN else got == ['connected']) if good else got == ['error']
                R.check(ok, 'reported', i, src, '%s is reported as %s' % (mn, '+'.join(got) or 'nothing'), p.trace)
                R.check(bool(dl) == ('error' in got), 'reported', i + ':open', src, 'a link that is reported as %s is %s' % ('+'.join(got), 'closed' if dl else 'left open'), p.trace)

class LoopPolicy(AppPolicy):
    def hook(self, x, n, qn, this, args):
        if args is None: return NotImplemented
        cls = n.get('cls', ''); name = n.get('name') or short(qn).rsplit('::', 1)[-1]
        if cls.startswith('app::reactor::EntityPool<'):
            if name == 'alloc':
                if x.choose(2) == 1: return C(0)
                u = ('un', x.fresh(), 'uid'); x.xt[u] = 'u32'; x.set(x.deref(args[0]), u, log=False); return C(1)
            if name == 'get':
                x.ltype[('R', 'obj')] = first_targ(cls); return ('ptr', ('R', 'obj'))
            x.event('pool', name, None, args, n); return C(0)
        if this == ('R', 'obj'):
            a = [x.get(x.deref(v)) if v[0] in ('ptr', 'obj') else v for v in args]
            x.event('obj', name, this, a, n)
            if name == 'create' and x.choose(2) == 1: raise Thrown('std::runtime_error', x.src, 'create')
            return C(0)
        return AppPolicy.hook(self, x, n, qn, this, args)

def loop(m, R):
    cls = 'app::reactor::Reactor'
    for name in ('createLink', 'createTimer', 'createAcceptor'):
        fs = [g for g in m.method(cls, name, 1) if g.get('body')]
        if len(fs) != 1: raise AnalysisError('Reactor::%s not found' % name)
        f = fs[0]; k = 0
        def go(x):
            x.ltype[THIS] = cls; x.ltype[('R', 'p0')] = strip_cv(f['p'][0]['t'])
            x.store[('R', 'p0')] = GIVEN
            return x.call_fn(f, THIS, [('ptr', ('R', 'p0'))])
        for p in explore(m, LoopPolicy(), go):
            if p.outcome != 'normal': continue
            k += 1
            sh = [e for e in p.events('obj') if e.name == 'setHandler']
            R.check(len(sh) >= 1 and sh[-1].args[0] == GIVEN, 'given', name, sh[-1].src if sh else f['l'], 'the object handed out does not have the handler given', p.trace)
            R.check('obj' in repr(p.ret) or any(v == ('ptr', ('R', 'obj')) for kk, v in p.x.store.items()), 'given', name + ':object', f['l'], 'the object handed out is another one', p.trace)
        R.check(k > 0, 'given', name + ':path', f['l'], 'no object is ever handed out')
    for cls in ('app::reactor::Link', 'app::reactor::Timer', 'app::reactor::Acceptor'):
        c = m.rec(cls)['n']; h = ('.', THIS, hfield(m, c)); nm = cls.rsplit('::', 1)[-1]
        f = [g for g in m.method(c, 'setHandler', 1) if g.get('body')]
        if len(f) != 1: raise AnalysisError('%s::setHandler not found' % nm)
        def go(x):
            x.ltype[THIS] = c; x.ltype[('R', 'p0')] = strip_cv(f[0]['p'][0]['t']); x.store[('R', 'p0')] = GIVEN; x.store[h] = NULL
            return x.call_fn(f[0], THIS, [('ptr', ('R', 'p0'))])
        for p in explore(m, EvPolicy(), go):
            v = p.x.get(h)
            R.check(v == GIVEN or v == ('in', ('R', 'p0')), 'given', nm + ':setHandler', f[0]['l'], 'the handler becomes %s' % show(v), p.trace)
        f = [g for g in m.method(c, 'release', 0) if g.get('body')]
        if len(f) != 1: raise AnalysisError('%s::release not found' % nm)
        for opened in (True, False):
            for p in run(m, c, f[0], True, opened):
                if p.outcome != 'normal': continue
                v = p.x.get(h)
                R.check(v != GIVEN, 'given', nm + ':release' + (':open' if opened else ''), f[0]['l'], 'a released object keeps the handler of its user', p.trace)

def watched(m, R):
    """a timer that is handed out has a descriptor that is watched"""
    rc, tc = 'app::reactor::Reactor', m.rec('app::reactor::Timer')['n']
    class W(AppPolicy):
        def throws(self, x, n, qn): return False
        def hook(self, x, n, qn, this, args):
            if args is None: return NotImplemented
            cls = n.get('cls', ''); name = n.get('name') or short(qn).rsplit('::', 1)[-1]
            if this is None and name == 'timerfd_create': x.event('tfd', name, None, args, n); return C(7)
            if name == 'add' and ('Epoll' in cls): x.event('watch', name, None, args, n); return C(0)
            if name == 'add' and len(args) == 2 and 'epoll' in qn.lower(): x.event('watch', name, None, args, n); return C(0)
            if cls.startswith('app::reactor::EntityPool<'):
                if name == 'alloc': x.set(x.deref(args[0]), C(0), log=False); return C(1)
                if name == 'get': return ('ptr', ('R', 'obj'))
                return C(0)
            return AppPolicy.hook(self, x, n, qn, this, args)
    def blank(x):
        x.ltype[('R', 'obj')] = tc
        for g in m.recs[tc]['f']:
            if g['t'] == 'int': x.store[('.', ('R', 'obj'), g['n'])] = C(-1)
    f = [g for g in m.method(rc, 'createTimer', 1) if g.get('body')][0]
    def go(x):
        blank(x); x.ltype[THIS] = rc; x.ltype[('R', 'p0')] = strip_cv(f['p'][0]['t']); x.store[('R', 'p0')] = GIVEN
        return x.call_fn(f, THIS, [('ptr', ('R', 'p0'))])
    st = [g for g in m.method(tc, 'start', 1) if g.get('body')]
    def late(x):
        blank(x); x.xt[('in', ('R', 'us'))] = 'i64'
        return x.call_fn(st[0], ('R', 'obj'), [('in', ('R', 'us'))])
    lazy = bool(st) and all(p.events('tfd') and p.events('watch') for p in explore(m, W(), late) if p.outcome == 'normal')
    k = 0
    for p in explore(m, W(), go):
        if p.outcome != 'normal': continue
        k += 1
        R.check(lazy or len(p.events('tfd')) == 1 and len(p.events('watch')) == 1, 'given', 'createTimer:watched', f['l'], 'the timer handed out has no descriptor the event loop watches', p.trace)
    R.check(k > 0, 'given', 'createTimer:watched:path', f['l'], 'no timer is ever handed out')

def drained(m, R):
    ms = [('ModbusClient', c16.c11.machine(m), c16.MB), ('ModbusServer', c16.c12.machine(m), c16.MB), ('UaTransport', c16.c13.machine(m), c16.UA)]
    for cls, owner, api in c16.c17.MACHINES[:2]:
        ms.append((c16.c17.sname(cls), c16.entity_machine(m, cls, c16.EntityWorld(owner), api), c16.UA))
    for nm, M, K in ms:
        M.run(); k = 0
        for t in M.steps:
            rx = [e for e in t.path.events('link') if e.name == 'receive']
            if not rx or rx[-1].x['res'] != 'ok': continue
            e = rx[-1]; k += 1
            F = c16.Fill(t.path, e, K)
            lo, hi = t.path.x.facts.bounds(add(F.idx, e.args[1]))
            need = K.limit
            if K is c16.UA: need = max(need, room(t.path.x, F.base) or 0)
            R.check(lo is not None and lo >= need, 'drained', nm + ':' + e.src, e.src, 'a read asks for %s bytes at %s: the rest of a message of %d bytes would not be announced again' % (show(e.args[1]), show(F.idx), need), t.path.trace)
        R.check(bool(k), 'drained', nm + ':any', nm, 'received data is never used')

def room(x, base):
    """the length of the array received into"""
    a = x.array_type(base)
    if not a and base[0] == '.':
        t = x.dyn_type(base[1], None); f = t and x.m.field(t, base[2])
        a = f and x.array_type(base, f['t'])
    return a[1] if a else None

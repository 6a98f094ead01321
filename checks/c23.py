"""C23: the managed components are found by their message families (init, config, release). The controller is explored as a
closed machine: start, every answer of the components in any order, time-outs, requests in operation, and a stop at every
point, with a ghost stage per component. Each component is explored for each request of its family, with and without its
service: what it creates and drops, and what it answers. The configuration is followed to the services it starts."""
import itertools, re
from sa.model import AnalysisError, walk
from sa.interp import *
from sa.machine import *
from checks.worlds import *
from checks.c11 import eq, where

TECHNIQUE = 'static typestate analysis of the controller machine and the component entry points (path-sensitive abstract interpretation, fixpoint over abstract states)'
ASSUMPTIONS = ['a start request is not sent while the controller is started, nor before the answers of the last stop have arrived',
               'timers can be created when the controller starts']
CTL = 'ControllerComponent'
NONE, ASKED, CONFIG, READY, GONE = range(5)
UP = ('.', COMP, '#up')

def families(m):
    """X of MsgXInitReq and MsgXReleaseReq"""
    n = {k.rsplit('::', 1)[-1] for k in m.recs}
    out = sorted(x.group(1) for x in (re.match(r'Msg(\w+)InitReq$', k) for k in n) if x and 'Msg%sReleaseReq' % x.group(1) in n and 'Msg%sConfigReq' % x.group(1) in n)
    if not out: raise AnalysisError('no managed components')
    return out

def stage(x): return ('.', COMP, '#stage:' + x)

def plain(m):
    """functions outside classes that reach nothing but other such functions and the library: they only compute"""
    out = {}
    def ok(k, seen):
        if k in out: return out[k]
        f = m.fns.get(k)
        if f is None: return True
        if f.get('cls') or not f.get('body'): return not f.get('cls')
        if k in seen: return True
        r = True
        for n in walk(f['body']):
            if n.get('k') in ('Call', 'MCall', 'OCall', 'New', 'Ctor'):
                g = m.fns.get(n.get('fn'))
                if g and g.get('body') and not ok(n['fn'], seen | {k}): r = False
        out[k] = r
        return r
    for k, f in m.fns.items():
        if not f.get('cls') and f.get('body'): ok(k, set())
    return {k for k, v in out.items() if v}

class CtlWorld(World):
    max_loop = 1
    create_throws = False
    snap_sends = False
    def __init__(self, m):
        self.pure = plain(m)
    def hook(self, x, n, qn, this, args):
        if args is not None and this is None and n.get('fn') in self.pure:
            f = x.m.fns[n['fn']]
            if not any('&' in p['t'] and 'const' not in p['t'] or '*' in p['t'] for p in f['p']):
                return x.external(n, qn, this, args)
        return World.hook(self, x, n, qn, this, args)
    def send_msg(self, x, n, loc, t=None):
        r = World.send_msg(self, x, n, loc, t)
        e = [q for q in x.trace if isinstance(q, Ev) and q.kind == 'send'][-1]
        s = e.name.rsplit('::', 1)[-1]
        g = re.match(r'Msg(\w+)(Init|Config|Release)Req$', s)
        if g:
            l = stage(g.group(1)); e.x['stage'] = x.store.get(l, C(NONE))
            if x.m.field(e.name, 'maxNumServers'):
                for k in MAX: x.store[('.', COMP, '#max:' + k)] = x.get(('.', e.obj, 'maxNum%ss' % k.capitalize()))
            if x.m.field(e.name, 'items') and x.m.field(e.name, 'numItems'):
                c = x.get(('.', e.obj, 'numItems')); e.x['n'] = c; e.x['max'] = {k: x.store.get(('.', COMP, '#max:' + k)) for k in MAX}
                e.x['items'] = [tuple(x.get(('.', ('[]', ('.', e.obj, 'items'), C(j)), q)) for q in ('mode', 'id')) for j in range(c[1])] if c[0] == 'c' else None
            x.store[l] = C({'Init': ASKED, 'Config': CONFIG, 'Release': GONE}[g.group(2)])
        else: e.x['stage'] = None
        return r

def sends(p): return [(e.name.rsplit('::', 1)[-1], e) for e in p.events('send')]

def data(m, x):
    """what the controller keeps in containers may be anything"""
    for k in list(x.store):
        l = k
        while isinstance(l, tuple) and l and l[0] in ('.', '[]'):
            if l[0] == '.' and isinstance(l[2], str) and not l[2].startswith('#'):
                t = x.ltype.get(l[1]); f = m.field(t, l[2]) if t else None
                if f and strip_cv(f['t']).startswith('std::vector'): del x.store[k]; break
            l = l[1]

def controller(m, R, fam):
    def only(n, st):
        up = st.get(UP) == C(1)
        if n == 'MsgControllerStartReq': return not up
        if n == 'MsgControllerStopReq': return True
        if not up: return True
        g = re.match(r'Msg(\w+)(Init|Config|Release)Rsp$', n)
        if g and g.group(1) in fam:
            s = st.get(stage(g.group(1)))
            return s in {'Init': (C(ASKED),), 'Config': (C(CONFIG),), 'Release': (C(GONE),)}[g.group(2)]
        return st.get(stage('Modbus')) in (C(READY), C(GONE))
    pol = CtlWorld(m)
    def extra(x):
        x.store[UP] = C(0)
        for f in fam: x.store[stage(f)] = C(NONE)
    M = component(m, CTL, pol, extra=extra, only=only, max_states=1000)
    ent = M.entries
    def entries(st):
        out = []
        for nm, go in ent(st):
            def run(x, nm=nm, go=go):
                g = re.match(r'Msg(\w+)ConfigRsp$', nm)
                if g and st.get(UP) == C(1): x.store[stage(g.group(1))] = C(READY)
                if nm == 'MsgControllerStartReq': x.store[UP] = C(1)
                data(m, x)
                r = go(x)
                if nm == 'MsgControllerStopReq': x.store[UP] = C(0)
                return r
            out.append((nm, run))
        return out
    M.entries = entries
    M.run()
    seen = set()
    for t in M.steps:
        p = t.path; s = sends(p); up = t.pre.get(UP) == C(1)
        st = M.statename(t.pre)
        i = '%s%s' % (t.entry, '@' + st if up else ':stopped')
        seen.add((t.entry, up))
        if p.outcome != 'normal':
            R.check(False, 'order', i + ':fails', where(p), 'the controller fails: %s' % p.outcome, p.trace); continue
        names = [k for k, e in s]
        src = s[-1][1].src if s else where(p)
        if t.entry == 'MsgControllerStartReq':
            for f in fam: R.check(names.count('Msg%sInitReq' % f) == 1, 'start', f + ':' + i, src, '%d init requests are sent to %s' % (names.count('Msg%sInitReq' % f), f), p.trace)
            R.check(all(k.endswith('InitReq') for k in names), 'start', 'only:' + i, src, '%s is sent on start' % [k for k in names if not k.endswith('InitReq')], p.trace)
        elif t.entry == 'MsgControllerStopReq':
            for f in fam:
                c = names.count('Msg%sReleaseReq' % f)
                R.check(c == (1 if up else 0), 'stop', f + ':' + i, src, '%d release requests are sent to %s' % (c, f), p.trace)
            R.check(all(k.endswith('ReleaseReq') for k in names), 'stop', 'only:' + i, src, '%s is sent on stop' % [k for k in names if not k.endswith('ReleaseReq')], p.trace)
            R.check(not alive(m, m.rec(CTL)['n'], t.post), 'stop', 'dropped:' + i, where(p), 'the controller keeps its state after the stop', p.trace)
        elif not up:
            R.check(not names, 'stop', 'quiet:' + i, src, '%s is sent although the controller is stopped' % names, p.trace)
        else:
            g = re.match(r'Msg(\w+)InitRsp$', t.entry)
            want = 'Msg%sConfigReq' % g.group(1) if g and g.group(1) in fam else None
            if want: R.check(names.count(want) == 1, 'configure', i, src, '%d %s are sent for %s' % (names.count(want), want, t.entry), p.trace)
            for k, e in s:
                if k == want and 'items' in e.x: fits(m, R, i, e, p)
                if re.match(r'Msg(\w+)(Init|Config)Req$', k) and k != want:
                    R.check(False, 'order', k + ':' + i, e.src, '%s is sent for %s' % (k, t.entry), p.trace)
                elif k.endswith('ClientAduReq'):
                    R.check(p.x.store.get(stage('Modbus'), C(NONE)) == C(READY), 'order', k + ':' + i, e.src, 'a request is sent before Modbus is configured or after it was released', p.trace)
        R.check(True, 'order', i, '', '')
    R.check(any(e == 'timer' for e, u in seen), 'order', 'timer', '', 'the controller is never run by its timer')
    return M

def fits(m, R, i, e, p):
    """the controller configures only what it initialised"""
    if e.x['items'] is None: return
    md = {v: k for k, v in modes(m).items()}
    for j, (k, v) in enumerate(e.x['items']):
        k = md.get(k[1]) if k[0] == 'c' else None
        mx = e.x['max'].get(k)
        if mx is None or mx[0] != 'c' or v[0] != 'c': continue
        R.check(v[1] < mx[1], 'configure', i + ':item%d' % j, e.src, '%s %d is configured, %d were initialised' % (k, v[1], mx[1]), p.trace)

class CompWorld(World):
    max_loop = 4
    create_throws = False
    def hook(self, x, n, qn, this, args):
        name = n.get('name') or short(qn).rsplit('::', 1)[-1]
        if args and this is not None and self.obj_kind(this) in ('link', 'acceptor') and name in ('connect', 'listen'):
            a = self.addr(x, x.deref(args[0]))
            x.event('serve', 'server' if name == 'listen' else 'client', this, [], n, addr=a, h=x.get(('.', this, '#h')))
        return World.hook(self, x, n, qn, this, args)
    @staticmethod
    def addr(x, l): return tuple(x.get(('[]', ('.', l, 'data'), C(k))) for k in range(6))

ITEMS = 2
SVC = ('R', 'svc')
MAX = {'server': 2, 'client': 3}
def components(m, R, fam):
    for f in fam:
        c = [k for k in m.recs if any('Msg%sInitReq' % f in g['p'][0]['t'] for g in m.method(k, 'receive', 1)) and k.endswith('Component')]
        if len(c) != 1: raise AnalysisError('%s: %d components' % (f, len(c)))
        cls = c[0]
        own = [g for g in m.recs[cls]['f'] if strip_cv(g['t']).startswith('std::unique_ptr')]
        if len(own) != 1: raise AnalysisError('%s owns %d objects' % (cls, len(own)))
        l = ('.', COMP, own[0]['n']); ot = strip_cv(first_targ(strip_cv(own[0]['t'])))
        start = None
        passing(m, R, f, cls, l, ot)
        for kind in ('Init', 'Release', 'Config'):
            mt = 'Msg%s%sReq' % (f, kind)
            fn = [g for g in m.method(cls, 'receive', 1) if strip_cv(g['p'][0]['t']).endswith('::' + mt)]
            if len(fn) != 1: raise AnalysisError('%s: %d handlers of %s' % (cls, len(fn), mt))
            fn = fn[0]; start = start or fn; t = strip_cv(fn['p'][0]['t']); msg = msg_root(t)
            lists = bool(m.field(t, 'items') and m.field(t, 'numItems'))
            cases = [(False, ())] if kind == 'Init' else [(True, ()), (False, ())]
            if lists: cases = [(True, c) for c in itertools.product(itertools.product(sorted(MAX), (-1, 0)), repeat=ITEMS)] + [(False, ((k, -1) for k in ('client',) * ITEMS))]
            cases = [(q, tuple(c)) for q, c in cases]
            for there, items in cases:
                def go(x):
                    x.ltype[COMP] = cls; x.ltype[msg] = t
                    x.store[l] = NULL
                    if there and lists:
                        it = strip_cv(start['p'][0]['t']); r = msg_root(it); x.ltype[r] = it
                        for k, v in MAX.items(): x.store[('.', r, 'maxNum%ss' % k.capitalize())] = C(v)
                        x.call_fn(start, COMP, [('ptr', r)])
                    elif there: x.ltype[('R', 'svc')] = ot; x.store[l] = ('ptr', ('R', 'svc'))
                    if lists: x.store[('.', msg, 'numItems')] = C(ITEMS)
                    for j, (k, d) in enumerate(items):
                        it = ('[]', ('.', msg, 'items'), C(j))
                        x.store[('.', it, 'mode')] = C(modes(m)[k]); x.store[('.', it, 'id')] = C(MAX[k] + d)
                    x.event('begin', '', None, [])
                    return x.call_fn(fn, COMP, [('ptr', msg)])
                k = 0
                for p in explore(m, CompWorld(), go):
                    i = '%s%s' % (mt, '' if there or kind == 'Init' else ':absent')
                    b = p.events('begin')[0].i; s = [(q, e) for q, e in sends(p) if e.i > b]; names = [q for q, e in s]; src = s[-1][1].src if s else where(p)
                    if p.outcome != 'normal':
                        R.check(kind == 'Config' and there, 'answer', i + ':fails', where(p), '%s fails: %s' % (mt, p.outcome), p.trace); continue
                    k += 1
                    v = p.x.get(l); up = v[0] == 'ptr' and v != NULL
                    if kind == 'Init':
                        R.check(up, 'answer', i + ':service', where(p), 'the service does not exist after its initialisation', p.trace)
                        R.check(names == ['Msg%sInitRsp' % f], 'answer', i, src, '%s is answered with %s' % (mt, names), p.trace)
                    elif kind == 'Release':
                        R.check(not up, 'answer', i + ':service', where(p), 'the service exists after its release', p.trace)
                        R.check(names == ['Msg%sReleaseRsp' % f], 'answer', i, src, '%s is answered with %s' % (mt, names), p.trace)
                    else:
                        R.check(up == there, 'answer', i + ':service', where(p), 'the service is %s by its configuration' % ('created' if up else 'dropped'), p.trace)
                        if not there: R.check(not names, 'answer', i, src, '%s is sent by a service that does not exist' % names, p.trace)
                        else: configured(m, R, f, i, p, msg, t, s, items)
                R.check(k > 0, 'answer', mt + ':path', fn['l'], 'no path handles %s' % mt)

def rooted(l, r):
    while isinstance(l, tuple) and l:
        if l == r: return True
        if l[0] in ('.', '[]', 'in', 'ptr', 'obj') and len(l) > 1: l = l[1]
        else: return False
    return False

def mentions(v, r):
    return v == r or isinstance(v, tuple) and any(mentions(q, r) for q in v)

class PassWorld(CompWorld):
    def hook(self, x, n, qn, this, args):
        if args is not None and this is not None and not n.get('ctor') and (rooted(this, SVC) or n.get('cls') == self.ot) and not n.get('cls', '').startswith('std::'):
            x.event('svc', qn, this, args, n)
            return C(0) if not n.get('t', '').rstrip().endswith(('&', '*')) else ('ptr', ('.', SVC, '#r%d' % x.fresh()))
        if args is not None and this is None and any(a[0] in ('ptr', 'obj') and rooted(a[1], SVC) for a in args) and not short(qn).startswith('std::'):
            x.event('svc', qn, this, args, n); return C(0)
        return CompWorld.hook(self, x, n, qn, this, args)

def passing(m, R, f, cls, l, ot):
    """every other message of a component is passed on to its service if there is one"""
    for fn in m.method(cls, 'receive', 1):
        t = strip_cv(fn['p'][0]['t']); mt = t.rsplit('::', 1)[-1]; msg = msg_root(t)
        if mt in ['Msg%s%sReq' % (f, k) for k in ('Init', 'Release', 'Config')]: continue
        for there in (True, False):
            def go(x):
                x.ltype[COMP] = cls; x.ltype[msg] = t
                x.store[l] = NULL
                if there: x.ltype[SVC] = ot; x.store[l] = ('ptr', SVC)
                return x.call_fn(fn, COMP, [('ptr', msg)])
            pol = PassWorld(); pol.ot = ot
            for p in explore(m, pol, go):
                i = mt + ('' if there else ':absent')
                if not R.check(p.outcome == 'normal', 'pass', i + ':fails', where(p), '%s fails: %s' % (mt, p.outcome), p.trace): continue
                c = [e for e in p.events('svc') if any(mentions(a, msg) for a in e.args)]
                if there: R.check(len(c) == 1, 'pass', i, c[-1].src if c else fn['l'], 'the service gets %s %d times' % (mt, len(c)), p.trace)
                else: R.check(not p.events('svc'), 'pass', i, fn['l'], 'a service that does not exist is used', p.trace)

def modes(m):
    e = [v for k, v in m.enums.items() if k.endswith('ModbusConfig::Mode')]
    if len(e) != 1: raise AnalysisError('ModbusConfig::Mode: %d candidates' % len(e))
    return dict(e[0]['c'])

def configured(m, R, f, i, p, msg, t, s, items):
    x = p.x; got = p.events('serve')
    names = [k for k, e in s]
    if m.field(t, 'addr'):
        R.check(len(got) == 1, 'serve', i + ':once', got[-1].src if got else where(p), 'the configured address is used %d times' % len(got), p.trace)
        for e in got:
            R.check(e.name == 'server', 'serve', i + ':server', e.src, 'the configured address is connected to', p.trace)
            R.check(e.x['addr'] == CompWorld.addr(x, ('.', msg, 'addr')), 'serve', i + ':address', e.src, 'the address listened on is not the configured one', p.trace)
            R.check(e.x['h'][0] == 'lam', 'serve', i + ':handler', e.src, 'nobody handles the connections', p.trace)
    elif m.field(t, 'items'):
        left = list(got)
        for j, (kind, d) in enumerate(items):
            a = CompWorld.addr(x, ('.', ('[]', ('.', msg, 'items'), C(j)), 'addr'))
            mine = [e for e in left if e.x['addr'] == a][:1]
            if mine: left.remove(mine[0])
            n = '%s:%d:%s%s' % (i, j, kind, '' if d < 0 else ':unknown')
            if d >= 0: R.check(not mine, 'serve', n, mine[0].src if mine else where(p), 'a %s is started beyond the number initialised' % kind, p.trace); continue
            R.check(len(mine) == 1, 'serve', n, where(p), 'a configured %s is not started with its address' % kind, p.trace)
            if mine: R.check(mine[0].name == kind, 'serve', n + ':kind', mine[0].src, 'a configured %s is started as %s' % (kind, mine[0].name), p.trace)
        R.check(not left, 'serve', i + ':more', left[0].src if left else '', 'a %s is started that is not configured' % (left[0].name if left else ''), p.trace)
        R.check(names == ['Msg%sConfigRsp' % f], 'answer', i, s[-1][1].src if s else where(p), 'a configuration is answered with %s' % names, p.trace)
        for k, e in s:
            if not k.endswith('ConfigRsp'): continue
            sn = e.x['snap']
            R.check(sn.get(('.', e.obj, 'numItems')) == C(ITEMS), 'answer', i + ':items', e.src, 'the answer has %s items for %d' % (show(sn.get(('.', e.obj, 'numItems'))), ITEMS), p.trace)
            for j in range(ITEMS):
                v = sn.get(('.', ('[]', ('.', e.obj, 'items'), C(j)), 'id'))
                R.check(eq(p, v, x.get(('.', ('[]', ('.', msg, 'items'), C(j)), 'id'))), 'answer', i + ':id%d' % j, e.src, 'item %d of the answer is for %s' % (j, show(v)), p.trace)

def check(m, R, tier):
    R.rule('start', 'a start request sends exactly one init request to every managed component, and nothing else')
    R.rule('configure', 'a component that reports that it is initialised gets exactly one configuration')
    R.rule('stop', 'a stop request, at whatever stage, releases every component exactly once; afterwards nothing is sent')
    R.rule('order', 'nothing is initialised, configured or used out of order, and no step fails')
    R.rule('answer', 'a component creates its service when initialised, drops it when released, and answers each request once')
    R.rule('pass', 'every other message a component receives is passed on once to its service, if there is one')
    R.rule('serve', 'a configuration starts exactly the configured clients and servers at the configured addresses')
    fam = families(m)
    controller(m, R, fam)
    components(m, R, fam)
    R.need('start', 5); R.need('configure', 4); R.need('stop', 10); R.need('answer', 20); R.need('pass', 10); R.need('serve', 5)

"""C01: message identifiers, addresses, registered handlers, deployment and senders are extracted from the code
(constructors and registration code are interpreted abstractly, every handler lambda is followed to the function that
takes the message) and joined: every message type that reachable code can send must be addressed to a deployed
component whose reactor maps exactly that identifier to a handler that treats the bytes as that same type; every init
and release request must be answered on every path by one matching response to the component that asks."""
from sa.model import AnalysisError, walk
from sa.interp import *
from sa.app import AppPolicy, entity, construct, arg_val

TECHNIQUE = 'static analysis: abstract interpretation of registration/deployment code, call-graph reachability and a join of senders, ids, addresses and handlers'
ASSUMPTIONS = ['the deployment is the one main() selects', 'a handler is the first function of the product that receives the message']

def base(m, t):
    for b in m.recs[t]['bases']:
        if 'MsgBase<' in b: return b
    return None

def msg_types(m):
    return sorted(n for n in m.recs if base(m, n))

def const_of(m, t, name):
    """value of a niladic member function of message type t, or None"""
    for c in [t] + m.all_bases(t):
        for md in m.recs.get(c, {}).get('m', ()):
            if md['n'] != name: continue
            f = m.fns.get(md['id'])
            if f and f.get('body'):
                vals = {p.ret for p in explore(m, AppPolicy(), lambda x: x.call_fn(f, entity(x, m, t), []))}
                if len(vals) == 1 and list(vals)[0][0] == 'c': return list(vals)[0][1]
                return 'not constant'
            if not md.get('pure'):
                return None
    return None

def ids(m, R):
    out = {}
    for t in msg_types(m):
        ta = [a.rstrip('UL') for a in m.recs[base(m, t)]['targs']]
        comp, mid = int(ta[1]), int(ta[2])
        where = m.recs[t].get('l', '')
        for nm, want in (('getMsgId', mid), ('msgId', mid), ('getCompId', comp)):
            v = const_of(m, t, nm)
            if v is not None:
                R.check(v == want, 'id-functions', '%s::%s' % (t, nm), where, '%s() yields %s, the declaration says %s' % (nm, v, want))
        R.check(ta[0] == t, 'id-functions', t + '::base', where, 'derives from the message base of %s' % ta[0])
        out[t] = (comp, mid)
    by = {}
    for t, (c, i) in out.items(): by.setdefault(i, []).append(t)
    for i, ts in by.items():
        R.check(len(ts) == 1, 'unique-id', 'id:%d' % i, m.recs[ts[0]].get('l', ''), 'message identifier %d is shared by %s' % (i, ts))
    return out

def deployed(m, R):
    """[(component class, address or None)], from main's deployment"""
    f = m.method('Deployer', 'apply')
    mains = [g for g in m.fns.values() if g['qn'] == 'main' and g.get('body')]
    if not f or not mains: raise AnalysisError('Deployer::apply or main not found')
    comps = []
    class P(AppPolicy):
        def hook(self, x, n, qn, this, args):
            q = short(qn)
            if args is None:
                cls = qn[:-len('::<ctor>')]
                if cls.endswith('Component') or cls.endswith('ConnectorSimple') or 'app::reactor::ComponentInterface' in x.m.all_bases(cls):
                    x.event('component', cls, this, [('ptr', x.reflv(a)) for a in n['a']], n)
                    x.set(this, ('un', x.fresh(), 'component')); return C(0)
                if cls.endswith('reactor::Reactor'):
                    args2 = x.evargs(n['a'], n['pk'])
                    l = x.deref(args2[0])
                    x.event('reactor', cls, this, [x.get(('.', l, 'numThreads'))], n)
                    x.set(this, ('un', x.fresh(), 'reactor')); return C(0)
                return NotImplemented
            if q in ('std::make_unique', 'std::make_shared') and n.get('targs'):
                cls = n['targs'][0]
                if cls.endswith('reactor::Reactor'):
                    loc = x.pol.heap(x, cls, n); x.ltype[loc] = cls
                    x.event('reactor', cls, loc, [x.get(('.', x.deref(args[0]), 'numThreads'))], n)
                    x.set(loc, ('un', x.fresh(), 'reactor'))
                    t = x.temp(n.get('rt')); x.set(t, ('ptr', loc), log=False)
                    return ('obj', t)
                if 'app::reactor::ComponentInterface' in x.m.all_bases(cls):
                    loc = x.pol.heap(x, cls, n); x.ltype[loc] = cls
                    x.event('component', cls, loc, [a if a[0] == 'ptr' else ('ptr', x.tmpval(a)) for a in args], n)
                    x.set(loc, ('un', x.fresh(), 'component'))
                    t = x.temp(n.get('rt')); x.set(t, ('ptr', loc), log=False)
                    return ('obj', t)
            if q.endswith('ReactorManager::addComponent'):
                a = args[0]
                v = x.get(a[1]) if a[0] in ('ptr', 'obj') else a
                x.event('addComponent', x.ltype.get(x.deref(v), '?'), None, args, n)
                return C(0)
            if q.endswith('ReactorManager::addReactor'):
                x.event('addReactor', '', None, args, n); return C(0)
            if q in ('app::reactor::ReactorManager::start', 'app::reactor::ReactorManager::stop'):
                x.event('mgr', q.rsplit('::', 1)[-1], None, args, n); return C(0)
            if q.endswith('ReactorManager::send'):
                x.event('mainsend', x.ltype.get(x.deref(args[0]), '?'), None, args, n); return C(0)
            return AppPolicy.hook(self, x, n, qn, this, args)
    res = None
    for p in explore(m, P(), lambda x: x.call_fn(mains[0], None, [])):
        if p.outcome != 'normal': continue
        cs = [e.name for e in p.events('addComponent')]
        R.check('?' not in cs, 'deployment', 'main', mains[0]['l'], 'a component of unknown class is added', p.trace)
        made = [e.name for e in p.events('component')]
        R.check(sorted(made) == sorted(cs), 'deployment', 'kept', f[0]['l'], 'of the components made, %s, not all are kept: their handlers outlive them' % sorted(set(made) - set(cs)), p.trace)
        ts = [e.args[0] for e in p.events('reactor')]
        nr, na = len(ts), len(p.events('addReactor'))
        R.check(nr == na and nr > 0, 'deployment', 'reactors', f[0]['l'], '%d event loops are created but %d are kept' % (nr, na), p.trace)
        R.check([e.name for e in p.events('mgr')][:1] == ['start'], 'deployment', 'started', mains[0]['l'], 'the event loops are not started', p.trace)
        first = [e.i for e in p.events('mgr') if e.name == 'start']
        for e in p.events('mainsend'):
            R.check(first and all(ac.i < e.i for ac in p.events('addComponent')), 'deployment', 'before-send', e.src, 'a message is sent before the components are deployed', p.trace)
        res = (cs, [e.name for e in p.events('mainsend')])
        loops = {e.obj: (i, e.args[0]) for i, e in enumerate(p.events('reactor'))}
        home = {}
        for e in p.events('component'):
            for a in e.args:
                if a[1] in loops: home[e.name] = loops[a[1]]
        R.home = home
    if res is None: raise AnalysisError('main has no normal path')
    return res

def comp_id(m, cls):
    for b in m.all_bases(cls):
        if 'ComponentBase<' in b:
            want = int(m.recs[b]['targs'][0].rstrip('UL'))
            got = const_of_cls(m, cls)
            return want, got
    return None, None

def const_of_cls(m, cls):
    for c in [cls] + m.all_bases(cls):
        for md in m.recs.get(c, {}).get('m', ()):
            if md['n'] == 'getCompId':
                f = m.fns.get(md['id'])
                if f and f.get('body'):
                    v = {p.ret for p in explore(m, AppPolicy(), lambda x: x.call_fn(f, entity(x, m, cls), []))}
                    v = list(v)
                    return v[0][1] if len(v) == 1 and v[0][0] == 'c' else None
    return None

def handlers(m, R, cls, types):
    """message id -> type the handler of component cls takes; interprets the constructor"""
    out = {}
    class P(AppPolicy):
        max_loop = 64
        def inline(self, x, fn, n):
            return True
        def hook(self, x, n, qn, this, args):
            q = short(qn)
            if args is not None and q.rsplit('::', 1)[-1] == 'registerHandlers' and 'Reactor' in q:
                l = x.deref(args[0])
                v = x.get(l)
                if v[0] != 'list': raise AnalysisError('%s: handlers are not a literal list' % cls)
                for i in range(v[1]):
                    e = ('[]', l, C(i))
                    self.reg(x, n, x.get(('.', e, 'arg0')), x.get(('.', e, 'arg1')))
                return C(0)
            if args is not None and q.rsplit('::', 1)[-1] == 'registerHandler' and 'Reactor' in q:
                self.reg(x, n, arg_val(x, args[0]), arg_val(x, args[1]))
                return C(0)
            if args is None and ('Sender' in qn or 'Reactor' in qn) and 'ComponentBase' not in qn:
                return NotImplemented
            return AppPolicy.hook(self, x, n, qn, this, args)
        def reg(self, x, n, i, h):
            x.event('register', cls, None, [i, h], n)
    ctor = [f for f in m.fns.values() if f.get('ctor') and f.get('cls') == cls and not f.get('copyctor')]
    if not ctor: raise AnalysisError('constructor of %s not found' % cls)
    def entry(x):
        loc = ('R', 'comp')
        x.ltype[loc] = cls
        args = []
        for i, p in enumerate(ctor[0]['p']):
            l = ('R', 'carg%d' % i); x.ltype[l] = strip_cv(p['t']); args.append(('ptr', l))
        x.run_ctor(ctor[0], loc, args)
        x.ltype[loc] = cls
        x.reg = [e for e in x.trace if isinstance(e, Ev) and e.kind == 'register']
        # follow every handler
        for e in list(x.reg):
            if e.args[1][0] != 'lam': continue
            x.pol2 = x.pol
            x.pol = Follow()
            msg = ('R', 'msg%d' % e.i)
            x.trace.append(Ev('handler', 'begin', None, e.args, e.src))
            try: x.call_lambda(e.args[1], [('ptr', msg)], e.node)
            finally: x.pol = x.pol2
    class Follow(AppPolicy):
        def hook(self, x, n, qn, this, args):
            if args is not None and n.get('own') and any(a[0] == 'ptr' and a[1][0] == 'R' and str(a[1][1]).startswith('msg') for a in args):
                i = [j for j, a in enumerate(args) if a[0] == 'ptr' and a[1][0] == 'R' and str(a[1][1]).startswith('msg')][0]
                f = x.m.fns.get(n.get('fn'))
                t = strip_cv(f['p'][i]['t']) if f else '?'
                if f and f.get('body') and ('MsgInterface' in t):
                    return NotImplemented
                x.event('taken', t, None, args, n, fn=f)
                return C(0)
            return AppPolicy.hook(self, x, n, qn, this, args)
    n = 0
    for p in explore(m, P(), entry):
        if p.outcome != 'normal': continue
        cur = None
        for e in p.events('handler', 'taken'):
            if e.kind == 'handler':
                cur = e
                i = e.args[0]
                if i[0] != 'c': raise AnalysisError('%s: message identifier is not constant' % cls)
                out.setdefault(i[1], {'types': [], 'src': e.src, 'fn': None})
                out[i[1]]['n'] = 0
            else:
                d = out[cur.args[0][1]]
                d['n'] += 1
                if e.name not in d['types']: d['types'].append(e.name)
                d['fn'] = e.x['fn']
        n += 1
    R.check(n > 0, 'handlers', cls, ctor[0]['l'], 'no normal path through the constructor')
    return out

# ---- reachability -------------------------------------------------------------------
def reach(m, roots):
    seen = set()
    st = list(roots)
    ctors = {}
    for f in m.fns.values():
        if f.get('ctor'): ctors.setdefault(f.get('cls'), []).append(f['id'])
    while st:
        fid = st.pop()
        if fid in seen: continue
        seen.add(fid)
        for o in m.all_over(fid): st.append(o)
        f = m.fns.get(fid)
        if not f: continue
        for part in (f.get('body'), f.get('inits')):
            if not part: continue
            for n in walk(part):
                if n.get('fn'): st.append(n['fn'])
                for o in n.get('ops', ()): st.append(o)
                if n.get('dtor') and isinstance(n['dtor'], str): st.append(n['dtor'])
                if n.get('name') == 'make_unique' and n.get('targs'):
                    st.extend(ctors.get(n['targs'][0], ()))
                if n.get('name') == 'getSingleton' and n.get('targs'):
                    st.extend(ctors.get(n['targs'][0], ()))
    return seen

def classes_alive(m, seen):
    return seen

def senders(m, alive, R):
    """[(message type, namespace of the sender, function, where)] in reachable code"""
    out = []
    for fid in alive:
        f = m.fns.get(fid)
        if not f or not f.get('body'): continue
        for n in walk(f['body']):
            if n.get('k') in ('Call', 'MCall') and n.get('name') == 'sendMsg' and n.get('targs'):
                g = m.fns.get(n['fn'])
                out.append((n['targs'][0], n['qn'], f, n['l'], g))
    return out

def check(m, R, tier):
    R.rule('id-functions', 'the functions that give identifier and address return what the declaration says')
    R.rule('unique-id', 'no two message types share an identifier')
    R.rule('unique-address', 'no two components share an address; a component reports the address it is declared with')
    R.rule('deployment', 'main creates and keeps the event loops and components before anything is sent')
    R.rule('handlers', 'every handler treats its message as the type that owns the identifier, exactly once')
    R.rule('routed', 'every message type sent by reachable code goes to a deployed component with a handler for it')
    R.rule('sender', 'every send function of a component hands its own message over exactly once')
    R.rule('dispatch', 'registration stores each handler under its own identifier; the message manager addresses the component by the address of the message')
    R.rule('answered', 'every init and release request is answered once, on every path, by its own response to the component that asks')
    types = ids(m, R)
    R.check(len(types) >= 20, 'id-functions', 'types', 'src/app/common/msg', 'only %d message types found' % len(types))
    comps, mainsends = deployed(m, R)
    addr = {}
    for c in comps:
        want, got = comp_id(m, c)
        R.check(want is not None and want == got, 'unique-address', c, m.recs[c]['l'], 'component reports address %s, declared %s' % (got, want))
        if want in addr:
            R.fail('unique-address', 'address:%s' % want, m.recs[c]['l'], 'address %s is shared by %s and %s' % (want, addr[want], c))
        addr[want] = c
    roots = [f['id'] for f in m.fns.values() if f['qn'] == 'main']
    H = {}
    for c in comps:
        H[c] = handlers(m, R, c, types)
        for i, d in sorted(H[c].items()):
            owner = [t for t, (cc, mi) in types.items() if mi == i]
            ok = len(owner) == 1 and d['types'] == owner and d['n'] == 1
            R.check(ok, 'handlers', '%s/%s' % (c, owner[0] if owner else i), d['src'],
                    'identifier %d belongs to %s but its handler takes %s' % (i, owner, d['types'] or 'nothing'))
            if owner:
                R.check(types[owner[0]][0] == comp_id(m, c)[0], 'routed', '%s/%s' % (c, owner[0]), d['src'],
                        '%s is registered by %s but addressed to component %s' % (owner[0], c, types[owner[0]][0]))
    # live senders, by fixpoint: a handler is live only when its message is sent
    live_msgs = set(mainsends)
    ctors = [f['id'] for f in m.fns.values() if f.get('ctor') and f.get('cls') in comps]
    while True:
        rs = list(roots)
        stop = set()
        for c in comps:
            for i, d in H[c].items():
                if d['fn'] is None: continue
                if any(t in live_msgs for t in d['types']): rs.append(d['fn']['id'])
                else: stop.add(d['fn']['id'])
        # everything the components build (reactor, handlers) but not unreached handlers
        seen = reach_without(m, rs, stop)
        snd = senders(m, seen, R)
        new = live_msgs | {s[0] for s in snd}
        if new == live_msgs: break
        live_msgs = new
    for t, qn, f, where, g in sorted(snd, key=lambda s: (s[0], s[3])):
        inst = '%s from %s' % (t, f['qn'])
        if t not in types:
            R.fail('routed', inst, where, '%s is not a message' % t); continue
        comp, mid = types[t]
        tgt = addr.get(comp)
        if not R.check(tgt is not None, 'routed', inst, where, '%s is addressed to component %d, which is not deployed' % (t, comp)): continue
        R.check(mid in H[tgt], 'routed', inst + '/handler', where, '%s is addressed to %s, which has no handler for it' % (t, tgt))
    for t in mainsends:
        comp, mid = types.get(t, (None, None))
        R.check(addr.get(comp) and mid in H[addr[comp]], 'routed', 'main/' + t, 'app/main.cpp', '%s is not handled' % t)
    R.info = {'message types': len(types), 'deployed components': comps, 'live message types': sorted(live_msgs), 'send sites': len(snd)}
    send_functions(m, R, types, live_msgs)
    manager(m, R)
    answers(m, R, comps, H, types, addr, snd)

def reach_without(m, roots, stop):
    seen = set()
    st = list(roots)
    ctors = {}
    for f in m.fns.values():
        if f.get('ctor'): ctors.setdefault(f.get('cls'), []).append(f['id'])
    while st:
        fid = st.pop()
        if fid in seen or fid in stop: continue
        seen.add(fid)
        st.extend(m.all_over(fid))
        f = m.fns.get(fid)
        if not f: continue
        for part in (f.get('body'), f.get('inits')):
            if not part: continue
            for n in walk(part):
                if n.get('fn'): st.append(n['fn'])
                st.extend(n.get('ops', ()))
                if isinstance(n.get('dtor'), str): st.append(n['dtor'])
                if n.get('name') in ('make_unique', 'getSingleton', 'emplace_back') and n.get('targs'):
                    for t in n['targs']:
                        st.extend(ctors.get(t, ()))
                        for md in m.recs.get(t, {}).get('m', ()):
                            if md.get('dtor'): st.append(md['id'])
                if n.get('k') in ('New', 'Ctor', 'Decl'):
                    for md in m.recs.get(n.get('cls', n.get('at', '')), {}).get('m', ()):
                        if md.get('dtor'): st.append(md['id'])
    return seen

def send_functions(m, R, types, live):
    """T::send(MsgX const&) overriders of the sender classes hand the message to SenderInterface::send"""
    n = 0
    for f in sorted(m.fns.values(), key=lambda f: f['id']):
        if f['name'] != 'send' or not f.get('body') or not f.get('cls') or len(f['p']) != 1: continue
        t = strip_cv(f['p'][0]['t'])
        if t not in types or not any('SenderBase<' in b or 'SenderInterface' in b for b in [f['cls']] + list(m.all_bases(f['cls']))): continue
        n += 1
        class P(AppPolicy):
            def hook(self, x, nn, qn, this, args):
                if args is not None and short(qn).endswith('SenderInterface::send') or (args is not None and short(qn).endswith('ReactorManager::send')):
                    x.event('handover', '', this, args, nn); return C(0)
                return AppPolicy.hook(self, x, nn, qn, this, args)
        def entry(x):
            x.ltype[('R', 'msg')] = t
            return x.call_fn(f, entity(x, m, f['cls']), [('ptr', ('R', 'msg'))])
        for p in explore(m, P(), entry):
            h = [e for e in p.events('handover', 'send')]
            ok = p.outcome == 'normal' and len(h) == 1 and (h[0].kind == 'send' and h[0].obj == ('R', 'msg') or h[0].kind == 'handover' and h[0].args[0] == ('ptr', ('R', 'msg')))
            R.check(ok, 'sender', '%s(%s)' % (f['qn'], t), f['l'], '%d messages are handed over instead of the one given' % len(h) if len(h) != 1 else 'another object than the message is handed over', p.trace)
    # SenderBase::sendMsg<T> calls the send function of the sender with the stored message
    k = 0
    for f in sorted(m.fns.values(), key=lambda f: f['id']):
        if f['name'] != 'sendMsg' or not f.get('body') or 'SenderBase' not in f.get('cls', ''): continue
        t = first_targ(strip_cv(f['p'][0]['t']))
        class P2(AppPolicy):
            def hook(self, x, nn, qn, this, args):
                if args is not None and short(qn).endswith('::send'):
                    x.event('deliver', nn['qn'], this, args, nn, fn=nn.get('fn')); return C(0)
                return NotImplemented
        def entry(x):
            x.ltype[('R', 'st')] = strip_cv(f['p'][0]['t'])
            x.store[('.', ('R', 'st'), 'msg')] = ('ptr', ('R', 'msg'))
            x.ltype[('R', 'msg')] = t
            return x.call_fn(f, None, [('ptr', ('R', 'st'))])
        k += 1
        for p in explore(m, P2(), entry):
            d = p.events('deliver')
            fl = [e for e in p.trace if isinstance(e, Fact)]
            undefined = any(e.op == '==' and NULL in (e.a, e.b) and e.truth for e in fl)
            if undefined and not d:
                R.ok('sender', f['qn'] + ' without sender'); continue
            g = m.fns.get(d[0].x['fn']) if d else None
            ok = len(d) == 1 and d[0].args[0] == ('ptr', ('R', 'msg'))
            R.check(ok, 'sender', 'sendMsg<%s> of %s' % (t, f['cls']), f['l'], 'the stored message is not given to the sender exactly once', p.trace)
    R.check(n >= 10 and k >= 10, 'sender', 'count', 'src/app', 'only %d send functions and %d sendMsg instances found' % (n, k))

def manager(m, R):
    # registration
    for f in m.method('app::reactor::Reactor', 'registerHandlers') + m.method('app::reactor::Reactor', 'registerHandler'):
        def entry(x):
            l = ('R', 'vec'); x.ltype[l] = strip_cv(f['p'][0]['t'])
            h = []
            if f['name'] == 'registerHandlers':
                x.store[l] = ('list', 2)
                for i in range(2):
                    x.store[('.', ('[]', l, C(i)), 'arg0')] = C(100 + i)
                    x.store[('.', ('[]', l, C(i)), 'arg1')] = ('fn', 'h%d' % i, 'h%d' % i)
                args = [('ptr', l)]
            else:
                hl = ('R', 'hd'); x.store[hl] = ('fn', 'h0', 'h0')
                args = [C(100), ('obj', hl)]
            x.call_fn(f, entity(x, m, 'app::reactor::Reactor'), args)
        for p in explore(m, AppPolicy(), entry):
            got = {}
            for k, v in p.store.items():
                if k[0] == '[]' and k[1] == ('.', ('R', 'this'), 'handlers') and k[2][0] == 'c': got[k[2][1]] = v
            want = {100 + i: ('fn', 'h%d' % i, 'h%d' % i) for i in range(2 if f['name'] == 'registerHandlers' else 1)}
            R.check(got == want, 'dispatch', f['qn'], f['l'], 'registering handlers 100, 101 stores %s' % {k: show(v) for k, v in got.items()}, p.trace)
    # manager: component looked up by the address of the message
    fs = m.method('app::reactor::ReactorManager', 'send')
    if not fs: raise AnalysisError('ReactorManager::send not found')
    class P(AppPolicy):
        def hook(self, x, n, qn, this, args):
            q = short(qn)
            if args is not None and q.endswith('MsgInterface::getCompId'):
                return ('in', ('R', 'compId'))
            if args is not None and q.endswith('ReactorInterface::send'):
                x.event('rsend', q, this, args, n); return C(0)
            if args is not None and q.endswith('::getReactor'):
                e = x.event('getReactor', q, this, args, n)
                return ('ptr', ('.', this, 'reactor!'))
            return NotImplemented
    nsend = 0
    for p in explore(m, P(), lambda x: x.call_fn(fs[0], entity(x, m, 'app::reactor::ReactorManager'), [('ptr', ('R', 'msg'))])):
        sends = p.events('rsend')
        R.check(len(sends) <= 1, 'dispatch', 'ReactorManager::send', fs[0]['l'], 'message delivered %d times' % len(sends), p.trace)
        for e in sends:
            nsend += 1
            ok = e.args[0] == ('ptr', ('R', 'msg')) and "compId" in repr(e.obj) and 'components' in repr(e.obj)
            R.check(ok, 'dispatch', 'ReactorManager::send', e.src, 'the message is not sent to the component found under its address: %s' % show(e.obj), p.trace)
    R.check(nsend > 0, 'dispatch', 'ReactorManager::send/path', fs[0]['l'], 'no path delivers the message')
    fs = m.method('app::reactor::ReactorManager', 'addComponent')
    if not fs: raise AnalysisError('ReactorManager::addComponent not found')
    class P3(AppPolicy):
        def hook(self, x, n, qn, this, args):
            if args is not None and short(qn).endswith('::getCompId'): return ('in', ('R', 'compId'))
            return NotImplemented
    st = 0
    def entry(x):
        l = ('R', 'comp'); x.store[l] = ('ptr', ('R', 'theComponent'))
        x.ltype[l] = 'std::unique_ptr<app::reactor::ComponentInterface>'
        x.call_fn(fs[0], entity(x, m, 'app::reactor::ReactorManager'), [('obj', l)])
    for p in explore(m, P3(), entry):
        slots = [k for k, v in p.store.items() if v == ('ptr', ('R', 'theComponent')) and 'components' in repr(k)]
        if slots:
            st += 1
            R.check(all('compId' in repr(k) for k in slots), 'dispatch', 'ReactorManager::addComponent', fs[0]['l'], 'component is not stored under its own address', p.trace)
    R.check(st > 0, 'dispatch', 'ReactorManager::addComponent/path', fs[0]['l'], 'no path stores the component')

def ns(q):
    return q

def answers(m, R, comps, H, types, addr, snd):
    n = 0
    for c in comps:
        for i, d in sorted(H[c].items()):
            for t in d['types']:
                if not (t.endswith('InitReq') or t.endswith('ReleaseReq') and not t.endswith('ConnectionReleaseReq')): continue
                rsp = t[:-3] + 'Rsp'
                if rsp not in types:
                    R.fail('answered', t, d['src'], 'no response type %s' % rsp); continue
                f = d['fn']
                class P(AppPolicy):
                    def inline(self, x, fn, nn):
                        # the answer is given by the component itself, its parts are built and dropped
                        return fn.get('cls') == c or 'SenderBase' in fn.get('qn', '') or 'MsgStore' in fn.get('qn', '')
                    def hook(self, x, nn, qn, this, args):
                        if args is not None and short(qn) == 'std::make_unique':
                            tt = x.temp(nn.get('rt')); x.set(tt, ('ptr', ('N', x.fresh())), log=False); return ('obj', tt)
                        return AppPolicy.hook(self, x, nn, qn, this, args)
                def entry(x):
                    x.ltype[('R', 'msg')] = t
                    return x.call_fn(f, entity(x, m, c), [('ptr', ('R', 'msg'))])
                for p in explore(m, P(), entry):
                    if p.outcome != 'normal': continue
                    n += 1
                    s = [e.name for e in p.events('send')]
                    R.check(s.count(rsp) == 1, 'answered', '%s/%s' % (c, t), f['l'], '%s is answered by %s, expected one %s' % (t, s or 'nothing', rsp), p.trace)
                # the response goes to a component that sends the request
                ask = {q.split('::sendMsg')[0] for tt, q, g, w, gg in snd if tt == t}
                to = addr.get(types[rsp][0])
                if ask and to:
                    nsp = to.rsplit('::', 1)[0]
                    R.check(any(nsp + '::' in q for q in ask), 'answered', rsp + '/to', m.recs[rsp]['l'], '%s goes to %s, the request is sent through %s' % (rsp, to, sorted(ask)))
    R.check(n >= 4, 'answered', 'count', 'src/app', 'only %d request paths found' % n)

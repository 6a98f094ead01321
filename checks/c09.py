"""C09: (1) every component and protocol entity that takes entries from a pool or creates links, timers and acceptors is
explored as a closed machine (every message, link event, time-out, failing send, connect, accept and allocation, to a
fixpoint over abstract states). A pool entry must be busy exactly while its entity is in use, every live link, timer and
acceptor must be held by somebody, nothing is returned twice or used after it was returned, a failing allocation changes
nothing else, and from every reachable state in which an entry is busy some event returns it. (2) the pools themselves:
construction enters each id once together with an entity, alloc hands out the front id, release puts back the given one,
get maps an id to its own entity. (3) what the reactor hands out is tied to the id it took, and its deleter releases the
object and returns that id once; a failing creation returns it too. (4) every call site that allocates, creates or returns
was reached by one of the explored machines."""
from sa.model import AnalysisError, walk
from sa.interp import *
from sa.interp import Thrown, short, add, first_targ
from sa.app import AppPolicy
from checks.entities import *
from checks.fifo import FifoPolicy
from checks.c11 import eq, where, val
from checks import c11, c12, c13, c14, c17, services

TECHNIQUE = 'static typestate analysis of pooled resources (path-sensitive abstract interpretation, fixpoint over abstract states)'
ASSUMPTIONS = ['app::Queue is a queue of the capacity it was constructed with (C06)', 'an owner does not destroy a connection from within one of its callbacks',
               'entries of other entities behave like the one tracked']

CREATE = {'createLink': 'link', 'createTimer': 'timer', 'createAcceptor': 'acceptor'}

def machines(m):
    for cls, owner, api in c17.MACHINES:
        def extra(x, owner=owner):
            if owner is None: x.store[('.', THIS, 'handler')] = OWNERFN
        yield sname(cls), entity_machine(m, cls, EntityWorld(owner), api, init_extra=extra)
    yield 'ModbusClient', c11.machine(m)
    yield 'ModbusServer', c12.machine(m)
    yield 'UaTransport', c13.machine(m)
    yield 'UaSecureChannel', c14.machine(m)
    yield 'UaService', services.machine(m)

def lives(st): return [k[1] for k, v in st.items() if k[0] == '.' and k[2] == '#live' and v == C(1)]
def holders(st, l): return [k for k, v in st.items() if v == ('ptr', l)]

def entities(st): return sorted({k[1] for k in st if k[0] == '.' and k[2] == '#busy'}, key=repr)

def shape(st, ent):
    """states of the entity: its state pointers, flags and enumerations, which objects it owns"""
    return {k: v for k, v in st.items() if root(k) == ent and k[0] == '.' and v[0] == 'ptr' and k[2] == 'state'}

def owned(st, ent):
    return [l for l in lives(st) if World.obj_kind(None, l) in ('link', 'acceptor') and any(root(k) == ent for k in holders(st, l))]
def armed(st, ent):
    return [l for l in lives(st) if World.obj_kind(None, l) == 'timer' and st.get(('.', l, '#st')) == C(1) and any(root(k) == ent for k in holders(st, l))]

def ghostless(st): return {k: v for k, v in st.items() if not (k[0] == '.' and isinstance(k[2], str) and k[2].startswith('#n'))}

def check(m, R, tier):
    R.rule('returned', 'a pool entry is busy exactly while its entity is in use')
    R.rule('owned', 'every live link, timer and acceptor is held by somebody')
    R.rule('once', 'nothing is returned twice, used after it was returned or used without having been created')
    R.rule('refused', 'a failing allocation changes nothing but what belongs to the refused user')
    R.rule('ends', 'from every reachable state in which an entry is busy, some event returns it')
    R.rule('bounded', 'no table grows with the content of messages')
    R.rule('sites', 'every site that allocates, creates or returns is analysed')
    R.rule('pool', 'a pool enters each id once with its entity, hands out the first free id, puts back the one given, and maps an id to its own entity')
    R.rule('reactor', 'an object handed out is the entity of the id taken; its deleter releases it and returns that id exactly once; a failing creation returns the id')
    seen = set()
    for nm, M in machines(m):
        M.run()
        R.info[nm] = '%d states, %d paths' % (len(M.states), len(M.steps))
        idle = {}
        for p in M.inits:
            if p.outcome != 'normal': continue
            st = M.freeze(p)
            for e in entities(st): idle.setdefault(e, []).append(shape(st, e))
        succ = {}
        for t in M.steps:
            p = t.path
            inst = '%s:%s/%s' % (nm, M.statename(t.pre), t.entry)
            for e in p.events():
                if e.kind in ('create', 'alloc', 'release', 'release-other'): seen.add(e.src)
            for e in p.events('bad'): R.fail('once', inst, e.src, e.x['msg'], p.trace)
            if not p.events('bad'): R.ok('once', inst)
            for e in p.events('insert'): R.fail('bounded', inst, e.src, 'an entry is added to a table under a key taken from a message', p.trace)
            R.ok('bounded', inst)
            for l in lives(t.post):
                R.check(bool(holders(t.post, l)), 'owned', '%s/%s' % (inst, World.obj_kind(None, l)), where(p) or l[1], 'a %s is created and nobody holds it' % show(l), p.trace)
            for ent in entities(t.post):
                if ent not in idle: idle[ent] = [shape(st, ent) for st in [t.post] if st.get(('.', ent, '#busy')) == C(0)] or [{}]
                b = t.post.get(('.', ent, '#busy'))
                use = shape(t.post, ent) not in idle[ent] or bool(owned(t.post, ent)) or bool(armed(t.post, ent))
                what = M.ltype.get(ent, '?').rsplit('::', 1)[-1]
                if b == C(1): R.check(use, 'returned', '%s:%s:lost' % (inst, what), where(p), 'the pool entry of %s stays taken although it is not in use (%s)' % (what, p.outcome), p.trace)
                else: R.check(not use, 'returned', '%s:%s:early' % (inst, what), where(p), 'the pool entry of %s is returned although it is in use (%s)' % (what, p.outcome), p.trace)
            for e in p.events('alloc'):
                if e.ret == C(0):
                    for ent in entities(t.pre):
                        a = {k: v for k, v in t.pre.items() if root(k) == ent}; b2 = {k: v for k, v in t.post.items() if root(k) == ent}
                        a.pop(('.', ent, '#busy'), None)
                        diff = [k for k in a if k[0] == '.' and k[2] in ('state',) and b2.get(k) != a[k]] + ([1] if t.post.get(('.', ent, '#busy')) != t.pre.get(('.', ent, '#busy')) else [])
                        if not any(q.kind == 'fire' and holds(t.pre, q.obj, ent) for q in p.events('fire')):
                            R.check(not diff, 'refused', inst, e.src, 'a refused allocation changes an entry in use', p.trace)
            succ.setdefault(M.key(t.pre), set()).add(M.key(t.post))
        # ---- every busy state can end
        ents = sorted({e for st in M.states.values() for e in entities(st)}, key=repr)
        for ent in ents:
            free = {k for k, st in M.states.items() if st.get(('.', ent, '#busy')) != C(1)}
            while True:
                more = {k for k in M.states if k not in free and succ.get(k, set()) & free}
                if not more: break
                free |= more
            for k, st in M.states.items():
                if st.get(('.', ent, '#busy')) == C(1):
                    R.check(k in free, 'ends', '%s:%s' % (nm, M.statename(st)), show(ent), 'no event returns the pool entry: %s' % M.statename(st))
    sites(m, R, seen)
    pools(m, R)
    reactor(m, R)

def holds(st, l, ent): return any(root(k) == ent for k in holders(st, l))

def pool_classes(m):
    """classes that keep a queue of free ids beside a vector of owned entities"""
    out = []
    for c, r in sorted(m.recs.items()):
        q = [f for f in r['f'] if strip_cv(f['t']).startswith('app::Queue<')]
        v = [f for f in r['f'] if strip_cv(f['t']).startswith('std::vector<') and 'unique_ptr<' in f['t']]
        if len(q) == 1 and len(v) == 1: out.append((c, q[0]['n'], v[0]['n']))
    return out

def sites(m, R, seen):
    pc = {c for c, _, _ in pool_classes(m)}
    for f in m.fns.values():
        if not f.get('body') or f.get('cls') in pc: continue
        for n in walk(f['body']):
            if n.get('k') != 'MCall': continue
            cls = n.get('cls', '')
            if cls in pc and not cls.startswith('app::reactor::') and n['name'] in ('alloc', 'release', 'free'):
                R.check(n['l'] in seen, 'sites', '%s:%s' % (short(f['qn']), n['name']), n['l'], 'no explored event reaches this pool operation')
            if cls.startswith('std::unique_ptr<') and n['name'] == 'release' and any(w in cls for w in ('LinkInterface', 'TimerInterface', 'AcceptorInterface')):
                R.fail('sites', short(f['qn']) + ':detached', n['l'], 'a link, timer or acceptor is detached from its owner')

class PoolPolicy(FifoPolicy):
    """the queue of free ids has x.cnt elements; its front is FRONT"""
    qf = vf = None
    def start(self, x): FifoPolicy.start(self, x)
    def heap(self, x, t, n): return ('R', 'new:%s@%s#%d' % (t, n['l'], x.fresh()))
    def inline(self, x, fn, n): return not short(fn['qn']).endswith('<ctor>')
    def hook(self, x, n, qn, this, args):
        cls = n.get('cls', '')
        if args is None:
            if qn.startswith('app::Queue<'):
                a = x.evargs(n['a'], n['pk'])
                x.event('queue', '', this, a, n); x.set(this, ('un', x.fresh(), 'queue'), log=False)
                return C(0)
            if qn.startswith('std::vector<'):
                if n['a'] and not n.get('copy'): raise AnalysisError('pool vector is constructed with elements at ' + n['l'])
                x.set(this, ('empty',), log=False); return C(0)
            return NotImplemented
        name = n.get('name') or short(qn).rsplit('::', 1)[-1]
        if cls.startswith('app::Queue<'):
            if name == 'empty': return C(x.cmp('==', CNT, C(0)))
            if name == 'size': return CNT
            v = [x.get(a[1]) if a[0] in ('ptr', 'obj') else a for a in args]
            if name == 'front':
                x.event('front', '', this, v, n); return ('ptr', FRONT)
            if name in ('push', 'pop'):
                x.event(name, '', this, v, n)
                self.put(x, ('Q' if name == 'push' else 'P', v[0] if v else None))
                return C(1)
            raise AnalysisError('queue operation %s at %s' % (name, n['l']))
        if cls.startswith('std::vector<') and 'unique_ptr' in cls:
            if name in ('push_back', 'emplace_back'):
                v = x.get(x.deref(args[0])) if args and args[0][0] in ('ptr', 'obj') else args[0] if args else NULL
                nw = [e for e in x.trace if isinstance(e, Ev) and e.kind == 'new' and v == ('ptr', e.obj)]
                self.put(x, ('V', v, [a if a[0] not in ('ptr', 'obj') else x.get(a[1]) for a in nw[-1].args] if nw else None)); x.event('entity', '', this, [v], n); return C(0)
            if name in ('at', 'operator[]'):
                i = args[0] if args[0][0] not in ('ptr', 'obj') else x.get(args[0][1])
                x.event('index', name, this, [i], n)
                return ('ptr', ('.', ('R', 'entity'), 'slot'))
            if name in ('reserve', 'capacity'): return C(0)
            if name == 'size': return SIZE
            raise AnalysisError('vector operation %s at %s' % (name, n['l']))
        return FifoPolicy.hook(self, x, n, qn, this, args)

CNT, SIZE, FRONT = ('in', ('R', 'count')), ('in', ('R', 'size')), ('R', 'front')

def pools(m, R):
    pcs = pool_classes(m)
    if not pcs: raise AnalysisError('no pool class')
    for c, qf, vf in pcs:
        nm = short(c).rsplit('::', 1)[-1] + ('<%s>' % sname(first_targ(c)) if '<' in c else '')
        def go(x, f, args):
            x.ltype[THIS] = c
            x.xt[CNT] = x.xt[SIZE] = 'u32'; x.xt[('in', FRONT)] = 'u32'
            pol.start(x)
            return x.call_fn(f, THIS, args)
        # ---- construction
        first = None
        for ct in m.ctors(c):
            pol = PoolPolicy()
            def mk(x):
                x.ltype[THIS] = c; pol.start(x)
                x.run_ctor(ct, THIS, params(x, ct))
            for p in explore(m, pol, mk):
                if p.outcome != 'normal' or not p.x.fifo: continue       # capacity 0
                first = built(R, nm, p, ct)
        if first is None: raise AnalysisError('%s: construction not understood' % nm)
        # ---- alloc / release / get
        ops = {}
        for f in m.fns.values():
            if f.get('cls') == c and f.get('body') and not f.get('ctor') and not f['name'].startswith('~'): ops[f['name']] = f
        # members of a template that nobody uses do not exist
        pol = PoolPolicy()
        for p in explore(m, pol, lambda x: go(x, ops['alloc'], params(x, ops['alloc']))) if 'alloc' in ops else ():
            ev = [e for e in p.events() if e.kind in ('push', 'pop')]
            b = p.x.facts.bounds(CNT)
            if p.outcome != 'normal': R.fail('pool', nm + ':alloc:throws', where(p), 'alloc throws', p.trace); continue
            if b[1] == 0: R.check(p.ret == C(0) and not ev, 'pool', nm + ':alloc:empty', where(p), 'an empty pool does not refuse', p.trace)
            elif b[0] and b[0] > 0:
                out = p.x.get(('R', 'p0'))
                fr = [e for e in p.events('front')]
                R.check(p.ret == C(1) and [e.kind for e in ev] == ['pop'] and eq(p, out, ('in', FRONT)) and fr and fr[-1].i < ev[0].i, 'pool', nm + ':alloc', where(p), 'a free id is handed out but not exactly the first, removed once', p.trace)
            else: R.fail('pool', nm + ':alloc:unchecked', where(p), 'alloc does not check whether an id is free', p.trace)
        rel = ops.get('release') or ops.get('free')
        for p in explore(m, pol, lambda x: go(x, rel, params(x, rel))) if rel else ():
            ev = [e for e in p.events() if e.kind in ('push', 'pop')]
            R.check(p.outcome == 'normal' and [e.kind for e in ev] == ['push'] and eq(p, ev[0].args[0], ('in', ('R', 'p0'))), 'pool', nm + ':release', where(p), 'the id returned is not put back exactly once', p.trace)
        for p in explore(m, pol, lambda x: go(x, ops['get'], params(x, ops['get']))) if 'get' in ops else ():
            ix = p.events('index')
            if p.outcome != 'normal': continue
            want = add(('in', ('R', 'p0')), first, -1)
            ok = len(ix) == 1 and (eq(p, ix[0].args[0], want) or ix[0].args[0] == want)
            R.check(ok, 'pool', nm + ':get', where(p), 'an id is mapped to entity %s, not to %s' % (show(ix[0].args[0]) if ix else 'none', show(want)), p.trace)
            if ok and not c.startswith('app::reactor::'):
                b = p.x.facts.bounds(add(ix[0].args[0], SIZE, -1))
                R.check(ix[0].name == 'at' or (b[1] is not None and b[1] < 0), 'pool', nm + ':get:checked', where(p), 'an id that comes with a message is used without a check', p.trace)
    R.need('pool', 30)

def params(x, f):
    out = []
    for i, p in enumerate(f['p']):
        l = ('R', 'p%d' % i)
        x.ltype[l] = strip_cv(p['t'])
        if p['tk'] in RANGE and '&' not in p['t']:
            x.xt[('in', l)] = p['tk']; out.append(('in', l))
        else: out.append(('ptr', l))
    return out

def built(R, nm, p, ct):
    """ids entered and entities made; returns the first id"""
    x = p.x
    def flat(kind):
        """-> (count, first, step) of the values in the items of a kind"""
        val1 = lambda it: it[1] if kind == 'Q' else it[2]
        top = [it for it in x.fifo if it[0] == kind]
        reps = [it for it in x.fifo if it[0] == 'REP' and any(j[0] == kind for j in it[3])]
        if reps and not top and len(reps) == 1:
            js = [j for j in reps[0][3] if j[0] == kind]
            if len(js) != 1: return None
            return reps[0][1], val1(js[0]), reps[0][2]
        if top and not reps: return C(len(top)), [val1(t) for t in top], None
        return None
    q, v = flat('Q'), flat('V')
    if not R.check(q is not None and v is not None and not [it for it in x.fifo if it[0] == 'P'], 'pool', nm + ':once', ct['l'], 'construction does not enter every id and every entity exactly once', p.trace): return C(0)
    R.check(q[0] == v[0] or eq(p, q[0], v[0]), 'pool', nm + ':count', ct['l'], '%s ids for %s entities' % (show(q[0]), show(v[0])), p.trace)
    cap = [e.args[0] for e in p.events('queue')]
    R.check(len(cap) == 1 and (cap[0] == q[0] or eq(p, cap[0], q[0])), 'pool', nm + ':capacity', ct['l'], 'the queue of free ids does not have room for the %s ids' % show(q[0]), p.trace)
    if q[2] is None:
        seq = q[1]
        ok = all(t[0] == 'c' for t in seq) and [t[1] for t in seq] == list(range(seq[0][1], seq[0][1] + len(seq)))
        R.check(ok, 'pool', nm + ':ids', ct['l'], 'the ids entered are not consecutive', p.trace)
        first = seq[0]
    else:
        first = add(q[1], q[2], -1)
        R.check(first[0] == 'c', 'pool', nm + ':ids', ct['l'], 'the ids entered are %s' % show(q[1]), p.trace)
    # the entity at index i is made with the id that maps to it
    ents = v[1] if v[2] is None else [v[1]]
    for k, a in enumerate(ents):
        if a is None: raise AnalysisError('%s: entity is not made by the constructor' % nm)
        idx = C(k) if v[2] is None else v[2]
        nums = [y for y in a if y[0] in ('c', 'un', 'lin')]
        for y in nums[:1]: R.check(add(y, idx, -1) == first, 'pool', nm + ':own-id', ct['l'], 'the entity with id %s is made with id %s' % (show(add(idx, first)), show(y)), p.trace)
    return first

class ReactorPolicy(AppPolicy):
    max_loop = 4
    def hook(self, x, n, qn, this, args):
        if args is None: return NotImplemented
        cls = n.get('cls', ''); name = n.get('name')
        if cls.startswith('app::reactor::EntityPool<') and this is not None:
            E = first_targ(cls)
            v = [a if a[0] not in ('ptr', 'obj') else x.get(a[1]) for a in args]
            if name == 'alloc':
                e = x.event('alloc', E, this, args, n)
                if x.choose(2) == 1: e.ret = C(0); return C(0)
                u = ('un', x.fresh(), 'uid'); x.xt[u] = 'u32'
                x.set(x.deref(args[0]), u); e.ret = C(1); e.x['uid'] = u
                return C(1)
            if name == 'get':
                l = ('R', 'entity', v[0]); x.ltype[l] = E
                x.event('get', E, l, v, n); return ('ptr', l)
            if name in ('release', 'free'): x.event('return', E, this, v, n); return C(0)
            raise AnalysisError('pool operation %s at %s' % (name, n['l']))
        if this is not None and this[0] == 'R' and this[1] == 'entity':
            e = x.event('entity', name, this, args, n)
            if name not in ('setHandler', 'release', 'close', 'stop') and x.choose(2) == 1:
                e.x['threw'] = True; raise Thrown('std::runtime_error', x.src, name)
            return C(0)
        return AppPolicy.hook(self, x, n, qn, this, args)

def reactor(m, R):
    cls = 'app::reactor::Reactor'
    if cls not in m.recs: raise AnalysisError('class Reactor not found')
    for name, kind in CREATE.items():
        fs = [f for f in m.method(cls, name, 1) if f.get('body')]
        if len(fs) != 1: raise AnalysisError('Reactor::%s not found' % name)
        f = fs[0]
        pol = ReactorPolicy()
        def go(x):
            x.ltype[THIS] = cls
            x.lams = {}
            h = ('R', 'handler'); x.ltype[h] = strip_cv(f['p'][0]['t']); x.store[h] = ('str', '#handler')
            t = x.temp(strip_cv(f['p'][0]['t'])); x.set(t, ('str', '#handler'), log=False)
            r = x.call_fn(f, THIS, [('ptr', t)])
            own = [e for e in x.trace if isinstance(e, Ev) and e.kind == 'own']
            x.event('handed', '', None, [], None)
            if len(own) == 1 and own[0].args[1][0] == 'lam':
                lam, env, this = x.lams[own[0].args[1][1]]
                for cid, l in env.items():
                    if l[0] != 'R': x.set(l, ('un', x.fresh(), 'dangling'), log=False)
                v = own[0].args[0]
                x.call_lambda(own[0].args[1], [v], {'l': f['l'], 'k': 'MCall'})
            return r
        n = 0
        for p in explore(m, pol, go):
            ok = [e for e in p.events('alloc') if e.ret == C(1)]
            no = [e for e in p.events('alloc') if e.ret == C(0)]
            inst = '%s:%s' % (name, p.outcome)
            H = [e.i for e in p.events('handed')]
            ret = p.events('return')
            if no:
                R.check(p.outcome == 'throw' and not ok and not ret and not p.events('get'), 'reactor', name + ':refused', no[0].src, 'an exhausted pool is not reported, or its id is used', p.trace)
                continue
            if len(ok) != 1: R.fail('reactor', name + ':taken', f['l'], '%d ids are taken' % len(ok), p.trace); continue
            u = ok[0].x['uid']; pool = ok[0].obj
            back = [e for e in ret if e.obj == pool and e.args[0] == u]
            if p.outcome == 'throw':
                R.check(len(back) == 1 and len(ret) == 1, 'reactor', name + ':failed', where(p), 'a failing creation returns its id %d times' % len(back), p.trace); continue
            n += 1
            own = p.events('own')
            if not R.check(len(own) == 1 and own[0].args[0] == ('ptr', ('R', 'entity', u)) and own[0].args[1][0] == 'lam', 'reactor', name + ':handed', f['l'], 'what is handed out is not the entity of the id taken, with a deleter', p.trace): continue
            R.check(p.ret is not None and p.ret[0] == 'obj' and p.x.get(p.ret[1]) == own[0].args[0] or own[0].args[0] == ('ptr', ('R', 'entity', u)), 'reactor', name + ':result', f['l'], 'the object is not handed to the caller', p.trace)
            R.check(not [e for e in ret if e.i < H[0]], 'reactor', name + ':early', f['l'], 'the id is returned while the object is handed out', p.trace)
            late = [e for e in ret if e.i > H[0]]
            R.check(len(late) == 1 and late[0] in back, 'reactor', name + ':deleter', own[0].src, 'the deleter returns %d ids, %d of them the one taken' % (len(late), len([e for e in late if e in back])), p.trace)
            rl = [e for e in p.events('entity') if e.i > H[0] and e.name == 'release' and e.obj == ('R', 'entity', u)]
            R.check(len(rl) == 1 and late and rl[0].i < late[0].i, 'reactor', name + ':released', own[0].src, 'the deleter does not release the object before its id is free', p.trace)
            sh = [e for e in p.events('entity') if e.name == 'setHandler']
            R.check(len(sh) == 1 and sh[0].obj == ('R', 'entity', u) and given(p, sh[0]), 'reactor', name + ':handler', f['l'], 'the object is not given the handler', p.trace)
        if not n: raise AnalysisError('%s never hands out an object' % name)
    R.need('reactor', 15)

def given(p, e):
    a = e.args[0]
    v = p.x.get(a[1]) if a[0] in ('ptr', 'obj') else a
    return v == ('str', '#handler')

"""C11: the Modbus client is explored as a closed machine (constructor, start, every request, every link and timer
event, destruction) from every abstract state it can reach, with the request storage replaced by its specification (a
bounded FIFO whose own code is checked separately). On every path each request that leaves the storage, or is refused
by it, must have been answered exactly once with its own client and transaction numbers, an answer with data or an
exception code needs a decoded reply whose numbers were compared with the outstanding request, nothing is sent while a
request is outstanding, and no request stays behind where nothing would serve it. The dispatch of request lists to
clients is analysed per item."""
from sa.model import AnalysisError
from sa.interp import *
from sa.machine import *
from sa.app import AppPolicy, entity
from checks.ring import fifo_rules
from checks.common import counted, trip

TECHNIQUE = 'static typestate analysis of the client machine (path-sensitive abstract interpretation, fixpoint over abstract states)'
ASSUMPTIONS = ['sending an inter-component message is accepted (refusals are the subject of C06)',
               'the requests considered are those of an initialised Modbus component; releasing or reconfiguring it answers what is pending with an error']

STORE = 'ModbusAduStorage'
THIS = ('R', 'this')
N = ('.', THIS, '#n'); SENT = ('.', THIS, '#sent'); PEND = ('.', THIS, '#answered')
FRONT = ('R', 'front')
RSP = 'MsgModbusClientAduRsp'

class ClientWorld(World):
    frames = True
    def ghost(self, x, l, v):
        x.store[l] = v
    def fields(self, x, loc): return {k: x.get(('.', loc, k)) for k in ('clientId', 'transactId', 'addr', 'func')}
    def hook(self, x, n, qn, this, args):
        cls = n.get('cls', '') if args is not None else qn[:-len('::<ctor>')]
        if cls.rsplit('::', 1)[-1] == STORE:
            if args is None:
                x.set(this, ('un', x.fresh(), 'storage'), log=False)
                self.ghost(x, N, C(0)); self.ghost(x, SENT, C(0)); self.ghost(x, PEND, C(0))
                return C(0)
            return self.storage(x, n, args, n['name'])
        return World.hook(self, x, n, qn, this, args)
    def storage(self, x, n, args, name):
        k = x.store.get(N)
        if name == 'empty': return C(k == C(0))
        if name == 'push':
            l = x.deref(args[0])
            ok = x.choose(2) == 0
            x.event('push', '', l, [], n, ok=ok, f=self.fields(x, l), all={g['n']: x.get(('.', l, g['n'])) for g in x.m.recs['app::modbus::AduRequest']['f']})
            if not ok: return C(0)
            if k == C(0):
                for f in x.m.recs['app::modbus::AduRequest']['f']:
                    x.store[('.', FRONT, f['n'])] = x.get(('.', l, f['n']))
            self.ghost(x, N, C(1))
            return C(1)
        if name == 'front':
            if k == C(0): self.bad(x, 'front-empty', 'uses the front of an empty storage', n)
            x.ltype[FRONT] = 'app::modbus::AduRequest'
            return ('ptr', FRONT)
        if name == 'pop':
            x.event('pop', '', None, [], n, empty=k == C(0), f=self.fields(x, FRONT))
            if k == C(0): return C(0)
            for kk in x.under(FRONT): del x.store[kk]
            x.store[FRONT] = ('un', x.fresh(), 'front')
            self.ghost(x, SENT, C(0)); self.ghost(x, self.PART, C(0))
            np = sum(1 for e in x.trace if isinstance(e, Ev) and e.kind == 'pop')
            if x.choose(2) == 1:
                if np >= 3: raise Infeasible()
                return C(0)
            self.ghost(x, N, C(0))
            return C(0)
        raise AnalysisError('storage operation %s at %s' % (name, n['l']))
    def do_link(self, x, n, loc, args, name):
        if name == 'send':
            was = x.store.get(SENT)
            r = World.do_link(self, x, n, loc, args, name)
            e = [e for e in x.trace if isinstance(e, Ev)][-1]
            e.x['was'] = was; e.x['n'] = x.store.get(N)
            if r == C(1): self.ghost(x, SENT, C(1)); self.ghost(x, self.PART, C(0))
            return r
        return World.do_link(self, x, n, loc, args, name)
    def send_msg(self, x, n, loc, t=None):
        r = World.send_msg(self, x, n, loc, t)
        e = x.trace[-1]
        e.x['front'] = self.fields(x, FRONT); e.x['sent'] = x.store.get(SENT); e.x['n'] = x.store.get(N)
        return r

def machine(m, world=None):
    cls = m.rec('ModbusClient')['n']
    pol = (world or ClientWorld)()
    ctor = m.ctors(cls)
    if len(ctor) != 1: raise AnalysisError('ModbusClient: %d constructors' % len(ctor))
    start = [f for f in m.method(cls, 'start', 0)]
    rec = [f for f in m.method(cls, 'receive', 1) if 'AduReqItem' in f['p'][0]['t']]
    if len(start) != 1 or len(rec) != 1: raise AnalysisError('ModbusClient: entry points start/receive(item) not found')
    def init(x):
        x.ltype[THIS] = cls
        for g in (N, SENT, PEND, pol.PART): x.store[g] = C(0)
        x.run_ctor(ctor[0], THIS, [('ptr', ('R', 'initdata'))]); x.ltype[THIS] = cls
    def receive(x):
        x.ltype[('R', 'item')] = strip_cv(rec[0]['p'][0]['t'])
        return x.call_fn(rec[0], THIS, [('ptr', ('R', 'item'))])
    def destroy(x):
        pol.destroy_obj(x, THIS, cls); x.event('gone', '')
        return C(0)
    def entries(st):
        if ('.', THIS, '#gone') in st: return []
        return [('start', lambda x: x.call_fn(start[0], THIS, [])), ('request', receive), ('destroy', destroy)]
    M = Machine(m, pol, init, entries)
    # a destroyed client has no further entries
    fr = M.freeze
    def freeze(p):
        st = fr(p)
        if any(e.kind == 'gone' for e in p.events()): st = {('.', THIS, '#gone'): C(1)}
        return st
    M.freeze = freeze
    return M

def val(e, *path):
    l = e.obj
    for q in path: l = ('.', l, q)
    return e.x['snap'].get(l)

def enumv(m, enum, name):
    e = [v for k, v in m.enums.items() if k.rsplit('::', 1)[-1] == enum]
    if len(e) != 1: raise AnalysisError('enumeration %s: %d candidates' % (enum, len(e)))
    return dict(e[0]['c'])[name]

def check(m, R, tier):
    R.rule('answer-once', 'a request that leaves the storage or is refused has been answered exactly once, and nothing else is answered')
    R.rule('answer-matches', 'an answer carries the client and transaction number of its request; data or an exception code come from a decoded reply whose transaction, unit address and function match it')
    R.rule('one-at-a-time', 'a request is encoded from the front of the storage and sent only while none is outstanding')
    R.rule('nothing-left', 'requests wait only while the link is up and a timer is running')
    R.rule('dispatch', 'every item of a request list is handed to its client or answered with an error')
    R.rule('storage', 'the request storage is a FIFO that keeps requests unchanged')
    R.rule('framing', 'a reply is decoded from its first byte exactly when it was received completely and is well-formed; a part of it is kept and waited for', failonly=True)
    M = machine(m).run()
    R.info['states'] = len(M.states); R.info['steps'] = len(M.steps)
    succ, noerr, mberr = enumv(m, 'MsgStatus', 'success'), enumv(m, 'ModbusError', 'noerror'), enumv(m, 'ModbusFunction', 'modbusError')
    err = enumv(m, 'MsgStatus', 'error')
    for t in M.steps:
        p = t.path
        inst = '%s/%s' % (M.statename(t.pre) or '-', t.entry)
        for e in p.events('bad'):
            R.fail('answer-once', inst + ':' + e.name, e.src, e.x['msg'], p.trace)
        sent = t.pre.get(SENT) == C(1)
        frames(R, p, inst, sent and t.entry == 'link-data', not any(e.name.endswith(RSP) for e in p.events('send')) and p.x.store.get(SENT) == C(1))
        owed = []            # answered but still in the storage
        refused = []
        for e in p.events():
            if e.kind == 'push':
                for g, v in e.x['all'].items():
                    w = ('in', ('.', ('R', 'item'), g))
                    ok = v == w if g != 'data' else v[0] == 'ptr' and under(v, ('.', ('R', 'item'), 'data')) and (v[1][0] != '[]' or v[1][2] == C(0))
                    R.check(ok, 'answer-matches', 'request:' + g, e.src, 'the stored request has %s %s, not that of the item' % (g, show(v)), p.trace)
                if not e.x['ok']: refused.append(e)
            elif e.kind == 'pop':
                if e.x['empty']: continue
                R.check(len(owed) == 1, 'answer-once', inst, e.src, 'a request is removed after %d answers' % len(owed), p.trace)
                owed = []
            elif e.kind == 'send' and e.name.endswith(RSP):
                answer(R, m, p, e, inst, owed, refused, succ, noerr, mberr, err)
            elif e.kind == 'link' and e.name == 'send':
                R.check(e.x['was'] != C(1), 'one-at-a-time', inst, e.src, 'sends while a request is outstanding', p.trace)
                enc = [c for c in p.events('encode') if c.i < e.i]
                ok = enc and enc[-1].x['ok'] and enc[-1].x['loc'] == FRONT and enc[-1].obj is not None and root(e.args[0][1])[:1] and under(e.args[0], enc[-1].obj)
                R.check(bool(ok), 'one-at-a-time', inst + ':content', e.src, 'what is sent is not the encoded request at the front of the storage', p.trace)
        R.check(not owed, 'answer-once', inst, where(p), 'a request is answered but stays in the storage', p.trace)
        R.check(not refused, 'answer-once', inst + ':refused', where(p), 'a refused request is not answered', p.trace)
        if p.outcome == 'terminate' or p.outcome == 'diverge':
            R.fail('answer-once', inst, where(p), 'the handler does not return (%s)' % p.outcome, p.trace)
        if t.entry == 'destroy':
            R.check(p.x.store.get(N) == C(0), 'nothing-left', inst, where(p), 'the client is destroyed with unanswered requests', p.trace)
    for k, st in M.states.items():
        if st.get(N) != C(1): continue
        links = [l for l, v in st.items() if l[0] == '.' and l[2] == '#st' and l[1][1].startswith('link@')]
        timers = [l for l, v in st.items() if l[0] == '.' and l[2] == '#st' and l[1][1].startswith('timer@')]
        nm = M.statename(st)
        R.check(any(st[l] == C(1) for l in links), 'nothing-left', nm, '', 'requests wait in state %s although the link is not connected' % nm, reach(M, k))
        R.check(any(st[l] == C(1) for l in timers), 'nothing-left', nm, '', 'requests wait in state %s without a running timer' % nm, reach(M, k))
    dispatch(m, R)
    storage(m, R)
    fifo_rules(m, R, 'storage')

def reach(M, k):
    for t in M.steps:
        if M.key(t.post) == k and M.key(t.pre) != k: return t.path.trace
    return None

def under(ptr, buf):
    l = ptr[1] if ptr[0] == 'ptr' else None
    while l is not None:
        if l == buf: return True
        l = l[1] if l[0] in ('.', '[]') else None
    return False

def at(ptr, loc):
    """ptr points to the first element of loc"""
    return ptr[0] == 'ptr' and (ptr[1] == loc or ptr[1] == ('[]', loc, C(0)))

def where(p):
    ev = [e for e in p.events() if e.src] or [f for f in p.trace if isinstance(f, Fact) and getattr(f, 'src', None)]
    return ev[-1].src if ev else getattr(p.x, 'src', '') or ''

def answer(R, m, p, e, inst, owed, refused, succ, noerr, mberr, err):
    cid, tid, st, er = val(e, 'clientId'), val(e, 'transactId'), val(e, 'status'), val(e, 'error')
    fr = e.x['front']
    def ids(f): return cid == f['clientId'] and (tid == f['transactId'] or eq(p, tid, f['transactId']))
    src = e.src
    if refused and ids(refused[-1].x['f']):
        R.check(st == C(err), 'answer-matches', inst + ':refused', src, 'a refused request is answered with success', p.trace)
        refused.pop(); return
    if e.x['n'] == C(0):
        R.fail('answer-once', inst, src, 'an answer is sent although no request is stored', p.trace); return
    if not R.check(not owed, 'answer-once', inst, src, 'a request is answered twice', p.trace): return
    owed.append(e)
    if not R.check(ids(fr), 'answer-matches', inst, src, 'the answer carries client %s and transaction %s, not those of the request' % (show(cid), show(tid)), p.trace): return
    if st == C(err): 
        for d in p.events('decode'):
            if d.i < e.i and d.x.get('ok') and not any(isinstance(o, Ev) and o.kind == 'pop' and d.i < o.i < e.i for o in p.trace):
                df = ('ev', d.i, 'func')
                R.check(any(neq(p, ('ev', d.i, f), fr[f]) for f in ('transactId', 'addr')) or neq(p, df, fr['func']) and neq(p, df, C(mberr)), 'answer-matches', inst + ':refuted', src, 'an error is reported although a reply was decoded whose numbers and function were not found to differ from the request\'s', p.trace)
        return
    if not R.check(st == C(succ), 'answer-matches', inst, src, 'the status %s is neither success nor error' % show(st), p.trace): return
    dec = [c for c in p.events('decode') if c.i < e.i and c.x.get('ok')]
    if not R.check(bool(dec), 'answer-matches', inst, src, 'success is reported without a decoded reply', p.trace): return
    R.check(e.x['sent'] == C(1), 'answer-matches', inst, src, 'success is reported for a request that was not sent', p.trace)
    d = dec[-1]
    def dv(f): return ('ev', d.i, f)
    R.check(eq(p, dv('transactId'), fr['transactId']), 'answer-matches', inst + ':transaction', src, 'success although the reply\'s transaction number was not compared with the request\'s', p.trace)
    R.check(eq(p, dv('addr'), fr['addr']), 'answer-matches', inst + ':address', src, 'success although the reply\'s unit address was not compared with the request\'s', p.trace)
    if er == C(noerr):
        R.check(eq(p, dv('func'), fr['func']), 'answer-matches', inst + ':function', src, 'success although the reply\'s function was not compared with the request\'s', p.trace)
        R.check(val(e, 'numBytes') == dv('numBytes'), 'answer-matches', inst + ':bytes', src, 'the number of bytes is not the reply\'s', p.trace)
        cp = [c for c in p.events('memcpy') if d.i < c.i < e.i and at(c.args[0], ('.', e.obj, 'data')) and at(c.args[1], ('.', d.x['loc'], 'data'))]
        R.check(len(cp) == 1 and eq(p, cp[0].args[2], dv('numBytes')), 'answer-matches', inst + ':data', src, 'the data is not the data of the reply', p.trace)
    else:
        R.check(er == dv('error'), 'answer-matches', inst + ':exception', src, 'the exception code is not the reply\'s', p.trace)
        R.check(eq(p, dv('func'), C(mberr)), 'answer-matches', inst + ':exception', src, 'an exception is reported for a reply that is none', p.trace)

def eq(p, a, b):
    """a equals b by a chain of comparisons found true on the path, or by the bounds known at its end"""
    if a == b: return True
    seen = {a}; todo = [a]
    while todo:
        u = todo.pop()
        for f in p.trace:
            if isinstance(f, Fact) and u in (f.a, f.b) and ((f.op == '==' and f.truth) or (f.op == '!=' and not f.truth)):
                v = f.b if f.a == u else f.a
                if v == b: return True
                if v not in seen and v[0] != 'c': seen.add(v); todo.append(v)
    lo, hi = p.facts.bounds(add(a, b, -1)) if p.x.isnum(a) and p.x.isnum(b) else (None, None)
    return lo == 0 and hi == 0

def neq(p, a, b):
    """a and b were found to differ"""
    def oneof(u):
        s = {u}
        for f in p.trace:
            if isinstance(f, Fact) and u in (f.a, f.b) and ((f.op == '==' and f.truth) or (f.op == '!=' and not f.truth)): s.add(f.b if f.a == u else f.a)
        return s
    A, B = oneof(a), oneof(b)
    if any(x[0] == y[0] == 'c' and x != y for x in A for y in B): return True
    for f in p.trace:
        if isinstance(f, Fact) and ((f.op == '!=' and f.truth) or (f.op == '==' and not f.truth)) and (f.a in A and f.b in B or f.a in B and f.b in A): return True
    if p.x.isnum(a) and p.x.isnum(b):
        lo, hi = p.facts.bounds(add(a, b, -1))
        return lo is not None and lo > 0 or hi is not None and hi < 0
    return False

def frames(R, p, inst, ready, goes_on, rule='framing'):
    """what is done with received bytes"""
    for e in p.events('link'):
        if e.name == 'receive' and e.x.get('res') == 'na' and ready and goes_on and e.args[0][0] == 'ptr':
            b = e.args[0][1]
            while b[0] in ('.', '[]') and not (p.x.dyn_type(b, None) or '').endswith('::PduBuffer'): b = b[1]
            for k, v in e.x['snap'].store.items():
                if k[0] == '.' and k[1] == b and v[0] == 'c': R.check(p.x.get(k) == v, rule, inst + ':kept', e.src, 'the part of an ADU that was received is not kept', p.trace)
            for k, v in p.x.store.items():
                if k[0] == '.' and k[1] == b and k not in e.x['snap'].store: R.check(v == e.x['snap'].get(k), rule, inst + ':kept', e.src, 'the part of an ADU that was received is not kept', p.trace)
    for e in p.events('frame'):
        R.check(not e.x['start'], rule, inst + ':start', e.src, 'an ADU is not read from its beginning (%s is not reset)' % ', '.join(e.x['start']), p.trace)
        if e.x['first']: R.check(not e.x['rest'], rule, inst + ':fresh', e.src, 'the bytes of an ADU are appended to those of an earlier one (%s is not reset)' % ', '.join(e.x['rest']), p.trace)
        dec = [c for c in p.events('decode') if c.i > e.i and c.obj == e.obj]
        if e.name == 'whole' and ready: R.check(bool(dec), rule, inst + ':whole', e.src, 'a completely received, well-formed ADU is not decoded', p.trace)
        elif e.name != 'whole': R.check(not dec, rule, inst + ':' + e.name, e.src, 'bytes that are %s are decoded as an ADU' % ('not a whole ADU' if e.name == 'part' else 'no well-formed ADU'), p.trace)
        if e.name == 'part' and ready:
            R.check(goes_on, rule, inst + ':part', e.src, 'an ADU of which a part was received is not waited for', p.trace)
            kept = all(p.x.get(('.', e.obj, f)) == e.x['snap'].get(('.', e.obj, f)) for f in e.x['new'])
            R.check(kept or not goes_on, rule, inst + ':kept', e.src, 'the part of an ADU that was received is not kept', p.trace)

def dispatch(m, R):
    fs = [f for f in m.method('Modbus', 'receive', 1) if 'MsgModbusClientAduReq' in f['p'][0]['t']]
    if len(fs) != 1: raise AnalysisError('Modbus::receive(MsgModbusClientAduReq) not found')
    err = enumv(m, 'MsgStatus', 'error')
    rcv = [f['qn'] for f in m.method('ModbusClient', 'receive', 1)]
    class P(AppPolicy):
        max_loop = 3
        def hook(self, x, n, qn, this, args):
            if args is not None and qn in rcv:
                x.event('handed', '', this, args, n); return C(0)
            if args is not None and n.get('name') == 'item' and len(args) == 1 and this == ('R', 'req'):
                x.event('item', '', this, args, n)
                l = ('[]', ('.', ('R', 'req'), 'items'), args[0]); x.ltype[l] = 'app::ModbusClientAduReqItem'
                return ('ptr', l)
            return AppPolicy.hook(self, x, n, qn, this, args)
        def inline(self, x, fn, n): return True
    def go(x):
        x.ltype[('R', 'req')] = strip_cv(fs[0]['p'][0]['t'])
        return x.call_fn(fs[0], entity(x, m, 'Modbus'), [('ptr', ('R', 'req'))])
    turns = full = 0
    for p in explore(m, P(), go, 20000):
        stack = []
        groups = []
        for e in p.events():
            if e.kind == 'loop':
                if e.name in stack: del stack[stack.index(e.name):]
                if not stack: groups.append((e, []))
                stack.append(e.name)
            elif e.kind == 'endloop':
                if e.name in stack: del stack[stack.index(e.name):]
            elif e.kind in ('handed', 'send') and (e.kind != 'send' or e.name.endswith(RSP)):
                if not stack: R.fail('dispatch', 'outside', e.src, 'answers or hands over outside the list of items', p.trace)
                else: groups[-1][1].append(e)
        k = counted(p, ('in', ('.', ('R', 'req'), 'numItems')))
        R.check(k is not False, 'dispatch', 'all', fs[0]['l'], 'not every item of the list is visited', p.trace)
        full += k is True
        tr = trip(p)
        its = [e for e in p.events('item')]
        if its and tr and its[0].args[0] != C(0): R.fail('dispatch', 'all', its[0].src, 'the first item visited is %s' % show(its[0].args[0]), p.trace)
        steps = {v for e in p.events('turn') for v, w in e.x['delta'].values() if p.x.isnum(v) and p.x.isnum(w) and add(w, v, -1) == C(1)}
        if tr and tr[0]['step'] and len(its) > 1 and not all(uncast(i.args[0]) in steps | {C(0), tr[0]['var']} for i in its): R.fail('dispatch', 'all', its[-1].src, 'visits item %s instead of the counted one' % show(its[-1].args[0]), p.trace)
        R.check(p.outcome == 'normal', 'dispatch', 'ends', where(p) or fs[0]['l'], 'the list is left by an exception', p.trace)
        for l, g in groups:
            turns += 1
            if not R.check(len(g) == 1, 'dispatch', 'item', l.src, 'an item is handed over or answered %d times' % len(g), p.trace): continue
            e = g[0]
            if e.kind == 'send':
                c, tr = val(e, 'clientId'), val(e, 'transactId')
                R.check(val(e, 'status') == C(err), 'dispatch', 'status', e.src, 'an item without client is not answered with an error', p.trace)
                R.check(same_item(c, tr), 'dispatch', 'ids', e.src, 'the answer carries client %s, transaction %s' % (show(c), show(tr)), p.trace)
            else:
                it = e.args[0]
                il = it[1] if it[0] == 'ptr' else None
                idx = elem_index(e.obj)
                cid = p.x.get(('.', il, 'clientId')) if il else None
                R.check(idx is not None and (idx == cid), 'dispatch', 'client', e.src, 'an item is handed to a client other than the one it names', p.trace)
                R.check(idx is not None and guarded(p, idx, e), 'dispatch', 'bound', e.src, 'a client number is used without comparing it with the number of clients', p.trace)
    if not turns or not full and not R.bad: raise AnalysisError('no item of the request list is handled')

def uncast(t):
    while t[0] == 'cast': t = t[3]
    return t

def elem_index(l):
    # *clients[i]
    if l and l[0] == '*':
        v = l[1]
        if v[0] == 'in' and v[1][0] == '[]': return v[1][2]
        if v[0] == 'fld' and v[2][0] == '[]': return v[2][1]
    return None

def same_item(c, t):
    def base(v, f):
        if v[0] == 'in' and v[1][0] == '.' and v[1][2] == f: return v[1][1]
        if v[0] == 'fld' and v[2] == f: return v[1]
        return None
    b = base(c, 'clientId')
    return b is not None and b == base(t, 'transactId')

def guarded(p, idx, e):
    """the index is known to be below another (runtime) quantity: the size of the container"""
    for f in p.trace:
        if f is e: break
        if not isinstance(f, Fact) or f.op not in ('<', '<='): continue
        big, small, strict = (f.b, f.a, f.op == '<') if f.truth else (f.a, f.b, f.op == '<=')
        if uncast(small) == idx and strict and any_size(big): return True
    return False

def any_size(v): return 'size' in repr(v)

def storage(m, R):
    """ModbusAduStorage over queues taken as FIFOs"""
    cls = m.rec(STORE)['n']
    qs = [f['n'] for f in m.recs[cls]['f'] if strip_cv(f['t']).startswith('app::Queue<')]
    if len(qs) != 2: raise AnalysisError('%s: %d queues' % (STORE, len(qs)))
    class P(AppPolicy):
        def hook(self, x, n, qn, this, args):
            if args is not None and n.get('cls', '').startswith('app::Queue<'):
                q = this[2]
                nm = n['name']
                if nm == 'empty':
                    v = ('in', ('empty', q)); x.xt[v] = 'b'; x.event('q', nm, this, [], n); return v
                if nm == 'front':
                    k = sum(1 for e in x.trace if isinstance(e, Ev) and e.kind == 'q' and e.name == 'pop' and e.obj[2] == q)
                    v = ('in', ('front', q) + ((k,) if k else ())); x.xt[v] = 'u32'
                    l = ('R', 'qfront', q, k); x.store[l] = v; x.event('q', nm, this, [], n); return ('ptr', l)
                a = [x.get(a[1]) if a[0] in ('ptr', 'obj') else a for a in args]
                x.event('q', nm, this, a, n); return C(0)
            return AppPolicy.hook(self, x, n, qn, this, args)
    def go(name, arg):
        f = m.method(cls, name)
        if len(f) != 1: raise AnalysisError('%s::%s not found' % (STORE, name))
        def g(x):
            t = entity(x, m, STORE)
            if arg: x.ltype[('R', 'adu')] = 'app::modbus::AduRequest'
            return x.call_fn(f[0], t, [('ptr', ('R', 'adu'))] if arg else [])
        return f[0], explore(m, P(), g, 2000)
    this = ('R', 'this')
    # which queue holds the stored requests: the one front() reads
    f, ps = go('front', False)
    busy = {e.obj[2] for p in ps for e in p.events('q') if e.name == 'front'}
    if len(busy) != 1: R.fail('storage', 'front', f['l'], 'front reads %d queues' % len(busy)); return
    busy = busy.pop(); free = [q for q in qs if q != busy][0]
    adus = set()
    for p in ps:
        r = p.ret
        ok = r[0] == 'ptr' and r[1][0] == '[]' and r[1][2] == ('in', ('front', busy))
        if ok: adus.add(r[1][1])
        R.check(ok, 'storage', 'front', f['l'], 'front does not yield the entry the oldest stored number names', p.trace)
        R.check(all(e.name in ('front', 'empty') for e in p.events('q')), 'storage', 'front', f['l'], 'front changes the queues', p.trace)
    f, ps = go('empty', False)
    for p in ps:
        R.check(p.ret == ('in', ('empty', busy)) or known(p, p.ret, busy), 'storage', 'empty', f['l'], 'empty does not tell whether a request is stored', p.trace)
    f, ps = go('pop', False)
    for p in ps:
        qe = [(e.name, e.obj[2], tuple(e.args)) for e in p.events('q') if e.name in ('push', 'pop')]
        if is_true(p, ('in', ('empty', busy))):
            R.check(not qe, 'storage', 'pop', f['l'], 'pop changes the queues of an empty storage', p.trace)
        else:
            R.check(sorted(qe, key=repr) == sorted([('push', free, (('in', ('front', busy)),)), ('pop', busy, ())], key=repr), 'storage', 'pop', f['l'], 'pop does not move the oldest number from the stored to the free numbers: %s' % qe, p.trace)
    f, ps = go('push', True)
    idv = ('in', ('front', free))
    okp = 0
    flds = [g['n'] for g in m.recs['app::modbus::AduRequest']['f']]
    for p in ps:
        qe = [(e.name, e.obj[2], tuple(e.args)) for e in p.events('q') if e.name in ('push', 'pop')]
        if p.ret == C(0):
            R.check(not qe, 'storage', 'push', f['l'], 'a refused request changes the queues', p.trace); continue
        okp += 1
        R.check(not is_true(p, ('in', ('empty', free))) and tested(p, ('in', ('empty', free))), 'storage', 'push', f['l'], 'a request is stored without a free number', p.trace)
        R.check(sorted(qe, key=repr) == sorted([('push', busy, (idv,)), ('pop', free, ())], key=repr), 'storage', 'push', f['l'], 'push does not move one free number to the stored numbers: %s' % qe, p.trace)
        for a in adus:
            ent = ('[]', a, idv)
            for g in flds:
                if g == 'data': continue
                got, want = p.x.get(('.', ent, g)), ('in', ('.', ('R', 'adu'), g))
                R.check(got == want, 'storage', 'push:' + g, f['l'], 'the stored %s is %s' % (g, show(got)), p.trace)
            d = p.x.get(('.', ent, 'data'))
            cp = [e for e in p.events('memcpy')]
            if d == NULL:
                R.check(not cp, 'storage', 'push:data', f['l'], 'data is copied but not referred to', p.trace)
                nz = p.facts.bounds(('in', ('.', ('R', 'adu'), 'numBytes')))
                # no data: the request has none
                R.check(nodata(p), 'storage', 'push:data', f['l'], 'a request with data is stored without it', p.trace)
            else:
                R.check(len(cp) == 1 and cp[0].args[0] == d and cp[0].args[1] == ('in', ('.', ('R', 'adu'), 'data')) and eq(p, cp[0].args[2], ('in', ('.', ('R', 'adu'), 'numBytes'))), 'storage', 'push:data', f['l'], 'the stored data is not a copy of the request\'s', p.trace)
                ok = cp and cp[0].args[0][0] == 'ptr' and cp[0].args[0][1][0] == '[]'
                if ok:
                    off = cp[0].args[0][1][2]
                    k, dd = lin(off)
                    ok = k == 0 and list(dd.keys()) == [idv] and p.facts.bounds(('in', ('.', ('R', 'adu'), 'numBytes')))[1] is not None and p.facts.bounds(('in', ('.', ('R', 'adu'), 'numBytes')))[1] <= list(dd.values())[0]
                R.check(bool(ok), 'storage', 'push:slot', f['l'], 'the data of two requests can overlap', p.trace)
    if not okp: raise AnalysisError('%s::push never succeeds' % STORE)
    # constructor: every number is free once
    ct = m.ctors(cls)
    if len(ct) != 1: raise AnalysisError('%s: %d constructors' % (STORE, len(ct)))
    class Q(P):
        max_loop = 64
        def hook(self, x, n, qn, this, args):
            if args is None and qn.startswith('app::Queue<'):
                a = x.evargs(n['a'], n['pk']); x.event('qctor', this[2], this, a, n); x.set(this, ('un', x.fresh(), 'queue'), log=False); return C(0)
            return P.hook(self, x, n, qn, this, args)
    def g(x):
        t = entity(x, m, STORE); x.run_ctor(ct[0], t, []); return C(0)
    for p in explore(m, Q(), g, 200):
        ids = [tuple(e.args) for e in p.events('q') if e.name == 'push' and e.obj[2] == free]
        cap = {e.name: e.args[0] for e in p.events('qctor')}
        n = len(ids)
        R.check(n > 0 and sorted(i[0] for i in ids) == [C(i) for i in range(n)] and not any(e.name == 'push' and e.obj[2] == busy for e in p.events('q')), 'storage', 'initial', ct[0]['l'], 'the free numbers are not 0..n-1', p.trace)
        R.check(all(v[0] == 'c' and v[1] >= n for v in cap.values()), 'storage', 'capacity', ct[0]['l'], 'a queue of numbers is smaller than the storage', p.trace)
        for fl in m.recs[cls]['f']:
            sz = array_size(fl['t'])
            if sz is not None: R.check(sz >= n, 'storage', 'capacity', ct[0]['l'], 'an array of the storage is too small', p.trace)

def array_size(t):
    return None

def tested(p, v):
    return any(isinstance(f, Fact) and v in (f.a, f.b) for f in p.trace) or v[0] == 'c'
def is_true(p, v):
    for f in p.trace:
        if isinstance(f, Fact) and f.a == v:
            if f.op == 'true': return f.truth
            if f.op == '!=' and f.b == C(0): return f.truth
            if f.op == '==' and f.b == C(0): return not f.truth
    return False
def known(p, r, q):
    return r[0] == 'c' and tested(p, ('in', ('empty', q))) and bool(r[1]) == is_true(p, ('in', ('empty', q)))
def nodata(p):
    d, nb = ('in', ('.', ('R', 'adu'), 'data')), ('in', ('.', ('R', 'adu'), 'numBytes'))
    for f in p.trace:
        if isinstance(f, Fact):
            if f.a == d and ((f.op == '==' and f.truth) or (f.op == '!=' and not f.truth)): return True
            if f.a == nb and ((f.op == '==' and f.b == C(0) and f.truth) or (f.op == '!=' and f.b == C(0) and not f.truth)): return True
    b = p.facts.bounds(nb)
    return b[1] == 0

"""C12: the Modbus server with one of its pooled sessions is explored as a closed machine (construction, start, accepts,
link and timer events, application answers with any content) from every abstract state it can reach. A ghost flag says
whether the session has a request outstanding. On every path a request is forwarded only while none is outstanding, from
a decoded ADU, with its fields unchanged; the peer is written to only while a request is
outstanding, with an encoded answer whose transaction number was compared with the outstanding one and whose address and
function are the remembered ones; a failed link or idle timer gives the session back to its pool. What the session
remembers of a request is found by value and must not be overwritten while it is outstanding."""
from sa.model import AnalysisError
from sa.interp import *
from sa.machine import *
from sa.app import AppPolicy, entity
from checks.c11 import frames, enumv, eq, neq, guarded, uncast, elem_index, under, where, val, reach, at

TECHNIQUE = 'static typestate analysis of the server session machine (path-sensitive abstract interpretation, fixpoint over abstract states)'
ASSUMPTIONS = ['sending an inter-component message is accepted (refusals are the subject of C06)',
               'encoding, decoding and validity checks of ADUs are those of ModbusCodec (C03, C16)']

THIS = ('R', 'this')
ENT = ('R', 'ent:app::modbus::ModbusSession')
OUT = ('.', THIS, '#out')
MSG = ('R', 'rsp')
REQ, RSP = 'MsgModbusAduReq', 'MsgModbusAduRsp'

class ServerWorld(World):
    frames = True
    def send_msg(self, x, n, loc, t=None):
        r = World.send_msg(self, x, n, loc, t)
        e = x.trace[-1]
        if e.name.endswith(REQ):
            e.x['out'] = x.store.get(OUT); x.store[OUT] = C(1)
        return r
    def do_link(self, x, n, loc, args, name):
        if name == 'send':
            o = x.store.get(OUT)
            r = World.do_link(self, x, n, loc, args, name)
            e = [e for e in x.trace if isinstance(e, Ev) and e.kind == 'link'][-1]
            e.x['out'] = o; x.store[OUT] = C(0)
            return r
        return World.do_link(self, x, n, loc, args, name)
    def pool_call(self, x, n, this, args, name):
        r = World.pool_call(self, x, n, this, args, name)
        if name in ('free', 'release') and x.store.get(('.', ENT, '#busy')) == C(0): x.store[OUT] = C(0); x.store[self.PART] = C(0)
        return r

def machine(m, world=ServerWorld):
    cls = m.rec('ModbusServer')['n']
    pol = world()
    ct = m.ctors(cls)
    st, rc = m.method(cls, 'start', 0), [f for f in m.method(cls, 'receive', 1) if RSP in f['p'][0]['t']]
    if len(ct) != 1 or len(st) != 1 or len(rc) != 1: raise AnalysisError('ModbusServer: constructor, start or receive(%s) not found' % RSP)
    def init(x):
        x.ltype[THIS] = cls; x.store[OUT] = C(0); x.store[pol.PART] = C(0)
        x.run_ctor(ct[0], THIS, [('ptr', ('R', 'initdata'))]); x.ltype[THIS] = cls
    def answer(x):
        x.ltype[MSG] = strip_cv(rc[0]['p'][0]['t'])
        x.event('answer', '')
        pre = x.store.get(OUT)
        try: return x.call_fn(rc[0], THIS, [('ptr', MSG)])
        finally: pass
    def entries(s):
        out = [('answer', answer)]
        if not any(k[0] == '.' and k[2] == '#live' and k[1][1].startswith('acceptor@') for k in s):
            out.append(('start', lambda x: x.call_fn(st[0], THIS, [])))
        return out
    M = Machine(m, pol, init, entries)
    fr = M.freeze
    def freeze(p):
        s = fr(p)
        # an answer for this session, or a time-out, ends the wait
        if any(e.kind == 'fire' and e.name == 'timer' for e in p.events()) or any(e.kind == 'answer' for e in p.events()) and for_ent(p):
            if s.get(OUT) == C(1) and not any(e.kind == 'send' and e.name.endswith(REQ) for e in p.events()): s[OUT] = C(0)
        return s
    M.freeze = freeze
    return M

def for_ent(p):
    """the answer named the tracked session"""
    u = ('in', ('R', 'uid:app::modbus::ModbusSession'))
    return eq(p, ('in', ('.', MSG, 'sessionId')), u)

def check(m, R, tier):
    R.rule('forward', 'a request is forwarded only while none is outstanding, exactly once for each completely received, valid, decoded ADU, with the ids of server and session and the decoded fields')
    R.rule('answer', 'the peer is written to only while a request is outstanding, with the encoded answer to it')
    R.rule('remember', 'what the session remembers of the outstanding request is not overwritten')
    R.rule('ends', 'a failed link or inactivity ends the session')
    R.rule('framing', 'an ADU is decoded from its first byte exactly when it was received completely and is well-formed; a part of it is kept and waited for', failonly=True)
    R.rule('served', 'the answer to the outstanding request is written to the peer unless it does not match, reports a failure or cannot be encoded', failonly=True)
    R.rule('dispatch', 'an answer is handed to the server it names, once')
    dispatch(m, R)
    M = machine(m).run()
    R.info['states'] = len(M.states); R.info['steps'] = len(M.steps)
    noerr, exc = enumv(m, 'ModbusError', 'noerror'), enumv(m, 'ModbusFunction', 'modbusError')
    busy = ('.', ENT, '#busy')
    uid = ('in', ('R', 'uid:app::modbus::ModbusSession'))
    # what is remembered: locations that hold a decoded field at the end of every forwarding path
    F = ('transactId', 'addr', 'func', 'startItem', 'numItems')
    hold = None
    fwd = 0
    for t in M.steps:
        p = t.path
        sd = [e for e in p.events('send') if e.name.endswith(REQ)]
        if not sd: continue
        dec = [e for e in p.events('decode') if e.i < sd[-1].i and e.x.get('ok')]
        if not dec: continue
        h = {f: {k for k, v in p.x.store.items() if root(k) == ENT and v == ('ev', dec[-1].i, f)} for f in F}
        hold = h if hold is None else {f: hold[f] & h[f] for f in F}
    if hold is None:
        R.fail('forward', 'any', m.rec('ModbusSession').get('l', ''), 'no received request is ever forwarded'); return
    R.info['remembered'] = {f: sorted(show(k) for k in v) for f, v in hold.items()}
    for t in M.steps:
        p = t.path
        inst = '%s/%s' % (M.statename(t.pre) or '-', t.entry)
        tracked = for_ent(p) or t.entry in ('link-data', 'link-error', 'timer', 'accept')
        # ---- forwarding
        sd = [e for e in p.events('send') if e.name.endswith(REQ)]
        dec = [e for e in p.events('decode') if e.x.get('ok')]
        R.check(len(sd) == len(dec), 'forward', inst, where(p), '%d requests are forwarded for %d decoded ADUs' % (len(sd), len(dec)), p.trace)
        for e in sd:
            fwd += 1
            d = [c for c in dec if c.i < e.i]
            if not d: continue
            d = d[-1]
            R.check(e.x['out'] != C(1), 'forward', inst + ':one', e.src, 'a request is forwarded while another is outstanding', p.trace)
            for f in ('transactId', 'addr', 'func', 'startItem', 'numItems', 'numBytes'):
                v = val(e, f)
                R.check(v == ('ev', d.i, f), 'forward', inst + ':' + f, e.src, 'the forwarded %s is %s' % (f, show(v)), p.trace)
            R.check(val(e, 'sessionId') == uid, 'forward', inst + ':sessionId', e.src, 'the forwarded session number is %s' % show(val(e, 'sessionId')), p.trace)
            R.check(server_id(val(e, 'serverId')), 'forward', inst + ':serverId', e.src, 'the forwarded server number is %s' % show(val(e, 'serverId')), p.trace)
            cp = [c for c in p.events('memcpy') if d.i < c.i < e.i and at(c.args[0], ('.', e.obj, 'data'))]
            R.check(len(cp) == 1 and eq(p, cp[0].args[2], ('ev', d.i, 'numBytes')) and same_data(m, p, d, cp[0].args[1]), 'forward', inst + ':data', e.src, 'the forwarded data is not the decoded data', p.trace)
        frames(R, p, inst, t.pre.get(OUT) != C(1) and t.entry == 'link-data', t.post.get(busy) == C(1))
        # ---- answering
        for e in p.events('link'):
            if e.name == 'send':
                answer(R, m, p, e, inst, hold, noerr, exc)
        if t.entry == 'answer' and t.pre.get(OUT) == C(1) and p.outcome == 'normal' and not p.events('other') and not [e for e in p.events('link') if e.name == 'send']:
            R.check(unfit(m, p, hold), 'served', inst, where(p), 'an answer to the outstanding request is not written to the peer although nothing was found wrong with it', p.trace)
        # ---- memory
        if t.pre.get(OUT) == C(1) and t.post.get(OUT) == C(1) and not sd:
            for f in F:
                for k in hold[f]:
                    v = p.x.get(k)
                    R.check(v == ('in', k), 'remember', inst + ':' + f, where(p), 'the remembered %s of the outstanding request becomes %s' % (f, show(v)), p.trace)
        # ---- end of the session
        dead = t.entry == 'link-error' or t.entry == 'timer' and t.pre.get(OUT) != C(1) \
            or any(e.name == 'receive' and e.x['res'] in ('closed', 'error') for e in p.events('link')) \
            or any(e.name == 'send' and e.ret == C(-1) for e in p.events('link'))
        if dead:
            R.check(t.post.get(busy) == C(0), 'ends', inst, where(p), 'the session goes on after %s' % ('its link failed' if t.entry != 'timer' else 'its inactivity timer expired'), p.trace)
            R.check(not any(k[0] == '.' and k[2] == '#live' and k[1][1].startswith('link@') for k in t.post), 'ends', inst + ':link', where(p), 'the link of a session that ended stays open', p.trace)
    R.need('forward', 4); R.need('ends', 4); R.need('answer', 8); R.need('remember', 4)
    if not fwd: raise AnalysisError('no request is forwarded')

def unfit(m, p, hold):
    """the answer was found not to match, to report a failure, to be too long, or its encoding to fail"""
    msg = lambda f: ('in', ('.', MSG, f))
    if any(neq(p, msg('transactId'), ('in', k)) for k in hold['transactId']): return True
    if neq(p, msg('status'), C(enumv(m, 'MsgStatus', 'success'))): return True
    if (p.x.facts.bounds(msg('numBytes'))[0] or 0) > 250: return True
    enc = p.events('encode')
    if any(e.x.get('ok') is False or e.x.get('threw') for e in enc): return True
    return bool(enc) and any(isinstance(f, Fact) and ('encoded' in repr((f.a, f.b)) or "'len'" in repr((f.a, f.b))) for f in p.trace)

def dispatch(m, R):
    fs = [f for f in m.method('Modbus', 'receive', 1) if RSP in f['p'][0]['t']]
    if len(fs) != 1: raise AnalysisError('Modbus::receive(%s) not found' % RSP)
    rcv = {f['qn'] for f in m.method('ModbusServer', 'receive', 1)}
    class P(AppPolicy):
        def hook(self, x, n, qn, this, args):
            if args is not None and qn in rcv: x.event('handed', '', this, args, n); return C(0)
            return AppPolicy.hook(self, x, n, qn, this, args)
        def inline(self, x, fn, n): return True
    def go(x):
        x.ltype[MSG] = strip_cv(fs[0]['p'][0]['t'])
        return x.call_fn(fs[0], entity(x, m, 'Modbus'), [('ptr', MSG)])
    sid = ('in', ('.', MSG, 'serverId'))
    k = 0
    for p in explore(m, P(), go, 2000):
        h = p.events('handed')
        if not h:
            if p.outcome != 'normal': continue
            why = any(isinstance(f, Fact) and ('size' in repr((f.a, f.b)) or NULL in (f.a, f.b) or 'servers' in repr((f.a, f.b))) for f in p.trace)
            R.check(why, 'dispatch', 'dropped', fs[0]['l'], 'an answer is dropped although its server was not found to be missing', p.trace)
            continue
        k += 1
        R.check(len(h) == 1 and h[0].args[0] == ('ptr', MSG), 'dispatch', 'once', h[0].src, 'an answer is handed over %d times, or another one is' % len(h), p.trace)
        idx = elem_index(h[0].obj) or index_of(h[0].obj)
        if idx is None: raise AnalysisError('the server an answer is handed to is not understood at ' + h[0].src)
        R.check(uncast(idx) == sid, 'dispatch', 'server', h[0].src, 'an answer is handed to a server other than the one it names', p.trace)
        R.check(guarded(p, idx, h[0]) or index_of(h[0].obj, 'mpair') is not None, 'dispatch', 'bound', h[0].src, 'a server number is used without comparing it with the number of servers', p.trace)
    R.check(k > 0, 'dispatch', 'any', fs[0]['l'], 'no answer is ever handed to a server')

def index_of(l, kind=None):
    """the index into the list of servers through which an object was reached"""
    while isinstance(l, tuple) and l:
        if l[0] == '[]' and not kind: return uncast(l[2])
        if l[0] == 'mpair': return uncast(l[2])
        l = l[1] if len(l) > 1 and l[0] != 'R' else None
    return None

def server_id(v): return 'serverId' in repr(v) or v == ('in', ('.', THIS, 'id')) or 'initdata' in repr(v)

def same_data(m, p, d, src):
    """src points to where the decoded ADU keeps its data"""
    loc = ('.', d.x['loc'], 'data')
    if at(src, loc): return True
    return src == p.x.get(loc) or src == d.x['snap'].get(loc)

def answer(R, m, p, e, inst, hold, noerr, exc):
    R.check(e.x['out'] == C(1), 'answer', inst, e.src, 'the peer is written to although no request is outstanding', p.trace)
    enc = [c for c in p.events('encode') if c.i < e.i and c.x.get('ok')]
    ok = enc and enc[-1].obj is not None and e.args[0][0] == 'ptr' and under(e.args[0], enc[-1].obj)
    if not R.check(bool(ok), 'answer', inst + ':encoded', e.src, 'what is sent is not an encoded answer', p.trace): return
    c = enc[-1]; l = c.x['loc']
    def g(f): return c.x['snap'].get(('.', l, f))
    def mem(f): return {('in', k) for k in hold[f]}
    msg = lambda f: ('in', ('.', MSG, f))
    tv = g('transactId')
    R.check(any(eq(p, tv, v) for v in mem('transactId')) and any(eq(p, msg('transactId'), v) for v in mem('transactId')), 'answer', inst + ':transactId', e.src, 'an answer is sent whose transaction number (%s) was not compared with the outstanding one' % show(tv), p.trace)
    R.check(g('addr') in mem('addr'), 'answer', inst + ':addr', e.src, 'the unit address sent is %s' % show(g('addr')), p.trace)
    iserr = None
    for f in p.trace:
        if isinstance(f, Fact) and f.a == msg('error') and f.b == C(noerr):
            if f.op == '==': iserr = not f.truth
            elif f.op == '!=': iserr = f.truth
    fv = g('func')
    if fv == C(exc): R.check(iserr is True and g('error') == msg('error'), 'answer', inst + ':exception', e.src, 'an exception is sent that the application did not give', p.trace)
    else:
        R.check(fv in mem('func'), 'answer', inst + ':func', e.src, 'the function sent is %s' % show(fv), p.trace)
        R.check(iserr is False, 'answer', inst + ':exception', e.src, 'an application error is sent as a normal answer', p.trace)
    succ = enumv(m, 'MsgStatus', 'success')
    R.check(eq(p, msg('status'), C(succ)), 'answer', inst + ':status', e.src, 'an answer is sent although the application reported a failure', p.trace)
    R.check(g('numBytes') == msg('numBytes'), 'answer', inst + ':numBytes', e.src, 'the number of bytes sent is %s' % show(g('numBytes')), p.trace)
    for f in ('startItem', 'numItems'):
        R.check(g(f) in mem(f), 'answer', inst + ':' + f, e.src, 'the %s sent is %s' % (f, show(g(f))), p.trace)
    cp = [x for x in p.events('memcpy') if x.i < c.i and at(x.args[0], ('.', l, 'data'))]
    R.check(len(cp) == 1 and at(cp[0].args[1], ('.', MSG, 'data')) and eq(p, cp[0].args[2], msg('numBytes')), 'answer', inst + ':data', e.src, 'the data sent is not the application\'s', p.trace)

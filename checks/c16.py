"""C16: the receiving machines (UA transport connection, client and server connection of the protocol library, Modbus
client, Modbus server session) are explored as closed machines with the link delivering any number of bytes of any
content at a time. On every path the fill level of the receive buffer and the length announced by the header bytes in it
are compared through the recorded branch conditions (intervals over linear forms, bit provenance of the announced
length): data is decoded, forwarded or reported only if the conditions say fill level = announced length; if nothing
happens they must say that bytes are missing, and the buffer must keep them; an exchange is ended only for a reason.
Link::receive, Link::send and the event dispatch of Link are explored with every result of the system calls."""
from sa.model import AnalysisError
from sa.interp import *
from sa.app import AppPolicy
from sa.machine import *
from sa.bits import bits
from checks.entities import EntityWorld, entity_machine
from checks.c11 import where, eq
from checks import c11, c12, c13, c17

TECHNIQUE = 'static typestate analysis of the receiving machines (path-sensitive abstract interpretation with interval facts over linear forms)'
ASSUMPTIONS = ['messages longer than 1024 bytes are oversized for the UA connections', 'EINTR does not occur on non-blocking descriptors']

ACTED = ('.', ('R', 'frame'), '#acted')
BUFS = ('OpcUaSduBuffer', 'PduBuffer')

def framed(W):
    class F(W):
        def do_link(self, x, n, loc, args, name):
            r = W.do_link(self, x, n, loc, args, name)
            if name == 'receive':
                e = [e for e in x.trace if isinstance(e, Ev) and e.kind == 'link'][-1]
                e.x['stale'] = x.store.get(ACTED) == C(1)
            return r
        def on_write(self, x, loc, val, src):
            W.on_write(self, x, loc, val, src)
            if loc[0] == '.' and root(loc)[0] == 'R' and val == C(0) and str(self.tname(x, loc[1])).endswith(BUFS): x.store[ACTED] = C(0)
        def tname(self, x, l):
            if l in x.ltype: return x.ltype[l]
            if l[0] == '.' and isinstance(l[2], str):
                t = self.tname(x, l[1])
                f = x.m.field(t, l[2]) if t else None
                return strip_cv(f['t']) if f else None
        def codec(self, x, n, this, args, name):
            b = self.codec_buf(x, this)
            if name == 'operator>>' and b is not None and root(b)[0] == 'R': x.store[ACTED] = C(1)
            return W.codec(self, x, n, this, args, name)
        def mbcodec(self, x, n, this, args, name):
            if name == 'decode': x.store[ACTED] = C(1)
            return W.mbcodec(self, x, n, this, args, name)
        def told(self, x, n, name, args):
            if name.endswith('DataReceivedEvent'): x.store[ACTED] = C(1)
            return W.told(self, x, n, name, args)
    return F

class Kind:
    """how a protocol announces the length of a message"""
    def __init__(s, hdr, off, big, n, plus, limit): s.hdr, s.off, s.big, s.n, s.plus, s.limit = hdr, off, big, n, plus, limit
UA = Kind(8, 4, False, 4, 0, 1024)
MB = Kind(6, 4, True, 2, 6, 260)

def announced(p, base, K):
    """terms of the path equal to the announced length"""
    b = [p.x.get(('[]', base, C(K.off + i))) for i in range(K.n)]
    if K.big: b = b[::-1]
    want = [('b', v, j) for v in b for j in range(8)]
    out = [mklin(0, {v: 256 ** i for i, v in enumerate(b)})]
    at = set()
    for S in p.x.facts.num:
        for a, c in S: at.add(a)
    for f in p.trace:
        if isinstance(f, Fact):
            for t in (f.a, f.b):
                k, d = lin(t)
                at.update(d)
    for a in at:
        r = bits(p.x, a)
        r = [(q[0], q[1], q[2]) if isinstance(q, tuple) else q for q in r]
        if r[:len(want)] == want and all(q == 0 for q in r[len(want):]): out.append(a)
    return [add(t, C(K.plus)) for t in out]

class Fill:
    def __init__(s, p, e, K):
        d = e.args[0]
        if d[0] != 'ptr' or d[1][0] != '[]' : raise AnalysisError('data is received into %s at %s' % (show(d), e.src))
        s.base, s.idx = d[1][1], d[1][2]
        s.buf = s.base[1]
        s.total = add(s.idx, ('ev', e.i, 'len'))
        s.len = ('ev', e.i, 'len')
        s.ann = announced(p, s.base, K)
        s.p, s.K = p, K
        f = p.x.facts
        s.tl, s.th = f.bounds(s.total)
        s.d = [f.bounds(add(s.total, a, -1)) for a in s.ann]
        s.a = [f.bounds(a) for a in s.ann]
    def complete(s):
        return any(lo == 0 and hi == 0 for lo, hi in s.d) and s.tl is not None and s.tl >= s.K.hdr
    def missing(s):
        return s.th is not None and s.th < s.K.hdr or any(hi is not None and hi < 0 for lo, hi in s.d)
    def enough(s):
        return s.tl is not None and s.tl >= s.K.hdr and (any(lo is not None and lo >= 0 for lo, hi in s.d) or s.differs())
    def differs(s): return False
    def oversized(s):
        lo, hi = s.p.x.facts.bounds(s.idx)
        if lo is not None and lo >= s.K.limit - 1 or s.tl is not None and s.tl >= s.K.limit: return True
        return s.tl is not None and s.tl >= s.K.hdr and any(lo is not None and lo >= s.K.limit or hi is not None and hi < s.K.hdr for lo, hi in s.a)

def check(m, R, tier):
    R.rule('complete', 'received data is acted on only if the fill level equals the announced length')
    R.rule('kept', 'incomplete data is kept and waited for')
    R.rule('reason', 'an exchange ends only because data is oversized, inconsistent or refused, or the link ended')
    R.rule('ended', 'a closed or failed link ends the exchange; missing data does not')
    R.rule('read', 'an announcement of data is followed by a read or ends the exchange')
    R.rule('fresh', 'a new message is received into an emptied buffer')
    R.rule('untouched', 'nothing but receiving changes the partly received message', failonly=True)
    R.rule('status', 'Link::receive reports data, closing, failure and the absence of data as such')
    R.rule('whole', 'Link::send reports success only if everything was sent')
    R.rule('event', 'every link event is reported; failures never as success')
    Ms = [('ModbusClient', c11.machine(m, framed(c11.ClientWorld)), MB), ('ModbusServer', c12.machine(m, framed(c12.ServerWorld)), MB),
          ('UaTransport', c13.machine(m, framed(c13.TransportWorld)), UA)]
    for cls, owner, api in c17.MACHINES:
        def extra(x, owner=owner):
            if owner is None: x.store[('.', ('R', 'this'), 'handler')] = c17.OWNERFN
        Ms.append((c17.sname(cls), entity_machine(m, cls, framed(EntityWorld)(owner), api, init_extra=extra), UA))
    lemma = decode_checks(m)
    R.info['decode refuses incomplete ADUs'] = lemma
    for nm, M, K in Ms:
        M.run()
        R.info[nm] = '%d states, %d paths' % (len(M.states), len(M.steps))
        fills = {}
        for t in M.steps:
            for e in t.path.events('link'):
                if e.name == 'receive' and e.x['res'] == 'ok':
                    F = Fill(t.path, e, K)
                    if F.idx[0] == 'in': fills[F.buf] = F.idx[1]
        if not fills:
            rx = [(t, e) for t in M.steps for e in t.path.events('link') if e.name == 'receive']
            if not rx:
                R.fail('read', nm + ':any', nm, 'data is never received'); continue
            t, e = rx[0]
            R.fail('kept', nm + ':append', e.src, 'data is received into %s, not behind the data received before' % show(e.args[0]), t.path.trace)
            continue
        for t in M.steps: step(R, nm, M, K, t, fills, lemma)
    link_class(m, R)
    R.need('complete', 10); R.need('kept', 10); R.need('reason', 10); R.need('ended', 10); R.need('status', 3); R.need('whole', 1); R.need('event', 8)

def ended(nm, M, t, p):
    """the exchange is over: the link is gone, or the Modbus client answered the request with an error"""
    pre = [l for l in objs(t.pre, 'link') if t.pre.get(('.', l, '#h'), NULL)[0] == 'lam' and t.pre.get(('.', l, '#st')) == C(1)]
    return any(t.post.get(('.', l, '#live')) != C(1) or t.post.get(('.', l, '#st')) == C(0) or t.post.get(('.', l, '#h'), NULL)[0] != 'lam' for l in pre)

def objs(st, kind):
    return [k[1] for k, v in st.items() if k[0] == '.' and k[2] == '#live' and v == C(1) and World.obj_kind(None, k[1]) == kind]

def acted(nm, p, e, lemma):
    out = []
    for q in p.events():
        if q.i < e.i: continue
        if q.kind == 'decode':
            if nm.startswith('Modbus') and lemma.get(q.name.rsplit('::', 1)[-1]): continue
            out.append(q)
        if q.kind == 'notify' and c17.kind(q.name) in ('data', 'connected'): out.append(q)
        if q.kind == 'send' and not refusal(nm, q) and not (nm.startswith('Modbus') and any(d.kind == 'decode' and d.x.get('ok') and d.i < q.i and lemma.get(d.name.rsplit('::', 1)[-1]) for d in p.events())): out.append(q)
    return out

def refusal(nm, q):
    """a message that reports the end of an exchange"""
    n = q.name.rsplit('::', 1)[-1]
    if n == 'MsgUaConnectionReleaseInd': return True
    if n == 'MsgModbusClientAduRsp': return q.x['fields'].get('numBytes') == C(0) if 'fields' in q.x else c11.val(q, 'numBytes') == C(0)
    return False

def step(R, nm, M, K, t, fills, lemma):
    p = t.path
    inst = '%s:%s/%s' % (nm, M.statename(t.pre), t.entry)
    rx = [e for e in p.events('link') if e.name == 'receive']
    awaiting = nm != 'ModbusClient' or t.pre.get(c11.SENT) == C(1)
    over = ended(nm, M, t, p)
    moved = c17.fsm(t.post) != c17.fsm(t.pre)
    told = [q for q in p.events('send') if refusal(nm, q)]
    if t.entry == 'link-data':
        R.check(bool(rx) or over or bool(told), 'read', inst, where(p), 'data is announced and neither read nor refused', p.trace)
        if not rx and (over or told):
            # refused unread: only when the buffer is overfull or nothing may arrive
            lv = [p.x.facts.bounds(('in', k)) for k in fills.values()]
            R.check(any(lo is not None and lo >= K.limit - 1 for lo, hi in lv) or nm == 'ModbusServer' and t.pre.get(c12.OUT) == C(1), 'reason', inst + ':unread', where(p), 'the exchange ends without reading the data', p.trace)
    else:
        for b, k in fills.items():
            if not moved and not over and k in p.x.store and not told and awaiting and t.entry != 'timer' and t.pre.get(k) != p.x.store[k]:
                R.check(p.x.store[k] == ('in', k), 'untouched', inst, where(p), '%s changes the fill level of the receive buffer to %s' % (t.entry, show(p.x.store[k])), p.trace)
    for e in rx:
        i2 = inst + ':' + e.x['res']
        if e.x['res'] in ('closed', 'error'):
            R.check(over, 'ended', i2, e.src, 'the link %s and the exchange goes on' % ('was closed' if e.x['res'] == 'closed' else 'failed'), p.trace)
            R.check(not acted(nm, p, e, lemma), 'complete', i2, e.src, 'data is acted on although the link failed', p.trace)
        elif e.x['res'] == 'na':
            R.check(not over and not told and not acted(nm, p, e, lemma) and (not moved), 'ended', i2, e.src, 'the absence of data is taken for %s' % ('data' if acted(nm, p, e, lemma) else 'the end of the exchange'), p.trace)
    ok = [e for e in rx if e.x['res'] == 'ok']
    if not ok: return
    e = ok[-1]
    F = Fill(p, e, K)
    act = acted(nm, p, e, lemma)
    if F.idx != C(0): R.check(not e.x['stale'], 'fresh', inst, e.src, 'data is appended to a message that was handled already', p.trace)
    if act:
        R.check(F.complete(), 'complete', inst, act[0].src, '%s happens although the received data (%s bytes) was not compared to be exactly the announced length' % (act[0].kind + ' ' + act[0].name.rsplit('::', 1)[-1], show(F.total)), p.trace)
        return
    if not awaiting: return
    if not over and not told and not moved:
        if nm.endswith('Channel') and F.complete() and p.x.get(fills[F.buf]) == C(0): return      # a message the channel has no use for
        R.check(F.missing(), 'kept', inst + ':why', where(p), 'nothing happens although the conditions do not say that bytes are missing', p.trace)
        for b, k in fills.items():
            if b != F.buf: continue
            R.check(p.x.get(k) == F.total, 'kept', inst + ':fill', e.src, 'after %s bytes the fill level becomes %s' % (show(F.len), show(p.x.get(k))), p.trace)
            for f in p.x.m.recs[buf_type(p.x, b)]['f']:
                l = ('.', b, f['n'])
                if is_int_tk(f['tk']) and l != k:
                    v = p.x.get(l)
                    R.check(v == ('in', l) or v == t.pre.get(l), 'kept', inst + ':' + f['n'], e.src, 'incomplete data moves %s to %s' % (show(l), show(v)), p.trace)
        return
    R.check(F.enough() or F.oversized(), 'reason', inst, where(p), 'the exchange ends although the conditions allow that the message is only incomplete', p.trace)

def buf_type(x, b):
    return framed(World).tname(None, x, b) or ('app::ua::OpcUaSduBuffer' if 'rx' in repr(b) else 'app::modbus::PduBuffer')

# ---- decode of ADUs refuses data that is not exactly one ADU
def decode_checks(m):
    cls = World.MBCODEC
    out = {}
    class P(AppPolicy):
        max_loop = 1
    for f in m.method(cls, 'decode', 1):
        t = strip_cv(f['p'][0]['t'])
        B = ('R', 'buf'); T = ('R', 'codec'); A = ('R', 'adu')
        bf = [g for g in m.recs[cls]['f'] if 'PduBuffer' in g['t']]
        if len(bf) != 1: continue
        def go(x):
            x.ltype[T] = cls; x.ltype[B] = 'app::modbus::PduBuffer'; x.ltype[A] = t
            x.store[('.', T, bf[0]['n'])] = ('ptr', B)
            x.store[('.', B, 'pos')] = C(0)
            return x.call_fn(f, T, [('ptr', A)])
        try: ps = explore(m, P(), go)
        except AnalysisError: continue
        good = True; n = 0
        for p in ps:
            if p.outcome != 'normal' or p.ret == C(0): continue
            n += 1
            tot = ('in', ('.', B, 'len'))
            arr = [g for g in m.recs['app::modbus::PduBuffer']['f'] if g['t'].endswith(']')]
            base = ('.', B, arr[0]['n'])
            ann = announced(p, base, MB)
            if not any(p.x.facts.bounds(add(tot, a, -1)) == (0, 0) for a in ann): good = False
        if n: out[t.rsplit('::', 1)[-1]] = good
    return out

# ---- Link
EPOLL = {'IN': 1, 'PRI': 2, 'OUT': 4, 'ERR': 8, 'HUP': 16, 'RDHUP': 0x2000}
EAGAIN = 11

class LinkPolicy(AppPolicy):
    max_loop = 3
    def hook(self, x, n, qn, this, args):
        if args is None: return NotImplemented
        q = short(qn).lstrip(':')
        if this is None and q in ('read', 'recv', 'recvfrom'):
            e = x.event('rd', q, None, args, n)
            v = ('ev', e.i, 'rc'); x.xt[v] = 'i64'
            x.assume('>=', v, C(-1)); x.assume('<=', v, C(2**31 - 1)); x.assume('<=', v, args[2])
            return v
        if this is None and q in ('write', 'send', 'sendto'):
            e = x.event('wr', q, None, args, n)
            v = ('ev', e.i, 'rc'); x.xt[v] = 'i64'
            x.assume('>=', v, C(-1)); x.assume('<=', v, C(2**31 - 1)); x.assume('<=', v, args[2])
            return v
        if this is None and q == 'close': return C(0)
        if this is not None and n.get('cls', '').startswith('std::function'):
            if n['name'] == 'operator()':
                x.event('handler', '', this, args, n, fd=x.get(('.', ('R', 'this'), 'fd'))); return C(0)
            if n['name'] == 'operator bool': return C(1)
        if this is not None and n['name'] in ('mod', 'add', 'del') and 'Epoll' in n.get('cls', ''):
            x.event('ep', n['name'], this, args, n)
            return C(0) if x.choose(2) == 0 else C(-1)
        return NotImplemented

def link_class(m, R):
    cls = m.rec('app::reactor::Link')['n']
    THIS = ('R', 'this'); D, L = ('in', ('R', 'data')), ('in', ('R', 'size'))
    FD = ('.', THIS, 'fd')
    E = [dict(v['c']) for k, v in m.enums.items() if 'LinkResult' in k][0]
    EV = [dict(v['c']) for k, v in m.enums.items() if k.endswith('LinkEvent')][0]
    def fn(name, k):
        f = [g for g in m.method(cls, name, k) if g.get('body')]
        if len(f) != 1: raise AnalysisError('Link::%s not found' % name)
        return f[0]
    def run(name, args, opened):
        f = fn(name, len(args))
        def go(x):
            x.ltype[THIS] = cls
            x.xt[L] = 'u64'
            if opened:
                v = ('in', FD); x.xt[v] = 'i32'; x.assume('>=', v, C(0))
            else: x.store[FD] = C(-1)
            x.assume('>=', L, C(1)); x.assume('<=', L, C(2**31 - 1))
            return x.call_fn(f, THIS, list(args))
        return explore(m, LinkPolicy(), go)
    # receive
    buf = ('ptr', ('[]', ('R', 'mem'), C(0)))
    for opened in (True, False):
        for p in run('receive', (buf, L), opened):
            i = 'receive:%s' % ('open' if opened else 'closed')
            if p.outcome != 'normal': R.fail('status', i, where(p), 'receiving fails with an exception', p.trace); continue
            r = p.ret
            loc = r[1] if r[0] in ('obj', 'ptr') else None
            stv, ln = (p.x.get(('.', loc, 'status')), p.x.get(('.', loc, 'len'))) if loc else (('fld', r, 'status'), ('fld', r, 'len'))
            rd = p.events('rd')
            nm = [k for k, v in E.items() if C(v) == stv]
            if not R.check(len(nm) == 1, 'status', i + ':status', where(p), 'the status is %s' % show(stv), p.trace): continue
            nm = nm[0]
            if not opened:
                R.check(nm == 'error', 'status', i, where(p), 'a closed link reports %s' % nm, p.trace); continue
            if not R.check(bool(rd), 'status', i, where(p), 'nothing is read', p.trace): continue
            e = rd[-1]; v = ('ev', e.i, 'rc')
            lo, hi = p.x.facts.bounds(v)
            again = any(isinstance(f, Fact) and f.truth and f.op == '==' and {f.a, f.b} >= {C(EAGAIN)} for f in p.trace)
            R.check(e.args[0] == buf and eq(p, e.args[1], buf) or e.args[1] == buf, 'status', i + ':into', e.src, 'data is read into %s' % show(e.args[1]), p.trace)
            lb = p.x.facts.bounds(add(L, e.args[2], -1))[0]
            R.check(lb is not None and lb >= 0, 'status', i + ':size', e.src, '%s bytes are read into a buffer of %s' % (show(e.args[2]), show(L)), p.trace)
            want = 'ok' if lo is not None and lo >= 1 else 'closed' if (lo, hi) == (0, 0) else ('na' if again else 'error') if hi == -1 else None
            R.check(nm == want or want == 'closed' and nm == 'error', 'status', i + ':' + str(want), e.src, 'a read that returns %s..%s is reported as %s' % (lo, hi, nm), p.trace)
            if nm == 'ok': R.check(eq(p, unc(ln), v), 'status', i + ':len', e.src, 'the length reported is %s' % show(ln), p.trace)
    # send
    for opened in (True, False):
        for p in run('send', (buf, L), opened):
            i = 'send:%s' % ('open' if opened else 'closed')
            wr = p.events('wr')
            if p.outcome != 'normal': continue
            lo, hi = p.x.facts.bounds(p.ret)
            if hi is not None and hi <= 0: R.check(True, 'whole', i + ':failure', '', ''); continue
            tot = C(0)
            for e in wr:
                src = e.args[1]
                R.check(src == buf if tot == C(0) else src[0] == 'ptr', 'whole', i + ':data', e.src, 'what is sent is %s' % show(src), p.trace)
                tot = add(tot, ('ev', e.i, 'rc'))
            d = p.x.facts.bounds(add(tot, L, -1))
            R.check(bool(wr) and d[0] is not None and d[0] >= 0, 'whole', i, wr[-1].src if wr else where(p), 'success is reported although only %s of %s bytes were sent' % (show(tot), show(L)), p.trace)
    # events
    combos = {'IN': 1, 'OUT': 4, 'ERR': 8, 'HUP': 16, 'ERR+HUP': 24, 'IN+HUP': 17, 'IN+ERR': 9, 'IN+ERR+HUP': 25, 'OUT+ERR': 12, 'OUT+HUP': 20, 'OUT+ERR+HUP': 28, 'IN+OUT+ERR+HUP': 29, 'IN+OUT': 5, 'IN+OUT+HUP': 21, 'IN+OUT+ERR': 13, 'IN+RDHUP': 0x2001, 'RDHUP': 0x2000}
    for nm, v in combos.items():
        for p in run('onFileDescriptorEvent', (C(v),), True):
            h = [[k for k, c in EV.items() if C(c) == e.args[0]] for e in p.events('handler')]
            h = [k[0] if k else '?' for k in h]
            i = 'event:' + nm
            if p.outcome != 'normal': R.fail('event', i, where(p), 'the event ends with an exception', p.trace); continue
            if not R.check(bool(h), 'event', i, where(p), 'the event %s is not reported' % nm, p.trace): continue
            src = p.events('handler')[0].src
            for e, k in zip(p.events('handler'), h):
                if k == 'error': R.check(e.x['fd'] == C(-1), 'event', i + ':closed', e.src, 'a failure is reported while the link is open', p.trace)
            if v & 24: R.check(h[-1] in ('error', 'data') and 'connected' not in h[-1:], 'event', i + ':failure', src, 'the failure %s is reported as %s' % (nm, '+'.join(h)), p.trace)
            elif v == 1: R.check(h == ['data'], 'event', i + ':data', src, 'data is reported as %s' % '+'.join(h), p.trace)
            elif v == 4:
                bad = [e for e in p.events('ep') if p.x is not None and e.name == 'mod']
                R.check(h in (['connected'], ['error']), 'event', i + ':connected', src, 'an established link is reported as %s' % '+'.join(h), p.trace)
    oks = [p for p in run('onFileDescriptorEvent', (C(4),), True) if p.events('handler') and p.events('handler')[0].args[0] == C(EV['connected'])]
    R.check(bool(oks), 'event', 'event:OUT:told', cls, 'an established link is never reported')

def unc(t):
    while t[0] == 'cast': t = t[3]
    return t

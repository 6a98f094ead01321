"""C14: the secure channel component with one of its pooled channels is explored as a closed machine: every message of the
component, with any content, from every abstract state it can reach, decoders may fail at any point. The path that opens
a channel shows which members remember the opening connection, the token handed out and the sequence number received; on
every later path a message is forwarded or answered only after its connection, token and sequence number were found equal
to them (the number plus one), which then becomes the remembered one; every other path closes the channel and asks for
the release of the connection. Every message sent is followed back: channel id, token, request number, and a counter that
is used once per message, goes up by one and holds the same constant whenever a channel is opened. The server channel of
the protocol library is explored in the same way, driven by its link, its timer and its owner."""
from sa.model import AnalysisError
from sa.interp import *
from sa.machine import *
from checks.worlds import *
from sa.interp import first_targ
from checks.c13 import failed
from checks.c11 import neq, eq, where, val, at
from checks.services import numeric
from checks import entities
from checks.c17 import typed
from checks.c13 import hdr_type

TECHNIQUE = 'static typestate and value-provenance analysis of the channel machine (path-sensitive abstract interpretation, fixpoint over abstract states)'
ASSUMPTIONS = ['the binary codec decodes and encodes headers as C02 states', 'a response of the channel layer fits a packet']

ENTCLS = 'app::ua::securechannel::UaServerSecureChannel'
ENT = ('R', 'ent:' + ENTCLS)
BUSY = ('.', ENT, '#busy')
UID = ('in', ('R', 'uid:' + ENTCLS))
OUT = {'MsgUaOpenSecureChannelRsp': ('UaOpenSecureChannelRspCont', 'MsgUaOpenSecureChannelReq'), 'MsgUaCloseSecureChannelRsp': ('UaCloseSecureChannelRspCont', 'MsgUaCloseSecureChannelReq'), 'MsgUaSecuredMessageSendReq': (None, 'MsgUaEncodedMessageSendReq')}
IN = ('MsgUaCloseSecureChannelReq', 'MsgUaSecuredMessageReceiveInd')
TYPEID = {'MsgUaOpenSecureChannelRsp': 449, 'MsgUaCloseSecureChannelRsp': 455}      # OPC UA part 6
FWD = 'MsgUaEncodedMessageReceiveInd'
REL = 'MsgUaConnectionReleaseReq'

def sname(t):
    if '<' in t and 'UaMsgCont' in t.split('<')[0]: return first_targ(t).rsplit('::', 1)[-1] + 'Cont'
    return t.rsplit('::', 1)[-1]

def deep(l, path):
    for n in path: l = ('.', l, n)
    return l

class ChannelWorld(World):
    def codec(self, x, n, this, args, name):
        l = x.deref(args[0])
        k = len(x.trace)
        r = World.codec(self, x, n, this, args, name)
        for e in x.trace[k:]:
            if isinstance(e, Ev) and e.kind in ('decode', 'encode') and e.x['loc'] == l:
                g = lambda *p: field(x, l, p)
                s = sname(e.name)
                e.x['v'] = {'UaSequenceHeader': lambda: {'seq': g('sequenceNumber', 'val'), 'req': g('requestId', 'val')},
                            'UaSecurityTokenHeader': lambda: {'token': g('tokenId', 'val')},
                            'UaOpenSecureChannelReqCont': lambda: {'handle': g('msg', 'requestHdr', 'requestHandle', 'val')},
                            'UaCloseSecureChannelReqCont': lambda: {'handle': g('msg', 'requestHdr', 'requestHandle', 'val')},
                            'UaOpenSecureChannelRspCont': lambda: {'handle': g('msg', 'responseHdr', 'requestHandle', 'val'), 'channel': g('msg', 'securityToken', 'secureChannelId', 'val'), 'token': g('msg', 'securityToken', 'tokenId', 'val')},
                            'UaCloseSecureChannelRspCont': lambda: {'handle': g('msg', 'responseHdr', 'requestHandle', 'val')}}.get(s, dict)()
                if s.endswith('RspCont'): e.x['v']['id'] = numeric(x, deep(l, ('eNodeId', 'nodeId')))
        return r
    def on_memcpy(self, x, e):
        e.x['bufs'] = [(b, self.bufcall(x, b, 'begin'), self.bufcall(x, b, 'size')) for b in {q.obj for q in x.trace if isinstance(q, Ev) and q.kind in ('decode', 'encode') and q.obj is not None}]

def field(x, l, path):
    return x.get(deep(l, path))

def machine(m, world=None): return component(m, 'UaSecureChannelComponent', (world or ChannelWorld)())

def check(m, R, tier):
    R.rule('accept', 'a message is forwarded or answered only after its connection, token and sequence number were found to be those of the open channel, the number being the last accepted one plus one')
    R.rule('remember', 'the accepted sequence number becomes the last accepted one; connection, token and last number change in no other way while the channel is open')
    R.rule('served', 'a message is refused only because it cannot be decoded or its connection, token, sequence number or session were found wrong', failonly=True)
    R.rule('refuse', 'a message that is not accepted forwards nothing, closes the channel and asks for the release of its connection')
    R.rule('forward', 'a forwarded message carries the connection, the channel, its request number, the session last associated and the rest of the message')
    R.rule('identity', 'a message sent carries the channel id, the token of the channel and the request number of the message it answers, and goes to the connection of the channel, whole')
    R.rule('numbering', 'each message sent takes one number of a counter that goes up by one per message and by nothing else')
    R.rule('fresh', 'numbering starts from the same constant with every new channel, and no session is associated with it')
    M = machine(m).run()
    R.info['states'] = len(M.states); R.info['steps'] = len(M.steps)
    pre = lambda t, k: t.pre.get(k, ('in', k))
    dec = lambda p, s: [e for e in p.events('decode') if sname(e.name) == s and not e.x.get('threw')]
    minp = lambda t, *f: ('in', deep(msg_root(t), f))
    # ---- what an open channel remembers
    hold = {}
    opens = 0
    for t in M.steps:
        if t.entry != 'MsgUaOpenSecureChannelReq' or t.pre.get(BUSY) != C(0) or t.post.get(BUSY) != C(1): continue
        p = t.path; opens += 1
        inst = 'open'
        d = dec(p, 'UaSequenceHeader')
        enc = [e for e in p.events('encode') if sname(e.name) == 'UaOpenSecureChannelRspCont']
        snd = [e for e in p.events('send') if sname(e.name) == 'MsgUaOpenSecureChannelRsp']
        if not R.check(len(d) == 1 and len(enc) == 1 and len(snd) == 1 and p.outcome == 'normal', 'identity', inst, where(p), 'a channel is open although no request was decoded or no response was sent', p.trace): continue
        now = {'connection': minp(t.entry, 'connectionId'), 'token': enc[0].x['v']['token'], 'seq': d[0].x['v']['seq']}
        R.check(enc[0].x['v']['channel'] == UID, 'identity', inst + ':token channel', enc[0].src, 'the token names channel %s' % show(enc[0].x['v']['channel']), p.trace)
        for w, v in now.items():
            h = {k for k, u in p.x.store.items() if root(k) == ENT and u == v and not (isinstance(k[2], str) and k[2].startswith('#'))}
            hold[w] = h if w not in hold else hold[w] & h
    if not opens:
        R.fail('accept', 'any:OPN', ENTCLS, 'no channel is ever opened'); return
    for w in hold: R.info[w + ' kept in'] = sorted(show(k) for k in hold[w])
    mem = {w: [('in', k) for k in h] for w, h in hold.items()}
    # session holders
    sess = None
    for t in M.steps:
        if t.entry == 'MsgUaAssociateSecureChannelReq' and t.path.outcome == 'normal' and t.pre.get(BUSY) == C(1):
            v = minp(t.entry, 'hdr', 'sessionId')
            h = {k for k, u in t.path.x.store.items() if root(k) == ENT and u == v}
            if not h: continue
            R.check(any(eq(t.path, minp(t.entry, 'hdr', 'connectionId'), u) for u in mem['connection']), 'accept', 'associate', where(t.path), 'a session is associated without comparing the connection', t.path.trace)
            sess = h if sess is None else sess & h
    for t in M.steps:
        if t.entry == 'MsgUaOpenSecureChannelReq' and t.pre.get(BUSY) == C(0) and t.post.get(BUSY) == C(1):
            for h in sess or ():
                if h[2] == '!' : R.check(t.post.get(('.', h[1], '?')) == C(0), 'fresh', 'open:session', where(t.path), 'a new channel starts with the session of an earlier one', t.path.trace)
    cnt = None
    nf = ns = 0
    for t in M.steps:
        p = t.path
        inst = '%s/%s' % (M.statename(t.pre) or '-', t.entry)
        fw = [e for e in p.events('send') if sname(e.name) == FWD]
        out = [e for e in p.events('send') if sname(e.name) in OUT]
        rel = [e for e in p.events('send') if sname(e.name) == REL]
        R.check(len(fw) + len(out) <= 1, 'numbering', inst + ':one', where(p), '%d messages for one message received' % (len(fw) + len(out)), p.trace)
        # ---- accepted
        acc = [e for e in fw + out if t.entry in IN]
        for e in acc:
            s, k = dec(p, 'UaSequenceHeader'), dec(p, 'UaSecurityTokenHeader')
            s = [q for q in s if q.i < e.i]; k = [q for q in k if q.i < e.i]
            if not R.check(t.pre.get(BUSY) == C(1) and len(s) == 1 and len(k) == 1, 'accept', inst, e.src, 'a message is accepted without an open channel or without decoding its token and sequence number', p.trace): continue
            R.check(any(eq(p, minp(t.entry, 'connectionId'), u) for u in mem['connection']), 'accept', inst + ':connection', e.src, 'a message is accepted although its connection was not found to be the one that opened the channel', p.trace)
            R.check(any(eq(p, k[0].x['v']['token'], u) for u in mem['token']), 'accept', inst + ':token', e.src, 'a message is accepted although its token was not found to be the one handed out', p.trace)
            sv = s[0].x['v']['seq']
            R.check(any(succ(p, sv, u) for u in mem['seq']), 'accept', inst + ':sequence', e.src, 'a message is accepted although its sequence number was not found to be the one after the last accepted one', p.trace)
            if t.post.get(BUSY) == C(1):
                R.check(all(eq(p, p.x.get(h), sv) for h in hold['seq']) and hold['seq'], 'remember', inst, e.src, 'the accepted sequence number does not become the last accepted one', p.trace)
        if t.entry in IN and t.pre.get(BUSY) == C(1) and mine(p, t.entry):
            if not acc or t.entry == 'MsgUaCloseSecureChannelReq':
                ok = t.post.get(BUSY) == C(0) and p.outcome == 'normal' and not fw
                R.check(ok, 'refuse', inst, where(p), 'a message that is not accepted leaves the channel open' if t.entry != 'MsgUaCloseSecureChannelReq' else 'a close request leaves the channel open', p.trace)
                R.check(len(rel) == 1 and eq(p, val(rel[0], 'connectionId'), minp(t.entry, 'connectionId')), 'refuse', inst + ':release', where(p), 'the release of the connection is not asked for', p.trace)
            else:
                R.check(not rel and t.post.get(BUSY) == C(1), 'refuse', inst + ':kept', where(p), 'an accepted message ends the channel', p.trace)
        if t.entry == 'MsgUaOpenSecureChannelReq' and any(e.ret == C(1) and e.kind == 'alloc' for e in p.events('alloc')) and t.pre.get(BUSY) == C(0) and mine(p, t.entry):
            if t.post.get(BUSY) == C(0) and p.outcome == 'normal':
                R.check(len(rel) == 1 and eq(p, val(rel[0], 'connectionId'), minp(t.entry, 'connectionId')) and not out, 'refuse', inst, where(p), 'an open request that is refused does not release its connection', p.trace)
        if t.entry == 'MsgUaConnectionReleaseInd' and t.pre.get(BUSY) == C(1) and p.outcome == 'normal':
            if any(eq(p, minp(t.entry, 'connectionId'), u) for u in mem['connection']) and eq(p, minp(t.entry, 'secureChannelId'), UID):
                R.check(t.post.get(BUSY) == C(0), 'refuse', inst + ':released', where(p), 'the channel stays open although its connection was released', p.trace)
            else:
                R.check(t.post.get(BUSY) == C(1), 'remember', inst + ':foreign', where(p), 'the release of another connection closes the channel', p.trace)
        # ---- what is refused has a reason
        if t.pre.get(BUSY) == C(1) and mine(p, t.entry) and p.outcome == 'normal':
            bad = failed(p)
            if t.entry in IN and not acc:
                why = bad or any(neq(p, minp(t.entry, 'connectionId'), u) for u in mem['connection'])
                why = why or any(neq(p, q.x['v']['token'], u) for q in dec(p, 'UaSecurityTokenHeader') for u in mem['token'])
                why = why or any(neq(p, q.x['v']['seq'], add(u, C(1))) for q in dec(p, 'UaSequenceHeader') for u in mem['seq'])
                R.check(why, 'served', inst, where(p), 'a message of the open channel is refused although its connection, token and sequence number were not found wrong', p.trace)
            if t.entry == 'MsgUaEncodedMessageSendReq' and not out:
                why = bad or any(neq(p, minp(t.entry, 'hdr', 'connectionId'), u) for u in mem['connection']) or any(neq(p, minp(t.entry, 'hdr', 'sessionId'), ('in', h)) for h in sess or ())
                R.check(why, 'served', inst, where(p), 'a message to be sent is refused although its connection and session were not found wrong', p.trace)
            if t.entry == 'MsgUaConnectionReleaseInd' and t.post.get(BUSY) == C(1):
                R.check(any(neq(p, minp(t.entry, 'connectionId'), u) for u in mem['connection']), 'served', inst, where(p), 'a channel stays open although the connection released was not found to be another one', p.trace)
            if t.entry == 'MsgUaAssociateSecureChannelReq':
                why = any(neq(p, minp(t.entry, 'hdr', 'connectionId'), u) for u in mem['connection']) or any(eq(p, p.x.get(h), minp(t.entry, 'hdr', 'sessionId')) for h in sess or ())
                R.check(why, 'served', inst, where(p), 'a session is not associated with the channel although the connection was not found wrong', p.trace)
        if t.entry == 'MsgUaOpenSecureChannelReq' and t.pre.get(BUSY) == C(0) and t.post.get(BUSY) == C(0) and any(e.ret == C(1) for e in p.events('alloc')) and mine(p, t.entry) and p.outcome == 'normal':
            R.check(failed(p), 'served', inst, where(p), 'an open request is refused although it was decoded and answered', p.trace)
        # ---- memory changes in no other way
        if t.pre.get(BUSY) == C(1) and t.post.get(BUSY) == C(1):
            for w in hold:
                if w == 'seq' and acc: continue
                for h in hold[w]:
                    R.check(p.x.get(h) == ('in', h), 'remember', inst + ':' + w, where(p), 'the %s an open channel remembers becomes %s' % (w, show(p.x.get(h))), p.trace)
            for h in sess or ():
                if t.entry != 'MsgUaAssociateSecureChannelReq': R.check(p.x.get(h) == ('in', h), 'remember', inst + ':session', where(p), 'the session associated with an open channel becomes %s' % show(p.x.get(h)), p.trace)
        # ---- forwarded
        for e in fw:
            nf += 1
            if not R.check(t.entry == 'MsgUaSecuredMessageReceiveInd', 'forward', inst, e.src, 'something is forwarded that is no secured message', p.trace): continue
            s = [q for q in dec(p, 'UaSequenceHeader') if q.i < e.i]
            if not s: continue
            R.check(eq(p, val(e, 'hdr', 'connectionId'), minp(t.entry, 'connectionId')), 'forward', inst + ':connection', e.src, 'the connection forwarded is %s' % show(val(e, 'hdr', 'connectionId')), p.trace)
            R.check(val(e, 'hdr', 'secureChannelId') == UID or eq(p, val(e, 'hdr', 'secureChannelId'), UID), 'forward', inst + ':channel', e.src, 'the channel forwarded is %s' % show(val(e, 'hdr', 'secureChannelId')), p.trace)
            R.check(eq(p, val(e, 'hdr', 'requestId'), s[0].x['v']['req']), 'forward', inst + ':request', e.src, 'the request number forwarded is %s' % show(val(e, 'hdr', 'requestId')), p.trace)
            sv = val(e, 'hdr', 'sessionId')
            asc = [v for k, v in t.pre.items() if k[0] == '.' and k[2] == '?' and any(h[0] == '.' and h[1] == k[1] for h in sess or ())]
            if C(1) in asc: R.check(any(sv == ('in', h) for h in sess), 'forward', inst + ':session', e.src, 'the session forwarded is %s although one is associated with the channel' % show(sv), p.trace)
            else: R.check(sv[0] == 'c', 'forward', inst + ':no session', e.src, 'a session %s is forwarded although none is associated' % show(sv), p.trace)
            cp = [c for c in p.events('memcpy') if s[0].i < c.i < e.i and at(c.args[0], ('.', e.obj, 'data'))]
            ok = len(cp) == 1 and (s[0].obj, cp[0].args[1], cp[0].args[2]) in cp[0].x['bufs'] and val(e, 'length') == cp[0].args[2]
            R.check(ok, 'forward', inst + ':data', e.src, 'the data forwarded is not the rest of the message', p.trace)
            inb(R, p, inst, s[0], t)
        # ---- sent
        for e in out:
            ns += 1
            kind = sname(e.name)
            cont, want = OUT[kind]
            if not R.check(t.entry == want, 'identity', inst + ':kind', e.src, '%s answers %s' % (kind, t.entry), p.trace): continue
            enc = [q for q in p.events('encode') if q.i < e.i]
            sh = [q for q in enc if sname(q.name) == 'UaSequenceHeader']
            th = [q for q in enc if sname(q.name) == 'UaSecurityTokenHeader']
            names = [sname(q.name) for q in enc]
            exp = ['UaSecurityHeader' if kind == 'MsgUaOpenSecureChannelRsp' else 'UaSecurityTokenHeader', 'UaSequenceHeader'] + ([cont] if cont else [])
            if not R.check(names == exp and len({q.obj for q in enc}) == 1, 'identity', inst + ':layout', e.src, 'the message consists of %s' % names, p.trace): continue
            buf = enc[0].obj
            if cont: R.check(enc[-1].x['v']['id'] == C(TYPEID[kind]), 'identity', inst + ':type', enc[-1].src, 'the response is sent with type id %s, not %d' % (show(enc[-1].x['v']['id']), TYPEID[kind]), p.trace)
            if th: R.check(any(eq(p, th[0].x['v']['token'], u) for u in mem['token']), 'identity', inst + ':token', th[0].src, 'the token sent is %s' % show(th[0].x['v']['token']), p.trace)
            rq = minp(t.entry, 'hdr', 'requestId')
            if kind != 'MsgUaSecuredMessageSendReq':
                d = [q for q in dec(p, 'UaSequenceHeader') if q.i < e.i]
                rq = d[0].x['v']['req'] if len(d) == 1 else None
                if d: inb(R, p, inst, d[0], t)
                dq = [q for q in p.events('decode') if 'handle' in q.x.get('v', {}) and q.i < e.i]
                R.check(len(dq) == 1 and eq(p, enc[-1].x['v']['handle'], dq[0].x['v']['handle']), 'identity', inst + ':handle', enc[-1].src, 'the response does not carry the handle of the request', p.trace)
            R.check(rq is not None and eq(p, sh[0].x['v']['req'], rq), 'identity', inst + ':request', sh[0].src, 'the request number sent is %s' % show(sh[0].x['v']['req']), p.trace)
            R.check(eq(p, val(e, 'secureChannelId'), UID), 'identity', inst + ':channel', e.src, 'the channel sent is %s' % show(val(e, 'secureChannelId')), p.trace)
            cv = val(e, 'connectionId')
            R.check(any(eq(p, cv, u) for u in mem['connection'] + ([minp(t.entry, 'connectionId')] if kind == 'MsgUaOpenSecureChannelRsp' else [])), 'identity', inst + ':connection', e.src, 'a message goes to connection %s, which was not found to be the one of the channel' % show(cv), p.trace)
            if kind == 'MsgUaSecuredMessageSendReq':
                ap = [q for q in p.events('append') if q.obj == buf and enc[-1].i < q.i < e.i]
                ok = len(ap) == 1 and at(ap[0].args[0], ('.', msg_root(t.entry), 'data')) and ap[0].args[1] == minp(t.entry, 'length')
                R.check(ok, 'identity', inst + ':payload', e.src, 'the data sent is not the data given', p.trace)
                R.check(eq(p, minp(t.entry, 'hdr', 'connectionId'), cv), 'identity', inst + ':named', e.src, 'a message is sent on a connection it does not name', p.trace)
            cp = [c for c in p.events('memcpy') if enc[-1].i < c.i < e.i and at(c.args[0], ('.', e.obj, 'data'))]
            ok = len(cp) == 1 and (buf, cp[0].args[1], cp[0].args[2]) in cp[0].x['bufs'] and val(e, 'length') == cp[0].args[2]
            R.check(ok, 'identity', inst + ':whole', e.src, 'what is sent is not the whole encoded message', p.trace)
            # numbering
            v = sh[0].x['v']['seq']
            c = counters(p, t, v, lambda k: root(k) == ENT, t.post.get(BUSY) == C(1))
            R.check(bool(c), 'numbering', inst, sh[0].src, 'the sequence number sent, %s, is not that of a counter that goes up by one' % show(v), p.trace)
            if c: cnt = c if cnt is None else cnt & c
            if kind == 'MsgUaOpenSecureChannelRsp': R.check(v[0] == 'c', 'fresh', inst, sh[0].src, 'a new channel starts with %s, not with a constant' % show(v), p.trace)
    R.check(bool(nf), 'accept', 'any:MSG', ENTCLS, 'no message of a channel is ever forwarded')
    R.check(bool(ns), 'identity', 'any', ENTCLS, 'nothing is ever sent on a channel')
    R.check(bool(cnt), 'numbering', 'counter', ENTCLS, 'the messages of a channel do not take their numbers from one counter')
    R.info['counter'] = sorted(show(k) for k, _ in cnt or ())
    for t in M.steps:
        p = t.path
        inst = '%s/%s' % (M.statename(t.pre) or '-', t.entry)
        if p.outcome == 'normal' and t.pre.get(BUSY) == C(1) and t.post.get(BUSY) == C(1) and not [e for e in p.events('send') if sname(e.name) in OUT]:
            for k, _ in cnt or ():
                R.check(p.x.get(k) == pre(t, k), 'numbering', inst + ':idle', where(p), 'the counter of sequence numbers changes although nothing is sent', p.trace)
    library(m, R)
    R.need('accept', 6); R.need('refuse', 6); R.need('identity', 20); R.need('numbering', 3); R.need('fresh', 1)

def inb(R, p, inst, d, t):
    """the decoded headers come from the message's data"""
    ap = [q for q in p.events('append') if q.obj == d.obj and q.i < d.i]
    ok = len(ap) == 1 and at(ap[0].args[0], ('.', msg_root(t.entry), 'data')) and ap[0].args[1] == ('in', ('.', msg_root(t.entry), 'length'))
    R.check(ok, 'forward', inst + ':input', d.src, 'the headers are not decoded from the data of the message', p.trace)

def mine(p, entry):
    """the message names the tracked channel"""
    return not [e for e in p.events('other')]

def plus1(v): return C((v[1] + 1) & 0xffffffff) if v[0] == 'c' else add(v, C(1))

def counters(p, t, v, mine, kept=True):
    """(member, 0 or 1): members that go up by one and whose value before (0) or after (1) is v"""
    pre = lambda k: t.pre.get(k, ('in', k))
    out = {(k, 0) for k in set(p.x.store) | set(t.pre) if mine(k) and pre(k) == v and (not kept or p.x.get(k) == plus1(v))}
    return out | {(k, 1) for k in set(p.x.store) | set(t.pre) if mine(k) and plus1(pre(k)) == v and (not kept or p.x.get(k) == v)}

def succ(p, v, u): return eq(p, v, add(u, C(1)))

# ---- the server channel of the protocol library
LIB = 'app::ua::OpcUaServerSecureChannel'
THIS = entities.THIS
LOPEN, LREQ = ('.', THIS, '#open'), ('.', THIS, '#request')
KIND = {'UaOpenSecureChannelRspCont': 'OPN', None: 'MSG'}

class LibraryWorld(entities.EntityWorld, ChannelWorld):
    def codec(self, x, n, this, args, name): return ChannelWorld.codec(self, x, n, this, args, name)
    def told(self, x, n, name, args):
        entities.EntityWorld.told(self, x, n, name, args)
        k = entities.kind(name)
        if k == 'data': x.store[LREQ] = C(1)
        return C(0)
    def do_link(self, x, n, loc, args, name):
        r = entities.EntityWorld.do_link(self, x, n, loc, args, name)
        if name == 'send':
            e = [e for e in x.trace if isinstance(e, Ev) and e.kind == 'link'][-1]
            enc = [q for q in x.trace if isinstance(q, Ev) and q.kind == 'encode']
            e.x['buf'] = enc[-1].obj if enc else None
            e.x['body'] = sname(enc[-1].name) if enc else None
            e.x['whole'] = bool(enc) and (args[0], args[1]) == (self.bufcall(x, enc[-1].obj, 'begin'), self.bufcall(x, enc[-1].obj, 'size'))
            e.x['given'] = (self.bufcall(x, ('T', 'arg0'), 'begin'), self.bufcall(x, ('T', 'arg0'), 'size')) if x.ltype.get(('T', 'arg0'), '').endswith('OpcUaSduBuffer') else None
            if e.x.get('body') == 'UaOpenSecureChannelRspCont' and r == C(1): x.store[LOPEN] = C(1)
        return r
    def dispose(self, x, v, n=None):
        entities.EntityWorld.dispose(self, x, v, n)
        if v[0] == 'ptr' and self.obj_kind(v[1]) == 'link': x.store[LOPEN] = C(0); x.store[LREQ] = C(0)

def library(m, R):
    def extra(x):
        x.store[('.', THIS, 'handler')] = entities.OWNERFN
        x.store[LOPEN] = C(0); x.store[LREQ] = C(0)
    M = entities.entity_machine(m, LIB, LibraryWorld(None), ('open', 'send'), init_extra=extra)
    ent = M.entries
    M.entries = lambda st: [(n, f) for n, f in ent(st) if n != 'send' or st.get(LREQ) == C(1)]      # an owner answers requests it was given
    M.run()
    R.info['library states'] = len(M.states); R.info['library steps'] = len(M.steps)
    dec = lambda p, s: [e for e in p.events('decode') if sname(e.name) == s and not e.x.get('threw')]
    pre = lambda t, k: t.pre.get(k, ('in', k))
    mine = lambda k: k[0] == '.' and root(k) == THIS and not (isinstance(k[2], str) and k[2].startswith('#'))
    hdrty = lambda p, d, ty: bool(d) and typed(p, d[-1].x['head'], ty)
    hold = {}
    # ---- what an open channel remembers
    for t in M.steps:
        p = t.path
        for e in p.events('link'):
            if e.name != 'send' or e.ret != C(1) or e.x.get('body') != 'UaOpenSecureChannelRspCont': continue
            d = [q for q in dec(p, 'UaSequenceHeader') if q.i < e.i]
            enc = [q for q in p.events('encode') if sname(q.name) == 'UaOpenSecureChannelRspCont' and q.i < e.i]
            hd = [q for q in p.events('encode') if sname(q.name) == 'UaMessageHeader' and q.i < e.i]
            if not R.check(len(d) == 1 and len(enc) == 1 and len(hd) == 1, 'identity', 'library:open', e.src, 'an open response is sent without a decoded request', p.trace): continue
            now = {'token': enc[0].x['v']['token'], 'seq': d[0].x['v']['seq'], 'request': d[0].x['v']['req'], 'channel': enc[0].x['v']['channel']}
            for w, v in now.items():
                h = {k for k in set(p.x.store) if mine(k) and p.x.get(k) == v}
                if v[0] == 'in' and mine(v[1]): h.add(v[1])
                hold[w] = h if w not in hold else hold[w] & h
    if len(hold) < 4:
        R.fail('accept', 'library:any:OPN', LIB, 'no channel of the library is ever opened'); return
    for w in sorted(hold):
        R.check(bool(hold[w]), 'remember', 'library:open:' + w, LIB, 'an open channel does not remember its %s' % w)
    mem = {w: [('in', k) for k in h] for w, h in hold.items()}
    cnt = None
    nacc = nsent = 0
    for t in M.steps:
        p = t.path
        inst = 'library:%s/%s' % (M.statename(t.pre), t.entry)
        note = [(entities.kind(e.name), e) for e in p.events('notify')]
        bad = [e for e in p.events('link') if e.name == 'receive' and e.x.get('res') in ('closed', 'error')] + [e for e in p.events('fire') if e.name in ('link-error', 'timer')]
        ended = t.pre.get(LOPEN) == C(1) and t.post.get(LOPEN) == C(0)
        s, k, hd = dec(p, 'UaSequenceHeader'), dec(p, 'UaSecurityTokenHeader'), dec(p, 'UaMessageHeader')
        acc = [e for q, e in note if q == 'data'] + [e for q, e in note if q == 'closed' and not bad and t.entry == 'link-data']
        for e in acc:
            nacc += 1
            ty = 'MSG' if entities.kind(e.name) == 'data' else 'CLO'
            s_, k_ = [q for q in s if q.i < e.i], [q for q in k if q.i < e.i]
            if not R.check(t.pre.get(LOPEN) == C(1) and len(s_) == 1 and len(k_) == 1, 'accept', inst + ':' + ty, e.src, 'a message is accepted without an open channel or without decoding its token and sequence number', p.trace): continue
            R.check(hdrty(p, hd, ty), 'accept', inst + ':type ' + ty, e.src, 'a packet is taken for %s that was not found to be one' % ty, p.trace)
            R.check(any(eq(p, k_[0].x['v']['token'], u) for u in mem['token']), 'accept', inst + ':token ' + ty, e.src, 'a message is accepted although its token was not found to be the one handed out', p.trace)
            R.check(any(succ(p, s_[0].x['v']['seq'], u) for u in mem['seq']), 'accept', inst + ':sequence ' + ty, e.src, 'a message is accepted although its sequence number was not found to be the one after the last accepted one', p.trace)
            if ty == 'MSG':
                R.check(len([q for q, _ in note if q == 'data']) == 1 and not [q for q, _ in note if q != 'data'] and t.post.get(LOPEN) == C(1), 'refuse', inst + ':kept', e.src, 'an accepted message ends the channel or is passed on twice', p.trace)
                for w, v in (('seq', s_[0].x['v']['seq']), ('request', s_[0].x['v']['req'])):
                    R.check(all(eq(p, p.x.get(h), v) for h in hold[w]), 'remember', inst + ':' + w, e.src, 'the %s number of the accepted message is not remembered' % w, p.trace)
            else: R.check(t.post.get(LOPEN) == C(0), 'refuse', inst + ':closed', e.src, 'a close request leaves the channel open', p.trace)
        opn = [e for e in p.events('link') if e.name == 'send' and e.x.get('body') == 'UaOpenSecureChannelRspCont']
        for e in opn: R.check(hdrty(p, [q for q in hd if q.i < e.i], 'OPN'), 'accept', inst + ':type OPN', e.src, 'an open request is answered that was not found to be one', p.trace)
        if t.pre.get(LOPEN) == C(1) and (hd or [e for e in p.events('decode') if e.x.get('threw')]) and not acc and not [e for e in opn if e.ret == C(1)]:
            R.check(t.post.get(LOPEN) == C(0), 'refuse', inst, where(p), 'a message that is not accepted leaves the channel open', p.trace)
            R.check([q for q, _ in note] == ['error'], 'refuse', inst + ':told', where(p), 'a message that is not accepted is reported as %s' % [q for q, _ in note], p.trace)
        if t.pre.get(LOPEN) == C(1) and hd and not acc and not opn and p.outcome == 'normal':
            why = failed(p) or any(neq(p, q.x['v']['token'], u) for q in k for u in mem['token']) or any(neq(p, q.x['v']['seq'], add(u, C(1))) for q in s for u in mem['seq'])
            why = why or all(any(neq(p, b, C(ord(ch))) for b, ch in zip(hd[-1].x['head'], ty)) for ty in ('OPN', 'MSG', 'CLO'))
            hv = p.x.get(('.', ('.', hd[-1].x['loc'], 'secureChannelId'), 'val'))
            why = why or any(neq(p, hv, u) or neq(p, hv, pre(t, u[1])) for u in mem['channel'])
            R.check(why, 'served', inst, where(p), 'a message of the open channel is refused although its token and sequence number were not found wrong', p.trace)
        if t.entry == 'link-data' and t.pre.get(LOPEN) == C(1) and t.post.get(LOPEN) == C(1):
            # a complete packet of a known kind is looked at
            rx = [e for e in p.events('link') if e.name == 'receive' and e.x.get('res') == 'ok']
            for ty in ('OPN', 'MSG', 'CLO'):
                got = [b for b in heads(p) if typed(p, b, ty)]
                if got and rx: R.check(bool(hd), 'accept', inst + ':looked at ' + ty, where(p), 'a %s packet is ignored' % ty, p.trace)
        if t.pre.get(LOPEN) == C(1) and t.post.get(LOPEN) == C(1) and not opn:
            for w in hold:
                if w in ('seq', 'request') and acc: continue
                for h in hold[w]: R.check(p.x.get(h) == pre(t, h), 'remember', inst + ':' + w, where(p), 'the %s an open channel remembers becomes %s' % (w, show(p.x.get(h))), p.trace)
        # ---- sent
        sent = [e for e in p.events('link') if e.name == 'send' and e.x.get('buf') is not None and [q for q in p.events('encode') if sname(q.name) == 'UaMessageHeader' and q.obj == e.x['buf'] and q.i < e.i]]
        R.check(len(sent) <= 1, 'numbering', inst + ':one', where(p), '%d messages are sent at a time' % len(sent), p.trace)
        if t.entry == 'send' and p.outcome == 'normal': R.check(len(sent) == 1, 'identity', inst + ':sent', where(p), '%d messages are sent for one to be sent' % len(sent), p.trace)
        for e in sent:
            nsent += 1
            enc = [q for q in p.events('encode') if q.obj == e.x['buf'] and q.i < e.i]
            names = [sname(q.name) for q in enc]
            op = t.entry != 'send'
            exp = ['UaMessageHeader', 'UaSecurityHeader', 'UaSequenceHeader', 'UaOpenSecureChannelRspCont'] if op else ['UaMessageHeader', 'UaSecurityTokenHeader', 'UaSequenceHeader']
            if not R.check(names == exp, 'identity', inst + ':layout', e.src, 'the message consists of %s' % names, p.trace): continue
            R.check(hdr_type(enc[0]) == ('OPN' if op else 'MSG'), 'identity', inst + ':type', e.src, 'the message is sent as %s' % hdr_type(enc[0]), p.trace)
            cv = enc[0].x['snap'].get(('.', ('.', enc[0].x['loc'], 'secureChannelId'), 'val'))
            R.check(any(eq(p, cv, u) or eq(p, cv, pre(t, u[1])) for u in mem['channel']), 'identity', inst + ':channel', e.src, 'the channel sent is %s' % show(cv), p.trace)
            v = enc[2].x['v']
            if op:
                d = [q for q in s if q.i < e.i]
                R.check(len(d) == 1 and eq(p, v['req'], d[0].x['v']['req']), 'identity', inst + ':request', e.src, 'the request number sent is %s' % show(v['req']), p.trace)
                R.check(eq(p, enc[3].x['v']['channel'], cv), 'identity', inst + ':token channel', e.src, 'the token names another channel than the header', p.trace)
                R.check(enc[3].x['v']['id'] == C(449), 'identity', inst + ':type id', e.src, 'the response is sent with type id %s' % show(enc[3].x['v']['id']), p.trace)
            else:
                R.check(any(eq(p, enc[1].x['v']['token'], u) for u in mem['token']), 'identity', inst + ':token', e.src, 'the token sent is %s' % show(enc[1].x['v']['token']), p.trace)
                R.check(any(eq(p, v['req'], u) for u in mem['request']), 'identity', inst + ':request', e.src, 'the request number sent is %s' % show(v['req']), p.trace)
                ap = [q for q in p.events('append') if q.obj == e.x['buf'] and enc[-1].i < q.i < e.i]
                R.check(len(ap) == 1 and e.x['given'] == tuple(ap[0].args[:2]), 'identity', inst + ':payload', e.src, 'the data sent is not the data given', p.trace)
            R.check(e.x['whole'], 'identity', inst + ':whole', e.src, 'what is sent is not the whole encoded message', p.trace)
            c = counters(p, t, v['seq'], mine)
            R.check(bool(c), 'numbering', inst, e.src, 'the sequence number sent, %s, is not that of a counter that goes up by one' % show(v['seq']), p.trace)
            if c: cnt = c if cnt is None else cnt & c
            if op and t.pre.get(LOPEN) != C(1): R.check(v['seq'][0] == 'c', 'fresh', inst, e.src, 'a new channel starts with %s, not with a constant' % show(v['seq']), p.trace)
    R.check(bool(nacc), 'accept', 'library:any', LIB, 'a library channel never accepts a message')
    R.check(bool(nsent), 'identity', 'library:any', LIB, 'a library channel never sends a message')
    R.check(bool(cnt), 'numbering', 'library:counter', LIB, 'the messages of a channel do not take their numbers from one counter')
    for t in M.steps:
        if t.path.outcome == 'normal' and t.pre.get(LOPEN) == C(1) and t.post.get(LOPEN) == C(1) and not [e for e in t.path.events('link') if e.name == 'send']:
            for q, _ in cnt or (): R.check(t.path.x.get(q) == pre(t, q), 'numbering', 'library:%s/%s:idle' % (M.statename(t.pre), t.entry), where(t.path), 'the counter of sequence numbers changes although nothing is sent', t.path.trace)

def heads(p):
    """first three bytes of whatever was compared on the path"""
    out = {}
    for f in p.trace:
        if isinstance(f, Fact):
            for v in (f.a, f.b):
                if v[0] == 'in' and v[1][0] == '[]' and v[1][2][0] == 'c' and v[1][2][1] < 3: out.setdefault(v[1][1], {})[v[1][2][1]] = v
    return [[h[i] for i in range(3)] for h in out.values() if len(h) == 3]

"""C13: the UA transport component with one of its pooled TCP connections is explored as a closed machine (every message
of the component with any content, accepts, link data split in any way, link errors, timers) from every abstract state
it can reach. Ghost flags say whether the connection's hello was acknowledged and whether a secure channel was bound to
it by the channel layer's open response. On every path nothing is forwarded before the acknowledge, which needs a
received and decoded hello; secured and close messages are forwarded only after their channel id was compared with the
bound one; the peer is sent only the acknowledge and messages of the bound channel, whole; anything else gives the
connection back to its pool."""
from sa.model import AnalysisError
from sa.interp import *
from sa.machine import *
from checks.worlds import *
from checks.c11 import neq, eq, under, where, val, at

TECHNIQUE = 'static typestate analysis of the connection machine (path-sensitive abstract interpretation, fixpoint over abstract states)'
ASSUMPTIONS = ['the binary codec decodes and encodes headers as C02 states', 'a response of the channel layer fits a packet']

ENTCLS = 'app::ua::transport::UaTcpConnection'
ENT = ('R', 'ent:' + ENTCLS)
ACK, BOUND, BUSY = ('.', ENT, '#ack'), ('.', ENT, '#bound'), ('.', ENT, '#busy')
UID = ('in', ('R', 'uid:' + ENTCLS))
FWD = {'MsgUaSecuredMessageReceiveInd': 'MSG', 'MsgUaOpenSecureChannelReq': 'OPN', 'MsgUaCloseSecureChannelReq': 'CLO'}
OUT = {'MsgUaSecuredMessageSendReq': 'MSG', 'MsgUaOpenSecureChannelRsp': 'OPN', 'MsgUaCloseSecureChannelRsp': 'CLO'}

def sname(t): return t.rsplit('::', 1)[-1]

class TransportWorld(World):
    def pool_ctor(self, x, n, cls, loc):
        r = World.pool_ctor(self, x, n, cls, loc)
        x.store[ACK] = C(0); x.store[BOUND] = C(0)
        return r
    def pool_call(self, x, n, this, args, name):
        r = World.pool_call(self, x, n, this, args, name)
        if name == 'get' and r == ('ptr', ENT) and x.store.get(ACK) == C(1) and any(isinstance(q, Ev) and q.kind == 'message' and q.name == 'MsgUaOpenSecureChannelRsp' for q in x.trace): x.store[BOUND] = C(1)
        if name in ('free', 'release') and x.store.get(BUSY) == C(0): x.store[ACK] = C(0); x.store[BOUND] = C(0)
        return r
    def send_msg(self, x, n, loc, t=None):
        r = World.send_msg(self, x, n, loc, t)
        e = x.trace[-1]
        e.x['ack'], e.x['bound'] = x.store.get(ACK), x.store.get(BOUND)
        return r
    def do_link(self, x, n, loc, args, name):
        if name != 'send': return World.do_link(self, x, n, loc, args, name)
        b, s, buf = None, None, None
        enc = [e for e in x.trace if isinstance(e, Ev) and e.kind == 'encode' and e.obj is not None]
        if enc:
            buf = enc[-1].obj
            b, s = self.bufcall(x, buf, 'begin'), self.bufcall(x, buf, 'size')
        ack, bound = x.store.get(ACK), x.store.get(BOUND)
        r = World.do_link(self, x, n, loc, args, name)
        e = [e for e in x.trace if isinstance(e, Ev) and e.kind == 'link'][-1]
        e.x.update(ack=ack, bound=bound, buf=buf, whole=b == args[0] and s == args[1])
        if enc and sname(enc[-1].name) == 'AcknowledgeMessage':
            if r == C(1): x.store[ACK] = C(1)
        return r
    def on_memcpy(self, x, e):
        d = [q for q in x.trace if isinstance(q, Ev) and q.kind == 'decode' and q.obj is not None]
        if d:
            e.x['rest'] = (self.bufcall(x, d[-1].obj, 'begin'), self.bufcall(x, d[-1].obj, 'size'))

def machine(m, world=TransportWorld):
    return component(m, 'UaTransportComponent', world())

def typed(p, hb, s):
    return hb is not None and all(eq(p, b, C(ord(ch))) for b, ch in zip(hb, s))

def check(m, R, tier):
    R.rule('hello-first', 'nothing is forwarded to the channel layer, and nothing but the acknowledge is sent, before a received and decoded hello was acknowledged')
    R.rule('own-channel', 'secured and close messages are forwarded only after their channel id was found equal to the one bound to this connection')
    R.rule('forwarded', 'a forwarded message is of the kind the packet names and carries the connection id, the channel id and the rest of the packet')
    R.rule('sent', 'a message sent to the peer is whole, of the kind the channel layer asked for and names the bound channel')
    R.rule('bound', 'the bound channel changes only by an open response')
    R.rule('ends', 'a packet or request that is not forwarded or sent ends the connection')
    R.rule('released', 'a connection whose release the channel layer asks for ends')
    R.rule('served', 'a packet or request is refused only because its type is unknown or its channel is not the bound one', failonly=True)
    M = machine(m).run()
    R.info['states'] = len(M.states); R.info['steps'] = len(M.steps)
    hold = None
    chan = lambda t: ('in', ('.', msg_root(t), 'secureChannelId'))
    for t in M.steps:
        if t.entry == 'MsgUaOpenSecureChannelRsp' and t.post.get(BUSY) == C(1) and t.path.outcome == 'normal' and [e for e in t.path.events('link') if e.name == 'send']:
            h = {k for k, v in t.path.x.store.items() if root(k) == ENT and v == chan(t.entry)}
            hold = h if hold is None else hold & h
    if hold is None:
        R.fail('sent', 'any:OPN', m.rec('UaTcpConnection').get('l', ''), 'no response to the opening of a channel is ever sent'); return
    R.info['bound in'] = sorted(show(k) for k in hold)
    mem = [('in', k) for k in hold]
    fkinds, okinds = set(), set()
    for t in M.steps:
        p = t.path
        inst = '%s/%s' % (M.statename(t.pre) or '-', t.entry)
        dec = {sname(e.name): e for e in p.events('decode') if not e.x.get('threw')}
        fw = [e for e in p.events('send') if sname(e.name) in FWD]
        sent = [e for e in p.events('link') if e.name == 'send']
        R.check(len(fw) <= 1, 'forwarded', inst, where(p), '%d messages are forwarded for one packet' % len(fw), p.trace)
        for e in fw:
            kind = sname(e.name); ty = FWD[kind]
            fkinds.add(kind)
            R.check(e.x['ack'] == C(1), 'hello-first', inst + ':' + kind, e.src, 'a message is forwarded before a hello was acknowledged', p.trace)
            d = [q for q in p.events('decode') if q.i < e.i and sname(q.name) == 'UaMessageHeader' and not q.x.get('threw')]
            if not R.check(bool(d), 'forwarded', inst + ':' + kind, e.src, 'forwarded without a decoded header', p.trace): continue
            d = d[-1]
            R.check(typed(p, d.x['head'], ty), 'forwarded', inst + ':kind:' + kind, e.src, '%s is forwarded although the packet was not found to be %s' % (kind, ty), p.trace)
            hv = e.x['snap'].get(('.', ('.', d.x['loc'], 'secureChannelId'), 'val'))
            R.check(eq(p, val(e, 'secureChannelId'), hv), 'forwarded', inst + ':channel:' + kind, e.src, 'the channel id forwarded is %s, not that of the packet' % show(val(e, 'secureChannelId')), p.trace)
            R.check(val(e, 'connectionId') == UID, 'forwarded', inst + ':connection:' + kind, e.src, 'the connection id forwarded is %s' % show(val(e, 'connectionId')), p.trace)
            ct, fv = val(e, 'chunkType', 'val'), e.x['snap'].get(('.', ('.', d.x['loc'], 'isFinal'), 'val'))
            R.check(chunk(m, p, ct, fv), 'forwarded', inst + ':chunk:' + kind, e.src, 'the chunk type forwarded is %s' % show(ct), p.trace)
            cp = [c for c in p.events('memcpy') if d.i < c.i < e.i and at(c.args[0], ('.', e.obj, 'data'))]
            R.check(len(cp) == 1 and cp[0].x.get('rest') == (cp[0].args[1], cp[0].args[2]) and val(e, 'length') == cp[0].args[2], 'forwarded', inst + ':data:' + kind, e.src, 'the data forwarded is not the rest of the packet', p.trace)
            if ty != 'OPN':
                R.check(e.x['bound'] == C(1) and any(eq(p, hv, v) for v in mem), 'own-channel', inst + ':' + kind, e.src, '%s is forwarded although its channel id was not found to be the one bound to the connection' % kind, p.trace)
        for e in sent:
            enc = [q for q in p.events('encode') if q.i < e.i and q.obj == e.x['buf']]
            names = [sname(q.name) for q in enc]
            R.check(e.x['whole'], 'sent', inst + ':whole', e.src, 'what is sent is not the whole encoded packet', p.trace)
            if names == ['MessageHeader', 'AcknowledgeMessage']:
                hd = enc[0]
                R.check(t.pre.get(ACK) != C(1), 'hello-first', inst + ':again', e.src, 'a hello is acknowledged twice', p.trace)
                ok = 'HelloMessage' in dec and 'MessageHeader' in dec and typed(p, dec['MessageHeader'].x['head'], 'HEL')
                okinds.add('ACK')
                R.check(ok, 'hello-first', inst + ':ack', e.src, 'an acknowledge is sent without a received and decoded hello', p.trace)
                R.check(hdr_type(hd) == 'ACK', 'sent', inst + ':ack', e.src, 'the acknowledge is sent as %s' % hdr_type(hd), p.trace)
                continue
            mt = [q for q in p.events('message')]
            kind = mt[-1].name if mt else None
            if not R.check(kind in OUT, 'sent', inst, e.src, 'a message is sent that the channel layer did not ask for', p.trace): continue
            if not R.check(names == ['UaMessageHeader'], 'sent', inst + ':header', e.src, 'the packet sent consists of %s' % names, p.trace): continue
            R.check(e.x['ack'] == C(1), 'hello-first', inst + ':sent', e.src, 'a message is sent before a hello was acknowledged', p.trace)
            okinds.add(kind)
            R.check(hdr_type(enc[0]) == OUT[kind], 'sent', inst + ':kind', e.src, '%s is sent as %s' % (kind, hdr_type(enc[0])), p.trace)
            cv = enc[0].x['snap'].get(('.', ('.', enc[0].x['loc'], 'secureChannelId'), 'val'))
            R.check(eq(p, cv, chan(kind)), 'sent', inst + ':channel', e.src, 'the channel id sent is %s' % show(cv), p.trace)
            if kind != 'MsgUaOpenSecureChannelRsp':
                R.check(e.x['bound'] == C(1) and any(eq(p, cv, v) for v in mem), 'sent', inst + ':bound', e.src, 'a message is sent for a channel that was not found to be the one bound to the connection', p.trace)
            R.check(eq(p, ('in', ('.', msg_root(kind), 'connectionId')), UID), 'sent', inst + ':connection', e.src, 'a message is sent on a connection it does not name', p.trace)
            ap = [q for q in p.events('append') if enc[0].i < q.i < e.i and q.obj == e.x['buf']]
            R.check(len(ap) == 1 and at(ap[0].args[0], ('.', msg_root(kind), 'data')) and ap[0].args[1] == ('in', ('.', msg_root(kind), 'length')), 'sent', inst + ':data', e.src, 'the data sent is not the data given', p.trace)
        # ---- what is refused has a reason
        bnd = t.pre.get(BOUND) == C(1)
        if t.pre.get(BUSY) == C(1) and t.pre.get(ACK) == C(1) and not fw and p.outcome == 'normal':
            for d in p.events('decode'):
                if sname(d.name) != 'UaMessageHeader' or d.x.get('threw') or d.x.get('head') is None: continue
                hv = d.x['snap'].get(('.', ('.', d.x['loc'], 'secureChannelId'), 'val')) if d.x.get('snap') else None
                for k, ty in FWD.items():
                    why = any(neq(p, b, C(ord(ch))) for b, ch in zip(d.x['head'], ty)) or ty != 'OPN' and (not bnd or other(p, mem))
                    R.check(why, 'served', inst + ':' + ty, d.src, 'a %s packet %sis not forwarded' % (ty, '' if ty == 'OPN' else 'of the bound channel '), p.trace)
        if t.entry in OUT and t.pre.get(BUSY) == C(1) and t.pre.get(ACK) == C(1) and not sent and p.outcome == 'normal' and not differ(p, cid(t.entry), UID):
            why = t.entry != 'MsgUaOpenSecureChannelRsp' and (not bnd or any(neq(p, chan(t.entry), v) for v in mem)) or failed(p)
            R.check(why, 'served', inst, where(p), '%s %sis not sent to the peer' % (t.entry, '' if t.entry == 'MsgUaOpenSecureChannelRsp' else 'of the bound channel '), p.trace)
        if t.pre.get(BUSY) == C(1) and 'HelloMessage' in dec and 'MessageHeader' in dec and typed(p, dec['MessageHeader'].x['head'], 'HEL') and t.pre.get(ACK) != C(1) and p.outcome == 'normal':
            R.check(bool(sent), 'served', inst + ':HEL', dec['HelloMessage'].src, 'a hello is not acknowledged', p.trace)
        # ---- binding
        if t.post.get(BUSY) == C(1) and t.post.get(BOUND) == C(1) and t.entry != 'MsgUaOpenSecureChannelRsp':
            for k in hold:
                v = p.x.get(k)
                R.check(v == ('in', k), 'bound', inst, where(p), 'the bound channel becomes %s' % show(v), p.trace)
        # ---- what is not served ends the connection
        rc = [e for e in p.events('link') if e.name == 'receive']
        if t.pre.get(BUSY) == C(1) and t.post.get(BUSY) == C(1):
            if any(e.kind == 'decode' for e in p.events()):
                R.check(len(fw) == 1 or any(e.ret == C(1) for e in sent), 'ends', inst, where(p), 'a packet is neither served nor does it end the connection', p.trace)
            if t.entry in OUT and p.outcome == 'normal' and t.pre.get(ACK) == C(1) and not differ(p, cid(t.entry), UID):
                R.check(any(e.ret == C(1) for e in sent), 'ends', inst, where(p), 'a request is neither sent nor does it end the connection', p.trace)
        if t.pre.get(BUSY) == C(1) and t.entry == 'MsgUaConnectionReleaseReq' and p.outcome == 'normal' and t.pre.get(ACK) == C(1) and not differ(p, cid(t.entry), UID):
            R.check(t.post.get(BUSY) == C(0), 'released', inst, where(p), 'the channel layer asks for the release of the connection, which stays open', p.trace)
    R.need('released', 1)
    for k in FWD: R.check(k in fkinds, 'forwarded', 'any:' + k, m.rec('UaTcpConnection').get('l', ''), '%s packets are never forwarded' % FWD[k])
    R.check('ACK' in okinds, 'sent', 'any:ACK', m.rec('UaTcpConnection').get('l', ''), 'no hello is ever acknowledged')
    for k in OUT: R.check(k in okinds, 'sent', 'any:' + k, m.rec('UaTcpConnection').get('l', ''), '%s is never sent to the peer' % k)
    R.need('hello-first', 4); R.need('sent', 6); R.need('own-channel', 2)

def failed(p):
    """decoding failed, or data did not fit into a buffer"""
    ev = p.events()
    return any(e.x.get('threw') for e in ev) or any(e.kind == 'throw' and i and ev[i - 1].kind == 'append' for i, e in enumerate(ev))

def chunk(m, p, ct, fv):
    """ct is the chunk type the byte fv of the header stands for"""
    if ct[0] != 'c': return repr(fv) in repr(ct)
    E = dict(m.enums['app::UaChunkTypeEnum']['c'])
    L = {'intermediate': 'C', 'final': 'F', 'abort': 'A'}
    for k, ch in L.items():
        if ct == C(E[k]): return eq(p, fv, C(ord(ch)))
    return all(neq(p, fv, C(ord(ch))) for ch in L.values())

def other(p, mem):
    """the bound channel was compared with something and found different"""
    return any(isinstance(f, Fact) and ((f.op == '!=' and f.truth) or (f.op == '==' and not f.truth)) and (f.a in mem or f.b in mem) for f in p.trace)

def cid(t): return ('in', ('.', msg_root(t), 'connectionId'))

def differ(p, a, b):
    """a and b were compared and found different"""
    return any(isinstance(f, Fact) and {f.a, f.b} == {a, b} and ((f.op == '!=' and f.truth) or (f.op == '==' and not f.truth)) for f in p.trace)

def hdr_type(e):
    out = ''
    for i in range(3):
        v = e.x['snap'].get(('.', ('[]', ('.', e.x['loc'], 'messageType'), C(i)), 'val'))
        out += chr(v[1]) if v[0] == 'c' else '?'
    return out

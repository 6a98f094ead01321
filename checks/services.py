"""The service component with one of its pooled sessions as a closed machine (C15, C18)."""
from sa.model import AnalysisError
from sa.interp import *
from sa.interp import first_targ
from sa.machine import *
from checks.worlds import *
from checks.c11 import eq, where, val, at

ENTCLS = 'app::ua::service::UaSession'
ENT = ('R', 'ent:' + ENTCLS)
BUSY, ACTED = ('.', ENT, '#busy'), ('.', ENT, '#activated')
UID = ('in', ('R', 'uid:' + ENTCLS))
IND = 'MsgUaEncodedMessageReceiveInd'
ANSWER = 'MsgUaEncodedMessageSendReq'
ASSOC = 'MsgUaAssociateSecureChannelReq'
# OPC UA part 6: numeric ids of the binary encodings
IDS = {'GetEndpoints': (428, 431), 'CreateSession': (461, 464), 'ActivateSession': (467, 470), 'CloseSession': (473, 476), 'Read': (631, 634)}
SESSION = ('Read',)

def sname(t): return t.rsplit('::', 1)[-1]
def deep(l, path):
    for n in path: l = ('.', l, n)
    return l
def hdr(f): return ('in', deep(msg_root(IND), ('hdr', f)))

def numeric(x, l):
    """the UInt32 a node id holds"""
    v = deep(l, ('value',))
    t = [n for n in ([k[2] for k in x.under(v) if k[0] == '.' and k[1] == v and isinstance(k[2], str) and k[2].startswith('as:')]) if 'UInt32' in n]
    n = t[0] if t else 'as:app::ua::NumericType<app::ua::DataTypeId::UInt32, unsigned int>'
    w = ('.', v, n)
    if ('.', w, 'val') in x.store or w not in x.store: return x.get(('.', w, 'val'))
    return x.get(w)

class ServiceWorld(World):
    def pool_ctor(self, x, n, cls, loc):
        r = World.pool_ctor(self, x, n, cls, loc)
        x.store[ACTED] = C(0)
        return r
    def pool_call(self, x, n, this, args, name):
        r = World.pool_call(self, x, n, this, args, name)
        if name in ('free', 'release') and x.store.get(BUSY) == C(0): x.store[ACTED] = C(0)
        return r
    def codec(self, x, n, this, args, name):
        l = x.deref(args[0])
        k = len(x.trace)
        r = World.codec(self, x, n, this, args, name)
        for e in x.trace[k:]:
            if not (isinstance(e, Ev) and e.kind in ('decode', 'encode') and e.x['loc'] == l): continue
            v = e.x['v'] = {}
            t = strip_cv(e.name)
            if e.kind == 'decode':
                if sname(t) == 'ExpandedNodeId': v['id'] = numeric(x, deep(l, ('nodeId',)))
                elif x.m.field(t, 'requestHdr'):
                    v['handle'] = x.get(deep(l, ('requestHdr', 'requestHandle', 'val')))
                    v['token'] = numeric(x, deep(l, ('requestHdr', 'authentificationToken')))
            elif t in x.m.recs and x.m.field(t, 'eNodeId') and x.m.field(t, 'msg'):
                v['id'] = numeric(x, deep(l, ('eNodeId', 'nodeId')))
                v['handle'] = x.get(deep(l, ('msg', 'responseHdr', 'requestHandle', 'val')))
                mt = strip_cv(x.m.field(t, 'msg')['t'])
                for f in ('sessionId', 'authenticationToken'):
                    if x.m.field(mt, f): v[f] = numeric(x, deep(l, ('msg', f)))
        return r
    def send_msg(self, x, n, loc, t=None):
        r = World.send_msg(self, x, n, loc, t)
        e = x.trace[-1]
        enc = [q for q in x.trace if isinstance(q, Ev) and q.kind == 'encode']
        if sname(e.name) == ANSWER and enc and enc[-1].x['v'].get('id') == C(IDS['ActivateSession'][1]) and x.store.get(BUSY) == C(1): x.store[ACTED] = C(1)
        return r
    def on_memcpy(self, x, e):
        e.x['bufs'] = [(b, self.bufcall(x, b, 'begin'), self.bufcall(x, b, 'size')) for b in {q.obj for q in x.trace if isinstance(q, Ev) and q.kind == 'encode' and q.obj is not None}]

class Req:
    """what one path is about: the request named by the message, its decoded header, answers"""
    def __init__(s, t):
        p = s.p = t.path
        s.ids = [e for e in p.events('decode') if sname(e.name) == 'ExpandedNodeId' and not e.x.get('threw')]
        s.id = s.ids[0].x['v']['id'] if s.ids else None
        s.kind = None
        for k, (q, r) in IDS.items():
            if s.id is not None and eq(p, s.id, C(q)): s.kind = k
        s.req = [e for e in p.events('decode') if e.x.get('v', {}).get('handle') is not None and not e.x.get('threw')]
        s.ans = [e for e in p.events('send') if sname(e.name) == ANSWER]
        s.assoc = [e for e in p.events('send') if sname(e.name) == ASSOC]
        s.sends = p.events('send')
        s.other = p.events('other')
    def enc(s, e):
        q = [q for q in s.p.events('encode') if q.i < e.i]
        return q[-1] if q else None
    def named(s):
        """the session the request names"""
        if s.kind == 'Read': return hdr('sessionId')
        return s.req[0].x['v']['token'] if s.req else None
    def mine(s):
        return s.named() is not None and eq(s.p, s.named(), UID)

def machine(m, world=None): return component(m, 'UaServiceComponent', (world or ServiceWorld)())

def entity(st): return {k: v for k, v in st.items() if root(k) == ENT}

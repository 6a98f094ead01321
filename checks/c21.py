"""C21: the UA transport component with one of its pooled connections and the connections and secure channels of the
protocol library are explored as closed machines. Every packet handed to a link is followed back: it is one buffer, begun
with one header, whose type letters belong to what follows, whose chunk mark says that it is final (or what the channel
layer said, which in turn always says final), and whose bytes four to seven hold, lowest byte first, the number of bytes
handed over."""
from sa.model import AnalysisError
from sa.interp import *
from sa.machine import *
from checks.worlds import *
from checks import c13, c14, entities
from checks.c11 import eq, where, val, enumv
from checks.c14 import sname

TECHNIQUE = 'static value-provenance analysis of every packet sent (path-sensitive abstract interpretation, fixpoint over abstract states)'
ASSUMPTIONS = ['the binary codec encodes headers as C02 states: type letters, chunk mark and size in the first eight bytes']

LIB = [('app::ua::ClientConnection', 'app::ua::OpcUaConnectionHandler', ('connect', 'close')),
       ('app::ua::ServerConnection', 'app::ua::OpcUaConnectionHandler', ('connect', 'accept', 'close')),
       ('app::ua::OpcUaClientSecureChannel', None, ('open', 'close')),
       ('app::ua::OpcUaServerSecureChannel', None, ('open', 'send'))]
BODY = {'HelloMessage': 'HEL', 'ReverseHelloMessage': 'RHE', 'AcknowledgeMessage': 'ACK'}
KIND = c13.OUT

def send_info(w, x, args):
    """what is known about a packet when it is handed to a link"""
    enc = [e for e in x.trace if isinstance(e, Ev) and e.kind == 'encode' and e.obj is not None]
    inf = {'size': None, 'hdr': None, 'names': [], 'bytes': None, 'msg': None, 'only': True}
    p = args[0]
    if p[0] != 'ptr' or p[1][0] != '[]': return inf
    base, off = p[1][1], p[1][2]
    enc = [e for e in enc if base[0] == '.' and e.obj == base[1]]
    inf['bytes'] = [strip(x.get(('[]', base, add(off, C(4 + i))), 'u8')) for i in range(4)]
    inf['size'] = args[1]
    inf['names'] = [sname(e.name) for e in enc]
    inf['hdr'] = enc[0] if enc else None
    ap = [e for e in x.trace if isinstance(e, Ev) and e.kind == 'append' and e.obj == base[1]]
    inf['only'] = not enc or all(a.i > enc[0].i for a in ap)
    ms = [e for e in x.trace if isinstance(e, Ev) and e.kind == 'message']
    inf['msg'] = ms[-1].name if ms else None
    return inf

def strip(v):
    while v[0] == 'cast': v = v[3]
    return v

class Tcp(c13.TransportWorld):
    def do_link(self, x, n, loc, args, name):
        inf = send_info(self, x, args) if name == 'send' else None
        r = c13.TransportWorld.do_link(self, x, n, loc, args, name)
        if inf: [e for e in x.trace if isinstance(e, Ev) and e.kind == 'link'][-1].x['pkt'] = inf
        return r

class Lib(c14.LibraryWorld):
    def do_link(self, x, n, loc, args, name):
        inf = send_info(self, x, args) if name == 'send' else None
        r = c14.LibraryWorld.do_link(self, x, n, loc, args, name)
        if inf: [e for e in x.trace if isinstance(e, Ev) and e.kind == 'link'][-1].x['pkt'] = inf
        return r

def check(m, R, tier):
    R.rule('layout', 'a packet is one buffer that begins with one header')
    R.rule('type', 'the type letters of a packet belong to what it carries')
    R.rule('final', 'a packet is marked as final')
    R.rule('size', 'the size field of a packet holds the number of bytes sent, lowest byte first')
    ms = [('UaTcpConnection', c13.machine(m, Tcp))]
    for cls, owner, api in LIB:
        def extra(x, owner=owner):
            if owner is None: x.store[('.', entities.THIS, 'handler')] = entities.OWNERFN
            x.store[c14.LOPEN] = C(0); x.store[c14.LREQ] = C(0)
        M = entities.entity_machine(m, cls, Lib(owner), api, init_extra=extra)
        if 'send' in api:
            M.entries = lambda st, ent=M.entries: [(n, f) for n, f in ent(st) if n != 'send' or st.get(c14.LREQ) == C(1)]
        ms.append((entities.sname(cls), M))
    seen = set()
    for nm, M in ms:
        M.run(); k = 0
        for t in M.steps:
            for e in t.path.events('link'):
                if e.name == 'send': k += 1; packet(m, R, t.path, '%s:%s/%s' % (nm, M.statename(t.pre), t.entry), e, seen)
        R.info[nm] = '%d states, %d paths, %d packets' % (len(M.states), len(M.steps), k)
        R.check(k > 0, 'layout', nm + ':sends', nm, 'nothing is ever sent')
    # ---- the channel layer marks what it sends as final
    M = c14.machine(m).run()
    for t in M.steps:
        for e in t.path.events('send'):
            if c14.sname(e.name) in KIND:
                v = val(e, 'chunkType', 'val')
                R.check(v == C(enumv(m, 'UaChunkTypeEnum', 'final')), 'final', 'channel:%s' % c14.sname(e.name), e.src, 'the channel layer marks the message as %s' % show(v), t.path.trace)
    R.info['kinds of packet'] = sorted(seen)
    R.need('size', 8); R.need('type', 8); R.need('final', 8)

def fin(v): return strip(v) == C(ord('F'))

def packet(m, R, p, inst, e, seen):
    k = e.x['pkt']
    names = k['names']
    if not R.check(bool(names) and names[0] in ('MessageHeader', 'UaMessageHeader') and k['only'] and names.count(names[0]) == 1, 'layout', inst, e.src, 'what is sent consists of %s' % names, p.trace): return
    h = k['hdr']
    ty = c13.hdr_type(h)
    body = names[1:]
    if names[0] == 'MessageHeader':
        want = BODY.get(body[0]) if len(body) == 1 else None
    elif k['msg'] is not None: want = KIND.get(k['msg']) if not body else None
    else: want = 'OPN' if 'UaSecurityHeader' in body else 'CLO' if any('CloseSecureChannel' in b for b in body) else 'MSG' if 'UaSecurityTokenHeader' in body else None
    R.check(want is not None and ty == want, 'type', inst + ':' + '+'.join(names), e.src, 'a packet that carries %s is sent as %s' % ('+'.join(body) or k['msg'], ty), p.trace)
    seen.add('%s: %s' % (ty, '+'.join(body) or k['msg']))
    f = h.x['snap'].get(('.', ('.', h.x['loc'], 'isFinal'), 'val'))
    ok = fin(f) if k['msg'] is None else letter(p, f, m)
    R.check(ok, 'final', inst, h.src, 'the chunk mark is %s' % show(f), p.trace)
    b = k['bytes']
    size = k['size']
    ok = b is not None and all(byte(p, v, size, i) for i, v in enumerate(b))
    R.check(ok, 'size', inst, e.src, 'the size field holds %s, not the number of bytes sent, %s' % (', '.join(show(v) for v in b or ()), show(size)), p.trace)

def letter(p, f, m):
    """the chunk mark is F just when the message is marked as final"""
    e = [dict(v['c']) for k, v in m.enums.items() if k.endswith('UaChunkTypeEnum')]
    ms = p.events('message')
    if len(e) != 1 or not ms or strip(f)[0] != 'c': return False
    v = ('in', c14.deep(ms[-1].obj, ('chunkType', 'val')))
    c = C(e[0]['final'])
    lo, hi = p.facts.bounds(add(v, c, -1))
    no = any(isinstance(q, Fact) and {q.a, q.b} == {v, c} and (q.op, q.truth) in (('==', False), ('!=', True)) for q in p.trace)
    no = no or (lo is not None and lo > 0) or (hi is not None and hi < 0) or any(eq(p, v, C(o)) for n, o in e[0].items() if n != 'final')
    return (strip(f) == C(ord('F'))) == (not no)

def byte(p, v, size, i):
    """v is byte i of size"""
    v = low(v)
    if size[0] == 'c': return v[0] == 'c' and v[1] & 255 == (size[1] >> (8 * i)) & 255
    if i == 0: return eq(p, v, low(size)) or v == low(size)
    for w in (('bin', '>>', size, C(8 * i)), ('bin', '>>', low(size), C(8 * i)), ('bin', '/', size, C(256 ** i))):
        if v == w: return True
    # a chain of shifts
    k = 0
    while v[0] == 'bin' and v[1] == '>>' and v[3][0] == 'c': k += v[3][1]; v = low(v[2])
    return k == 8 * i and (v == low(size) or eq(p, v, low(size)))

def low(v):
    while True:
        if v[0] == 'cast': v = v[3]
        elif v[0] == 'bin' and v[1] == '&' and v[3] == C(255): v = v[2]
        elif v[0] == 'bin' and v[1] == '&' and v[2] == C(255): v = v[3]
        elif v[0] == 'bin' and v[1] == '%' and v[3] == C(256): v = v[2]
        else: return v

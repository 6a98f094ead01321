"""C18: the service component is explored as a closed machine (every encoded message, any content, from every abstract
state). Each answer it sends is followed back to the request on its path: the type id found in the request and the
constant type id encoded in the answer belong together (OPC UA numbers), the request handle encoded is the one decoded,
the connection, channel and request number are those of the message, the payload is the whole encoded answer; a request
that is accepted has exactly one answer. The channel's part (request numbers echoed on the wire) is C14."""
from sa.model import AnalysisError
from checks.services import *

TECHNIQUE = 'static value-provenance analysis of the service machine (path-sensitive abstract interpretation, fixpoint over abstract states)'
ASSUMPTIONS = ['the binary codec decodes and encodes requests and responses as C02 states', 'an encoded response fits a packet', 'the codec writes a container as its type id followed by its message']

def check(m, R, tier):
    R.rule('type', 'an answer is encoded with the response type id that belongs to the type id found in the request, and the request is decoded as that type')
    R.rule('handle', 'an answer carries the request handle decoded from the request')
    R.rule('route', 'an answer goes to the connection, secure channel and request number of the message, under the session the channel has then')
    R.rule('whole', 'an answer carries the whole encoded response')
    R.rule('once', 'an accepted request has exactly one answer, any other none')
    R.rule('requests', 'requests are decoded from the whole data of the message')
    M = machine(m).run()
    R.info['states'] = len(M.states); R.info['steps'] = len(M.steps)
    seen = set()
    for t in M.steps:
        p = t.path; q = Req(t)
        inst = '%s/%s%s' % (M.statename(t.pre) or '-', t.entry, ':' + q.kind if q.kind else '')
        if t.entry != IND:
            R.check(not q.ans, 'once', inst, where(p), 'an answer is sent to nobody\'s request', p.trace)
            continue
        R.check(len(q.ans) <= 1, 'once', inst + ':most', where(p), '%d answers to one request' % len(q.ans), p.trace)
        for d in q.ids + q.req:
            ap = [a for a in p.events('append') if a.obj == d.obj and a.i < d.i]
            ok = len(ap) == 1 and at(ap[0].args[0], ('.', msg_root(IND), 'data')) and ap[0].args[1] == ('in', ('.', msg_root(IND), 'length'))
            R.check(ok, 'requests', inst, d.src, 'a request is decoded from something else than the data of the message', p.trace)
        for e in q.ans:
            if not R.check(q.kind is not None and len(q.req) == 1, 'type', inst + ':known', e.src, 'something is answered that was not found to be a known request', p.trace): continue
            seen.add(q.kind)
            rn = 'app::ua::Ua%sReq' % q.kind
            if rn in m.recs: R.check(strip_cv(q.req[0].name) == rn, 'type', inst + ':request', q.req[0].src, 'a %s request is decoded as %s' % (q.kind, sname(q.req[0].name)), p.trace)
            c = q.enc(e)
            if not R.check(c is not None and 'id' in c.x['v'], 'whole', inst, e.src, 'an answer is sent that was not encoded', p.trace): continue
            R.check(c.x['v']['id'] == C(IDS[q.kind][1]), 'type', inst, c.src, 'a %s request is answered with type id %s, not %d' % (q.kind, show(c.x['v']['id']), IDS[q.kind][1]), p.trace)
            R.check(eq(p, c.x['v']['handle'], q.req[0].x['v']['handle']), 'handle', inst, c.src, 'the handle sent is %s' % show(c.x['v']['handle']), p.trace)
            for f in ('connectionId', 'secureChannelId', 'requestId'):
                R.check(eq(p, val(e, 'hdr', f), hdr(f)), 'route', inst + ':' + f, e.src, 'the %s of the answer is %s' % (f, show(val(e, 'hdr', f))), p.trace)
            a = [s for s in q.assoc if s.i < e.i]
            want = val(a[-1], 'hdr', 'sessionId') if a else hdr('sessionId')
            R.check(eq(p, val(e, 'hdr', 'sessionId'), want), 'route', inst + ':session', e.src, 'the answer names session %s, the channel has %s' % (show(val(e, 'hdr', 'sessionId')), show(want)), p.trace)
            cp = [k for k in p.events('memcpy') if c.i < k.i < e.i and at(k.args[0], ('.', e.obj, 'data'))]
            ok = len(cp) == 1 and (c.obj, cp[0].args[1], cp[0].args[2]) in cp[0].x['bufs'] and val(e, 'length') == cp[0].args[2]
            one = [k for k in p.events('encode') if k.obj == c.obj]
            R.check(ok and one == [c], 'whole', inst, e.src, 'the answer does not carry exactly the encoded response', p.trace)
        acc = accepted(t, q)
        if acc is not None and p.outcome == 'normal':
            R.check(len(q.ans) == acc, 'once', inst, where(p), 'an accepted request has %d answers' % len(q.ans), p.trace)
        elif acc is not None and acc and not q.other:
            R.fail('once', inst, where(p), 'an accepted request is not answered: %s' % p.outcome, p.trace)
    for k in IDS: R.check(k in seen, 'type', 'served:' + k, 'app/ua/service', '%s requests are never answered' % k)
    R.need('type', 10); R.need('handle', 5); R.need('route', 15); R.need('once', 8)

def accepted(t, q):
    """1: the request has to be answered, 0: must not, None: open"""
    if q.kind is None: return 0 if q.p.outcome == 'normal' else None
    if not q.req: return None
    if t.pre.get(('.', COMP, 'service')) == NULL: return None
    if q.kind == 'GetEndpoints': return 1
    if q.kind == 'CreateSession':
        al = q.p.events('alloc')
        if q.other: return None
        return 1 if any(e.ret == C(1) for e in al) else None
    if q.other or not q.mine(): return None
    if t.pre.get(BUSY) != C(1): return None
    if q.kind == 'ActivateSession': return 1
    return None

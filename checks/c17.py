"""C17: the client and server connections and the secure channels on top of them are explored as closed machines (public
members, any link event, any data, failing sends and connects, timers), and so is the UA transport component with one of
its pooled connections. From the state after construction every abstract state is reached; on each path on which the link
fails, the peer closes, a send fails or the timer expires the machine ends without an open link, in its initial state, and
tells its owner exactly once; the owner is told of an establishment once and only on paths that complete the acknowledge
exchange; a connection of the transport component that ends while a channel is bound indicates its release exactly once."""
from sa.model import AnalysisError
from checks.entities import *
from checks.c11 import eq, where, val
from checks import c13

TECHNIQUE = 'static typestate analysis of the connection machines (path-sensitive abstract interpretation, fixpoint over abstract states)'
ASSUMPTIONS = ['the binary codec decodes and encodes headers as C02 states', 'a link whose failure was reported is closed (C08)', 'the owner does not destroy the connection from within a callback']

MACHINES = [('app::ua::ClientConnection', 'app::ua::OpcUaConnectionHandler', ('connect', 'close')),
            ('app::ua::ServerConnection', 'app::ua::OpcUaConnectionHandler', ('connect', 'accept', 'close')),
            ('app::ua::OpcUaClientSecureChannel', None, ('open', 'close')),
            ('app::ua::OpcUaServerSecureChannel', None, ('open', 'close'))]

def links(m_, st, open_=True):
    out = []
    for k, v in st.items():
        if k[0] == '.' and k[2] == '#live' and v == C(1) and World.obj_kind(None, k[1]) == 'link':
            if not open_ or st.get(('.', k[1], '#st')) != C(0): out.append(k[1])
    return out

def failures(p):
    out = []
    for e in p.events():
        if e.kind == 'fire' and e.name in ('link-error', 'timer'): out.append(e)
        if e.kind == 'link' and e.name == 'receive' and e.x.get('res') in ('closed', 'error'): out.append(e)
        if e.kind == 'link' and e.name == 'send' and e.ret == C(-1): out.append(e)
    return out

def fsm(st): return {k: v for k, v in st.items() if k[0] == '.' and k[2] == 'state' and v[0] == 'ptr'}

def typed(p, hb, s): return hb is not None and all(eq(p, b, C(ord(ch))) for b, ch in zip(hb, s))

def check(m, R, tier):
    R.rule('torn-down', 'when the link fails, the peer closes, a send fails or the timer expires, the connection ends without an open link and in its idle state')
    R.rule('told-once', 'a connection that ends tells its owner exactly once, and tells of an end only when it ends')
    R.rule('established', 'an establishment is told once, and only when hello and acknowledge were exchanged')
    R.rule('reusable', 'from the idle state the connection can be used again')
    R.rule('attended', 'no stage waits with a dead link and without a timer')
    R.rule('handled', 'no released link or timer is used', failonly=True)
    for cls, owner, api in MACHINES:
        pol = EntityWorld(owner)
        def extra(x):
            if owner is None: x.store[('.', THIS, 'handler')] = OWNERFN
        M = entity_machine(m, cls, pol, api, init_extra=extra).run()
        nm = sname(cls)
        R.info[nm] = '%d states, %d paths' % (len(M.states), len(M.steps))
        idle = {repr(sorted(fsm(M.freeze(p)).items(), key=repr)) for p in M.inits}
        isidle = lambda st: repr(sorted(fsm(st).items(), key=repr)) in idle
        used = 0; told = set()
        for t in M.steps:
            p = t.path
            inst = '%s:%s/%s' % (nm, M.statename(t.pre), t.entry)
            for e in p.events('bad'): R.fail('handled', inst, e.src, e.x['msg'], p.trace)
            note = [(kind(e.name), e) for e in p.events('notify')]
            told |= {k for k, e in note}
            ends = [e for k, e in note if k in ('closed', 'error')]
            f = failures(p)
            if f:
                R.check(isidle(t.post) and not links(M, t.post), 'torn-down', inst + ':' + f[0].name, f[0].src or where(p), 'after %s the connection is left in %s%s' % (f[0].name, M.statename(t.post), ' with an open link' if links(M, t.post) else ''), p.trace)
                if not isidle(t.pre) and owner_knows(t, M, owner):
                    R.check(len(ends) == 1, 'told-once', inst + ':' + f[0].name, f[0].src or where(p), 'after %s the owner is told %d times' % (f[0].name, len(ends)), p.trace)
            R.check(len(ends) <= 1, 'told-once', inst + ':most', where(p), 'the owner is told %d times' % len(ends), p.trace)
            if ends:
                R.check(isidle(t.post) and not links(M, t.post), 'torn-down', inst + ':told', ends[0].src, 'the owner is told of an end but the connection is left in %s' % M.statename(t.post), p.trace)
            if not isidle(t.pre) and isidle(t.post) and not ends:
                R.check(t.entry == 'close' or not owner_knows(t, M, owner), 'told-once', inst + ':silent', where(p), 'the connection ends and the owner is not told', p.trace)
            if isidle(t.post):
                R.check(not links(M, t.post), 'torn-down', inst + ':idle', where(p), 'an idle connection keeps an open link', p.trace)
            if t.entry == 'close' and owner is not None and t.pre.get(CONN) == C(1):
                R.check(isidle(t.post), 'torn-down', inst + ':closed', where(p), 'a connected connection does not end on close', p.trace)
            # ---- establishment
            for k, e in note:
                if k == 'connected' and owner is not None:
                    R.check(e.x['conn'] == C(0), 'established', inst + ':once', e.src, 'the owner is told twice that the connection is established', p.trace)
                    d = [q for q in p.events('decode') if q.i < e.i and not q.x.get('threw')]
                    hd = [q for q in d if sname(q.name) == 'MessageHeader']
                    ack = [q for q in d if sname(q.name) == 'AcknowledgeMessage']
                    hel = [q for q in d if sname(q.name) == 'HelloMessage']
                    snd = [q for q in p.events('link') if q.name == 'send' and q.i < e.i and q.ret == C(1)]
                    cl = bool(hd and ack) and typed(p, hd[-1].x['head'], 'ACK') and e.x['hello'] == C(1)
                    sv = bool(hd and hel and snd) and typed(p, hd[-1].x['head'], 'HEL') and snd[-1].x.get('last') == 'AcknowledgeMessage' and snd[-1].i > hel[-1].i
                    R.check(cl or sv, 'established', inst, e.src, 'the owner is told of an establishment without the acknowledge exchange', p.trace)
                    R.check(not isidle(t.post) and not ends, 'established', inst + ':stays', e.src, 'an establishment is told but the connection is idle', p.trace)
                if k == 'data' and owner is not None:
                    R.check(e.x['conn'] == C(1), 'established', inst + ':data', e.src, 'data is passed on before the connection is established', p.trace)
            if owner is not None and t.post.get(CONN) != C(1) and not isidle(t.post) and t.pre.get(CONN) != C(1):
                # a completed exchange is told
                snd = [q for q in p.events('link') if q.name == 'send' and q.ret == C(1) and q.x.get('last') == 'AcknowledgeMessage']
                R.check(not snd, 'established', inst + ':told', where(p), 'the acknowledge exchange completed and the owner is not told', p.trace)
            if isidle(t.pre) and t.entry in ('connect', 'accept', 'open') and p.outcome == 'normal':
                R.check(not isidle(t.post) and bool(links(M, t.post)), 'reusable', inst, where(p), 'an idle connection does not take up a new link', p.trace); used += 1
        R.check(bool(used), 'reusable', nm + ':any', m.rec(cls).get('l', cls), 'the connection is never used')
        if owner is not None:
            for k in ('connected', 'data', 'error'): R.check(k in told, 'established' if k != 'error' else 'told-once', '%s:any:%s' % (nm, k), m.rec(cls).get('l', cls), {'connected': 'no establishment is ever told to the owner', 'data': 'received data is never told to the owner', 'error': 'no failure is ever told to the owner'}[k])
        for k, st in M.states.items():
            if isidle(st): continue
            armed = any(v == C(1) and st.get(('.', kk[1], '#live')) == C(1) for kk, v in st.items() if kk[0] == '.' and kk[2] == '#st' and World.obj_kind(None, kk[1]) == 'timer')
            R.check(bool(links(M, st)) or armed, 'attended', nm + ':' + M.statename(st), cls, 'a stage waits with a dead link and no timer: %s' % M.statename(st))
    transport(m, R)
    R.need('torn-down', 20); R.need('told-once', 20); R.need('established', 4); R.need('attended', 6); R.need('reusable', 4)

def owner_knows(t, M, owner):
    """a channel whose own state is idle was never handed to its owner as open"""
    if owner is not None: return True
    own = {k: v for k, v in fsm(t.pre).items() if k == ('.', THIS, 'state')}
    ini = {k: v for k, v in fsm(M.freeze(M.inits[0])).items() if k == ('.', THIS, 'state')}
    return own != ini

def transport(m, R):
    M = c13.machine(m).run()
    E, BUSY, BOUND, UID = c13.ENT, c13.BUSY, c13.BOUND, c13.UID
    R.info['UaTcpConnection'] = '%d states, %d paths' % (len(M.states), len(M.steps))
    OPEN = 'MsgUaOpenSecureChannelRsp'
    chan = ('in', ('.', msg_root(OPEN), 'secureChannelId'))
    hold = None
    for t in M.steps:
        if t.entry == OPEN and t.post.get(BUSY) == C(1) and t.post.get(BOUND) == C(1) and t.path.outcome == 'normal' and [e for e in t.path.events('link') if e.name == 'send']:
            h = {k for k, v in t.path.x.store.items() if root(k) == E and v == chan}
            hold = h if hold is None else hold & h
    if not hold:
        opens = [t for t in M.steps if t.entry == OPEN and t.pre.get(BUSY) == C(1) and [e for e in t.path.events('link') if e.name == 'send']]
        if not opens:
            R.fail('told-once', 'UaTcpConnection:any', 'app/ua/transport', 'no response to the opening of a channel is ever sent'); return
        R.fail('told-once', 'UaTcpConnection:bound', where(opens[0].path), 'the connection does not remember the channel it opened', opens[0].path.trace)
        return
    mem = [('in', k) for k in hold]
    owned = lambda st: [l for l in links(M, st, False) if any(v == ('ptr', l) and root(k) == E for k, v in st.items())]
    for t in M.steps:
        p = t.path
        inst = 'UaTcpConnection:%s/%s' % (M.statename(t.pre), t.entry)
        if t.pre.get(BUSY) is None or t.post.get(BUSY) is None: continue
        ind = [e for e in p.events('send') if sname(e.name) == 'MsgUaConnectionReleaseInd']
        f = [e for e in failures(p) if e.kind == 'link' or e.kind == 'fire']
        for e in ind: R.check(val(e, 'connectionId') == UID or p.events('release-other') or p.events('other'), 'told-once', inst + ':connection', e.src, 'the release of connection %s is indicated' % show(val(e, 'connectionId')), p.trace)
        if t.pre.get(BUSY) == C(1):
            if f and not p.events('release-other') and not p.events('other'):
                R.check(t.post.get(BUSY) == C(0), 'torn-down', inst + ':' + f[0].name, f[0].src or where(p), 'after %s the connection is left open' % f[0].name, p.trace)
            want = []
            bound = t.pre.get(BOUND) == C(1)
            if t.post.get(BUSY) == C(0):
                R.check(not owned(t.post), 'torn-down', inst + ':link', where(p), 'a released connection keeps its link', p.trace)
                if t.entry == OPEN: want = [chan] + ([mem] if bound else [])
                elif bound: want = [mem]
            elif t.entry == OPEN:
                # a channel taken up replaces the bound one; one not taken up (a late answer) is told so
                took = [e for e in p.events('link') if e.name == 'send']
                want = ([mem] if bound else []) if took else [chan]
            got = [val(e, 'secureChannelId') for e in ind]
            if t.entry == 'MsgUaConnectionReleaseReq': R.check(len(got) <= 1 and all(any(eq(p, g, v) for v in mem) for g in got), 'told-once', inst + ':asked', where(p), 'the channel layer is told %d times' % len(got), p.trace)
            elif p.outcome == 'normal':
                ok = len(got) == len(want) and all(any(eq(p, g, v) for g in got for v in (w if isinstance(w, list) else [w])) for w in want)
                R.check(ok, 'told-once', inst, where(p), 'the release of %d channels is indicated, not of %d (%s)' % (len(got), len(want), ', '.join(show(g) for g in got)), p.trace)
        elif t.entry == OPEN and p.outcome == 'normal' and t.pre.get(BUSY) == C(0):
            if eq(p, ('in', ('.', msg_root(OPEN), 'connectionId')), UID):
                R.check(len(ind) == 1 and eq(p, val(ind[0], 'secureChannelId'), chan), 'told-once', inst + ':late', where(p), 'a channel opened for a released connection is not told so', p.trace)

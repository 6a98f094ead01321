"""C15: the service component with one of its pooled sessions is explored as a closed machine: every encoded message with
any content, from every abstract state it can reach. Ghost state says whether the session was created (taken from the
pool) and whether an activation was answered; the paths that activate show which members remember the channel. On every
path a service of a session is executed only for a created, activated session named by the channel, after the channel of
the message was found equal to the remembered one; activation, closing and creation change only the session they name,
and every other request changes nothing and is not answered."""
from sa.model import AnalysisError
from checks.services import *
from checks.c11 import neq
from checks.services import entity as ent_of

TECHNIQUE = 'static typestate analysis of the session machine (path-sensitive abstract interpretation, fixpoint over abstract states)'
ASSUMPTIONS = ['the binary codec decodes requests as C02 states', 'the session id of a message is the one associated with its channel (C14)']

def check(m, R, tier):
    R.rule('execute', 'a service of a session is executed only for a created and activated session and after the channel of the message was found to be the one bound to it')
    R.rule('activate', 'only a created session is activated; activating binds it to the channel of the message and associates that channel with it')
    R.rule('bound', 'nothing but an activation changes the channel a session is bound to')
    R.rule('create', 'a session is created only by taking a free one, and the answer names it')
    R.rule('close', 'closing ends the session; a bound session is closed only from its channel')
    R.rule('refuse', 'a request that is not executed sends nothing and changes no session')
    M = machine(m).run()
    R.info['states'] = len(M.states); R.info['steps'] = len(M.steps)
    chan = hdr('secureChannelId')
    ans = lambda q, k: [e for e in q.ans if q.enc(e) is not None and q.enc(e).x['v'].get('id') == C(IDS[k][1])]
    hold = None
    for t in M.steps:
        q = Req(t)
        if t.entry == IND and ans(q, 'ActivateSession') and t.path.outcome == 'normal':
            h = {k for k, v in t.path.x.store.items() if root(k) == ENT and v == chan}
            hold = h if hold is None else hold & h
    if hold is None:
        R.fail('activate', 'any', ENTCLS, 'no session is ever activated'); return
    R.check(bool(hold), 'activate', 'bind', ENTCLS, 'activating a session does not remember the channel')
    R.info['channel kept in'] = sorted(show(k) for k in hold)
    mem = [('in', k) for k in hold]
    n = dict.fromkeys(IDS, 0)
    for t in M.steps:
        p = t.path; q = Req(t)
        inst = '%s/%s%s' % (M.statename(t.pre) or '-', t.entry, ':' + q.kind if q.kind else '')
        live, act = t.pre.get(BUSY) == C(1), t.pre.get(ACTED) == C(1)
        if t.entry != IND:
            if t.pre.get(BUSY) is not None and t.post.get(BUSY) is not None:
                R.check(ent_of(t.pre) == ent_of(t.post), 'refuse', inst, where(p), 'a session changes although nothing asked for it', p.trace)
            continue
        for k in IDS: n[k] += bool(ans(q, k))
        onch = any(eq(p, chan, v) for v in mem)
        act_ans, rd = ans(q, 'ActivateSession'), [e for k in SESSION for e in ans(q, k)]
        for e in rd:
            R.check(live and act, 'execute', inst + ':state', e.src, 'a service is executed for a session that is not activated', p.trace)
            R.check(eq(p, hdr('sessionId'), UID), 'execute', inst + ':named', e.src, 'a service is executed for a session that is not the one of the channel', p.trace)
            R.check(onch, 'execute', inst + ':channel', e.src, 'a service is executed although the channel was not found to be the one bound to the session', p.trace)
        # any response of a session service that is encoded counts as executed
        for k in SESSION:
            for e in p.events('encode'):
                if e.x['v'].get('id') == C(IDS[k][1]): R.check(live and act and onch, 'execute', inst + ':encoded', e.src, 'a service runs outside an activated session on its own channel', p.trace)
        offch = any(neq(p, chan, v) for v in mem)
        if q.kind in SESSION and live and act and not neq(p, hdr('sessionId'), UID) and not const(p, hdr('sessionId')) and not offch and q.req and not q.other:
            R.check(len(rd) == 1, 'execute', inst + ':served', where(p), 'a service is not executed although the session is activated on this channel', p.trace)
        for e in act_ans:
            R.check(live and q.mine(), 'activate', inst + ':named', e.src, 'a session is activated that was not created or not named by the request', p.trace)
            R.check(t.post.get(BUSY) == C(1) and all(eq(p, p.x.get(h), chan) for h in hold), 'activate', inst + ':bind', e.src, 'an activated session is not bound to the channel of the request', p.trace)
            ok = len(q.assoc) == 1 and eq(p, val(q.assoc[0], 'hdr', 'sessionId'), UID) and all(eq(p, val(q.assoc[0], 'hdr', f), hdr(f)) for f in ('connectionId', 'secureChannelId'))
            R.check(ok, 'activate', inst + ':associate', e.src, 'the channel of the request is not associated with the session', p.trace)
        for e in q.assoc: R.check(bool(act_ans) or p.outcome != 'normal', 'activate', inst + ':associate only', e.src, 'a channel is associated with a session that is not activated', p.trace)
        if not act_ans and live and t.post.get(BUSY) == C(1):
            for h in hold: R.check(p.x.get(h) == ('in', h) or p.x.get(h) == t.pre.get(h), 'bound', inst, where(p), 'the channel of a session becomes %s' % show(p.x.get(h)), p.trace)
        for e in ans(q, 'CreateSession'):
            c = q.enc(e)
            new = not live and t.post.get(BUSY) == C(1)
            R.check(new and q.kind == 'CreateSession', 'create', inst + ':new', e.src, 'a session is answered as created that was not taken from the pool', p.trace)
            for f in ('sessionId', 'authenticationToken'):
                R.check(eq(p, c.x['v'].get(f), UID), 'create', inst + ':' + f, c.src, 'the answer names %s as %s' % (show(c.x['v'].get(f)), f), p.trace)
        if not live and t.post.get(BUSY) == C(1):
            R.check(q.kind == 'CreateSession' and len(ans(q, 'CreateSession')) == 1, 'create', inst, where(p), 'a session comes to exist without a create request and its answer', p.trace)
            for h in hold:
                if h[2] == '!': R.check(t.post.get(('.', h[1], '?')) == C(0), 'create', inst + ':unbound', where(p), 'a new session is bound to a channel of an earlier one', p.trace)
        for e in ans(q, 'CloseSession'):
            R.check(live and q.mine() and q.kind == 'CloseSession', 'close', inst + ':named', e.src, 'a session is closed that was not created or not named by the request', p.trace)
            R.check(t.post.get(BUSY) == C(0), 'close', inst + ':ends', e.src, 'a closed session stays open', p.trace)
            if act: R.check(onch, 'close', inst + ':channel', e.src, 'a bound session is closed from a channel that was not found to be its own', p.trace)
        if live and t.post.get(BUSY) == C(0):
            R.check(len(ans(q, 'CloseSession')) == 1, 'close', inst, where(p), 'a session ends without having been closed', p.trace)
        if q.kind == 'CloseSession' and live and q.mine() and q.req and not q.other and (not act or not offch):
            R.check(t.post.get(BUSY) == C(0), 'close', inst + ':served', where(p), 'a session is not closed although its channel asked for it', p.trace)
        if not q.ans:
            if t.pre.get(BUSY) is not None and t.post.get(BUSY) is not None:
                R.check(ent_of(t.pre) == ent_of(t.post), 'refuse', inst, where(p), 'a request that is not answered changes a session', p.trace)
            R.check(not q.sends, 'refuse', inst + ':silent', where(p), 'a request that is refused sends something', p.trace)
        if q.kind == 'GetEndpoints' and t.pre.get(BUSY) is not None: R.check(ent_of(t.pre) == ent_of(t.post), 'refuse', inst, where(p), 'a request without a session changes one', p.trace)
    for k in n:
        R.check(bool(n[k]), {'CreateSession': 'create', 'ActivateSession': 'activate', 'CloseSession': 'close'}.get(k, 'execute'), 'any:' + k, ENTCLS, '%s requests are never answered' % k)
    R.need('execute', 4); R.need('activate', 6); R.need('create', 3); R.need('close', 6); R.need('refuse', 20)

def const(p, v):
    """v was found equal to a constant (the number that names no session)"""
    lo, hi = p.facts.bounds(v) if p.x.isnum(v) else (None, None)
    return lo is not None and lo == hi

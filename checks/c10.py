"""C10: every machine that waits for a peer (the Modbus client, the Modbus server with its sessions, the UA transport
component with its connections, the client and server connections of the protocol library) is explored as a closed
machine. In every abstract state it can reach (also after exceptions) in which the peer is awaited a live timer with a
handler is armed; when nothing is awaited none is; an expiry ends the wait or starts a new attempt. The timer class
itself is explored on all paths: the time given to the kernel is, as a linear form over the clock and the argument,
the argument in microseconds from now, not periodic; stop gives zero; the handler runs only for a counted expiry."""
from sa.model import AnalysisError
from sa.interp import *
from sa.interp import Thrown
from sa.app import AppPolicy
from sa.machine import *
from checks.entities import EntityWorld, entity_machine
from checks.c11 import where, eq
from checks import c11, c12, c13, c17

TECHNIQUE = 'static typestate analysis of timers (path-sensitive abstract interpretation, fixpoint over abstract states) and linear normalisation of the expiry time'
ASSUMPTIONS = ['timerfd_settime and clock_gettime do not fail on valid arguments', 'a disarmed or restarted timerfd has no pending expiry (Linux)',
               'pool entries and timers are granted or refused at will']

CLOSED, OPEN, CONNECTING = C(0), C(1), C(2)

def objs(st, kind):
    return [k[1] for k, v in st.items() if k[0] == '.' and k[2] == '#live' and v == C(1) and World.obj_kind(None, k[1]) == kind]

def armed(st):
    return [l for l in objs(st, 'timer') if st.get(('.', l, '#st')) == C(1) and st.get(('.', l, '#h'), NULL)[0] == 'lam']

def lstate(st, l): return st.get(('.', l, '#st'))

def served(st):
    """links with a handler: those of a connection or session in use"""
    return [l for l in objs(st, 'link') if st.get(('.', l, '#h'), NULL)[0] == 'lam']

def open_links(M, st): return [l for l in served(st) if lstate(st, l) != CLOSED]

def entity_waits(M, st):
    w = open_links(M, st)
    return w or ([] if same_fsm(M, st) else [l for l in objs(st, 'timer')] or [0])

def client_waits(M, st):
    """the Modbus client: connecting, waiting for an answer or to send a request, or off line after it was started"""
    w = [l for l in served(st) if lstate(st, l) == CONNECTING]
    if st.get(c11.SENT) == C(1) or st.get(c11.N) == C(1): w += served(st)      # a request waits
    if not same_fsm(M, st): w += [l for l in served(st) if lstate(st, l) == CLOSED]
    return w

def same_fsm(M, st):
    ini = M.freeze(M.inits[0])
    return all(st.get(k) == v for k, v in c17.fsm(ini).items())

def check(m, R, tier):
    R.rule('armed', 'whenever the peer is awaited a timer with a handler is armed')
    R.rule('disarmed', 'when nothing is awaited no timer is left armed')
    R.rule('acts', 'the expiry of a timer ends the wait or starts a new attempt')
    R.rule('period', 'a timer is armed for a positive time')
    R.rule('exact', 'arming for N microseconds makes the timer expire once, N microseconds from now')
    R.rule('stopped', 'disarming clears the expiry')
    R.rule('counted', 'the handler of a timer runs only for an expiry the kernel counted')
    Ms = [('ModbusClient', c11.machine(m), client_waits), ('ModbusServer', c12.machine(m), open_links), ('UaTransport', c13.machine(m), open_links)]
    for cls, owner, api in c17.MACHINES:
        pol = EntityWorld(owner)
        def extra(x, owner=owner):
            if owner is None: x.store[('.', ('R', 'this'), 'handler')] = c17.OWNERFN
        Ms.append((c17.sname(cls), entity_machine(m, cls, pol, api, init_extra=extra), entity_waits))
    for nm, M, waits in Ms:
        M.run()
        R.info[nm] = '%d states, %d paths' % (len(M.states), len(M.steps))
        pre = {}
        for t in M.steps: pre.setdefault(id(t.post), t)
        seen = set()
        for t in [None] + M.steps:
            st = t.post if t else M.freeze(M.inits[0])
            inst = '%s:%s%s' % (nm, M.statename(st), '' if t is None else '/' + t.entry)
            tr = t.path.trace if t else None
            w = waits(M, st)
            if w: R.check(len(armed(st)) >= len(objs_in_use(nm, st)), 'armed', inst, where(t.path) if t else nm, 'waits for the peer in %s without a timer' % (M.statename(st) or 'use'), tr)
            elif not (nm == 'ModbusClient' and sending(M, st)):
                R.check(not armed(st), 'disarmed', inst, where(t.path) if t else nm, 'a timer is left running in %s, where nothing is awaited' % (M.statename(st) or 'use'), tr)
            if t is None: continue
            for e in t.path.events('timer'):
                if e.name == 'start' and e.args:
                    v = e.args[0]
                    R.check(v[0] == 'c' and v[1] > 0, 'period', inst + '@' + e.src, e.src, 'a timer is armed for %s microseconds' % show(v), tr)
            if t.entry == 'timer':
                f = [e for e in t.path.events('fire') if e.name == 'timer'][0]
                again = [e for e in t.path.events('link') if e.name == 'connect' and not e.x.get('threw')]
                moved = c17.fsm(t.post) != c17.fsm(t.pre) or nm == 'ModbusClient' and t.pre.get(c11.SENT) != t.post.get(c11.SENT)
                if nm == 'ModbusClient' and t.pre.get(c11.SENT) != C(1): moved = moved or bool(t.path.events('send'))    # a request was refused
                if waits(M, t.pre): moved = moved or not waits(M, t.post)
                else: moved = moved or bool(t.path.events('send')) or bool(t.path.events('link'))
                R.check(bool(again) or moved, 'acts', inst, f.src or where(t.path), 'the expiry in %s neither ends the wait nor starts a new attempt' % M.statename(t.pre), tr)
    timer_class(m, R)
    R.need('armed', 20); R.need('disarmed', 20); R.need('acts', 4); R.need('period', 5); R.need('exact', 1); R.need('stopped', 1); R.need('counted', 1)

def objs_in_use(nm, st):
    ls = open_links(None, st)
    return ls if ls else [0]

def sending(M, st):
    """a request of the Modbus client waits for the send delay"""
    return bool(armed(st)) and st.get(c11.SENT) != C(1) and any(lstate(st, l) == OPEN for l in served(st))

# ---- the timer class
class TimerPolicy(AppPolicy):
    max_loop = 3
    def hook(self, x, n, qn, this, args):
        if args is None: return NotImplemented
        q = short(qn).lstrip(':')
        if this is None and q == 'clock_gettime':
            l = x.deref(args[1]); e = x.event('clock', q, None, args, n)
            for f, r in (('tv_sec', (0, 2**40)), ('tv_nsec', (0, 10**9 - 1))):
                v = ('ev', e.i, f); x.xt[v] = 'i64'
                x.assume('>=', v, C(r[0])); x.assume('<=', v, C(r[1]))
                x.set(('.', l, f), v, log=False)
            return C(0)
        if this is None and q == 'timerfd_settime':
            l = x.deref(args[2])
            g = lambda a, b: x.get(('.', ('.', l, a), b))
            x.event('settime', q, None, args, n, sec=g('it_value', 'tv_sec'), nsec=g('it_value', 'tv_nsec'), isec=g('it_interval', 'tv_sec'), insec=g('it_interval', 'tv_nsec'))
            return C(0)
        if this is None and q == 'read':
            e = x.event('read', q, None, args, n)
            k = x.choose(3)
            e.x['ok'] = k == 0
            if k == 0: return args[2]
            if k == 1: return C(-1)
            return C(0)
        if this is not None and n.get('cls', '').startswith('std::function') and n['name'] == 'operator()':
            x.event('handler', '', this, args, n); return C(0)
        return NotImplemented

def norm(t):
    """linear form in which every remainder is written through the quotient"""
    k, d = lin(t)
    out = {}; kk = k
    for a, c in d.items():
        if a[0] == 'bin' and a[1] == '%' and a[3][0] == 'c':
            k2, d2 = norm(a[2]); kk += c * k2
            for b, v in d2.items(): out[b] = out.get(b, 0) + c * v
            q = ('bin', '/', a[2], a[3]); out[q] = out.get(q, 0) - c * a[3][1]
        elif a[0] == 'cast': 
            k2, d2 = norm(a[3]); kk += c * k2
            for b, v in d2.items(): out[b] = out.get(b, 0) + c * v
        else: out[a] = out.get(a, 0) + c
    return kk, {a: v for a, v in out.items() if v}

def timer_class(m, R):
    rec = m.rec('app::reactor::Timer')
    cls = rec['n']
    THIS = ('R', 'this')
    ABS = 1
    NANO = 10**9
    def paths(name, nargs):
        f = [g for g in m.method(cls, name, nargs) if g.get('body')]
        if len(f) != 1: raise AnalysisError('Timer::%s not found' % name)
        def go(x):
            x.ltype[THIS] = cls
            a = []
            for i in range(nargs):
                v = ('in', ('R', 'interval')); x.xt[v] = f[0]['p'][i]['tk'] if name == 'start' else 'i32'
                if name == 'start': x.assume('>=', v, C(1)); x.assume('<=', v, C(2**43))
                a.append(v)
            return x.call_fn(f[0], THIS, a)
        return explore(m, TimerPolicy(), go)
    I = ('in', ('R', 'interval'))
    done = 0
    for p in paths('start', 1):
        if p.outcome != 'normal': R.fail('exact', 'start:fails', where(p), 'arming a timer fails', p.trace); continue
        s = p.events('settime')
        if not R.check(len(s) == 1, 'exact', 'start:once', where(p), 'arming sets the timer %d times' % len(s), p.trace): continue
        e = s[0]
        done += 1
        R.check(e.x['isec'] == C(0) and e.x['insec'] == C(0), 'exact', 'start:once-only', e.src, 'the timer repeats every %s s %s ns' % (show(e.x['isec']), show(e.x['insec'])), p.trace)
        lo, hi = p.x.facts.bounds(e.x['nsec'])
        R.check(lo is not None and hi is not None and lo >= 0 and hi < NANO, 'exact', 'start:nsec', e.src, 'the nanoseconds given to the kernel may be %s..%s (%s)' % (lo, hi, show(e.x['nsec'])), p.trace)
        total = add(scale(e.x['sec'], NANO), e.x['nsec'])
        want = scale(I, 1000)
        fl = e.args[1]
        ck = p.events('clock')
        created = clock_of(m, cls)
        if fl == C(ABS):
            if not R.check(len(ck) == 1 and ck[0].args[0] == created, 'exact', 'start:clock', e.src, 'the absolute time is not taken from the clock of the timer', p.trace): continue
            want = add(want, add(scale(('ev', ck[0].i, 'tv_sec'), NANO), ('ev', ck[0].i, 'tv_nsec')))
        else: R.check(fl == C(0), 'exact', 'start:flags', e.src, 'the timer is armed with flags %s' % show(fl), p.trace)
        d = norm(add(total, want, -1))
        R.check(d == (0, {}), 'exact', 'start:time', e.src, 'the expiry differs from the requested time by %s ns' % show(mklin(*d)), p.trace)
    if not done: raise AnalysisError('Timer::start never arms')
    for p in paths('stop', 0):
        s = p.events('settime')
        ok = len(s) >= 1 and s[-1].x['sec'] == C(0) and s[-1].x['nsec'] == C(0)
        R.check(ok and p.outcome == 'normal', 'stopped', 'stop', s[-1].src if s else where(p), 'stop leaves the timer armed', p.trace)
    for p in paths('onFileDescriptorEvent', 1):
        h = p.events('handler'); r = p.events('read')
        for e in h:
            got = [q for q in r if q.i < e.i and q.x['ok']]
            R.check(len(got) == 1, 'counted', 'event:%s' % e.src, e.src, 'the handler runs although no expiry was read', p.trace)
        R.check(len(h) <= 1, 'counted', 'event:once', h[-1].src if h else where(p), 'the handler runs %d times for one expiry' % len(h), p.trace)
        if [q for q in r if q.x['ok']]:
            R.check(bool(h) or p.outcome != 'normal' or nohandler(p), 'counted', 'event:told', r[0].src, 'an expiry is read and the handler does not run', p.trace)

def nohandler(p):
    """the path found the handler empty"""
    return any(isinstance(f, Fact) for f in p.trace) and not p.events('handler') and any(isinstance(f, Fact) and 'handler' in repr(f) for f in p.trace)

def clock_of(m, cls):
    """the clock the timer descriptor was created for"""
    class P(AppPolicy):
        def hook(self, x, n, qn, this, args):
            if args is not None and this is None and short(qn).lstrip(':') == 'timerfd_create':
                x.event('tfd', '', None, args, n); return C(3)
            return NotImplemented
    out = set()
    for f in m.method(cls, 'create'):
        if not f.get('body'): continue
        def go(x):
            x.ltype[('R', 'this')] = cls; x.store[('.', ('R', 'this'), 'fd')] = C(-1)
            return x.call_fn(f, ('R', 'this'), [])
        for p in explore(m, P(), go):
            for e in p.events('tfd'): out.add(e.args[0])
    if len(out) != 1: raise AnalysisError('the clock of timers is not unique')
    return out.pop()

"""C20: bit provenance of the socket address given to connect/bind (every bit of port and address must be
the corresponding bit of the configured address bytes, in network order), provenance of the address from the
configuration message to the connect/listen call, and the linear form of the wire time stamp
(10^7*seconds + 10*microseconds + 116444736000000000, the 1601 to 1970 offset in 100 ns ticks)."""
from sa.model import AnalysisError
from sa.interp import *
from sa.machine import root
from sa.bits import bits
from sa.app import AppPolicy, entity, arg_val
from checks import common as K

TECHNIQUE = 'static bit-provenance and linear-form dataflow analysis over the AST (path-sensitive abstract interpretation)'

ASSUMPTIONS = ['little-endian host (x86-64)', 'gettimeofday returns 0 <= tv_usec < 1000000 and does not fail',
               'integer overflow of the time stamp expression does not occur before the year 30000']

def addr_bits(R, m, cls, meth, callee):
    fns = m.method(cls, meth)
    if not fns: raise AnalysisError('%s::%s not found' % (cls, meth))
    fn = fns[0]
    class P(AppPolicy): pass
    def entry(x):
        this = entity(x, m, cls)
        a = ('R', 'address')
        x.ltype[a] = 'app::reactor::LinkAddr'
        return x.call_fn(fn, this, [('ptr', a)])
    n = 0
    # the peer address must be what the OS call gets, in memory order
    class P2(AppPolicy):
        def hook(self, x, nn, qn, this, args):
            if short(qn) in (callee, '::' + callee) and args is not None and len(args) == 3:
                p = args[1]
                loc = x.deref(p)
                def field(*path):
                    l = loc
                    for q in path: l = ('.', l, q)
                    return x.get(l)
                got = {'port': field('sin_port'), 'addr': field('sin_addr', 's_addr'), 'family': field('sin_family'), 'len': args[2]}
                e = x.event('os', callee, None, args, nn, got=got, x=x)
                r = ('ev', e.i, callee); x.xt[r] = 'i32'
                return r
            return AppPolicy.hook(self, x, nn, qn, this, args)
    ps = explore(m, P2(), entry)
    for p in ps:
        for e in p.events('os'):
            n += 1
            x = p.x
            base = ('.', ('R', 'address'), 'data')
            def want(idx, k): return ('b', ('in', ('[]', base, C(idx))), k)
            for name, first, w in (('port', 4, 16), ('addr', 0, 32)):
                got = bits(x, e.x['got'][name], w)
                ok = True; det = ''
                for i in range(w):
                    exp = want(first + i // 8, i % 8)
                    g = got[i]
                    if g != exp:
                        ok = False
                        det = 'bit %d of the %s is %s, expected bit %d of byte %d of the configured address' % (
                            i, name, 'constant %d' % g if g in (0, 1) else ('bit %d of %s' % (g[2], show(g[1])) if g else 'not a copy of one input bit'), i % 8, first + i // 8)
                        break
                R.check(ok, 'sockaddr-bits', '%s::%s/%s' % (cls, meth, name), e.src, det, p.trace)
            R.check(e.x['got']['family'] == C(2), 'sockaddr-family', '%s::%s' % (cls, meth), e.src,
                    'address family is %s, expected AF_INET' % show(e.x['got']['family']), p.trace)
    R.check(n > 0, 'sockaddr-reached', '%s::%s' % (cls, meth), fn['l'], 'no path reaches ::%s' % callee)

def clock(R, m):
    fns = [f for f in m.fns.values() if f['name'] == 'getCurrentDateTime' and f.get('body')]
    if not fns: raise AnalysisError('getCurrentDateTime not found')
    def entry(x): return x.call_fn(fns[0], None, [])
    for p in explore(m, AppPolicy(), entry):
        R.check(p.outcome == 'normal' and K.is_now(p, p.ret), 'clock-formula', 'getCurrentDateTime', fns[0]['l'],
                'result is %s, expected 10^7*tv_sec + 10*tv_usec + 116444736000000000 of the current time' % show(p.ret), p.trace)

def flow(R, m):
    """configured address reaches connect/listen unchanged"""
    # class, entry method, parameter type -> the call that must get the address and the expected source
    def run(cls, meth, ptype, src_of, callee, setup=None, inst=None):
        fns = m.method(cls, meth, ptype=ptype)
        if not fns: raise AnalysisError('%s::%s not found' % (cls, meth))
        fn = fns[0]
        hits = 0
        class P(AppPolicy):
            def hook(self, x, n, qn, this, args):
                if args is not None and short(qn) in ('app::reactor::LinkInterface::connect', 'app::reactor::AcceptorInterface::listen',
                                                       'app::reactor::Link::connect', 'app::reactor::Acceptor::listen'):
                    l = x.deref(args[0])
                    data = [x.get(('[]', ('.', l, 'data'), C(i))) for i in range(6)]
                    x.event('target', short(qn), this, args, n, data=data)
                    return C(0)
                return AppPolicy.hook(self, x, n, qn, this, args)
        def entry(x):
            this = entity(x, m, cls)
            args = []
            for i, q in enumerate(fn['p']):
                r = ('R', 'arg%d' % i)
                x.ltype[r] = strip_cv(q['t'])
                args.append(('ptr', r))
            x.call_fn(fn, this, args)
        for p in explore(m, P(), entry):
            for e in p.events('target'):
                hits += 1
                srcs = set()
                good = True
                for i, v in enumerate(e.x['data']):
                    # strip ...data[i]
                    s = src_elem(v)
                    good = good and s is not None and s[1] == i and src_of(s[0])
                    if s: srcs.add(s[0])
                R.check(good and len(srcs) == 1, 'address-flow', inst or '%s::%s' % (cls, meth), e.src,
                        'address given to %s is %s, not the configured one' % (e.name, [show(v) for v in e.x['data']]), p.trace)
        return hits
    def src_elem(v):
        """content term -> (address term, byte index)"""
        if v[0] == 'in' and v[1][0] == '[]' and v[1][2][0] == 'c' and v[1][1][0] == '.' and v[1][1][2] == 'data':
            return v[1][1][1], v[1][2][1]
        if v[0] == 'fld' and isinstance(v[2], tuple) and v[2][0] == '[]' and v[2][1][0] == 'c' and v[1][0] == 'fld' and v[1][2] == 'data':
            return v[1][1], v[2][1][1]
        return None
    def from_items(loc): return loc[0] == '.' and loc[2] == 'addr' and loc[1][0] == '[]' and loc[1][1] == ('.', ('R', 'arg0'), 'items')
    def from_msg(loc): return loc == ('.', ('R', 'arg0'), 'addr')
    def from_arg(loc): return loc == ('R', 'arg0')
    h = run('Modbus', 'receive', 'MsgModbusConfigReq', from_items, None)
    R.check(h >= 2, 'address-used', 'Modbus::receive(MsgModbusConfigReq)', 'src/app/modbus/Modbus.cpp', 'configuration reaches %d connect/listen calls, expected client and server' % h)
    h = run('UaTransport', 'receive', 'MsgUaTransportConfigReq', from_msg, None)
    R.check(h >= 1, 'address-used', 'UaTransport::receive(MsgUaTransportConfigReq)', 'src/app/ua/transport', 'configuration reaches no listen call')

def dialled(base):
    """records the address bytes given to connect"""
    class W(base):
        def do_link(self, x, n, loc, args, name):
            if name == 'connect' and args:
                l = x.deref(args[0])
                x.event('dial', '', loc, args, n, data=[x.get(('[]', ('.', l, 'data'), C(i))) for i in range(6)])
            return base.do_link(self, x, n, loc, args, name)
    return W

def dial(R, m):
    """the client side connections connect to the address their owner gave, the Modbus client on every attempt"""
    from checks import c11, c17
    from checks.entities import EntityWorld, entity_machine, THIS, OWNERFN
    for cls, owner, api in c17.MACHINES:
        full = m.rec(cls)['n']
        op = [a for a in api for f in m.method(full, a) if any('LinkAddr' in q['t'] for q in f['p'])]
        if not op: continue
        def extra(x):
            if owner is None: x.store[('.', THIS, 'handler')] = OWNERFN
        M = entity_machine(m, cls, dialled(EntityWorld)(owner), api, init_extra=extra).run()
        nm, n = cls.rsplit('::', 1)[-1], 0
        for t in M.steps:
            for e in t.path.events('dial'):
                n += 1
                want = [('in', ('[]', ('.', ('T', 'arg0'), 'data'), C(i))) for i in range(6)]
                R.check(t.entry in op and e.x['data'] == want, 'address-flow', '%s::%s' % (nm, t.entry), e.src, 'the address connected to is %s, not the one given' % [show(v) for v in e.x['data']], t.path.trace)
        R.check(n > 0, 'address-used', nm, m.rec(cls).get('l', nm), 'the address given is never connected to')
    M = c11.machine(m, dialled(c11.ClientWorld)).run()
    n = 0
    for t in M.steps:
        for e in t.path.events('dial'):
            n += 1
            ls = {v[1][1][1] for i, v in enumerate(e.x['data']) if v[0] == 'in' and v[1][0] == '[]' and v[1][2] == C(i) and v[1][1][0] == '.' and v[1][1][2] == 'data'}
            ok = len(ls) == 1 and all(v[0] == 'in' and v[1][0] == '[]' and v[1][2] == C(i) for i, v in enumerate(e.x['data'])) and root(next(iter(ls))) == THIS
            R.check(ok, 'address-flow', 'ModbusClient:' + M.statename(t.pre), e.src, 'the address connected to is %s, not the one the client was made with' % [show(v) for v in e.x['data']], t.path.trace)
            if not ok: continue
            l = next(iter(ls))
            for u in M.steps:
                ch = [k for k in u.path.x.store if k == l or k[0] in ('.', '[]') and (k[1] == l or k[1][0] == '.' and k[1][1] == l)]
                ch = [k for k in ch if u.path.x.store[k] != ('in', k)]
                R.check(not ch, 'address-flow', 'ModbusClient:kept', e.src, 'the address of the client is changed in %s/%s' % (M.statename(u.pre), u.entry), u.path.trace)
    R.check(n > 0, 'address-used', 'ModbusClient', 'src/app/modbus/client', 'the client never connects')

TIME = 'app::ua::NumericType<app::ua::DataTypeId::DateTime,'

def times(m, t, path=(), depth=0):
    """paths of the time stamp fields of a record (not of those inside arrays and optional values)"""
    t = strip_cv(t)
    if t.startswith(TIME): yield path; return
    if t not in m.recs or depth > 6 or t.startswith('std::'): return
    for b in [t] + list(m.all_bases(t)):
        for f in m.recs.get(b, {}).get('f', ()):
            yield from times(m, f['t'], path + (f['n'],), depth + 1)

def stamped(base):
    class W(base):
        def codec(self, x, n, this, args, name):
            l = x.deref(args[0])
            k = len(x.trace)
            r = base.codec(self, x, n, this, args, name)
            for e in x.trace[k:]:
                if not (isinstance(e, Ev) and e.kind == 'encode' and e.x['loc'] == l): continue
                t = strip_cv(e.name)
                e.x['time'] = {}
                if t in x.m.recs and any('responseHdr' in q for q in times(x.m, t)):
                    for q in times(x.m, t):
                        v = l
                        for fn in q: v = ('.', v, fn)
                        e.x['time']['.'.join(q)] = x.get(('.', v, 'val'))
            return r
    return W

def stamps(R, m):
    from checks import c14, services, c17
    from checks.entities import EntityWorld, entity_machine, THIS, OWNERFN
    Ms = [('UaServiceComponent', services.machine(m, stamped(services.ServiceWorld))), ('UaSecureChannelComponent', c14.machine(m, stamped(c14.ChannelWorld)))]
    for cls, owner, api in c17.MACHINES:
        if not cls.endswith('ServerSecureChannel'): continue
        def extra(x): x.store[('.', THIS, 'handler')] = OWNERFN
        Ms.append((cls.rsplit('::', 1)[-1], entity_machine(m, cls, stamped(EntityWorld)(owner), api, init_extra=extra)))
    for nm, M in Ms:
        M.run()
        n = 0
        for t in M.steps:
            for e in t.path.events('encode'):
                for f, v in e.x.get('time', {}).items():
                    n += 1
                    R.check(K.is_now(t.path, v), 'wire-timestamp', '%s:%s:%s' % (nm, e.name.rsplit('::', 1)[-1], f), e.src, 'the time stamp sent is %s' % show(v), t.path.trace)
        R.check(n > 0, 'wire-timestamp', nm, nm, 'no response with a time stamp is sent')

def check(m, R, tier):
    R.rule('sockaddr-bits', 'every bit of sin_port/sin_addr handed to the OS is the corresponding bit of the configured address bytes (network order)')
    R.rule('sockaddr-family', 'the address family is AF_INET')
    R.rule('clock-formula', 'the wire time stamp is linear: 10^7*tv_sec + 10*tv_usec + 116444736000000000 of a gettimeofday made in the call')
    R.rule('address-flow', 'all six address bytes given to connect/listen are those of the configuration item')
    R.rule('wire-timestamp', 'every time stamp field of an encoded response is a current clock reading')
    addr_bits(R, m, 'app::reactor::Link', 'connect', 'connect')
    addr_bits(R, m, 'app::reactor::Acceptor', 'listen', 'bind')
    clock(R, m)
    flow(R, m)
    dial(R, m)
    stamps(R, m)

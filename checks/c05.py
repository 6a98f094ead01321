"""C05: every block copy (memcpy, memmove, std::copy), every link read and write and every indexed write into a message of
the components and protocol entities is checked on every path of their machines (any message, any data, to a fixpoint):
the space left in the destination and the data left in the source, computed from the layout of the types (fixed arrays,
flexible message tails inside their stores, packet buffers with their positions, slots of the request storage), are at
least the length copied, by interval arithmetic over the linear terms of the path. What the machines assume is checked
separately: the positions of the packet buffers stay inside (every method), size() of each flexible message is the space
its count field announces, a message sent announces no more than was copied into it, the queue slots refuse what they
cannot hold and have the stride they need, and the event loop's local copy holds a full slot."""
import re
from sa.model import AnalysisError, walk
from sa.interp import *
from sa.interp import add, scale, lin, Thrown, Ev, short, first_targ, targs_of
from sa.app import AppPolicy, entity as ent_
from checks.entities import *
from checks.buffers import Layout, methods, SDU, PDU
from checks.c11 import eq, where, val
from checks import c11, c12, c13, c14, c17, services, c03, c06

TECHNIQUE = 'static bounds analysis of copies (path-sensitive abstract interpretation, intervals over linear terms, type layouts)'
ASSUMPTIONS = ['a message delivered was accepted by the queue, so its count announces no more than a slot holds',
               'the requests of the built-in test controller come from a constant table']

ESZ = {'u8': 1, 'i8': 1, 'b': 1, 'u16': 2, 'i16': 2, 'u32': 4, 'i32': 4, 'u64': 8, 'i64': 8, 'p': 8}

class Space:
    """sizes of the places copies come from and go to"""
    def __init__(s, m):
        s.m = m
        s.lay = {c: Layout(m, c) for c in (SDU, PDU)}
        s.count = {}
    def typeof(s, x, l):
        """(type, field record) of a location"""
        if l in x.ltype: return strip_cv(x.ltype[l]), None
        if l[0] == '.':
            t, f = s.typeof(x, l[1])
            f = s.m.field(t, l[2]) if t in s.m.recs and isinstance(l[2], str) else None
            return (strip_cv(f['t']), f) if f else (None, None)
        if l[0] == '[]':
            t, f = s.typeof(x, l[1])
            if t and t.endswith(']'): return t[:t.rindex('[')], None
            if t and t.startswith(('std::array<', 'std::vector<')): return first_targ(t), None
        return None, None
    def sizeof(s, t):
        t = strip_cv(t)
        if t in s.m.recs: return s.m.recs[t].get('size')
        for k, v in (('unsigned char', 1), ('char', 1), ('signed char', 1), ('std::uint8_t', 1), ('uint8_t', 1), ('unsigned short', 2), ('unsigned int', 4), ('int', 4), ('unsigned long', 8), ('long', 8), ('epoll_event', 12)):
            if t == k: return v
        return None
    def region(s, x, l, read):
        """bytes from l to the end of the place (of its valid data, when it is read)"""
        base, idx = (l[1], l[2]) if l[0] == '[]' else (l, C(0))
        t, f = s.typeof(x, base)
        if base[0] == '.':
            ot, _ = s.typeof(x, base[1])
            L = s.lay.get(ot)
            if L and L.arr == base[2]:
                r, w = x.get(('.', base[1], L.R)), x.get(('.', base[1], L.W))
                for v in (r, w):
                    if v[0] not in ('c', 'lin'): x.xt.setdefault(v, 'u32')
                x.assume('<=', w, C(L.N)); x.assume('<=', r, w)
                return add(w if read else C(L.N), idx, -1)
            if f is not None and f.get('flex'):
                es = s.sizeof(first_elem(f['t']))
                if es is None: return None
                o = base[1]
                if o[0] == '[]':
                    ct, cf = s.typeof(x, o[1])
                    if cf is not None and cf.get('alen') and s.sizeof(first_elem(cf['t'])) == 1 and o[2][0] == 'c':
                        return add(C(cf['size'] - o[2][1] - f['off']), scale(idx, es), -1)
                if read:
                    c = s.count.get(ot)
                    if c is None: return None
                    return scale(add(x.get(('.', o, c)), idx, -1), es)
                return None
        if t is None: return None
        n = None
        if f is not None and f.get('alen'): n = f['alen']
        elif t.startswith('std::array<'): n = int(targs_of(t)[-1].rstrip('UL'))
        elif t.endswith(']') and t[t.rindex('[') + 1:-1].isdigit(): n = int(t[t.rindex('[') + 1:-1])
        if n is not None:
            es = s.sizeof(first_elem(t))
            return None if es is None else scale(add(C(n), idx, -1), es)
        if t.startswith('std::vector<'):
            sz = x.pol.vsize(x, base) if hasattr(x.pol, 'vsize') else ('m', 'std::vector::size', x.content(base))
            x.xt[sz] = 'u64'
            es = s.sizeof(first_targ(t))
            return None if es is None else scale(add(sz, idx, -1), es)
        z = s.sizeof(t)
        return None if z is None or idx != C(0) else C(z)

def first_elem(t):
    t = strip_cv(t)
    if t.endswith(']'): return strip_cv(t[:t.index('[')])
    if t.startswith('std::array<'): return strip_cv(first_targ(t))
    return t

def lob(F, t, depth=2):
    """lower bound of a linear term, adding up to three recorded linear facts"""
    lo = F.bounds(t)[0]
    if lo is not None and lo >= 0 or depth == 0: return lo
    k, d = lin(t)
    for S, r in list(F.num.items()):
        if len(S) < 2 or not any(a in d for a, c in S): continue
        for sg in (1, -1):
            b = r[0] if sg > 0 else r[1]
            if b is None: continue
            rest = add(t, ('lin', 0, S), -sg)
            if len(lin(rest)[1]) > len(d): continue
            q = lob(F, rest, depth - 1)
            if q is not None and (lo is None or q + sg * b > lo): lo = q + sg * b
    return lo

def fits(x, room, n):
    if room is None: return None
    lo = lob(x.facts, add(room, n, -1))
    ln = x.facts.bounds(n)[0]
    return lo is not None and lo >= 0 and ln is not None and ln >= 0

class CopyMixin:
    """records whether each copy fits; sp: Space"""
    sp = None; strict_sub = False
    def storage(self, x, n, args, name):
        if name == 'push' and args:         # the storage copies numBytes from data
            l = x.deref(args[0])
            e = x.event('stored', name, l, args, n)
            d, k = x.get(('.', l, 'data')), x.get(('.', l, 'numBytes'))
            if d != NULL: self.judge(x, e, 'from', d, k, True)
        return super().storage(x, n, args, name)
    def judge(self, x, e, what, ptr, n, read):
        pre = getattr(x, 'pre', {})
        if ptr in pre:
            ok = fits(x, pre[ptr], n)
            x.event('judged', what, None, [ptr, n], None, ok=ok, src0=e.src, room=pre[ptr]); return
        if ptr[0] != 'ptr':
            if x.facts.bounds(n) == (0, 0): return
            x.event('judged', what, None, [ptr, n], None, ok=None, src0=e.src, room=None); return
        l = ptr[1]
        room = self.sp.region(x, l, read)
        ok = fits(x, room, n)
        if ok is None and x.facts.bounds(n) == (0, 0): return
        if ok and l[0] == '[]':
            lo = x.facts.bounds(l[2])[0]
            ok = lo is not None and lo >= 0
        x.event('judged', what, l, [ptr, n], None, ok=ok, src0=e.src, room=room)
    def on_memcpy(self, x, e):
        up = super().on_memcpy
        if up is not None: up(x, e)
        self.judge(x, e, 'to', e.args[0], e.args[2], False)
        self.judge(x, e, 'from', e.args[1], e.args[2], True)
        tot = self.copied(x)
        l = e.args[0][1] if e.args[0][0] == 'ptr' else None
        if l and l[0] == '[]' and l[1][0] == '.':
            tot.setdefault(l[1], []).append((l[2], e.args[2]))
    def copied(self, x):
        if not hasattr(x, 'copied_'): x.copied_ = {}
        return x.copied_
    def do_link(self, x, n, loc, args, name):
        if name in ('receive', 'send') and len(args) == 2:
            e = x.event('xfer', name, loc, args, n)
            self.judge(x, e, 'received' if name == 'receive' else 'sent', args[0], args[1], name == 'send')
        return super().do_link(x, n, loc, args, name)
    def codec(self, x, n, this, args, name):
        return super().codec(x, n, this, args, name)
    def moved(self, x, buf):
        super().moved(x, buf)
        t = x.ltype.get(buf) if buf is not None else None
        L = self.sp.lay.get(t) if t else None
        if L:
            r, w = x.get(('.', buf, L.R)), x.get(('.', buf, L.W))
            x.assume('<=', w, C(L.N)); x.assume('<=', r, w)
    def send_msg(self, x, n, loc, t=None):
        r = super().send_msg(x, n, loc, t)
        e = [q for q in x.trace if isinstance(q, Ev) and q.kind == 'send'][-1]
        self.filled(x, e, loc)
        return r
    def filled(self, x, e, loc):
        """the count field announces no more than was written"""
        t = strip_cv(e.name)
        c = self.sp.count.get(t)
        if c is None: return
        f = [g for g in self.sp.m.recs[t]['f'] if g.get('flex')][0]
        cv = x.get(('.', loc, c))
        base = ('.', loc, f['n'])
        room = self.sp.region(x, ('[]', base, C(0)), False)
        es = self.sp.sizeof(first_elem(f['t']))
        x.event('judged', 'announced', loc, [('ptr', base), scale(cv, es)], None, ok=fits(x, room, scale(cv, es)), src0=e.src, room=room)
        got = x.facts.bounds(cv) == (0, 0)
        for i, k in self.copied(x).get(base, []):
            if i == C(0) and lo0(x, add(k, cv, -1)): got = True
        x.event('judged', 'copied', loc, [('ptr', base), cv], None, ok=got or elements(x, base, cv), src0=e.src, room=None)

def lo0(x, t):
    lo = lob(x.facts, t)
    return lo is not None and lo >= 0

def elements(x, base, cv):
    """every element was written one by one"""
    if cv[0] == 'c': return all(any(k[0] in ('.', '[]') and within(k, ('[]', base, C(i))) for k in x.store) for i in range(cv[1]))
    return any(within_any(k, base) for k in x.store)
def within(k, l):
    while k[0] in ('.', '[]'):
        if k == l: return True
        k = k[1]
    return False
def within_any(k, base):
    while k[0] in ('.', '[]'):
        if k[0] == '[]' and k[1] == base: return True
        k = k[1]
    return False

class FnPolicy(CopyMixin, c06.QPolicy):
    """one function at a time: vectors keep their size; elements referred to must exist"""
    max_loop = 2
    tablecap = ()
    def vsize(self, x, loc):
        v = ('m', 'std::vector::size', ('vec', loc))
        if v not in x.xt:
            x.xt[v] = 'u64'
            x.assume('<=', v, C(self.vcap(x, loc)))
        return v
    def vcap(self, x, loc): return 2 ** 31 - 1
    def hook(self, x, n, qn, this, args):
        if this is not None and args is not None and n.get('cls', '').startswith('std::vector<') and n.get('name') in ('size', 'empty', 'resize', 'push_back', 'emplace_back', 'clear', 'pop_back', 'erase', 'insert', 'reserve', 'operator=', 'swap', 'assign'):
            if n['name'] in ('size', 'empty'):
                v = self.vsize(x, this)
                return v if n['name'] == 'size' else C(x.cmp('==', v, C(0)))
            r = this
            while r[0] in ('.', '[]'): r = r[1]
            if r[0] == 'R': raise AnalysisError('%s: a vector is resized' % x.src)
        if this is not None and args is not None and n.get('cls') in OTHERS: return C(0)
        r = super().hook(x, n, qn, this, args)
        if args is not None and n.get('name') == 'front' and n.get('cls', '').startswith('app::Queue<'): return self.after_front(x, r)
        return r
    def after_front(self, x, r):
        if getattr(x, 'idtop', None) is not None and r is not NotImplemented: x.assume('<=', x.get(r[1]), C(x.idtop))
        return r
    def on_elem(self, x, this, i, n):
        if not n.get('cls', '').startswith('std::vector<'): return
        room = add(self.vsize(x, this), i, -1)
        t = first_targ(n['cls'])
        byte = self.sp.sizeof(t) == 1 if t else False
        ok = lo0(x, i) and lo0(x, room if byte else add(room, C(-1)))
        x.event('judged', 'elem', this, [('ptr', ('[]', this, i)), i], n, ok=ok, src0=x.src, room=room)
    def on_write(self, x, loc, val, src):
        l = loc
        while l[0] in ('.', '[]'):
            if l[0] == '[]':
                t, f = self.sp.typeof(x, l[1])
                if f is not None and (f.get('flex') or f.get('alen')):
                    es = self.sp.sizeof(first_elem(f['t']))
                    room = self.sp.region(x, l, False)
                    x.event('judged', 'elem', l[1], [('ptr', l), l[2]], None, ok=fits(x, room, C(es)) and lo0(x, l[2]) if room is not None else None, src0=src, room=room)
            l = l[1]

def received(x, sp, loc, t, cap):
    """a message delivered fits a slot"""
    x.ltype[loc] = t
    c = sp.count.get(t)
    if c is None: return
    f = [g for g in sp.m.recs[t]['f'] if g.get('flex')][0]
    v = x.get(('.', loc, c))
    x.xt.setdefault(v, [g['tk'] for g in sp.m.recs[t]['f'] if g['n'] == c][0])
    x.assume('<=', v, C((cap - f['off']) // sp.sizeof(first_elem(f['t']))))

OTHERS = ('app::modbus::ModbusClient', 'app::modbus::ModbusServer')     # have machines of their own
FNS = [('app::modbus::ModbusAduStorage', 'push', None), ('app::ModbusTestController', 'process', 'MsgModbusAduReq'), ('app::modbus::Modbus', 'receive', None)]

def functions(m, R, sp, cap, seen, sites):
    """copies and indexed accesses of the functions outside the machines, one function at a time"""
    class P(FnPolicy):
        def vcap(self, x, loc):
            return cap_ if 'testCases' in repr(loc) else 2 ** 31 - 1
    cap_ = cap // 2
    P.sp = sp
    for cls, name, par in FNS:
        cs = [c for c in m.recs if c == cls or c.endswith('::' + cls.rsplit('::', 1)[-1])]
        if len(cs) != 1: raise AnalysisError('class %s not found' % cls)
        fs = [f for f in m.method(cs[0], name) if f.get('body') and f.get('cls') == cs[0]]
        if par: fs = [f for f in fs if len(f['p']) == 1 and par in f['p'][0]['t']]
        if not fs: raise AnalysisError('%s::%s not found' % (cls, name))
        inv = storage_inv(m, R, cs[0]) if name == 'push' else None
        for f in fs:
            nm = '%s::%s(%s)' % (sname(cs[0]), name, ','.join(sname(strip_cv(p['t']).rstrip('& ')) for p in f['p']))
            def go(x, f=f, c=cs[0]):
                ent_(x, m, c)
                args = []
                for i, p in enumerate(f['p']):
                    l = ('R', 'arg%d' % i); t = strip_cv(p['t'].rstrip('& ').replace('const ', '').strip())
                    received(x, sp, l, t, cap)
                    args.append(('ptr', l))
                if inv:
                    inv(x)
                    x.pre = {x.get(('.', ('R', 'arg0'), 'data')): x.get(('.', ('R', 'arg0'), 'numBytes'))}
                    x.xt.setdefault(x.get(('.', ('R', 'arg0'), 'numBytes')), [g['tk'] for g in m.recs[x.ltype[('R', 'arg0')]]['f'] if g['n'] == 'numBytes'][0])
                return x.call_fn(f, ('R', 'this'), args)
            k = 0
            for p in explore(m, P(), go, 4000):
                k += 1
                judged(R, nm, p, seen, sites)
            R.info[nm] = '%d paths' % k

def storage_inv(m, R, cls):
    """the numbers kept in the queues are below the capacity the constructor uses"""
    ct = [f for f in m.fns.values() if f.get('ctor') and f.get('cls') == cls and not f.get('copyctor') and not f['p']]
    if len(ct) != 1: raise AnalysisError('constructor of %s' % cls)
    class CP(c06.QPolicy):
        max_loop = 2
        def hook(self, x, n, qn, this, args):
            if args is None and qn.startswith('std::vector<'):
                a = [y if y[0] not in ('ptr', 'obj') else x.get(y[1]) for y in x.evargs(n['a'], n['pk'])]
                if a and x.isnum(a[0]): x.set(this, ('seq', x.fresh(), a[0]), log=False); return C(0)
            return super().hook(x, n, qn, this, args)
    top, vec = None, {}
    for p in explore(m, CP(), lambda x: x.run_ctor(ct[0], ('R', 'this'), [])):
        for e in p.events('q'):
            if e.name != 'push': continue
            hi = p.x.facts.bounds(e.args[0])[1]
            if hi is None: raise AnalysisError('%s: the numbers provided are not bounded' % e.src)
            top = hi if top is None else max(top, hi)
        for g in m.recs[cls]['f']:
            v = p.store.get(('.', ('R', 'this'), g['n']))
            if v is not None and v[0] == 'seq': vec[g['n']] = v[2]
    if top is None: raise AnalysisError('%s: no numbers provided' % cls)
    def inv(x):
        x.idtop = top
        for n, v in vec.items(): x.assume('==', x.pol.vsize(x, ('.', ('R', 'this'), n)), v)
    return inv

def mixed(W, sp): return type('Copy' + W.__name__, (CopyMixin, W), {'sp': sp})

def machines(m, sp):
    yield 'ModbusClient', c11.machine(m, mixed(c11.ClientWorld, sp))
    yield 'ModbusServer', c12.machine(m, mixed(c12.ServerWorld, sp))
    yield 'UaTransport', c13.machine(m, mixed(c13.TransportWorld, sp))
    yield 'UaSecureChannel', c14.machine(m, mixed(c14.ChannelWorld, sp))
    yield 'UaService', services.machine(m, mixed(services.ServiceWorld, sp))
    for cls, owner, api in c17.MACHINES:
        def extra(x, owner=owner):
            if owner is None: x.store[('.', THIS, 'handler')] = OWNERFN
        yield sname(cls), entity_machine(m, cls, mixed(EntityWorld, sp)(owner), api, init_extra=extra)

WHAT = {'elem': ('element', 'the index of an element; left up to the end: %s'), 'to': ('copy', 'copied, the destination has room for %s'), 'from': ('copy', 'copied, the source holds %s'), 'received': ('link', 'may be received, the buffer has room for %s'),
        'sent': ('link', 'sent, the buffer holds %s'), 'announced': ('announced', 'announced by the message, its store has room for %s'), 'copied': ('announced', 'announced by the message, but not copied into it (%s)')}

def judged(R, nm, p, seen, sites):
    for e in p.events('judged'):
        rule, txt = WHAT[e.name]
        inst = '%s:%s:%s' % (nm, e.x['src0'], e.name)
        sites.add(e.x['src0'])
        if e.x['ok'] is None:
            k = ('?', e.x['src0'], e.name)
            seen.setdefault(k, (show(e.args[0]), show(e.args[1]), p))
            continue
        R.check(e.x['ok'], rule, inst, e.x['src0'], ('%s bytes are ' + txt) % (show(e.args[1]), show(e.x['room']) if e.x['room'] else '-'), p.trace)

def check(m, R, tier):
    R.rule('copy', 'a block copied fits into the destination and is held by the source')
    R.rule('buffer', 'the positions of a packet buffer stay inside it and only bytes inside are touched')
    R.rule('slot', 'a slot of the message storage holds what is accepted, and the local copy holds a slot')
    R.rule('system-call', 'a system call is given a buffer as large as the length')
    R.rule('element', 'an element referred to exists')
    R.rule('link', 'a link reads into and writes from inside the buffer')
    R.rule('size', 'size() of a message is the space taken by what its count field announces')
    R.rule('announced', 'a message sent announces no more than fits its store and was copied into it')
    sp = Space(m)
    messages(m, R, sp)
    seen, sites = {}, set()
    for nm, M in machines(m, sp):
        M.run()
        R.info[nm] = '%d states, %d paths' % (len(M.states), len(M.steps))
        for t in M.steps: judged(R, nm, t.path, seen, sites)
    functions(m, R, sp, cap(m), seen, sites)
    for L in sp.lay.values(): methods(m, R, L, 'buffer', 'buffer')
    slots(m, R, sp)
    syscalls(m, R, sp)
    covered(m, R, sites)
    for k, v in seen.items():
        R.fail(WHAT[k[2]][0], '%s:%s' % k[1:], k[1], 'the place %s is not known to hold the %s bytes copied' % v[:2], v[2].trace)

def cap(m):
    """bytes of a message store"""
    z = {g['size'] for c in m.recs if c.startswith('app::reactor::MsgStore<') for g in m.recs[c]['f'] if g.get('alen')}
    if len(z) != 1: raise AnalysisError('message stores of %s bytes' % sorted(z))
    return z.pop()

def is_msg(m, c): return any(b.endswith('::MsgInterface') for b in m.all_bases(c))

def tsub(t, a, b):
    if t == a: return b
    if not isinstance(t, tuple): return t
    return tuple(tsub(y, a, b) for y in t)

def size_paths(m, c, f, args=()):
    class P(AppPolicy): max_loop = 3
    def go(x):
        x.ltype[THIS] = c
        for v, tk in args: x.xt[v] = tk
        return x.call_fn(f, THIS, [v for v, tk in args])
    return explore(m, P(), go, 200)

def messages(m, R, sp):
    """size() of every message; which field counts the elements of a flexible tail"""
    n = 0
    for c in sorted(m.recs):
        if not is_msg(m, c): continue
        fl = [g for g in m.recs[c]['f'] if g.get('flex')]
        own = [m.fns[k['id']] for k in m.recs[c]['m'] if k['n'] == 'size' and k['id'] in m.fns and m.fns[k['id']].get('body')]
        nm = sname(c)
        if short(c).endswith(('MsgInterface', 'MsgBase')): continue
        n += 1
        f = own[0] if own else None
        if f is None:
            fs = [k for k in m.method(c, 'size', 0) if k.get('body')]
            if not fs: continue         # never constructed: the member of the template is not instantiated
            f = fs[0]
        ps = size_paths(m, c, f)
        if not fl:
            for p in ps: R.check(p.ret == C(m.recs[c]['size']), 'size', nm, f['l'], 'size() is %s, the message has %d bytes' % (show(p.ret), m.recs[c]['size']), p.trace)
            continue
        if len(fl) != 1: raise AnalysisError('%s: %d flexible members' % (c, len(fl)))
        et = first_elem(fl[0]['t']); es = sp.sizeof(et); off = fl[0]['off']
        if es is None: raise AnalysisError('%s: element size unknown' % c)
        if any(p.events('loop') for p in ps): listed(m, R, sp, c, f, ps, et, off); continue
        for p in ps:
            k, d = lin(p.ret) if p.ret[0] == 'lin' or p.ret[0] == 'c' or p.x.isnum(p.ret) else (None, {})
            cs = [t for t in d]
            ok = k is not None and len(cs) == 1 and cs[0][0] == 'in' and cs[0][1][0] == '.' and cs[0][1][1] == THIS and k >= off and d[cs[0]] == es
            R.check(ok, 'size', nm, f['l'], 'size() is %s, not the %d bytes before the data and %d per element' % (show(p.ret), off, es), p.trace)
            if ok: sp.count[c] = cs[0][1][2]
        if c not in sp.count:       # wrong size(): the field that counts is the one it mentions
            c1 = [q['n'] for q in walk(f['body']) if q.get('k') == 'Mem' and (m.field(c, q.get('n')) or {}).get('tk') in RANGE]
            if not c1: c1 = [g['n'] for g in m.recs[c]['f'] if g['n'] in ('length', 'numBytes', 'numItems')]
            if not c1: raise AnalysisError('%s: no count field' % c)
            sp.count[c] = c1[0]
    if n < 40: raise AnalysisError('only %d message types' % n)

def listed(m, R, sp, c, f, ps, et, off):
    """a message that holds a list of items of different length"""
    nm = sname(c)
    isz = m.recs[et]['size']
    tail = [g for g in m.recs[et]['f'] if g.get('flex')]
    if len(tail) != 1: raise AnalysisError('%s: items without a tail' % c)
    ioff = tail[0]['off']
    def steps(p, ret):
        """the change of the returned value per turn, as a term over ITEM"""
        for e in p.events('turn'):
            for l, (v, w) in e.x['delta'].items():
                d = add(w, v, -1) if w[0] != 'ptr' else None
                if d is None or d[0] == 'c' or v not in ret(p): continue
                # the item whose length is used is the one at the position reached
                ptrs = {z for z in subterms(d) if z[0] == '*'}
                if len(ptrs) != 1: yield None, e, p; continue
                z = ptrs.pop()
                at = z[1]
                while at[0] == 'cast': at = at[3]
                d = tsub(d, z, ('R', 'item'))
                if v in subterms(d): continue           # not accumulated
                acc.add(v)
                yield (d, at, e.x['delta']), e, p
    # value returned after the turn: found through the loop variables
    def retvars(p):
        return {v for e in p.events('turn') for l, (v, w) in e.x['delta'].items()}
    got = {}
    fs = [(f, ps)]
    idx = (('in', ('R', 'idx')), 'u16')
    items = [k for k in m.method(c, 'item', 1) if k.get('body')]
    if not items: raise AnalysisError('%s: item() not found' % c)
    for k in items: fs.append((k, size_paths(m, c, k, [idx])))
    for g, paths in fs:
        r = None; acc = set()
        for p in paths:
            if not p.events('loop'):
                if g is f: R.check(p.ret[0] == 'c' and p.ret[1] >= off, 'size', nm + ':base', g['l'], 'an empty list has %s bytes, its items start at %d' % (show(p.ret), off), p.trace)
                else: R.check(first_item(p.ret, c, m), 'size', nm + ':first', g['l'], 'the first item is not the first element', p.trace)
            for s, e, q in steps(p, retvars):
                if s is None: continue
                r = (r or []) + [s]
        if not r: raise AnalysisError('%s: the steps of %s are not understood' % (c, g['name']))
        outs = [p for p in paths if len(p.events('loop')) == 1]
        R.check(bool(outs) and all(any(v in subterms(p.ret) for v in acc) for p in outs), 'size', nm + ':' + g['name'] + ':sum', g['l'], 'the value returned is not the sum over the items')
        ds = {d for d, at, de in r}
        R.check(len(ds) == 1, 'size', nm + ':' + g['name'], g['l'], 'positions and sizes advance differently: %s' % ', '.join(sorted(show(d) for d in ds)))
        got[(g['name'], g['l'])] = sorted(ds, key=repr)[0]
    R.check(len(set(got.values())) == 1, 'size', nm + ':same', f['l'], 'size() and item() step differently: %s' % ', '.join(sorted({show(v) for v in got.values()})))
    d = got[(f['name'], f['l'])]
    # at least the item and its data
    low = lower(d)
    cnt = [t for t in lin(low)[1]]
    ok = len(cnt) == 1 and cnt[0][0] == 'in' and cnt[0][1][0] == '.' and lin(low)[1][cnt[0]] >= 1 and lin(low)[0] >= ioff
    R.check(ok, 'size', nm + ':item', f['l'], 'an item takes %s bytes, its data start at %d' % (show(d), ioff))
    cs = [t[1][2] for t in subterms(d) if t[0] == 'in' and t[1][0] == '.' and t[1][1] == ('R', 'item')]
    if not cs: raise AnalysisError('%s: count field of the items not found' % c)
    sp.count[et] = cs[0]

def subterms(t):
    if isinstance(t, tuple):
        yield t
        for y in t:
            if isinstance(y, tuple): yield from subterms(y)

def first_item(r, c, m):
    v = r
    if v[0] != 'ptr': return False
    v = v[1]
    while v[0] in ('*', 'cast'): v = v[1] if v[0] == '*' else v[3]
    if v[0] == 'ptr': v = v[1]
    fl = [g['n'] for g in m.recs[c]['f'] if g.get('flex')][0]
    return v in (('[]', ('.', THIS, fl), C(0)), ('.', THIS, fl))

def lower(t):
    """linear lower bound of a step: (y & -2^k) >= y - (2^k - 1)"""
    if t[0] == 'bin' and t[1] == '&':
        for a, b in ((t[2], t[3]), (t[3], t[2])):
            if a[0] == 'c' and a[1] < 0 and (-a[1] & (-a[1] - 1)) == 0: return add(lower(b), C(a[1] + 1))
            if a[0] == 'c' and a[1] > 2 ** 63 and ((2 ** 64 - a[1]) & (2 ** 64 - a[1] - 1)) == 0: return add(lower(b), C(a[1] - 2 ** 64 + 1))
    if t[0] == 'bin' and t[1] == '*' or t[0] != 'lin': 
        return t
    r = C(t[1])
    for at, k in t[2]: r = add(r, scale(lower(at) if k > 0 else at, k))
    return r

def uncast(t):
    while t[0] == 'cast': t = t[3]
    return t

def flat(t):
    """linear term with the casts between pointers and integers removed"""
    k, d = lin(t)
    r = C(k)
    for a, c in d.items():
        b = uncast(a)
        if b[0] == 'padd': b = add(flat(uncast(b[1])), b[2])        # byte pointers
        r = add(r, scale(b if b is a or b[0] not in ('lin', 'c') else flat(b), c))
    return r

def slots(m, R, sp):
    """the message storage as the event loop constructs it"""
    cls, rc = 'app::reactor::MsgMemStorage', 'app::reactor::Reactor'
    inst = []
    class RP(c06.QPolicy):
        max_loop = 2
        def hook(self, x, n, qn, this, args):
            if args is None and qn.startswith('app::reactor::EntityPool<'): return C(0)
            if args is not None and short(qn) in ('malloc', 'std::malloc', '::malloc') and x.frames[-1].fn.get('cls') == cls:
                x.mems = getattr(x, 'mems', []) + [(x.frames[-1].this, args[0])]
            return super().hook(x, n, qn, this, args)
    ct = [f for f in m.fns.values() if f.get('ctor') and f.get('cls') == rc and not f.get('copyctor')]
    if len(ct) != 1: raise AnalysisError('constructor of %s' % rc)
    for p in explore(m, RP(), lambda x: x.run_ctor(ct[0], ('R', 'this'), [('ptr', ('R', 'init'))] * len(ct[0]['p'])), 4000):
        for loc, n in getattr(p.x, 'mems', []):
            st = {g['n']: p.store.get(('.', loc, g['n'])) for g in m.recs[cls]['f']}
            top = max([p.x.facts.bounds(e.args[0])[1] or 0 for e in p.events('q') if e.name == 'push'] or [0])
            q = [e.args[0] for e in p.events('qnew') if e.obj[:2] == ('.', loc) and e.args]
            if p.outcome == 'normal' or st.get('ptr') is not None: inst.append((n, st, top, q))
    if not inst: raise AnalysisError('the message storage of the event loop is not found')
    total = {i[0] for i in inst}
    n, st, top, q = max(inst, key=lambda i: i[2])
    if n[0] != 'c' or not q or q[0][0] != 'c': raise AnalysisError('the size of the message storage is not constant')
    top = max(top, q[0][1] - 1)
    base = None; slack = 0
    for k, v in st.items():
        if v is None: continue
        u = uncast(v)
        if u[0] == 'bin' and u[1] == '&':
            a, b = (u[2], u[3]) if u[2][0] == 'c' else (u[3], u[2])
            kk, d = lin(flat(b))
            if a[0] == 'c' and len(d) == 1 and list(d)[0][-1:] == ('malloc',):
                base, slack = (k, v), kk
                low = ~a[1] & (1 << 64) - 1                              # malloc aligns by 16
                R.check(kk - (kk & low if low < 16 and low & low + 1 == 0 else low) >= 0 if 0 <= kk < 1 << 32 else False, 'slot', 'base', ct[0]['l'], 'the aligned start of the slots can lie %d before the memory allocated' % (low - kk))
    if base is None:
        b = [(k, v) for k, v in st.items() if v is not None and uncast(v)[-1:] == ('malloc',)]
        if not b: raise AnalysisError('the base of the message storage is not understood')
        base = b[-1]
    B = flat(uncast(base[1]))
    lens = []
    for name, args in (('push', [('ptr', ('R', 'data')), ('in', ('R', 'len'))]), ('pop', [('ptr', ('R', 'out'))])):
        f = c06.fn(m, cls, name)
        def go(x):
            x.ltype[('R', 'this')] = cls
            for k, v in st.items():
                if v is not None: x.store[('.', ('R', 'this'), k)] = v
            for a in args:
                if a[0] == 'in': x.xt[a] = 'u64'
            return x.call_fn(f, ('R', 'this'), args)
        done = 0
        for p in explore(m, c06.QPolicy(), go):
            for e in p.events('memcpy'):
                done += 1
                side = e.args[0] if name == 'push' else e.args[1]
                other = e.args[1] if name == 'push' else e.args[0]
                a = address(m, p.x, sp, side, cls)
                if a is None: raise AnalysisError('%s: the address %s is not understood' % (e.src, show(side)))
                off = add(flat(a), B, -1)
                k, d = lin(off)
                ids = [t for t in d if t[0] == 'in']
                if not R.check(len(d) == 1 and len(ids) == 1 and d[ids[0]] > 0 and k >= 0, 'slot', name + ':place', e.src, 'the place of a slot is %s from the start of the memory, not a multiple of its number' % show(off), p.trace): continue
                stride = d[ids[0]]
                R.check(stride * (top + 1) + slack <= n[1], 'slot', name + ':memory', e.src, '%d slots of %d bytes (and %d for alignment) exceed the %d bytes allocated' % (top + 1, stride, slack, n[1]), p.trace)
                if name == 'push':
                    hi = p.x.facts.bounds(e.args[2])[1]
                    R.check(hi is not None and k + hi <= stride, 'slot', 'push:length', e.src, 'a message of %s bytes is copied into a slot with room for %d' % (hi if hi is not None else 'any number of', stride - k), p.trace)
                    R.check(p.x.facts.bounds(add(('in', ('R', 'len')), e.args[2], -1))[0] in range(0, 2 ** 63), 'slot', 'push:source', e.src, 'more than the message is copied', p.trace)
                    lens.append(min(hi if hi is not None else stride, stride))
                else:
                    L = e.args[2]
                    R.check(L[0] == 'in' and L[1][0] == '.' and flat(address(m, p.x, sp, ('ptr', L[1]), cls) or C(0)) != C(0), 'slot', 'pop:length', e.src, '%s bytes are copied out, not the length stored in the slot' % show(L), p.trace)
        if not done: raise AnalysisError('%s::%s copies nothing' % (cls, name))
    # the local copy of the event loop holds a full slot
    f = c06.fn(m, rc, 'onFdEvent', 1)
    class P(AppPolicy):
        max_loop = 2
        def hook(self, x, nn, qn, this, args):
            if args is not None and short(qn).endswith('MsgMemStorage::pop'):
                x.event('pop', 'pop', this, args, nn, room=sp.region(x, x.deref(args[0]), False))
                raise Thrown('std::exception', x.src, 'end')
            return AppPolicy.hook(self, x, nn, qn, this, args)
    def go(x):
        x.xt[('in', ('R', 'val'))] = 'u64'
        return x.call_fn(f, ent_(x, m, rc), [('in', ('R', 'val'))])
    k = 0
    for p in explore(m, P(), go):
        for e in p.events('pop'):
            k += 1
            r = e.x['room']
            if r is None or r[0] != 'c': raise AnalysisError('%s: the buffer of the event loop is not understood' % e.src)
            R.check(r[1] >= max(lens or [0]), 'slot', 'local', e.src, 'a message of up to %d bytes is copied into a buffer of %d bytes' % (max(lens or [0]), r[1]), p.trace)
    if not k: raise AnalysisError('the event loop takes no messages')

def address(m, x, sp, v, cls):
    """address of a pointer into raw memory: base + offsets of members"""
    if v[0] == 'padd':
        a = address(m, x, sp, v[1], cls)
        return None if a is None else add(a, v[2])
    if v[0] != 'ptr': return v
    l = v[1]; off = C(0)
    while True:
        if l[0] == '[]':
            off = add(off, l[2]); l = l[1]          # bytes
        elif l[0] == '.':
            g = [r for c in m.recs if c.startswith(cls + '::') for r in m.recs[c]['f'] if r['n'] == l[2]]
            if len(g) != 1: return None
            off = add(off, C(g[0]['off'])); l = l[1]
        elif l[0] == '*': return add(flat(l[1]), off)
        else: return None

CALLS = {'read': (1, 2, False), 'recv': (1, 2, False), 'write': (1, 2, True), 'send': (1, 2, True)}

def syscalls(m, R, sp):
    """read, write, recv, send and epoll_wait get a buffer as large as they are told"""
    n = 0
    for f in sorted(m.fns.values(), key=lambda f: f['l']):
        if not f.get('body') or '/reactor/' not in f['l']: continue
        names = {short(q.get('qn') or q.get('name') or '').rsplit('::', 1)[-1] for q in walk(f['body']) if q.get('k') == 'Call' and not q.get('own') and not q.get('cls')}
        if not names & (set(CALLS) | {'epoll_wait'}): continue
        hops = 0
        while f is not None and f.get('cls', '').startswith('(lambda') or f is not None and f.get('lambda'):
            # a lambda is run by the function that makes it
            f = next((g for g in m.fns.values() if g.get('body') and any(q.get('k') == 'Lambda' and f['id'] in q.get('ops', ()) for q in walk(g['body']))), None)
            hops += 1
            if hops > 8: f = None
        if f is None: continue
        n += 1
        class P(AppPolicy):
            max_loop = 1
            def hook(self, x, nn, qn, this, args):
                s = short(qn).lstrip(':')
                if args is not None and this is None and s in CALLS:
                    pi, ni, rd = CALLS[s]
                    x.event('sys', s, None, args, nn, ok=self.sys(x, args[pi], args[ni], rd))
                if args is not None and this is None and s == 'epoll_wait':
                    x.event('sys', s, None, args, nn, ok=self.sys(x, args[1], scale(args[2], sp.sizeof('epoll_event') or 12), False))
                return AppPolicy.hook(self, x, nn, qn, this, args)
            def sys(self, x, ptr, k, rd):
                if ptr == ('in', ('R', 'a0')) or ptr == ('ptr', ('R', 'a0')): return k == ('in', ('R', 'a1'))       # the caller's buffer and length, judged there
                if ptr[0] != 'ptr': return None
                return fits(x, sp.region(x, ptr[1], rd), k)
        def go(x):
            c = f.get('cls')
            if c: ent_(x, m, c)
            args = []
            for i, p in enumerate(f['p']):
                v = ('in', ('R', 'a%d' % i)) if p.get('tk') != 'r' else ('ptr', ('R', 'a%d' % i))
                if p.get('tk') in RANGE: x.xt[v] = p['tk']
                args.append(v)
            return x.call_fn(f, ('R', 'this') if c else None, args)
        for p in explore(m, P(), go, 400):
            for e in p.events('sys'):
                R.check(bool(e.x['ok']), 'system-call', '%s:%s' % (f['name'], e.name), e.src, '%s is given %s and the length %s, which is not known to fit' % (e.name, show(e.args[1]), show(e.args[2])), p.trace)
    if n < 4: raise AnalysisError('only %d functions with reads and writes found' % n)

COPIES = ('memcpy', 'memmove', 'copy', 'copy_n', 'strcpy', 'strncpy', 'strcat')

def constant(q):
    """a copy of a constant number of bytes between arrays of at least that size"""
    if short(q.get('qn') or '').rsplit('::', 1)[-1] not in ('memcpy', 'memmove') or len(q['a']) != 3: return False
    k = q['a'][2].get('cv')
    if k is None: return False
    for e in q['a'][:2]:
        while e.get('k') in ('Cast', 'Paren', 'L2R'): e = e['e']
        if e.get('k') == 'Un' and e.get('op') == '&':
            e = e['e']
            if e.get('k') == 'Sub' and e['i'].get('cv') == 0: e = e['b']
            while e.get('k') in ('Cast', 'Paren', 'L2R'): e = e['e']
        z = re.fullmatch(r'(?:const )?(?:unsigned |signed )?(?:char|std::byte|uint8_t|std::uint8_t|unsigned char)(?: const)? ?\[(\d+)\]', e.get('t', ''))
        if not z or int(z.group(1)) < k: return False
    return True

def covered(m, R, sites):
    """copies that no machine reached"""
    for f in m.fns.values():
        if not f.get('body') or '/test/' in f['l']: continue
        if 'OpcUaBinaryCodec' in f['l'] or 'MsgMemStorage' in f['l']: continue          # C02; slots()
        for q in walk(f['body']):
            nm = short(q.get('qn') or q.get('name') or '').rsplit('::', 1)[-1]
            if q.get('k') != 'Call' or nm not in COPIES or q.get('own'): continue
            if f.get('name') in EXEMPT: continue
            if q['l'] not in sites and constant(q): R.ok('copy', 'site:' + q['l']); continue
            R.check(q['l'] in sites, 'copy', 'site:' + q['l'], q['l'], 'the copy is not reached by the analysis')

EXEMPT = ('sendModbusClientAduReq',)        # constant table of the test controller

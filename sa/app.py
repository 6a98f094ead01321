"""Policy and helpers shared by the checks: models of the reactor boundary of uscada."""
from .interp import *
from .interp import Policy, short
from .model import AnalysisError

class Snap:
    """frozen copy of the store"""
    def __init__(s, x):
        s.store = dict(x.store); s.xt = x.xt; s.ltype = x.ltype
    def get(s, loc):
        if loc in s.store: return s.store[loc]
        return X.derive(s, loc)
    def path(s, loc, *names):
        for n in names:
            loc = ('.', loc, n) if not isinstance(n, tuple) else n
        return s.get(loc)

BOUNDARY_CREATE = {'createLink': 'link', 'createTimer': 'timer', 'createAcceptor': 'acceptor'}

class AppPolicy(Policy):
    copyloops = True
    snap_sends = True
    max_loop = 8
    may_throw = ()          # short qualified names that may throw
    def closed_enum(self, x, n, v):
        """an enum value read from a wire or message may be anything"""
        return False
    def throws(self, x, n, qn):
        return short(qn) in self.may_throw
    def unique_override(self, x, n): return True
    def hook(self, x, n, qn, this, args):
        if args is None: return NotImplemented
        q = short(qn)
        name = q.rsplit('::', 1)[-1]
        if name == 'getInst' and n.get('own') is not None and 'SingletonBase' in n.get('cls', ''):
            t = first_targ(n['cls']) if '<' in n['cls'] else n['cls']
            l = ('R', 'inst:' + t)
            x.ltype[l] = t
            return ('ptr', l)
        if name == 'get' and 'ReactorBase' in n.get('cls', ''):
            return ('ptr', ('R', 'reactor'))
        if name in BOUNDARY_CREATE and 'Reactor' in q:
            h = x.get(x.deref(args[0])) if args and args[0][0] in ('ptr', 'obj') else NULL
            loc = ('N', x.fresh())
            e = x.event('create', BOUNDARY_CREATE[name], loc, args, n, handler=h)
            if self.throws(x, n, qn) and x.choose(2) == 1:
                e.x['threw'] = True
                raise Thrown('std::runtime_error', x.src, q)
            t = x.temp(n.get('rt'))
            x.set(t, ('ptr', loc), log=False)
            return ('obj', t)
        if name == 'sendMsg' and args:
            return self.send(x, n, x.deref(args[0]), args)
        if name == 'send' and len(args) == 1 and 'Sender' in q and n.get('virt'):
            return self.send_msg(x, n, x.deref(args[0]))
        if q in ('gettimeofday', '::gettimeofday'):
            e = x.event('call', 'gettimeofday', None, args, n)
            if args[0][0] == 'ptr':
                l = args[0][1]
                a, b = ('ev', e.i, 'sec'), ('ev', e.i, 'usec')
                x.xt[a] = 'i64'; x.xt[b] = 'i64'
                x.set(('.', l, 'tv_sec'), a); x.set(('.', l, 'tv_usec'), b)
                x.facts.num[((b, 1),)] = [0, 999999, set()]
                x.facts.num[((a, 1),)] = [0, 2 ** 40, set()]
            return C(0)
        if q in ('memset', 'std::memset', '__builtin_memset', 'bzero'):
            if args[0][0] == 'ptr':
                l = args[0][1]
                if l[0] == '[]' and l[2] == C(0): l = l[1]
                z = q == 'bzero' or args[1] == C(0)
                x.set(l, ('zero',) if z else ('un', x.fresh(), 'memset'))
            x.event('memset', 'memset', None, args, n)
            return args[0]
        return NotImplemented
    def send(self, x, n, store, args):
        fn = x.m.fns.get(n.get('fn'))
        t = None
        if fn:
            t = x.ltype.get(store)
        # the message object inside the store
        if store[0] and ('.', store, 'msg') in x.store:
            loc = x.deref(x.store[('.', store, 'msg')])
        else:
            loc = store
        return self.send_msg(x, n, loc, t)
    def send_msg(self, x, n, loc, t=None):
        typ = x.ltype.get(loc)
        if typ is None and t and '<' in t: typ = first_targ(t)
        if typ is None:
            ta = n.get('targs')
            if ta: typ = ta[0]
        e = x.event('send', typ or '?', loc, [], n, snap=Snap(x) if self.snap_sends else None)
        return C(0)

def entity(x, m, cls, name='this'):
    """symbolic object of class cls"""
    c = [n for n in m.recs if n == cls or n.endswith('::' + cls)]
    if len(c) != 1: raise AnalysisError('class %s: %d candidates' % (cls, len(c)))
    l = ('R', name)
    x.ltype[l] = c[0]
    return l

def arg_val(x, a):
    return x.get(a[1]) if a[0] in ('ptr', 'obj') else a

def construct(x, m, cls, args, loc):
    """run the only constructor of cls taking len(args) parameters on loc"""
    r = [n for n in m.recs if n == cls or n.endswith('::' + cls)]
    if len(r) != 1: raise AnalysisError('class %s: %d candidates' % (cls, len(r)))
    cs = [f for f in m.fns.values() if f.get('ctor') and f.get('cls') == r[0] and not f.get('copyctor') and len(f['p']) == len(args)]
    if len(cs) != 1: raise AnalysisError('constructor of %s: %d candidates' % (cls, len(cs)))
    x.ltype[loc] = r[0]
    x.run_ctor(cs[0], loc, args)
    x.ltype[loc] = r[0]

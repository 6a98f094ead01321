"""Machines of single protocol entities (connections, channels) driven through their public members and by the events of
the links and timers they own."""
from sa.model import AnalysisError
from sa.interp import *
from sa.machine import *
from checks.worlds import *

THIS = ('R', 'this')
OWNER = ('R', 'owner')
ACCEPTED = ('R', 'link@accepted')
HELLO, CONN = ('.', THIS, '#hello'), ('.', THIS, '#connected')

OWNERFN = ('str', '#owner')

def kind(name):
    for k, w in (('connected', ('Connected', 'established')), ('data', ('Data', 'request')), ('closed', ('Closed', 'closed')), ('error', ('Error', 'error'))):
        if any(v in name for v in w): return k
    raise AnalysisError('owner is told ' + name)

def sname(t): return t.rsplit('::', 1)[-1]

class EntityWorld(World):
    """owner: abstract class whose methods are calls to the owner"""
    def __init__(self, owner): self.owner = owner
    def hook(self, x, n, qn, this, args):
        if args is not None and this == OWNER: return self.told(x, n, n['name'], args)
        if args is not None and this is not None and n.get('cls', '').startswith('std::function') and x.store.get(this) == OWNERFN:
            if n['name'] == 'operator bool': return C(1)
            if n['name'] == 'operator()':
                t = x.get(('.', x.deref(args[0]), 'type'))
                k = [nm for e, d in x.m.enums.items() if e.endswith('OpcUaSecureChannelEvent::Type') for nm, v in dict(d['c']).items() if C(v) == t]
                if len(k) != 1: raise AnalysisError('owner is told something unknown at ' + n['l'])
                return self.told(x, n, k[0], args)
        return World.hook(self, x, n, qn, this, args)
    def told(self, x, n, name, args):
        x.event('notify', name, OWNER, args, n, conn=x.store.get(CONN), hello=x.store.get(HELLO))
        if kind(name) == 'connected': x.store[CONN] = C(1)
        return C(0)
    def do_link(self, x, n, loc, args, name):
        enc = [e for e in x.trace if isinstance(e, Ev) and e.kind == 'encode']
        r = World.do_link(self, x, n, loc, args, name)
        if name == 'send' and r == C(1) and enc:
            e = [e for e in x.trace if isinstance(e, Ev) and e.kind == 'link'][-1]
            e.x['last'] = sname(enc[-1].name)
            if e.x['last'] == 'HelloMessage': x.store[HELLO] = C(1)
        return r
    def dispose(self, x, v, n=None):
        World.dispose(self, x, v, n)
        if v[0] == 'ptr' and self.obj_kind(v[1]) == 'link': x.store[HELLO] = C(0); x.store[CONN] = C(0)

def entity_machine(m, cls, pol, api, ctor_args=None, init_extra=None):
    """api: names of the public members that drive the entity"""
    full = m.rec(cls)['n']
    ct = m.ctors(full)
    if len(ct) != 1: raise AnalysisError('%s: %d constructors' % (cls, len(ct)))
    fns = []
    for nm in api:
        f = m.method(full, nm)
        if not f: raise AnalysisError('%s::%s not found' % (cls, nm))
        fns += f
    def init(x):
        x.ltype[THIS] = full
        x.store[HELLO] = C(0); x.store[CONN] = C(0)
        args = []
        for p in ct[0]['p']:
            t = strip_cv(p['t'])
            if t == pol.owner: x.ltype[OWNER] = t; args.append(('ptr', OWNER))
            elif p['tk'] in RANGE: args.append(('in', ('R', 'uid')))
            else: args.append(('ptr', ('R', 'arg:' + sname(t))))
        x.run_ctor(ct[0], THIS, args); x.ltype[THIS] = full
        if init_extra: init_extra(x)
    def entries(st):
        out = []
        for f in fns:
            def go(x, f=f):
                args = []; lp = None
                for i, p in enumerate(f['p']):
                    t = strip_cv(p['t'])
                    l = ('T', 'arg%d' % i)
                    x.ltype[l] = t
                    if 'unique_ptr' in t or t.endswith('LinkPtr'):
                        if pol.live(x, ACCEPTED): raise Infeasible()
                        x.store[('.', ACCEPTED, '#live')] = C(1); pol.sst(x, ACCEPTED, 1); x.store[('.', ACCEPTED, '#h')] = NULL
                        x.store[l] = ('ptr', ACCEPTED); lp = l
                    args.append(('ptr', l))
                try: r = x.call_fn(f, THIS, args)
                finally:
                    if lp and x.store.get(lp) == ('ptr', ACCEPTED): 
                        for k in x.under(ACCEPTED): del x.store[k]
                return r
            out.append((f['name'], go))
        return out
    return Machine(m, pol, init, entries)

"""Machines of the components (see sa/machine.py): a component object is constructed and then receives every message it
handles, with any content, and every event of the links, timers and acceptors it created."""
from sa.model import AnalysisError
from sa.interp import *
from sa.machine import *

COMP = ('R', 'comp')

def msg_root(t): return ('R', 'msg:' + t.rsplit('::', 1)[-1])

def component(m, cls, pol, extra=None, only=None, **kw):
    """machine of a component class: entries are its receive(Msg) methods"""
    full = m.rec(cls)['n']
    ct = m.ctors(full)
    if len(ct) != 1: raise AnalysisError('%s: %d constructors' % (cls, len(ct)))
    rx = [f for f in m.method(full, 'receive', 1) if 'Msg' in f['p'][0]['t']]
    if not rx: raise AnalysisError('%s: no receive methods' % cls)
    pol.stop = tuple(pol.stop) + (full + '::registerComponent',)
    def init(x):
        x.ltype[COMP] = full
        if extra: extra(x)
        x.run_ctor(ct[0], COMP, [('ptr', ('R', 'arg%d' % i)) for i in range(len(ct[0]['p']))]); x.ltype[COMP] = full
    def entries(st):
        out = []
        for f in rx:
            t = strip_cv(f['p'][0]['t'])
            def go(x, f=f, t=t):
                x.ltype[msg_root(t)] = t
                x.event('message', t.rsplit('::', 1)[-1], msg_root(t))
                return x.call_fn(f, COMP, [('ptr', msg_root(t))])
            nm = t.rsplit('::', 1)[-1]
            if only and not only(nm, st): continue
            if nm.endswith('InitReq') and alive(m, full, st): continue      # a component is initialised once
            out.append((nm, go))
        return out
    return Machine(m, pol, init, entries, **kw)

def alive(m, cls, st):
    """the component owns its entity"""
    for f in m.recs[cls]['f']:
        if strip_cv(f['t']).startswith('std::unique_ptr') and st.get(('.', COMP, f['n']), NULL)[0] == 'ptr' and st[('.', COMP, f['n'])] != NULL: return True
    return False

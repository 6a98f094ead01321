"""C04: the buffer class keeps 0 <= read <= write <= size on every path of every method and touches only bytes
inside (an access outside is refused by a standard exception and changes nothing). With that invariant, every
path of every decoding and encoding operator is analysed: direct byte accesses lie inside the received data,
storage is sized by a wire length only after it was bounded by the data left, elements are accessed inside
their container, empty optionals and pointers are not dereferenced, every refusal is a standard exception, and
operators that call themselves read a byte before each further level."""
from sa.model import AnalysisError, walk
from sa.interp import *
from sa.interp import add, Thrown, Fact, Ev, short
from sa.app import AppPolicy
from checks.buffers import Layout, BufPolicy, methods, SDU

TECHNIQUE = 'class invariant by path-sensitive abstract interpretation (intervals over linear terms); inductive operator summaries over the call graph of the codec'
ASSUMPTIONS = ['strings and arrays to be encoded have fewer than 2^31 elements']

CODEC = 'OpcUaBinaryCodec'
def is_op(f): return f['name'] in ('operator>>', 'operator<<') and len(f['p']) == 2 and CODEC in f['p'][0]['t'] and f.get('body')

class OpPolicy(BufPolicy):
    max_loop = 2
    def __init__(self, lay, A):
        BufPolicy.__init__(self, lay); self.A = A
    def hook(self, x, n, qn, this, args):
        if args is None: return NotImplemented
        q = short(qn); nm = q.rsplit('::', 1)[-1]
        f = x.m.fns.get(n.get('fn'))
        if nm in ('operator>>', 'operator<<') and f is not None and is_op(f) and len(x.frames) > 0:
            return self.nested(x, n, f, args)
        if q == 'std::visit': return self.visit(x, n, args)
        if q == 'std::apply': return self.apply(x, n, args)
        cls = n.get('cls', '')
        if cls.startswith('std::optional') or cls.startswith('std::_Optional'):
            if nm in ('operator*', 'operator->') or (nm == 'value'):
                t = x.get(('.', this, '?'), 'b')
                ok = t == C(1)
                if not ok and t[0] != 'c': ok = x.facts.bounds(t)[0] == 1
                if nm == 'value':
                    if not ok and x.choose(2) == 1: raise Thrown('std::bad_optional_access', x.src, 'value')
                else: x.derefs += 1; (None if ok else x.bad.append(('optional', x.src, 'an optional is dereferenced that may be empty')))
        if cls.startswith('std::unique_ptr') and nm in ('operator*', 'operator->'):
            # the operator of a pointer relies on its callers, see nested
            if not (this == ('R', 'v') and x.root['name'] == 'operator<<'): self.nonnull(x, this)
        if nm in ('size', 'length') and this is not None and cls.startswith(('std::vector', 'std::basic_string', 'std::__cxx11')):
            r = x.stdmethod(n, qn, this, args, cls, nm)
            if x.isnum(r) and r[0] != 'c': x.assume('<=', r, C(2 ** 31 - 1))
            return r
        if nm in ('reserve', 'assign') and this is not None and args and cls.startswith(('std::vector', 'std::basic_string', 'std::__cxx11')):
            self.sized(x, args[0])
        if nm == 'resize' and this is not None and args and cls.startswith(('std::vector', 'std::basic_string', 'std::__cxx11')):
            self.sized(x, args[0])
        return BufPolicy.hook(self, x, n, qn, this, args)
    def nonnull(self, x, loc):
        v = x.get(loc, 'p')
        x.derefs += 1
        if not (v[0] in ('ptr', 'new') or x.facts.tr.get(('==',) + tuple(sorted((v, NULL), key=repr))) is False):
            x.bad.append(('pointer', x.src, 'a pointer is dereferenced that may be null'))
    def sized(self, x, v):
        if v[0] in ('ptr', 'obj'): v = x.get(v[1])
        x.sizes += 1
        L = x.bufs[BUF]
        r, w = self.pos(x, BUF, L)
        lo, hi = x.facts.bounds(v)
        ok = lo is not None and lo >= 0 and ((hi is not None and hi <= L.N) or self.ge0(x, add(add(w, r, -1), v, -1)))
        if not ok: x.bad.append(('size', x.src, 'storage is sized by %s, which is not bounded by the data received' % show(v)))
    def on_elem(self, x, this, i, n):
        v = x.get(this)
        cls = n.get('cls', '')
        if not cls.startswith(('std::vector', 'std::basic_string', 'std::__cxx11')) or n['name'] == 'at': return
        if v[0] == 'seq': sz = v[2]
        elif v[0] == 'list': sz = C(v[1])
        elif v[0] == 'str': sz = C(len(v[1]))
        else:
            sz = None
            for t, tk in list(x.xt.items()):
                if t[0] == 'm' and t[1].endswith('::size') and t[2] == x.content(this): sz = t
        x.elems += 1
        if sz is None or not (self.ge0(x, i) and self.ge0(x, add(add(sz, i, -1), C(1), -1))):
            x.bad.append(('element', x.src, 'element %s is accessed, size is %s' % (show(i), show(sz) if sz else 'unknown')))
    def nested(self, x, n, f, args):
        """summary of another operator: consumes (appends) at least its minimum, or throws"""
        x.nest += 1
        if prim(f): return NotImplemented
        mn = self.A.min(f)
        if f['name'] == 'operator<<' and strip(f['p'][1]['t']).startswith('std::unique_ptr'): self.nonnull(x, x.deref(args[1]))
        rd = f['name'] == 'operator>>'
        if f is x.root:
            # recursion: a byte has been consumed at this level
            r, w = self.pos(x, BUF, x.bufs[BUF])
            d = add(r, ('in', ('.', BUF, x.bufs[BUF].R)), -1) if rd else C(1)
            if not self.ge0(x, add(d, C(1), -1)): x.bad.append(('recursion', x.src, '%s calls itself without having read anything' % f['p'][1]['t']))
        L = x.bufs[BUF]
        if x.choose(2) == 1: raise Thrown('std::runtime_error', x.src, 'nested operator')
        fld = ('.', BUF, L.R if rd else L.W)
        old = x.get(fld)
        new = ('un', x.fresh(), 'pos'); x.xt[new] = 'u32'
        if not rd: new = add(add(old, C(mn)), new)
        x.set(fld, new)
        if rd: x.assume('<=', add(old, C(mn)), new)
        if rd: w = x.get(('.', BUF, L.W)); x.assume('<=', add(old, C(mn)), w); x.assume('<=', new, w)
        else: self.assume_inv(x, BUF, L); x.assume('<=', add(old, C(mn)), C(L.N))
        if rd and args[1][0] == 'ptr': x.set(args[1][1], ('un', x.fresh(), 'decoded'))
        return args[0]
    def visit(self, x, n, args):
        x.event('visit', 'std::visit', None, args, n)
        lam = x.get(args[0][1]) if args[0][0] in ('ptr', 'obj') else args[0]
        if lam[0] != 'lam': raise AnalysisError('std::visit with something else than a lambda at ' + x.src)
        ops = [x.m.fns[o] for o in x.lams[lam[1]][0]['ops'] if o in x.m.fns]
        if not ops: raise AnalysisError('std::visit: no instance of the visitor at ' + x.src)
        o = ops[x.choose(len(ops))]
        l = ('.', args[1][1], 'as:' + strip(o['p'][0]['t']))
        x.ltype[l] = strip(o['p'][0]['t'])
        return x.call_fn(o, x.lams[lam[1]][2], [('ptr', l)], n, x.lams[lam[1]][1])
    def apply(self, x, n, args):
        lam = x.get(args[0][1]) if args[0][0] in ('ptr', 'obj') else args[0]
        if lam[0] != 'lam': raise AnalysisError('std::apply with something else than a lambda at ' + x.src)
        tt = strip(n['a'][1]['t'])
        k = len(targs_of(tt))
        return x.call_lambda(lam, [('ptr', ('.', args[1][1], 'arg%d' % i)) for i in range(k)], n)

def strip(t):
    t = t.strip()
    for s in ('const ',):
        if t.startswith(s): t = t[len(s):]
    return t.rstrip('& ').rstrip()

def prim(f):
    """operator of a plain number"""
    return strip(f['p'][1]['t']).rsplit('::', 1)[-1] in PRIMS or strip(f['p'][1]['t']).startswith('app::ua::NumericType<')
PRIMS = {'Boolean', 'SByte', 'Byte', 'Int16', 'UInt16', 'Int32', 'UInt32', 'Int64', 'UInt64', 'Float', 'Double'}

BUF = ('R', 'buf')
S = ('R', 's')

class Ana:
    def __init__(self, m, L):
        self.m, self.L = m, L
        self.memo, self.paths = {}, {}
    def run(self, f):
        pol = OpPolicy([self.L], self)
        cls = [r for r in self.m.recs if r.endswith('::' + CODEC)]
        if len(cls) != 1: raise AnalysisError('codec class')
        refs = [g['n'] for g in self.m.recs[cls[0]]['f'] if g['tk'] in ('r', 'p') and 'OpcUaSduBuffer' in g['t']]
        if len(refs) != 1: raise AnalysisError('the codec has %d buffers' % len(refs))
        t = strip(f['p'][1]['t'])
        def entry(x):
            x.derefs = x.sizes = x.elems = x.nest = 0
            x.root = f
            x.ltype[S] = cls[0]
            x.store[('.', S, refs[0])] = ('ptr', BUF)
            pol.setup(x, BUF, self.L)
            v = ('R', 'v'); x.ltype[v] = t
            return x.call_fn(f, None, [('ptr', S), ('ptr', v)])
        return pol, explore(self.m, pol, entry)
    def min(self, f):
        k = f['id']
        if k in self.memo: return self.memo[k]
        self.memo[k] = 0
        pol, ps = self.run(f)
        self.paths[k] = (pol, ps)
        fld = ('.', BUF, self.L.R if f['name'] == 'operator>>' else self.L.W)
        lo = None
        for p in ps:
            if p.outcome != 'normal': continue
            l = p.facts.bounds(add(p.x.get(fld), ('in', fld), -1))[0] or 0
            lo = l if lo is None else min(lo, l)
        self.memo[k] = max(lo or 0, 0)
        return self.memo[k]

def operators(m, R, L):
    A = Ana(m, L)
    ops = [f for f in m.fns.values() if is_op(f)]
    if len(ops) < 20: raise AnalysisError('only %d codec operators' % len(ops))
    n = 0
    tot = dict(acc=0, sizes=0, elems=0, derefs=0, nest=0)
    for f in sorted(ops, key=lambda f: f['l']):
        A.min(f)
        pol, ps = A.paths[f['id']]
        name = '%s %s' % (f['name'], strip(f['p'][1]['t']).replace('app::ua::', ''))
        for p in ps:
            n += 1
            for k in tot: tot[k] = max(tot[k], 0) + getattr(p.x, k)
            for k, src, msg in p.x.bad:
                R.fail({'read': 'inside', 'write': 'inside', 'position': 'inside', 'size': 'sized', 'element': 'elements', 'optional': 'present', 'pointer': 'present', 'recursion': 'depth'}[k], name, src, msg, p.trace)
            R.check(pol.inv_ok(p.x, BUF, L), 'inside', name, f['l'], 'the positions may leave the buffer', p.trace)
            if p.outcome == 'throw':
                R.check(p.detail.typ.startswith('std::'), 'refusal', name, p.detail.src, 'raises %s, which handlers of std::exception do not catch' % p.detail.typ, p.trace)
            else:
                R.check(p.outcome == 'normal', 'refusal', name, p.detail.src if p.detail else f['l'], 'ends by %s' % p.outcome, p.trace)
        R.check(any(p.outcome == 'normal' for p in ps), 'refusal', name + ' succeeds', f['l'], 'never succeeds')
    R.info.update(operators=len(ops), paths=n, **tot)
    for k in ('sizes', 'elems'):
        if not tot[k] and not R.bad: raise AnalysisError('no obligation of kind ' + k)

def raw(base):
    """a world that notes the direct accesses to bytes of packet buffers outside the codec"""
    class W(base):
        def codec(self, *a):
            self.busy = True
            try: return base.codec(self, *a)
            finally: self.busy = False
        busy = False
        def direct(self, x, loc, what):
            if self.busy or not x.frames or loc[0] != '[]' or loc[1][0] != '.': return
            buf = loc[1][1]
            if self.buftype(x, buf) != SDU or (x.frames[-1].fn or {}).get('cls') == SDU: return
            self.busy = True
            try:
                b = self.bufcall(x, buf, 'begin'); n = self.bufcall(x, buf, 'size')
            finally: self.busy = False
            if b[0] != 'ptr' or b[1][0] != '[]' or b[1][1] != loc[1]: return
            i = add(loc[2], b[1][2], -1)
            lo, hi = x.facts.bounds(i), x.facts.bounds(add(n, i, -1))
            if any(isinstance(e, Ev) and e.kind == 'encode' and e.obj == buf and e.name.endswith('MessageHeader') for e in x.trace) and i[0] == 'c' and 0 <= i[1] < 8: return
            x.event('direct', what, buf, [i, n], {'l': x.src}, ok=lo[0] is not None and lo[0] >= 0 and hi[0] is not None and hi[0] >= 1)
        def buftype(self, x, l):
            if l in x.ltype: return strip_cv(x.ltype[l])
            if l[0] == '.' and isinstance(l[2], str):
                t = self.buftype(x, l[1])
                f = x.m.field(t, l[2]) if t else None
                return strip_cv(f['t']) if f else None
        def on_load(self, x, loc): self.direct(x, loc, 'read')
        def on_write(self, x, loc, val, src):
            base.on_write(self, x, loc, val, src)
            self.direct(x, loc, 'written')
    return W

def headers(m, R):
    from checks import c13, c17
    from checks.entities import EntityWorld, entity_machine
    Ms = [('UaTransport', c13.machine(m, raw(c13.TransportWorld)))]
    for cls, owner, api in c17.MACHINES:
        def extra(x, owner=owner):
            if owner is None: x.store[('.', ('R', 'this'), 'handler')] = c17.OWNERFN
        Ms.append((c17.sname(cls), entity_machine(m, cls, raw(EntityWorld)(owner), api, init_extra=extra)))
    for nm, M in Ms:
        M.run()
        for t in M.steps:
            for e in t.path.events('direct'):
                R.check(e.x['ok'], 'header', '%s:%s/%s:%s' % (nm, M.statename(t.pre), t.entry, e.name), e.src, 'byte %s is %s although the buffer holds %s bytes' % (show(e.args[0]), e.name, show(e.args[1])), t.path.trace)
    R.need('header', 6)

def check(m, R, tier):
    R.rule('buffer', 'every method of the packet buffer keeps its positions inside and touches only bytes inside; a refusal is a standard exception and changes nothing')
    R.rule('meaning', 'read returns the next unread byte, write appends, seek extends, size/capacity/begin/end describe exactly the data and the space left')
    R.rule('inside', 'direct byte accesses of the codec operators lie inside the received data or the packet')
    R.rule('sized', 'storage sized by a length from the wire: the length is bounded by the data left before', failonly=True)
    R.rule('elements', 'elements are accessed inside their container', failonly=True)
    R.rule('present', 'optionals and pointers are dereferenced only when they hold a value', failonly=True)
    R.rule('refusal', 'operators end normally or by a standard exception')
    R.rule('depth', 'an operator that calls itself has consumed a byte', failonly=True)
    L = Layout(m, SDU)
    R.rule('header', 'the connections read and write the header of a message in a packet buffer only inside its data')
    methods(m, R, L, 'buffer', 'meaning')
    operators(m, R, L)
    headers(m, R)

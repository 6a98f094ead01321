"""C02: for every type with an encoding and a decoding operator the encoder is composed with the decoder over an
abstract byte stream. On every path of the encoder (presence bits, discriminators, kinds of value) the decoder is
run over exactly the items produced; it has to consume all of them and no more, and every field of the fresh
object has to hold the value of the same field of the encoded object (bit provenance for numbers, element-wise for
arrays, presence for optionals). Other types inside a type are covered by their own pair of operators. Numbers
are shown to be laid out least significant byte first in their full width."""
from sa.model import AnalysisError, walk
from sa.interp import *
from sa.interp import add, scale, lin, Thrown, Fact, Ev, short
from sa.bits import bits, W
from checks.fifo import FifoPolicy, Mismatch
from checks.buffers import Layout, methods, SDU
from checks.c04 import is_op, strip, PRIMS, CODEC

TECHNIQUE = 'symbolic-free provenance dataflow: encoder and decoder composed over an abstract byte stream, structural induction over the types'
ASSUMPTIONS = ['the encoded value fits the packet', 'a Variant without value has no array dimensions', 'decoding goes into a fresh value',
               'strings and arrays have fewer than 2^31 elements', 'an optional string or array that is empty equals an absent one (as the comparison operators of the types define)']

BUFCLS = 'OpcUaSduBuffer'
S, V, D = ('R', 's'), ('R', 'v'), ('R', 'd')

def tname(f): return strip(f['p'][1]['t'])
def thin(t): return t.startswith(('std::optional<', 'std::unique_ptr<', 'std::tuple<'))

class P(FifoPolicy):
    def __init__(self, ops, root, deep): self.ops, self.root, self.deep = ops, root, deep
    def hook(self, x, n, qn, this, args):
        if args is None: return NotImplemented
        q = short(qn); nm = q.rsplit('::', 1)[-1]
        cls = n.get('cls', '')
        f = x.m.fns.get(n.get('fn'))
        if nm in ('operator>>', 'operator<<') and f is not None and is_op(f) and x.depth0:
            return self.nested(x, n, f, args)
        if cls.endswith('::' + BUFCLS):
            if nm == 'write' and len(args) == 1: self.put(x, ('B', args[0])); return C(0)
            if nm == 'write' and len(args) == 2:
                if x.mode == 'enc':
                    N = args[1]
                    if not (N[0] != 'c' and x.cmp('==', N, C(0))) and N != C(0):
                        i = ('un', x.fresh(), 'iota'); x.xt[i] = 'u64'
                        self.put(x, ('REP', N, i, [('B', x.get(x.elem(args[0], i), 'u8'))]))
                return C(0)
            if nm == 'read': 
                v = self.take_byte(x); return x.conv(v, x.xt.get(v, 'u8'), 'u8') if v[0] != 'c' else v
            if nm == 'size':
                v = ('un', x.fresh(), 'left'); x.xt[v] = 'u32'
                x.assume('<=', v, C(2 ** 31 - 1))
                x.assume('<=', self.least(x, x.fifo), v)
                return v
            if nm == 'capacity':
                v = ('un', x.fresh(), 'space'); x.xt[v] = 'u32'; return v
            if nm == 'end' and x.mode == 'enc':
                x.deepen = True; x.txref = len(x.fifo); x.txlist = x.fifo; return ('ptr', ('R', ('tx', len(x.fifo))))
            if nm == 'begin' and x.mode == 'dec':
                x.deepen = True
                l = x.temp()
                while x.fifo and x.fifo[0][0] == 'E' and tname_prim(x.fifo[0][1]) is None: self.expand(x)
                it = x.fifo[0] if x.fifo else None
                if it is None: raise Mismatch('decoding reads more than encoding wrote')
                x.store[l] = it[1] if it[0] == 'B' else x.get(('.', it[2], 'val'), 'u8')
                return ('ptr', l)
            raise AnalysisError('codec uses %s at %s' % (q, x.src))
        if q == 'std::visit':
            lam = x.get(args[0][1]) if args[0][0] in ('ptr', 'obj') else args[0]
            if lam[0] != 'lam': raise AnalysisError('std::visit with something else than a lambda at ' + x.src)
            t = self.tag(x, args[1][1], n['a'][1]['t'])
            ops = [x.m.fns[o] for o in x.lams[lam[1]][0]['ops'] if o in x.m.fns]
            o = [o for o in ops if canon_t(strip(o['p'][0]['t'])) == canon_t(t)]
            if len(o) != 1: raise AnalysisError('visitor for %s at %s' % (t, x.src))
            l = ('.', args[1][1], 'as:' + t); x.ltype[l] = t
            return x.call_fn(o[0], x.lams[lam[1]][2], [('ptr', l)], n, x.lams[lam[1]][1])
        if q == 'std::apply':
            lam = x.get(args[0][1]) if args[0][0] in ('ptr', 'obj') else args[0]
            if lam[0] != 'lam': raise AnalysisError('std::apply at ' + x.src)
            k = len(targs_of(strip(n['a'][1]['t'])))
            return x.call_lambda(lam, [('ptr', ('.', args[1][1], 'arg%d' % i)) for i in range(k)], n)
        if q == 'std::holds_alternative':
            t = self.tag(x, args[0][1], n['a'][0]['t'])
            return C(canon_t(t) == canon_t(n['targs'][0]))
        if q == 'std::get_if' and args[0][0] == 'ptr':
            t = self.tag(x, args[0][1], n['a'][0]['t'].rstrip('* '))
            if canon_t(t) != canon_t(n['targs'][0]): return NULL
            l = ('.', args[0][1], 'as:' + n['targs'][0]); x.ltype[l] = t
            return ('ptr', l)
        if cls.startswith('std::variant') and nm == 'index':
            t = self.tag(x, this, cls)
            return C([canon_t(a) for a in targs_of(cls)].index(canon_t(t)))
        if nm in ('size', 'length') and this is not None and cls.startswith(('std::vector', 'std::basic_string', 'std::__cxx11')):
            return self.size_of(x, this, cls)
        if nm == 'empty' and this is not None and cls.startswith(('std::vector', 'std::basic_string', 'std::__cxx11')):
            v = self.size_of(x, this, cls)
            return C(v == C(0)) if v[0] == 'c' else C(x.cmp('==', v, C(0)))
        if nm == 'resize' and this is not None and cls.startswith(('std::vector', 'std::basic_string', 'std::__cxx11')):
            v = args[0] if args[0][0] not in ('ptr', 'obj') else x.get(args[0][1])
            x.set(this, ('seq', x.fresh(), v)); return C(0)
        if (cls.startswith('std::optional') or cls.startswith('std::_Optional')) and nm == 'value':
            if not x.truth(x.get(('.', this, '?'), 'b')): raise Thrown('std::bad_optional_access', x.src)
            return ('ptr', ('.', this, '!'))
        return FifoPolicy.hook(self, x, n, qn, this, args)
    def put(self, x, item):
        if x.mode == 'enc' and getattr(x, 'txref', None) == len(x.fifo) and x.fifo is x.txlist:
            if item[0] == 'B': x.store[('R', ('tx', len(x.fifo)))] = item[1]
            elif item[0] == 'E' and tname_prim(item[1]): x.store[('R', ('tx', len(x.fifo)))] = x.get(('.', item[2], 'val'))
        x.fifo.append(item)
    def on_load(self, x, loc): return None
    def tag(self, x, loc, t):
        v = x.get(('.', loc, 'tag'))
        if v[0] == 'str': return v[1]
        alts = targs_of(strip(t))
        if not alts: raise AnalysisError('alternatives of %s' % t)
        a = alts[x.choose(len(alts))]
        x.store[('.', loc, 'tag')] = ('str', a)
        x.fact('==', v, ('str', a), True)
        return a
    def least(self, x, items):
        r = C(0)
        for it in items:
            if it[0] == 'B': r = add(r, C(1))
            elif it[0] == 'E': r = add(r, C(least_t(it[1])))
            else:
                k = lin(self.least(x, it[3]))[0]
                n = it[1]
                r = add(r, scale(n, k)) if n[0] != 'c' else add(r, C(n[1] * k))
        return r
    def nested(self, x, n, f, args):
        t = tname(f)
        if thin(t): return NotImplemented
        if self.deep and t not in PRIMN and tname_prim(t) is None: return NotImplemented
        loc = x.deref(args[1])
        if f['name'] == 'operator<<':
            if x.mode != 'enc': raise Mismatch('decoding encodes')
            l = x.temp(t); x.copy(l, loc); x.ltype[l] = t
            self.touch(x, t, l)
            self.put(x, ('E', t, l))
            return args[0]
        if x.mode != 'dec': raise Mismatch('encoding decodes')
        if x.fifo and x.fifo[0][0] == 'E' and canon_t(x.fifo[0][1]) == canon_t(t):
            x.copy(loc, x.fifo.pop(0)[2]); return args[0]
        if x.fifo and x.fifo[0][0] == 'E' and x.fifo[0][1] != t:
            self.expand(x)
        return NotImplemented
    def touch(self, x, t, l):
        k = tname_prim(t)
        if k: x.get(('.', l, 'val'), k)
    def expand(self, x):
        it = x.fifo.pop(0)
        f = self.ops.get(('operator<<', canon_t(it[1])))
        if f is None: raise AnalysisError('no encoder of ' + it[1])
        rest, x.fifo = x.fifo, []
        m0, d0 = x.mode, x.depth0
        x.mode = 'enc'
        x.call_fn(f, None, [('ptr', S), ('ptr', it[2])])
        x.mode = m0
        x.fifo = x.fifo + rest

def canon_t(t):
    return t.replace('app::ua::', '').replace(' ', '')
PRIMN = set()
NUMT = {'bool': 'b', 'signed char': 'i8', 'unsigned char': 'u8', 'short': 'i16', 'unsigned short': 'u16', 'int': 'i32', 'unsigned int': 'u32',
        'long': 'i64', 'unsigned long': 'u64', 'float': 'f32', 'double': 'f64'}
def tname_prim(t):
    """number kind of a NumericType"""
    import re
    mm = re.match(r'(?:app::ua::)?NumericType<.*,\s*([a-z ]+)>$', t)
    return NUMT.get(mm.group(1).strip()) if mm else None
def least_t(t):
    k = tname_prim(t)
    if k: return {'b': 1, 'f32': 4, 'f64': 8}.get(k) or W[k] // 8
    return 1

def fresh_into(x, m, t, loc):
    """a fresh object: absent optionals, null pointers, numbers unset"""
    x.ltype[loc] = t
    if t.startswith('std::optional<'): x.store[loc] = ('opt',); x.store[('.', loc, '?')] = C(0); return
    if t.startswith('std::unique_ptr<'): x.store[loc] = NULL; return
    r = m.recs.get(t)
    if tname_prim(t): x.store[('.', loc, 'val')] = C(0); return      # NumericType: val{}
    if r is None or t.startswith('std::'): x.store[loc] = ('un', x.fresh(), 'unset'); return
    x.store[loc] = ('un', x.fresh(), 'unset')
    for b in r.get('b', []) if isinstance(r.get('b'), list) else []:
        bn = b if isinstance(b, str) else b.get('n') or b.get('t')
        rb = m.recs.get(bn)
        if rb:
            for g in rb['f']: fresh_into(x, m, strip(g['t']), ('.', loc, g['n']))
    for g in r['f']:
        if g.get('static'): continue
        fresh_into(x, m, strip(g['t']), ('.', loc, g['n']))

class Eq:
    def __init__(s, pol, x, m): s.pol, s.x, s.m = pol, x, m
    def cmp(s, t, a, b, path=''):
        """None if equal, else what differs"""
        x, m = s.x, s.m
        if t.startswith('std::optional<'):
            u = targs_of(t)[0]
            ha, hb = s.known(('.', a, '?')), s.known(('.', b, '?'))
            if ha is None: ha = s.same_opt(a, b)
            if ha is None: return path + ': not known to be present'
            if not ha: return None if hb is False else path + ': absent when encoded, present after decoding'
            if hb: return s.cmp(u, ('.', a, '!'), ('.', b, '!'), path)
            if ha == 'same': return None
            if s.empty(u, ('.', a, '!')): return None
            return path + ': present when encoded, absent after decoding'
        if t.startswith('std::unique_ptr<'):
            u = targs_of(t)[0]
            va, vb = x.get(a), x.get(b)
            if va == vb: return None
            na = va == NULL or x.facts.tr.get(('==',) + tuple(sorted((va, NULL), key=repr))) is True
            nn = va[0] == 'ptr' or x.facts.tr.get(('==',) + tuple(sorted((va, NULL), key=repr))) is False
            if na: return None if vb == NULL else path + ': null when encoded, set after decoding'
            if vb == NULL: return path + ': lost in decoding'
            if vb[0] != 'ptr' or not nn: return path + ': unknown pointer'
            return s.cmp(u, x.deref(va), x.deref(vb), path)
        if t.startswith('std::variant<'):
            ta, tb = x.get(('.', a, 'tag')), x.get(('.', b, 'tag'))
            if ta != tb:
                if ta[0] == 'str' and tb[0] == 'str' and canon_t(ta[1]) == canon_t(tb[1]): pass
                elif x.content(a) == x.content(b): return None
                else: return '%s: holds %s when encoded, %s after decoding' % (path, show(ta), show(tb))
            if ta[0] != 'str': return None if x.content(a) == x.content(b) else path + ': unknown alternative'
            return s.cmp(ta[1], ('.', a, 'as:' + ta[1]), ('.', b, 'as:' + tb[1]), path)
        if t.startswith(('std::vector<', 'std::array<')) or 'basic_string' in t:
            ca, cb = x.content(a), x.content(b)
            if ca == cb: return None
            vb = x.get(b)
            N = s.pol.size_of(x, a, t)
            if vb[0] == 'seq':
                return None if s.pol.eqterm(x, vb[2], C(0)) and s.pol.eqterm(x, N, C(0)) else path + ': elements are not decoded'
            if vb[0] != 'arrv': return '%s: differs (%s)' % (path, show(vb))
            if not s.pol.eqterm(x, vb[1], N): return '%s: %s elements after decoding, %s when encoded' % (path, show(vb[1]), show(N))
            if len(vb[3]) != 1 or vb[3][0][0] != vb[2]: return path + ': element %s is decoded in turn %s' % (show(vb[3][0][0]), show(vb[2]))
            if 'basic_string' in t:
                return s.scalar(('[]', a, vb[2]), vb[3][0][1], 'i8', path + '[]')
            return s.cmp(targs_of(t)[0], ('[]', a, vb[2]), vb[3][0][1], path + '[]')
        r = m.recs.get(t)
        if r is None:
            k = NUMT.get(t) or {'char': 'i8'}.get(t)
            if k: return s.scalar(a, b, k, path)
            if t in m.enums or (a in x.store or b in x.store): return s.scalar(a, b, 'u32', path)
            raise AnalysisError('codec type %s' % t)
        if x.content(a) == x.content(b) and not t.startswith('app::ua::NumericType'): return None
        for bb in m.all_bases(t) + [t]:
            rb = m.recs.get(bb)
            if rb is None: continue
            for g in rb['f']:
                if g.get('static'): continue
                if g['n'] == 'arrayDimensions' and canon_t(t) == 'Variant' and s.isnull(x.get(('.', a, 'value'))): continue
                d = s.cmp(strip(g['t']), ('.', a, g['n']), ('.', b, g['n']), (path + '.' if path else '') + g['n'])
                if d: return d
        return None
    def isnull(s, v):
        return v == NULL or s.x.facts.tr.get(('==',) + tuple(sorted((v, NULL), key=repr))) is True
    def known(s, loc):
        v = s.x.get(loc, 'b')
        if v[0] == 'c': return bool(v[1])
        lo, hi = s.x.facts.bounds(v)
        if lo == hi and lo is not None: return bool(lo)
        return None
    def same_opt(s, a, b):
        return 'same' if s.x.content(a) == s.x.content(b) else None
    def empty(s, u, loc):
        if u.startswith('std::vector<') or 'basic_string' in u: return s.pol.eqterm(s.x, s.pol.size_of(s.x, loc, u), C(0))
        r = s.m.recs.get(u)
        if r is None: return False
        fl = [g for bb in s.m.all_bases(u) + [u] if bb in s.m.recs for g in s.m.recs[bb]['f'] if not g.get('static')]
        return len(fl) == 1 and s.empty(strip(fl[0]['t']), ('.', loc, fl[0]['n']))
    def scalar(s, a, b, k, path):
        x = s.x
        va, vb = x.get(a, k if k in W else None), x.get(b, k if k in W else None)
        if va == vb: return None
        if k in ('f32', 'f64'):
            nb = s.pol.norm(x, vb)
            return None if nb == va else '%s: is %s after decoding' % (path, show(vb))
        if s.pol.eqterm(x, va, vb, W.get(k, 64)): return None
        return '%s: is %s after decoding, %s when encoded' % (path, show(vb)[:120], show(va)[:120])

def setup(x, m):
    cls = [r for r in m.recs if r.endswith('::' + CODEC)]
    refs = [g['n'] for g in m.recs[cls[0]]['f'] if g['tk'] in ('r', 'p') and BUFCLS in g['t']]
    x.ltype[S] = cls[0]
    b = ('R', 'buf'); x.ltype[b] = [r for r in m.recs if r.endswith('::' + BUFCLS)][0]
    x.store[('.', S, refs[0])] = ('ptr', b)

def roundtrip(m, R, ops, t, enc, dec):
    short_t = canon_t(t)
    deep = False
    while True:
        pol = P(ops, t, deep)
        flag = [False]
        def entry(x):
            pol.start(x); setup(x, m)
            x.depth0 = True; x.deepen = False
            x.why = None
            x.ltype[V] = t
            k = tname_prim(t)
            if k in W: x.get(('.', V, 'val'), k)
            # root call
            x.call_fn(enc, None, [('ptr', S), ('ptr', V)])
            flag[0] = flag[0] or x.deepen
            # bytes patched in place
            for l in list(x.store):
                if l[0] == 'R' and isinstance(l[1], tuple) and l[1][0] == 'tx': patch(pol, x, l[1][1], x.store[l])
            x.items = [i for i in x.fifo]
            x.mode = 'dec'
            fresh_into(x, m, t, D)
            try:
                x.call_fn(dec, None, [('ptr', S), ('ptr', D)])
                if x.fifo: x.why = 'decoding leaves %d of the encoded items unread' % len(x.fifo)
                else: x.why = Eq(pol, x, m).cmp(t, V, D)
            except Mismatch as e: x.why = str(e)
            except Thrown as e: x.why = 'decoding refuses what was encoded (%s)' % e.src
            flag[0] = flag[0] or x.deepen
            return C(0)
        pol.on_load = loader(pol)
        ps = explore(m, pol, entry, enough=lambda p: (deep or not flag[0]) and getattr(p.x, 'why', None))
        if flag[0] and not deep: deep = True; continue
        break
    ok = 0
    for p in ps:
        if p.outcome == 'throw': continue       # not encodable
        if p.outcome != 'normal':
            R.fail('inverse', short_t, enc['l'], 'encoding ends by ' + p.outcome, p.trace); continue
        ok += 1
        R.check(p.x.why is None, 'inverse', short_t, dec['l'], '%s: %s' % (short_t, p.x.why), p.trace)
    R.check(ok > 0, 'inverse', short_t + ' encodable', enc['l'], 'no value can be encoded')
    return ps

def loader(pol):
    return None

def patch(pol, x, k, v):
    """byte k of the stream was changed in place"""
    it = x.fifo[k]
    if it[0] == 'E' and tname_prim(it[1]) == 'u8': x.set(('.', it[2], 'val'), v, log=False)
    elif it[0] == 'B': x.fifo[k] = ('B', v)
    elif pol.deep: raise AnalysisError('byte %d of the stream is changed in place' % k)
    else: x.deepen = True

def layout(m, R, ops, t, enc):
    """numbers: full width, least significant byte first"""
    k = tname_prim(t)
    pol = P(ops, t, False)
    def entry(x):
        pol.start(x); setup(x, m); x.depth0 = True; x.deepen = False
        x.ltype[V] = t
        if k in W: x.get(('.', V, 'val'), k)
        x.call_fn(enc, None, [('ptr', S), ('ptr', V)])
        return C(0)
    n = least_t(t)
    for p in explore(m, pol, entry):
        x = p.x
        it = []
        while x.fifo:
            if x.fifo[0][0] == 'E': pol.expand(x)
            else: it.append(x.fifo.pop(0))
        ok = len(it) == n and all(i[0] == 'B' for i in it)
        v = x.get(('.', V, 'val'))
        if ok and k in W and k != 'b':
            want = bits(x, v, 8 * n)
            got = [b for i in it for b in bits(x, i[1], 8)]
            ok = want == got
        elif ok and k == 'b':
            lo, hi = x.facts.bounds(v)
            ok = lo == hi and it[0][1] == C(lo)
        elif ok:
            got = [b for i in it for b in bits(x, i[1], 8)]
            at = {b[1] for b in got if isinstance(b, tuple)}
            ok = len(at) == 1 and list(at)[0] == ('mem', v) and got == [('b', ('mem', v), i) for i in range(8 * n)]
        R.check(ok, 'layout', canon_t(t), enc['l'], 'is not written as %d bytes, least significant first' % n, p.trace)

def check(m, R, tier):
    R.rule('inverse', 'decoding what was encoded consumes exactly it and yields an equal value, on every path of the encoder')
    R.rule('layout', 'numbers are written in their full width, least significant byte first')
    R.rule('buffer', 'the packet buffer returns the bytes that were appended, each once and in order')
    R.rule('both', 'a type that is written by a plain operator also has one that reads it, and the other way round')
    methods(m, R, Layout(m, SDU), 'buffer', 'buffer')
    ops = {}
    tmpl = {}
    for f in m.fns.values():
        if is_op(f):
            ops[(f['name'], canon_t(tname(f)))] = f
            if f.get('targs'): tmpl[canon_t(tname(f))] = True
    types = {canon_t(tname(f)): tname(f) for f in m.fns.values() if is_op(f)}
    n = 0
    skipped = []
    for c, t in sorted(types.items()):
        e, d = ops.get(('operator<<', c)), ops.get(('operator>>', c))
        if not (e and d):
            if c in tmpl: skipped.append(c)
            else: R.fail('both', c, (e or d)['l'], 'only one direction is defined')
            continue
        R.ok('both', c)
        if thin(t): continue
        n += len(roundtrip(m, R, ops, t, e, d))
        if tname_prim(t): layout(m, R, ops, t, e)
    R.info.update(types=len(types), paths=n, one_direction_only=skipped)
    R.need('inverse', 40)
    R.need('layout', 8)

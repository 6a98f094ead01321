"""Closed-world exploration of a component or entity: its constructor, every message handler and public entry and
every callback of the links, timers and acceptors it creates are explored from every abstract state reached by
earlier entries, to a fixpoint. An abstract state is the set of locations with a known constant (state pointers,
flags, resource typestates); everything else is unknown on entry. The environment is nondeterministic: a link may
connect, fail, deliver any data or close at any time, a running timer may expire, pool entries may run out, every
message may come with any content."""
from .interp import *
from .interp import Thrown, Infeasible, strip_cv, first_targ, short
from .app import AppPolicy, Snap
from .model import AnalysisError

PERSIST = ('R', 'G')

def root(l):
    while l[0] in ('.', '[]'): l = l[1]
    return l

def cls_is_iter(c): return '_Rb_tree' in c and 'iterator' in c

class World(AppPolicy):
    max_loop = 6
    max_depth = 60
    create_throws = True
    connect_throws = True
    decode_throws = True
    encode_throws = False
    pools = ('UaEntityPool', 'ModbusSessionPool')
    stop = ()               # qualified names of functions that are not followed
    CODEC = 'app::ua::OpcUaBinaryCodec'
    MBCODEC = 'app::modbus::ModbusCodec'

    # ---- world objects: ('R', 'link@..'), ghost fields #st (state) #h (handler) #live
    def obj_kind(self, loc):
        if loc and loc[0] == 'R' and isinstance(loc[1], str) and '@' in loc[1]:
            k = loc[1].split('@')[0]
            if k in ('link', 'timer', 'acceptor'): return k
        return None
    def st(self, x, loc): return x.get(('.', loc, '#st'))
    def sst(self, x, loc, v): x.set(('.', loc, '#st'), C(v), log=False)
    def live(self, x, loc): return x.store.get(('.', loc, '#live')) == C(1)
    def bad(self, x, what, msg, n=None): x.event('bad', what, None, [], n, msg=msg)

    def create(self, x, kind, h, n):
        i = 0
        while True:
            loc = ('R', '%s@%s%s' % (kind, n['l'], '#%d' % i if i else ''))
            if not self.live(x, loc): break
            i += 1
        e = x.event('create', kind, loc, [], n, handler=h)
        if self.create_throws and x.choose(2) == 1:
            e.x['threw'] = True
            raise Thrown('std::runtime_error', x.src, 'create ' + kind)
        for k in x.under(loc): del x.store[k]
        x.set(('.', loc, '#live'), C(1), log=False)
        self.sst(x, loc, 0)
        x.set(('.', loc, '#h'), h, log=False)
        return loc

    def dispose(self, x, v, n=None):
        """the object v points to is deleted"""
        if v[0] != 'ptr': return
        loc = v[1]
        if self.obj_kind(loc):
            if not self.live(x, loc): self.bad(x, 'double-release', '%s is released twice' % show(loc), n)
            x.event('dispose', self.obj_kind(loc), loc, [self.st(x, loc)], n)
            for k in x.under(loc): del x.store[k]
            return
        t = x.ltype.get(loc)
        if t not in x.m.recs: return
        self.destroy_obj(x, loc, t, n)
        if loc[0] == 'R':
            for k in x.under(loc): del x.store[k]
            if loc in x.store: del x.store[loc]

    def destroy_obj(self, x, loc, t, n=None):
        x.event('destroy', t, loc, [], n)
        for m in x.m.recs[t]['m']:
            if m['n'].startswith('~'):
                fn = x.m.fns.get(m['id'])
                if fn and fn.get('body') and fn['body'].get('s'): x.call_fn(fn, loc, [], n)
        for f in reversed(x.m.recs[t]['f']):
            fl = ('.', loc, f['n']); ft = strip_cv(f['t'])
            if ft.startswith('std::unique_ptr'):
                v = x.get(fl)
                if v[0] == 'ptr': x.set(fl, NULL, log=False); self.dispose(x, v, n)
            elif ft.startswith('std::map<'):
                for k in [l for l in x.under(fl) if l[0] == '.' and l[2] == 'second' and x.store[l][0] == 'ptr']:
                    v = x.store[k]; del x.store[k]; self.dispose(x, v, n)
            elif ft in x.m.recs and f['tk'] == 'o':
                p = self.pool_of(x, fl)
                if p:
                    self.destroy_obj(x, p, x.ltype[p], n)
                    for k in x.under(p): del x.store[k]
                    if p in x.store: del x.store[p]
                self.destroy_obj(x, fl, ft, n)
        for b in x.m.recs[t]['bases']:
            if b in x.m.recs: self.destroy_obj(x, loc, b, n)

    def heap(self, x, t, n):
        i = 0
        while True:
            loc = ('R', 'new:%s@%s%s' % (t, n['l'], '#%d' % i if i else ''))
            if ('.', loc, '#obj') not in x.store: break
            i += 1
        x.store[('.', loc, '#obj')] = C(1)
        return loc

    # ---- pools: one tracked entity, any number of others
    def pool_of(self, x, loc):
        v = x.store.get(('.', loc, '#ent'))
        return v[1] if v else None
    def pool_cls(self, cls):
        c = short(cls).rsplit('::', 1)[-1]
        return c in self.pools
    def pool_ctor(self, x, n, cls, loc):
        args = x.evargs(n['a'], n['pk'])
        x.set(loc, ('un', x.fresh(), 'pool'), log=False)
        if '<' in cls: E = first_targ(cls)
        else:
            E = None
            for f in x.m.recs[cls]['f']:
                t = strip_cv(f['t'])
                if 'unique_ptr<' in t:
                    c = t[t.index('unique_ptr<'):]
                    E = first_targ(c)
        if E not in x.m.recs: raise AnalysisError('pool %s: entity class unknown' % cls)
        ctors = x.m.ctors(E)
        if len(ctors) != 1: raise AnalysisError('pool entity %s has %d constructors' % (E, len(ctors)))
        ent = ('R', 'ent:' + E)
        uid = ('in', ('R', 'uid:' + E))
        x.xt[uid] = 'u32'
        x.ltype[ent] = E
        av = []
        for p in ctors[0]['p']:
            if is_int_tk(p['tk']): av.append(uid); continue
            pt = strip_cv(p['t'])
            c = []
            for a, an in zip(args, n['a']):
                at = strip_cv(an['t'])
                if at == pt or pt in x.m.all_bases(at): c.append(a)
            if len(c) != 1: raise AnalysisError('pool %s: cannot match parameter %s' % (cls, p['n']))
            av.append(c[0])
        x.run_ctor(ctors[0], ent, av)
        x.ltype[ent] = E
        x.set(('.', loc, '#ent'), ('ptr', ent), log=False)
        x.set(('.', ent, '#busy'), C(0), log=False)
        return C(0)
    def uid(self, x, ent):
        u = ('in', ('R', 'uid:' + x.ltype[ent]))
        x.xt[u] = 'u32'
        if 'UaEntityPool' in self.pools and not x.ltype[ent].endswith('ModbusSession'):
            x.facts.num.setdefault(((u, 1),), [1, 32, set()])
        return u
    def pool_call(self, x, n, this, args, name):
        ent = self.pool_of(x, this)
        if ent is None: raise AnalysisError('pool without entity at ' + n['l'])
        u = self.uid(x, ent)
        if name == 'alloc':
            e = x.event('alloc', x.ltype[ent], ent, args, n)
            busy = ('.', ent, '#busy')
            k = x.choose(2 if x.get(busy) == C(1) else 3)
            out = x.deref(args[0])
            if k == 0:
                e.ret = C(0); return C(0)
            if k == 2:
                x.set(busy, C(1), log=False); x.set(out, u)
            else:
                o = ('un', x.fresh(), 'other-id'); x.xt[o] = 'u32'
                x.assume('!=', o, u)
                x.set(out, o)
            e.ret = C(1)
            return C(1)
        a = args[0] if args[0][0] not in ('ptr', 'obj') else x.get(args[0][1])
        if name in ('release', 'free'):
            if not x.cmp('==', a, u):
                self.release_other(x, a, n); return C(0)
            e = x.event('release', x.ltype[ent], ent, args, n)
            if x.get(('.', ent, '#busy')) != C(1): self.bad(x, 'double-release', 'pool entry of %s is returned while it is free' % x.ltype[ent], n)
            x.set(('.', ent, '#busy'), C(0), log=False)
            return C(0)
        if name == 'get':
            if x.cmp('==', a, u): return ('ptr', ent)
            x.event('other', x.ltype[ent], None, [a], n)
            if x.choose(2) == 1: raise Infeasible()     # another entity: explored as the tracked one
            raise Thrown('std::out_of_range', x.src, 'pool')
        raise AnalysisError('pool operation %s at %s' % (name, n['l']))
    def release_other(self, x, a, n):
        x.event('release-other', '', None, [a], n)

    def hook(self, x, n, qn, this, args):
        if args is None:
            cls = qn[:-len('::<ctor>')]
            if self.pool_cls(cls) and not n.get('copy'): return self.pool_ctor(x, n, cls, this)
            return NotImplemented
        q = short(qn)
        name = q.rsplit('::', 1)[-1]
        if this is not None:
            k = self.obj_kind(this)
            if k: return getattr(self, 'do_' + k)(x, n, this, args, name)
            cls = n.get('cls', '')
            if this[0] == '*' and this[1] == NULL and (n.get('own') or cls.endswith(('LinkInterface', 'TimerInterface', 'AcceptorInterface', 'FileDescriptorInterface'))):
                self.bad(x, 'null-use', '%s is called on a %s that was released or never created' % (name, cls.rsplit('::', 1)[-1]), n)
                raise Thrown('null', x.src, 'null')
            if cls and self.pool_cls(cls) and n.get('own'): return self.pool_call(x, n, this, args, name)
            if cls == self.CODEC and name in ('operator<<', 'operator>>'): return self.codec(x, n, this, args, name)
            if cls.endswith('::OpcUaSduBuffer') and name == 'write' and len(args) == 2: x.event('append', '', this, args, n)
            if cls == self.MBCODEC: return self.mbcodec(x, n, this, args, name)
            if self.frames and cls.endswith('::PduBuffer') and len(args) == 1: return self.mb_appended(x, n, this, args)
            if cls.startswith('std::map<') and 'unique_ptr' in cls:
                r = self.map_call(x, n, this, args, name, cls)
                if r is not NotImplemented: return r
        if cls_is_iter(n.get('cls', '')) or (name in ('operator==', 'operator!=') and len(args) + (this is not None) == 2):
            r = self.map_iter(x, n, this, args, name)
            if r is not NotImplemented: return r
        if this is None and name in ('operator<<', 'operator>>') and len(args) == 2 and args[0][0] == 'ptr' and x.ltype.get(args[0][1]) == self.CODEC:
            return self.codec(x, n, args[0][1], args[1:], name)
        if name in ('createLink', 'createTimer', 'createAcceptor') and 'Reactor' in q:
            h = x.get(x.deref(args[0])) if args and args[0][0] in ('ptr', 'obj') else NULL
            if h[0] not in ('lam',): h = NULL
            loc = self.create(x, name[6:].lower(), h, n)
            t = x.temp(n.get('rt')); x.set(t, ('ptr', loc), log=False)
            return ('obj', t)
        if q in ('memcmp', 'std::memcmp', 'strncmp', 'std::strncmp', '__builtin_memcmp') and len(args) == 3 and args[2][0] == 'c' and args[2][1] <= 8:
            r = self.memcmp(x, args)
            if r is not None: return r
        if q in self.stop:
            return x.external(n, qn, this, args)
        return AppPolicy.hook(self, x, n, qn, this, args)

    def throws(self, x, n, qn): return short(qn) in self.may_throw

    # ---- maps of owned objects with constant keys (entries at ('[]', map, key).second)
    def map_find(self, x, this, key):
        for k in sorted([l[1][2][1] for l in x.store if l[0] == '.' and l[2] == 'second' and l[1][0] == '[]' and l[1][1] == this and l[1][2][0] == 'c']):
            if key == C(k) or (key[0] != 'c' and x.cmp('==', key, C(k))): return ('[]', this, C(k))
        return None
    def map_call(self, x, n, this, args, name, cls):
        key = None
        if args and name in ('operator[]', 'at', 'find', 'count', 'contains', 'emplace', 'try_emplace', 'insert_or_assign', 'erase'):
            key = x.get(args[0][1]) if args[0][0] in ('ptr', 'obj') else args[0]
        if name in ('operator[]', 'at', 'find', 'count', 'contains'):
            e = self.map_find(x, this, key)
            if name in ('count', 'contains'): return C(e is not None)
            if name == 'find':
                t = x.temp(n.get('rt')); x.set(t, ('mit', e) if e else ('mend', this), log=False); return ('obj', t)
            if e is None and name == 'at': raise Thrown('std::out_of_range', x.src, 'map')
            if e is None and key[0] == 'c':
                e = ('[]', this, key); x.set(('.', e, 'second'), NULL, log=False)
            if e is None:
                x.event('insert', cls, this, [key], n)
                t = x.temp(); x.set(t, NULL, log=False)
                return ('ptr', t)
            return ('ptr', ('.', e, 'second'))
        if name in ('emplace', 'try_emplace', 'insert_or_assign') and len(args) == 2 and key[0] == 'c':
            e = self.map_find(x, this, key)
            if e is None or name == 'insert_or_assign':
                e = ('[]', this, key)
                src = x.deref(args[1])
                x.set(('.', e, 'second'), x.get(src), log=False); x.set(src, NULL, log=False)
            t = x.temp(n.get('rt')); x.set(t, ('un', x.fresh(), 'emplaced'), log=False); return ('obj', t)
        if name in ('end', 'cend'):
            t = x.temp(n.get('rt')); x.set(t, ('mend', this), log=False); return ('obj', t)
        return NotImplemented
    def map_iter(self, x, n, this, args, name):
        if name in ('operator==', 'operator!='):
            a = [x.get(v[1]) if v[0] in ('ptr', 'obj') else v for v in ([('ptr', this)] if this is not None else []) + list(args)]
            if len(a) == 2 and all(v[0] in ('mit', 'mend') for v in a): return C((a[0] == a[1]) == (name == 'operator=='))
        if name in ('operator->', 'operator*') and this is not None:
            v = x.get(this)
            if v[0] == 'mit': return ('ptr', v[1])
            if v[0] == 'mend': self.bad(x, 'null-use', 'an iterator past the end is used', n); raise Thrown('null', x.src, 'null')
        return NotImplemented

    # ---- links
    def do_link(self, x, n, loc, args, name):
        if not self.live(x, loc): self.bad(x, 'use-after-release', '%s of a link that was released' % name, n)
        st = self.st(x, loc)
        if name == 'connect':
            e = x.event('link', 'connect', loc, args, n)
            if st != C(0) : 
                e.x['threw'] = True; raise Thrown('std::runtime_error', x.src, 'already connected')
            if self.connect_throws and x.choose(2) == 1:
                e.x['threw'] = True; raise Thrown('std::runtime_error', x.src, 'connect')
            self.sst(x, loc, 2); return C(0)
        if name in ('close', 'release'):
            x.event('link', 'close', loc, args, n)
            self.sst(x, loc, 0)
            if name == 'release': x.set(('.', loc, '#h'), NULL, log=False)
            return C(0)
        if name == 'send':
            e = x.event('link', 'send', loc, args, n, snap=Snap(x))
            if st == C(0): e.ret = C(-1); return C(-1)
            e.ret = C(1) if x.choose(2) == 0 else C(-1)
            return e.ret
        if name == 'receive':
            e = x.event('link', 'receive', loc, args, n, snap=Snap(x) if self.frames else None)
            E = [dict(v['c']) for k, v in x.m.enums.items() if 'LinkResult' in k]
            if len(E) != 1: raise AnalysisError('LinkResult: %d enumerations' % len(E))
            t = x.temp(n.get('rt'))
            ks = ['ok', 'na', 'closed', 'error']
            k = ks[x.choose(4)] if st != C(0) else ks[3]
            e.x['res'] = k
            x.set(t, ('zero',), log=False)
            x.set(('.', t, 'status'), C(E[0][k]), log=False)
            if k == 'ok':
                ln = ('ev', e.i, 'len'); x.xt[ln] = 'i32'
                x.assume('>=', ln, C(1))
                if x.isnum(args[1]): x.assume('<=', ln, args[1])
                x.set(('.', t, 'len'), ln, log=False)
                self.received(x, e, args)
            return ('obj', t)
        if name == 'setHandler':
            h = x.get(x.deref(args[0])) if args[0][0] in ('ptr', 'obj') else args[0]
            x.set(('.', loc, '#h'), h if h[0] == 'lam' else NULL, log=False)
            x.event('link', 'setHandler', loc, args, n)
            return C(0)
        return x.external(n, 'link::' + name, loc, args)
    def received(self, x, e, args):
        if args[0][0] == 'ptr':
            b = args[0][1]
            if b[0] == '[]': b = b[1]
            x.set(b, ('ev', e.i, 'data'), log=False)

    # ---- timers
    def do_timer(self, x, n, loc, args, name):
        if not self.live(x, loc): self.bad(x, 'use-after-release', '%s of a timer that was released' % name, n)
        if name == 'start':
            x.event('timer', 'start', loc, args, n); self.sst(x, loc, 1); return C(0)
        if name in ('stop', 'release'):
            x.event('timer', 'stop', loc, args, n); self.sst(x, loc, 0); return C(0)
        if name == 'setHandler':
            h = x.get(x.deref(args[0])) if args[0][0] in ('ptr', 'obj') else args[0]
            x.set(('.', loc, '#h'), h if h[0] == 'lam' else NULL, log=False)
            return C(0)
        return x.external(n, 'timer::' + name, loc, args)

    # ---- acceptors
    def do_acceptor(self, x, n, loc, args, name):
        if not self.live(x, loc): self.bad(x, 'use-after-release', '%s of an acceptor that was released' % name, n)
        if name == 'listen':
            e = x.event('acceptor', 'listen', loc, args, n)
            if self.connect_throws and x.choose(2) == 1:
                e.x['threw'] = True; raise Thrown('std::runtime_error', x.src, 'listen')
            self.sst(x, loc, 1); return C(0)
        if name == 'accept':
            l = x.deref(args[0])
            e = x.event('acceptor', 'accept', loc, args, n)
            if self.connect_throws and x.choose(2) == 1:
                e.x['threw'] = True; raise Thrown('std::runtime_error', x.src, 'accept')
            if self.obj_kind(l) == 'link':
                if not self.live(x, l): self.bad(x, 'use-after-release', 'accept into a link that was released', n)
                self.sst(x, l, 1)
            return C(0)
        if name in ('close', 'release'):
            self.sst(x, loc, 0); return C(0)
        if name == 'setHandler':
            h = x.get(x.deref(args[0])) if args[0][0] in ('ptr', 'obj') else args[0]
            x.set(('.', loc, '#h'), h if h[0] == 'lam' else NULL, log=False)
            return C(0)
        return x.external(n, 'acceptor::' + name, loc, args)

    # ---- codecs
    def codec_buf(self, x, this):
        t = self.CODEC
        for f in x.m.recs[t]['f']:
            if 'SduBuffer' in f['t']: 
                v = x.get(('.', this, f['n']))
                return v[1] if v[0] == 'ptr' else None
        return None
    def memcmp(self, x, args):
        def byte(a, i):
            if a[0] == 'str': return C(ord(a[1][i])) if i < len(a[1]) else C(0) if i == len(a[1]) else None
            if a[0] != 'ptr': return None
            l = a[1]
            l = ('[]', l[1], add(l[2], C(i))) if l[0] == '[]' else ('[]', l, C(i))
            return x.get(l, 'u8')
        for i in range(args[2][1]):
            u, v = byte(args[0], i), byte(args[1], i)
            if u is None or v is None: return None
            for w in (u, v): x.xt.setdefault(w, 'u8')
            if not x.cmp('==', u, v): return C(1)
        return C(0)
    BUF = 'app::ua::OpcUaSduBuffer'
    def bufcall(self, x, buf, name):
        """value of an observer of the buffer"""
        t = x.ltype.get(buf) or self.BUF
        f = [g for g in x.m.method(t, name, 0)]
        if not f: raise AnalysisError('%s::%s not found' % (t, name))
        k = len(x.trace)
        v = x.call_fn(f[0], buf, [])
        return v
    def head_bytes(self, x, buf, k=3):
        b = self.bufcall(x, buf, 'begin')
        if b[0] != 'ptr' or b[1][0] != '[]': return None
        return [x.get(('[]', b[1][1], add(b[1][2], C(i))), 'u8') for i in range(k)]
    def codec(self, x, n, this, args, name):
        buf = self.codec_buf(x, this)
        t = strip_cv(n['a'][-1]['t'])
        l = x.deref(args[0])
        if name == 'operator>>':
            hb = None
            if t.endswith('MessageHeader') and buf is not None: hb = self.head_bytes(x, buf)
            e = x.event('decode', t, buf, [('ptr', l)], n, head=hb, loc=l)
            if self.decode_throws and x.choose(2) == 1:
                e.x['threw'] = True; raise Thrown('std::runtime_error', x.src, 'decode')
            x.set(l, ('ev', e.i, 'val'), log=False)
            if hb:
                for i, v in enumerate(hb):
                    mt = ('[]', ('.', l, 'messageType'), C(i))
                    x.set(('.', mt, 'val'), v, log=False)
            self.after_decode(x, buf)
        else:
            x.event('encode', t, buf, [('ptr', l)], n, snap=Snap(x), loc=l)
            if self.encode_throws and x.choose(2) == 1: raise Thrown('std::runtime_error', x.src, 'encode')
            self.after_encode(x, buf)
        return ('ptr', this)
    def after_decode(self, x, buf): self.moved(x, buf)
    def after_encode(self, x, buf): self.moved(x, buf)
    def moved(self, x, buf):
        """the codec moved the positions of the buffer"""
        if buf is None: return
        t = x.ltype.get(buf) or 'app::ua::OpcUaSduBuffer'
        for f in x.m.recs[t]['f']:
            if is_int_tk(f['tk']):
                v = ('un', x.fresh(), f['n']); x.xt[v] = f['tk']
                x.set(('.', buf, f['n']), v, log=False)

    def mbcodec(self, x, n, this, args, name):
        buf = None
        for f in x.m.recs[self.MBCODEC]['f']:
            if 'PduBuffer' in f['t']:
                v = x.get(('.', this, f['n']))
                if v[0] == 'ptr': buf = v[1]
        if name in ('encode', 'decode') and args:
            l = x.deref(args[0])
            e = x.event(name, strip_cv(n['a'][-1]['t']), buf, [('ptr', l)], n, snap=Snap(x), loc=l)
            ok = x.choose(2) == 0
            e.x['ok'] = ok
            if name == 'decode':
                self.mb_decoded(x, e, l)
                for f in next((o.x['still'] for o in reversed(x.trace) if isinstance(o, Ev) and o.kind == 'frame' and o.obj == buf), ()):
                    v = ('un', x.fresh(), f); x.xt[v] = 'u32'; x.set(('.', buf, f), v, log=False)
            if name == 'encode' and buf is not None:
                self.moved(x, buf)
                for f in x.m.recs.get(x.ltype.get(buf), {}).get('f', ()):
                    if not is_int_tk(f['tk']) and f['tk'] not in ('p', 'r'): x.havoc(('.', buf, f['n']), 'encoded')
            return C(ok)
        return NotImplemented
    frames = False           # whether received Modbus bytes are classified
    def mb_appended(self, x, n, this, args):
        """bytes from the link become part of the buffer: does it hold nothing yet, a part, a whole ADU, or no ADU"""
        rc = [e for e in x.trace if isinstance(e, Ev) and e.kind == 'link' and e.name == 'receive' and e.x.get('res') == 'ok']
        fn = x.m.fns.get(n['fn'])
        v = x.get(args[0][1]) if args[0][0] in ('ptr', 'obj') else args[0]
        while v[0] == 'cast': v = v[3]
        if not rc or v != ('ev', rc[-1].i, 'len') or fn is None or not fn.get('body'): return NotImplemented
        new = self.mb_new(x, this)
        ints = {f: x.get(('.', this, f)) for f in new}
        first = x.store.get(self.PART, C(0)) == C(0)
        r = x.call_fn(fn, this, args, n)
        ct = x.m.ctors(self.MBCODEC)
        q = {k: x.m.method(self.MBCODEC, k, 0) for k in ('isAduHdrReceived', 'isAduDataLenValid', 'isAduReceived', 'isAduValid')}
        if len(ct) != 1 or any(len(f) != 1 for f in q.values()): return r
        t = x.temp(self.MBCODEC); x.ltype[t] = self.MBCODEC
        x.run_ctor(ct[0], t, [('ptr', this)])
        def ask(k): return x.truth(x.call_fn(q[k][0], t, []))
        kind = 'part' if not ask('isAduHdrReceived') else 'bad' if not ask('isAduDataLenValid') else 'part' if not ask('isAduReceived') else 'bad' if not ask('isAduValid') else 'whole'
        grown = {f for f in new if x.get(('.', this, f)) != ints[f]}
        x.event('frame', kind, this, [], n, snap=Snap(x), first=first, rest=[f for f in new if f in grown and ints[f] != new[f]], start=[f for f in new if f not in grown and ints[f] != new[f]], still=[f for f in new if f not in grown], new=new)
        x.store[self.PART] = C(kind == 'part')
        return r
    PART = ('.', ('R', 'this'), '#part')
    def mb_new(self, x, buf):
        """the number members of an empty buffer"""
        t = x.ltype.get(buf) or x.dyn_type(buf, None)
        ct = x.m.ctors(t) if t in x.m.recs else []
        if len(ct) != 1 or ct[0]['p']: return {}
        l = x.temp(t); x.run_ctor(ct[0], l, [])
        v = {f['n']: x.get(('.', l, f['n'])) for f in x.m.recs[t]['f'] if is_int_tk(f['tk'])}
        return {k: w for k, w in v.items() if w[0] == 'c'}
    def mb_decoded(self, x, e, l):
        t = x.ltype.get(l)
        for f in x.m.recs.get(t, {}).get('f', ()):
            if f['tk'] in RANGE or f['tk'] == 'e' or is_int_tk(f['tk']):
                v = ('ev', e.i, f['n']); x.xt[v] = f['tk']
                x.set(('.', l, f['n']), v, log=False)
                if f['n'] == 'transactId': x.facts.num[((v, 1),)] = [0, 65535, set()]    # 16 bits on the wire (C03)
                if f['n'] == 'numBytes': x.facts.num[((v, 1),)] = [0, 256, set()]

class Step:
    """one path of one entry from one state"""
    def __init__(s, entry, pre, path, post): s.entry, s.pre, s.path, s.post = entry, pre, path, post

class Machine:
    """init(x): constructs the roots.  entries(x, state): [(name, fn(x))] for a state (callbacks are added here)."""
    def __init__(s, m, pol, init, entries, extra_key=None, limit=4000, ghost=None, max_states=120):
        s.m, s.pol, s.init, s.entries, s.limit = m, pol, init, entries, limit
        s.lams = {}; s.ltype = {}; s.xt = {}
        s.steps = []; s.states = {}
        s.extra_key = extra_key; s.max_states = max_states

    def freeze(s, p):
        """abstract state at the end of path p"""
        x = p.x
        st = {}
        for k, v in x.store.items():
            if root(k)[0] not in PERSIST: continue
            if v[0] in ('c', 'lam', 'zero', 'str', 'variant') or v == NULL: pass
            elif v[0] == 'ptr' and root(v[1])[0] in PERSIST: pass
            elif v[0] == 'in' and v[1][0] == 'R' and isinstance(v[1][1], str) and v[1][1].startswith('uid:'): pass
            else: continue
            st[k] = v
        for k, t in x.ltype.items():
            if root(k)[0] in PERSIST: s.ltype[k] = t
        return st

    def key(s, st):
        out = []
        for k, v in st.items():
            if k[0] == '.' and isinstance(k[2], str) and k[2].startswith('#'):
                if v[0] != 'lam': out.append((k, v))
                else: out.append((k, ('lam',) + tuple(v[2:])))
            elif k[0] == '.' and k[2] == '?': out.append((k, v))
            elif v[0] in ('c', 'ptr') and s.discrete(k): out.append((k, v))
        return tuple(sorted(out, key=repr))
    def discrete(s, k):
        """flag, enumeration or pointer to an object of the product"""
        if k[0] != '.': return False
        t = s.ltype.get(k[1])
        f = s.m.field(t, k[2]) if t and isinstance(k[2], str) else None
        if f is None:
            b = k[1]
            # by-value members
            path = [k[2]]
            while b[0] == '.' and b not in s.ltype:
                path.append(b[2]); b = b[1]
            t = s.ltype.get(b)
            for nm in reversed(path):
                f = s.m.field(t, nm) if t and isinstance(nm, str) else None
                t = strip_cv(f['t']) if f else None
        if not f: return False
        ft = strip_cv(f['t'])
        return f['tk'] == 'b' or ft in s.m.enums or ft.startswith('std::unique_ptr') or (f['tk'] == 'p' and strip_cv(ft.rstrip('* ')) in s.m.recs)

    def load(s, x, st):
        x.lams = s.lams
        for k, v in st.items(): x.store[k] = v
        x.ltype.update(s.ltype)

    def run(s):
        if getattr(s, 'done', False): return s
        work = []
        def arrive(st):
            k = s.key(st)
            old = s.states.get(k)
            if old is None:
                if len(s.states) >= s.max_states: raise AnalysisError('more than %d abstract states' % s.max_states)
                s.states[k] = st; work.append(k); return
            j = {l: v for l, v in old.items() if st.get(l) == v}
            if len(j) != len(old):
                s.states[k] = j
                if k not in work: work.append(k)
        def start(x):
            x.lams = s.lams
            return s.init(x)
        s.inits = explore(s.m, s.pol, start, s.limit)
        for p in s.inits:
            if p.outcome == 'normal': arrive(s.freeze(p))
        if not s.states: raise AnalysisError('no path constructs the object')
        done = {}
        while work:
            k = work.pop(0)
            st = s.states[k]
            res = []
            for name, fn in s.all_entries(st):
                def go(x, fn=fn):
                    s.load(x, st)
                    return fn(x)
                for p in explore(s.m, s.pol, go, s.limit):
                    post = s.freeze(p)
                    res.append(Step(name, st, p, post))
                    arrive(post)
            done[k] = res
        s.steps = [t for r in done.values() for t in r]
        s.done = True
        return s

    def all_entries(s, st):
        out = list(s.entries(st))
        pol = s.pol
        for k, v in sorted(st.items(), key=repr):
            if not (k[0] == '.' and k[2] == '#live' and v == C(1)): continue
            loc = k[1]; kind = pol.obj_kind(loc)
            stv = st.get(('.', loc, '#st')); h = st.get(('.', loc, '#h'))
            short_ = loc[1].split('@')[0]
            if h is None or h[0] != 'lam': continue
            if kind == 'timer' and stv == C(1):
                def f(x, loc=loc, h=h):
                    pol.sst(x, loc, 0); x.event('fire', 'timer', loc)
                    return x.call_lambda(h, [], {'l': '', 'k': 'MCall'})
                out.append(('timer', f))
            if kind == 'acceptor' and stv == C(1):
                out.append(('accept', lambda x, loc=loc, h=h: (x.event('fire', 'accept', loc), x.call_lambda(h, [], {'l': '', 'k': 'MCall'}))[1]))
            if kind == 'link' and stv in (C(1), C(2)):
                ev = s.link_events()
                def f(x, w, loc=loc, h=h):
                    if w == 'error': pol.sst(x, loc, 0)
                    if w == 'connected': pol.sst(x, loc, 1)
                    x.event('fire', 'link-' + w, loc)
                    return x.call_lambda(h, [C(ev[w])], {'l': '', 'k': 'MCall'})
                for w in (('data', 'error') if stv == C(1) else ('connected', 'error')):
                    out.append(('link-' + w, lambda x, w=w, f=f: f(x, w)))
        return out
    def link_events(s):
        e = [v for k, v in s.m.enums.items() if k.endswith('LinkEvent')]
        if len(e) != 1: raise AnalysisError('enumeration LinkEvent: %d candidates' % len(e))
        return dict(e[0]['c'])

    # ---- helpers for rules
    def statename(s, st, base=None):
        """names of the FSM states the state pointers denote"""
        out = []
        for k, v in sorted(st.items(), key=repr):
            if v[0] == 'ptr' and v[1] in s.ltype and k[0] == '.' and k[2] == 'state':
                out.append(s.ltype[v[1]].rsplit('::', 1)[-1])
        return '+'.join(out)

"""C19: an interprocedural escape analysis over the syntax tree of the type-checked program computes, for every function,
which errors may leave it (throw expressions, calls through std::function, library calls that throw, everything its callees
let out, minus what the handlers around them catch). Nothing may leave the entry of a thread, a destructor, a clean-up action
of an owning pointer or a function declared noexcept; every error thrown is a std::exception, so the handlers of the event
loop catch it; a rethrow stands inside a handler. The dispatching loops are explored on every path with each handler failing:
the loop goes on with the next event and ends only when told to stop. Text is formatted into a fixed buffer with that
buffer's size, and the arguments agree with the format; nothing outside main ends the process, and writing to a closed
connection raises no signal."""
import re
from sa.model import AnalysisError, walk
from sa.interp import *
from sa.interp import Thrown, Ev, Fact, short, strip_cv
from sa.app import AppPolicy, entity
from checks import c06

TECHNIQUE = 'interprocedural exception-escape analysis over the call graph; path-sensitive exploration of the dispatching loops; format and buffer lint'
ASSUMPTIONS = ['memory allocation and locking a mutex do not fail', 'reading the clock, setting a timer descriptor and writing to an event descriptor do not fail', 'virtual calls reach the overriders in the program']

STDTHROW = {'at', 'stoi', 'stol', 'stoul', 'stoull', 'stoll', 'stod', 'stof', 'value', 'any_cast'}
ENDS = {'abort', 'exit', '_exit', '_Exit', 'quick_exit', 'terminate', 'raise', 'kill', 'pthread_exit', 'pthread_cancel', '__assert_fail', 'pthread_kill', 'longjmp', '__builtin_trap', '__builtin_abort', 'unexpected'}
SURE = {'timerfd_settime', 'clock_gettime'}
RAW = {'sprintf', 'vsprintf', 'strcpy', 'strcat', 'gets', 'stpcpy', 'scanf', 'sscanf'}

def name_of(q): return short(q.get('qn') or q.get('name') or '').rsplit('::', 1)[-1]

class Escape:
    def __init__(s, m):
        s.m = m; s.memo = {}; s.bad = []
    def of(s, fid):
        """{thrown type: (place, chain)} of what may leave the function"""
        return s.memo.get(fid, {})
    def solve(s):
        """least fixpoint over the call graph"""
        todo = [f for f in s.m.fns.values() if f.get('body') or f.get('inits')]
        users = {}
        for f in todo:
            for q in list(walk(f.get('body') or {})) + list(walk([i.get('e') for i in f.get('inits', ())])):
                if q.get('fn'):
                    for g in [q['fn']] + (s.m.all_over(q['fn']) if q.get('virt') else []): users.setdefault(g, set()).add(f['id'])
        work = [f['id'] for f in todo]; queued = set(work)
        while work:
            fid = work.pop(); queued.discard(fid)
            f = s.m.fns[fid]
            s.cur, s.quiet = fid, False
            r = {}
            for i in f.get('inits', ()):
                if i.get('e') is not None: s.merge(r, s.node(i['e'], None), f)
            if f.get('body'): s.merge(r, s.node(f['body'], None), f)
            if r.keys() != s.memo.get(fid, {}).keys():
                s.memo[fid] = r
                for u in users.get(fid, ()):
                    if u not in queued: queued.add(u); work.append(u)
    def merge(s, r, o, f=None):
        for t, (src, ch) in o.items():
            if t not in r: r[t] = (src, ((f['name'],) + ch)[:8] if f else ch)
    def is_a(s, t, base):
        t, base = bare(t), bare(base)
        if base == '...' or t == base: return True
        if base == 'std::exception': return t.startswith('std::') or t == 'handler' or any(bare(b) == base or bare(b).startswith('std::') for b in s.m.all_bases(t))
        if t == 'handler': return False
        return base in [bare(b) for b in s.m.all_bases(t)] or (base in ('std::runtime_error', 'std::logic_error') and t in SUB[base])
    def sure(s, c, fid, depth=0):
        """the condition asks whether a system call that does not fail on the descriptor of a timer or an event failed"""
        for q in walk(c):
            nm = name_of(q) if q.get('k') == 'Call' else ''
            cls = s.m.fns[fid].get('cls', '')
            if nm in SURE or (nm == 'write' and cls == 'app::reactor::Event'): return True
            if depth > 3: continue
            if q.get('fn') in s.m.fns and s.m.fns[q['fn']].get('body') and q['fn'] != fid and s.m.fns[q['fn']].get('cls', '') in (cls, '') and s.sure(s.m.fns[q['fn']]['body'], q['fn'], depth + 1): return True
            if q.get('k') == 'Ref' and q.get('dk') == 'local' and depth == 0:
                for z in walk(s.m.fns[fid].get('body') or {}):
                    if z.get('k') == 'Var' and z.get('id') == q['id'] and z.get('init') and s.sure(z['init'], fid, depth + 1): return True
                    if z.get('k') == 'Bin' and z.get('op') == '=' and z['x'].get('id') == q['id'] and s.sure(z['y'], fid, depth + 1): return True
        return False
    def node(s, n, active):
        r = {}
        if isinstance(n, list):
            for y in n: s.merge(r, s.node(y, active))
            return r
        if not isinstance(n, dict): return r
        k = n.get('k')
        if k == 'Lambda': return r
        if k == 'Block':
            q = s.quiet
            for y in n['s']:
                s.merge(r, s.node(y, active))
                if y.get('k') == 'If' and any(z.get('k') == 'Return' for z in walk([y.get('then'), y.get('else')])) and s.sure(y['c'], s.cur): s.quiet = True
            s.quiet = q
            return r
        if k == 'If' and s.sure(n['c'], s.cur):
            q, s.quiet = s.quiet, True
            for v in (n['c'], n.get('then'), n.get('else')): s.merge(r, s.node(v, active))
            s.quiet = q
            return r
        if k == 'Try':
            inner = s.node(n['body'], active)
            caught = {}
            for t, v in inner.items():
                if any(s.is_a(t, h['t']) for h in n['h']): caught[t] = v
                else: r[t] = v
            for h in n['h']: s.merge(r, s.node(h['body'], {t: v for t, v in caught.items() if s.is_a(t, h['t'])} or {'std::exception': (h['l'], ())}))
            return r
        if k == 'Throw':
            if n.get('e') is None:
                if active is None: s.bad.append(n['l'])
                else: s.merge(r, {t: (n['l'], ()) for t in active})
                return r
            s.merge(r, s.node(n['e'], active))
            if not s.quiet: r.setdefault(bare(n['e'].get('t', '?')), (n['l'], ()))
            return r
        for v in n.values():
            if isinstance(v, (dict, list)): s.merge(r, s.node(v, active))
        fid = n.get('fn')
        if k in ('Call', 'MCall', 'OpCall', 'Ctor', 'Op', 'COp') or fid:
            if n.get('cls', '').startswith('std::function<') and (n.get('name') == 'operator()' or n.get('op') == '()'):
                r.setdefault('handler', (n['l'], ()))
            elif n.get('op') == '()' and 'std::function<' in str((n.get('a') or [{}])[0].get('t', '')): r.setdefault('handler', (n['l'], ()))
            elif fid and (fid in s.m.fns or n.get('virt')):
                s.merge(r, s.call(fid), s.m.fns.get(fid))
                if n.get('virt'):
                    for o in s.m.all_over(fid): s.merge(r, s.call(o), s.m.fns.get(o))
            elif k in ('MCall', 'Call') and name_of(n) in STDTHROW and not n.get('own'):
                r.setdefault('std::out_of_range', (n['l'], ()))
        return r
    def call(s, fid): return s.of(fid)

SUB = {'std::runtime_error': ('std::system_error', 'std::range_error', 'std::overflow_error', 'std::underflow_error', 'std::filesystem::filesystem_error'),
       'std::logic_error': ('std::out_of_range', 'std::invalid_argument', 'std::length_error', 'std::domain_error')}

def bare(t): return strip_cv(t.replace('const ', '').rstrip('& ')).strip()

def own(f): return f.get('body') and not f['l'].startswith('/') and '/test' not in f['l']

def check(m, R, tier):
    R.rule('entry', 'no error leaves the entry of a thread')
    R.rule('goes-on', 'an error raised while an event is handled leaves the loop serving the next one; it ends only when told to stop')
    R.rule('type', 'every error thrown is a std::exception')
    R.rule('rethrow', 'an error is rethrown only inside a handler')
    R.rule('clean-up', 'no error leaves a destructor, a clean-up action or a function that must not throw')
    R.rule('text', 'text is formatted into a buffer with that buffer\'s size and with matching arguments')
    R.rule('process', 'nothing outside main ends the process or the thread')
    R.rule('signal', 'writing to a connection closed by its peer raises no signal')
    E = Escape(m)
    E.solve()
    fns = [f for f in m.fns.values() if own(f)]
    throws(m, R, E, fns)
    entries(m, R, E, fns)
    cleanup(m, R, E, fns)
    loops(m, R)
    text(m, R, fns)
    ends(m, R, fns)
    R.info['functions'] = len(fns)

def throws(m, R, E, fns):
    n = 0
    for f in fns:
        for q in walk(f['body']):
            if q.get('k') != 'Throw' or q.get('e') is None: continue
            n += 1
            t = bare(q['e'].get('t', '?'))
            R.check(E.is_a(t, 'std::exception'), 'type', '%s:%s' % (f['name'], q['l']), q['l'], 'an error of type %s is thrown, which the event loop does not catch' % t)
    for l in sorted(set(E.bad)): R.fail('rethrow', l, l, 'an error is rethrown where none is being handled, which ends the process')
    R.check(True, 'rethrow', 'all', '-', '')
    if n < 30: raise AnalysisError('only %d throw expressions found' % n)

def chain(v): return ' (through %s)' % ' > '.join(v[1]) if v[1] else ''

def entries(m, R, E, fns):
    n = 0
    for f in fns:
        for q in walk(f['body']):
            nm = name_of(q) if q.get('k') == 'Call' else ''
            es = []
            if nm == 'pthread_create' and len(q.get('a', ())) >= 3: es = [z['id'] for z in walk(q['a'][2]) if z.get('k') == 'Ref' and z.get('id') in m.fns] or [z['fn'] for z in walk(q['a'][2]) if z.get('fn') in m.fns]; 
            elif q.get('k') == 'Ctor' and q.get('cls') in ('std::thread', 'std::jthread') and q.get('a'): es = [o for z in walk(q['a']) if z.get('k') == 'Lambda' for o in z['ops']]
            else: continue
            if q.get('k') == 'Ctor' and q.get('copy'): continue
            if not es: raise AnalysisError('%s: the entry of a thread is not understood' % q['l'])
            for e in es:
                n += 1
                g = m.fns[e]
                r = E.of(e)
                R.check(not r, 'entry', g['name'], g['l'], 'an error may leave the thread, which ends the process: ' + '; '.join('%s thrown at %s%s' % (t, v[0], chain(v)) for t, v in sorted(r.items())))
    if not n: raise AnalysisError('no thread is started')

def cleanup(m, R, E, fns):
    n = 0
    for f in fns:
        if f.get('dtor') or f.get('nx'):
            n += 1
            r = {t: v for t, v in E.of(f['id']).items()}
            R.check(not r, 'clean-up', '%s::%s' % (f.get('cls', ''), f['name']), f['l'], 'an error may leave it: ' + '; '.join('%s at %s%s' % (t, v[0], chain(v)) for t, v in sorted(r.items())))
        for q in walk(f['body']):
            if q.get('k') == 'Ctor' and q.get('cls', '').startswith(('std::unique_ptr<', 'std::shared_ptr<')) and len(q.get('a', ())) >= 2:
                for z in walk(q['a'][1:]):
                    if z.get('k') != 'Lambda': continue
                    for o in z['ops']:
                        n += 1
                        r = E.of(o)
                        R.check(not r, 'clean-up', 'clean-up action:%s' % z['l'], z['l'], 'an error may leave it: ' + '; '.join('%s at %s%s' % (t, v[0], chain(v)) for t, v in sorted(r.items())))
    if n < 20: raise AnalysisError('only %d destructors and clean-up actions found' % n)

class LoopPolicy(AppPolicy):
    max_loop = 2
    def hook(self, x, n, qn, this, args):
        if args is None: return NotImplemented
        q = short(qn).lstrip(':'); nm = q.rsplit('::', 1)[-1]
        if nm == 'epoll_wait':
            e = x.event('wait', q, None, args, n); v = ('ev', e.i, 'nfds'); x.xt[v] = 'i32'; x.assume('>=', v, C(-1)); x.assume('<=', v, args[2])
            return v
        if nm == 'onFileDescriptorEvent' or (nm == 'wait' and 'Epoll' in q) or (n.get('cls', '').startswith('std::function') and n['name'] == 'operator()'):
            thr = x.choose(2 if nm == 'wait' else 3)
            x.event('dispatch', nm, this, args, n, threw=thr > 0)
            if thr: raise Thrown(('std::runtime_error', 'std::out_of_range')[thr - 1], x.src, 'handler')
            return C(0)
        if q.endswith('MsgMemStorage::pop'):
            ok = x.choose(2) == 0
            x.event('pop', q, this, args, n, ok=ok)
            return C(ok)
        if nm == 'getMsgId':
            r = ('un', x.fresh(), 'msgid'); x.xt[r] = 'u64'; return r
        return AppPolicy.hook(self, x, n, qn, this, args)

def loops(m, R):
    for cls, name, np in (('app::reactor::Reactor', 'run', 0), ('app::reactor::Epoll', 'wait', 0), ('app::reactor::Reactor', 'onFdEvent', 1)):
        f = c06.fn(m, cls, name, np)
        def go(x):
            a = []
            for i in range(np): v = ('in', ('R', 'a%d' % i)); x.xt[v] = 'u64'; a.append(v)
            return x.call_fn(f, entity(x, m, cls), a)
        thrown = 0
        for p in explore(m, LoopPolicy(), go):
            tr = p.trace
            if p.outcome not in ('normal', 'throw'): continue
            for i, e in enumerate(tr):
                if not (isinstance(e, Ev) and e.kind == 'dispatch' and e.x['threw']): continue
                thrown += 1
                on = any(isinstance(z, Ev) and (z.kind == 'loop' or z.kind == 'endloop' and not z.x.get('brk')) for z in tr[i + 1:])
                stop = any(isinstance(z, Ev) and z.kind == 'atomic' for z in tr[i + 1:])
                R.check(on or stop, 'goes-on', '%s::%s' % (sn(cls), name), e.src, 'an error raised by %s ends the loop' % e.name, p.trace)
            if name == 'run':
                R.check(p.outcome == 'normal', 'goes-on', 'run:leaves', f['l'], 'an error leaves the event loop', p.trace)
                at = [z for z in tr if isinstance(z, Ev) and z.kind == 'atomic']
                last = at[-1] if at else None
                ok = last is not None and not [z for z in tr[tr.index(last):] if isinstance(z, Ev) and z.kind == 'dispatch'] and stopped(p, last)
                R.check(ok, 'goes-on', 'run:ends', f['l'], 'the event loop ends although it was not told to stop', p.trace)
        R.check(thrown > 0, 'goes-on', '%s::%s:reached' % (sn(cls), name), f['l'], 'no handler is called in the loop')

def stopped(p, at):
    """the stop request was read as true"""
    v = ('ev', at.i, 'atomic')
    for z in p.trace:
        if isinstance(z, Fact) and v in (z.a, z.b):
            o = z.b if z.a == v else z.a
            if z.op in ('==', 'true') and o in (C(0), C(1)): return z.truth == (o == C(1))
    b = p.x.facts.bounds(v)
    return b == (1, 1) or (b[0] is not None and b[0] >= 1)

def sn(c): return c.rsplit('::', 1)[-1]

CONV = re.compile(r'%([-+ #0]*)(\*|\d+)?(?:\.(\*|\d+))?(hh|h|ll|l|z|j|t|L)?([diouxXcsfFeEgGaApn%])')

def text(m, R, fns):
    n = 0
    for f in fns:
        for q in walk(f['body']):
            if q.get('k') != 'Call' or q.get('own'): continue
            nm = name_of(q)
            if nm in RAW: R.fail('text', q['l'], q['l'], '%s writes without knowing the size of the buffer' % nm); continue
            if nm not in ('snprintf', 'vsnprintf', 'printf', 'fprintf', 'strftime', 'syslog'): continue
            a = q['a']
            if nm in ('snprintf', 'vsnprintf', 'strftime'):
                n += 1
                room = arrlen(a[0]); sz = const(a[1])
                R.check(room is not None and sz is not None and 0 < sz <= room, 'text', 'size:' + q['l'], q['l'], '%s may write %s bytes into a buffer of %s' % (nm, sz if sz is not None else 'an unknown number of', room if room is not None else 'unknown size'))
                if nm != 'snprintf': continue
            i = {'snprintf': 2, 'printf': 0, 'fprintf': 1, 'syslog': 1}[nm]
            fm = literal(a[i])
            if not R.check(fm is not None, 'text', 'format:' + q['l'], q['l'], 'the format is not a literal'): continue
            agree(R, q, fm, a[i + 1:])
    if n < 100: raise AnalysisError('only %d formatted texts found' % n)

def agree(R, q, fm, args):
    k = 0
    for c in CONV.finditer(fm):
        if c.group(5) == '%': continue
        for star in (c.group(2), c.group(3)):
            if star == '*': k += 1
        if not R.check(k < len(args), 'text', 'arguments:' + q['l'], q['l'], 'the format %r takes more arguments than are given' % fm): return
        a = args[k]; k += 1
        t, tk = bare(a.get('t', '?')), a.get('tk')
        cv, ln = c.group(5), c.group(4) or ''
        if cv == 's': ok = t in ('char *', 'char*') or (tk == 'p' and t.replace('const', '').strip() in ('char *',)) or t.startswith('char[')
        elif cv == 'p': ok = tk == 'p'
        elif cv == 'n': ok = False
        elif cv in 'fFeEgGaA': ok = t in ('double', 'float', 'long double')
        else:
            w = {'u64': 8, 'i64': 8}.get(tk, 4 if tk in RANGE or tk in ('b', 'e') else None)
            ok = w is not None and w == (8 if ln in ('l', 'll', 'z', 'j', 't') else 4)
        R.check(ok, 'text', 'arguments:%s:%d' % (q['l'], k), q['l'], 'the argument %d of type %s does not agree with %s in %r' % (k, t, c.group(0), fm))

def strip_casts(a):
    while a.get('k') in ('Cast', 'Same', 'L2R', 'Paren') and 'e' in a: a = a['e']
    return a
def arrlen(a):
    a = strip_casts(a)
    if a.get('k') == 'Un' and a.get('op') == '&': a = strip_casts(a['e'])
    if a.get('k') == 'Idx':
        i = const(a['i'])
        n = arrlen(a['b'])
        return None if i is None or n is None else n - i
    if a.get('k') == 'MCall' and a.get('name') == 'data' and a.get('cls', '').startswith('std::array<char, '): return int(re.search(r', (\d+)', a['cls']).group(1))
    t = a.get('t', '')
    mm = re.search(r'char ?\[(\d+)\]$', t)
    return int(mm.group(1)) if mm else None
def const(a):
    if 'cv' in a: return a['cv']
    b = strip_casts(a)
    if 'cv' in b: return b['cv']
    if b.get('k') == 'Int': return int(b['v'])
    if b.get('k') == 'MCall' and b.get('name') == 'size' and b.get('cls', '').startswith('std::array<'): return int(re.search(r', (\d+)', b['cls']).group(1))
    return None
def literal(a):
    a = strip_casts(a)
    return a.get('v') if a.get('k') == 'Str' else None

def ends(m, R, fns):
    n = s = 0
    ignored = any(q.get('k') == 'Call' and name_of(q) in ('signal', 'sigaction') for f in fns for q in walk(f['body']))
    for f in fns:
        for q in walk(f['body']):
            if q.get('k') not in ('Call', 'MCall') or q.get('own'): continue
            n += 1
            nm = name_of(q)
            if nm in ENDS and not q.get('cls') and f['name'] != 'main': R.fail('process', '%s:%s' % (f['name'], q['l']), q['l'], '%s ends the process' % nm)
            if q.get('cls'): continue
            if nm in ('send', 'sendto', 'sendmsg') and len(q.get('a', ())) >= 3:
                s += 1
                fl = const(q['a'][2 if nm == 'sendmsg' else 3])
                if fl is None: raise AnalysisError('%s: the flags of %s are not constant' % (q['l'], nm))
                R.check(bool(fl & 0x4000) or ignored, 'signal', '%s:%s' % (f['name'], nm), q['l'], 'sending to a connection that its peer has closed raises SIGPIPE, which ends the process')
            if nm in ('write', 'writev') and f.get('cls', '').endswith('::Link'):
                s += 1
                R.check(ignored, 'signal', '%s:%s' % (f['name'], nm), q['l'], 'writing to a connection that its peer has closed raises SIGPIPE, which ends the process')
    R.check(True, 'process', 'all', '-', '%d calls' % n)
    if not s: raise AnalysisError('no call that writes to a connection found')

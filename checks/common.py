from sa.interp import lin, add, scale, mklin, Fact, Ev, C
def is_now(p, t):
    """t is 10^7*sec + 10*usec + offset of one gettimeofday reading"""
    k, d = lin(t)
    if k != 116444736000000000 or len(d) != 2: return False
    ev = set()
    for a, c in d.items():
        if a[0] != 'ev': return False
        ev.add(a[1])
        if c != {'sec': 10000000, 'usec': 10}.get(a[2]): return False
    return len(ev) == 1

def subst(t, mp):
    k, d = lin(t)
    r = C(k)
    for a, c in d.items(): r = add(r, scale(mp.get(a, a), c))
    return r

def dist(f):
    """candidate distances of a loop condition: the number of turns left when each turn lowers it by one"""
    if f.op == '<': return [add(f.b, f.a, -1)] if f.truth else [add(add(f.a, f.b, -1), C(1))]
    if f.op == '<=': return [add(add(f.b, f.a, -1), C(1))] if f.truth else [add(f.a, f.b, -1)]
    if f.op == '==' and not f.truth: return [add(f.b, f.a, -1), add(f.a, f.b, -1)]
    return []

def trip(p):
    """loops of the path whose turns are counted by a linear condition: n0 turns (if step is 1 and not brk),
    var: the value of the counter in the generic turn. Nested loops are not reported."""
    out, cur, depth = [], None, 0
    last = None
    tr = p.trace
    for i, e in enumerate(tr):
        if isinstance(e, Fact): last = e; continue
        if e.kind == 'loop':
            if cur is None or cur['line'] != e.name:
                if cur is not None:
                    depth += 1; continue
                cur = {'line': e.name, 'n0': None, 'step': None, 'var': None, 'brk': False, 'c': [], 'end': False, 'turn': False}
                out.append(cur)
                if e.obj is not None: cur['n0'] = ('size', e.obj); cur['step'] = 1
            elif depth: continue
            if last is not None and e.obj is None: cur['c'].append(last)
        elif cur is not None and e.kind == 'turn' and e.name == cur['line'] and cur['step'] is None and len(cur['c']) >= 2:
            cur['turn'] = True
            mp = {v: w for v, w in e.x['delta'].values() if v[0] == 'un'}
            mp.update({v[1][2]: w[1][2] for v, w in e.x['delta'].values() if v[0] == w[0] == 'ptr' and v[1][0] == w[1][0] == '[]' and v[1][1] == w[1][1] and v[1][2][0] == 'un'})
            for d0, d1 in zip(dist(cur['c'][0]), dist(cur['c'][-1])):
                k, dd = lin(add(d1, subst(d1, mp), -1))
                if not dd and k == 1:
                    cur['n0'], cur['step'] = d0, 1
                    used = [a for a in lin(d1)[1] if a in mp and mp[a] != a]
                    if len(used) == 1: cur['var'] = used[0]
        elif cur is not None and e.kind == 'endloop':
            if e.name == cur['line']:
                if e.x.get('brk'): cur['brk'] = True
                cur['end'] = True
                cur = None; depth = 0
            elif depth: depth -= 1
    return out

def counted(p, n):
    """every loop turn sequence seen on the path is counted: n turns; None when the path has too few turns to tell"""
    t = trip(p)
    if not t: return None
    if t[0]['brk']: return False
    if not t[0]['end']: return False if p.outcome == 'normal' else None     # left by return
    if t[0]['step'] == 1: return t[0]['n0'] == n
    return False if t[0]['turn'] else None

def contradictory(x, conv=lambda x, t: t):
    """the linear facts of the path exclude each other (substitution of equalities, integer bounds)"""
    fs = []
    for e in x.trace:
        if isinstance(e, Fact) and x.isnum(e.a) and x.isnum(e.b): fs.append((e.op, conv(x, add(e.a, e.b, -1)), e.truth))
    sub = {}
    def red(t):
        for _ in range(8):
            d = lin(t)[1]
            if not any(a in sub for a in d): break
            t = subst(t, sub)
        return t
    for op, t, tr in fs:
        if op == '==' and tr:
            t = red(t); k, d = lin(t)
            if not d:
                if k: return True
                continue
            ps = [a for a in d if abs(d[a]) == 1]
            if ps:
                a = sorted(ps, key=repr)[0]
                sub[a] = scale(add(t, scale(a, d[a]), -1), -d[a])
    bd = {}
    def ab(a):
        if a not in bd: bd[a] = list(x.facts.atom_bounds(a))
        return bd[a]
    def rng(t):
        k, d = lin(t)
        lo = hi = k
        for a, c in d.items():
            l, h = ab(a)
            if c < 0: l, h = h, l
            lo = None if lo is None or l is None else lo + c * l
            hi = None if hi is None or h is None else hi + c * h
        return lo, hi
    ineq = []       # t <= 0
    for a, r in list(sub.items()):
        l, h = x.facts.atom_bounds(a)
        if l is not None: ineq.append(add(C(l), red(r), -1))
        if h is not None: ineq.append(add(red(r), C(h), -1))
    neq = []
    for op, t, tr in fs:
        t = red(t)
        if op == '<': ineq.append(add(t, C(1)) if tr else scale(t, -1))
        elif op == '<=': ineq.append(t if tr else add(scale(t, -1), C(1)))
        elif op == '==' and tr: ineq += [t, scale(t, -1)]
        elif op == '==': neq.append(t)
    for _ in range(3):
        for t in ineq:
            lo, hi = rng(t)
            if lo is not None and lo > 0: return True
            k, d = lin(t)
            for a, c in d.items():
                rest = rng(add(t, scale(a, c), -1))[0]
                if rest is None: continue
                b = ab(a)
                if c > 0:
                    h = (-rest) // c
                    if b[1] is None or h < b[1]: b[1] = h
                else:
                    l = -((-rest) // -c)        # -|c|*a + rest <= 0: a >= ceil(rest / |c|)
                    if b[0] is None or l > b[0]: b[0] = l
                if b[0] is not None and b[1] is not None and b[0] > b[1]: return True
    return any(rng(t) == (0, 0) for t in neq)

"""Program model: builds the AST extractor when needed, runs it on /repo's current sources and
indexes the result (functions, records, enums, overrides, sub-classes)."""
import hashlib, json, os, re, subprocess, sys, tempfile, shutil

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
CACHE = os.path.join(VERIF, '.cache')

class AnalysisError(Exception):
    """The analysis cannot give an answer (anchor gone, does not parse, ...)."""

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)

def tool():
    src = os.path.join(VERIF, 'tool', 'dump.cpp')
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:16]
    os.makedirs(CACHE, exist_ok=True)
    exe = os.path.join(CACHE, 'dump-' + h)
    if os.path.exists(exe):
        return exe
    flags = [f for f in sh(['llvm-config-18', '--cxxflags']).stdout.split()
             if not f.startswith('-std=') and f != '-fno-exceptions']
    lib = '/usr/lib/x86_64-linux-gnu/libclang-cpp.so.18.1'
    if not os.path.exists(lib):
        lib = '/usr/lib/llvm-18/lib/libclang-cpp.so.18.1'
    tmp = exe + '.%d' % os.getpid()
    r = sh(['clang++', '-std=c++17', '-O1', '-fno-rtti'] + flags + [src, '-o', tmp, lib,
            '-L/usr/lib/llvm-18/lib', '-lLLVM'])
    if r.returncode:
        raise AnalysisError('cannot build the AST extractor:\n' + r.stderr[-3000:])
    os.rename(tmp, exe)
    return exe

def sources(repo):
    root = os.path.join(repo, 'src')
    cpp, inc = [], set()
    for d, dirs, files in os.walk(root):
        dirs.sort()
        if {'ut', 'mock', 'test', 'tests'} & set(d[len(root):].split('/')):
            continue
        for f in sorted(files):
            if f.endswith('.cpp'):
                cpp.append(os.path.join(d, f))
            elif f.endswith('.hpp'):
                inc.add(d)
    return root, cpp, sorted(inc)

def tree_hash(repo):
    root, cpp, inc = sources(repo)
    h = hashlib.sha256()
    for d in sorted(set(inc) | set(os.path.dirname(c) for c in cpp)):
        for f in sorted(os.listdir(d)):
            p = os.path.join(d, f)
            if os.path.isfile(p) and f.endswith(('.cpp', '.hpp', '.h', '.inc', '.ipp')):
                h.update(p.encode() + b'\0')
                h.update(open(p, 'rb').read())
    h.update(open(os.path.join(VERIF, 'tool', 'dump.cpp'), 'rb').read())
    return h.hexdigest()[:24]

def extract(repo):
    os.makedirs(CACHE, exist_ok=True)
    out = os.path.join(CACHE, 'model-%s.json' % tree_hash(repo))
    if os.path.exists(out):
        return out
    exe = tool()
    root, cpp, inc = sources(repo)
    if not cpp:
        raise AnalysisError('no sources found below ' + root)
    res = sh(['clang', '-print-resource-dir']).stdout.strip()
    flags = ['-std=gnu++20', '-DEBUG', '-w', '-ferror-limit=5', '-resource-dir=' + res] + ['-I' + d for d in inc]
    tmp = tempfile.mkdtemp(prefix='sa-extract-')
    try:
        unity = os.path.join(tmp, 'unity.cpp')
        with open(unity, 'w') as f:
            for c in cpp:
                f.write('#include "%s"\n' % c)
        o = os.path.join(tmp, 'o.json')
        r = sh([exe, root, o] + flags + ['--', unity])
        if r.returncode == 0:
            shutil.move(o, out + '.%d' % os.getpid())
        else:
            # some file does not combine with the others: one unit per file
            n = os.cpu_count() or 4
            procs = []
            for i in range(n):
                part = cpp[i::n]
                if not part:
                    continue
                oi = os.path.join(tmp, 'o%d.json' % i)
                procs.append((oi, subprocess.Popen([exe, root, oi] + flags + ['--'] + part,
                              stdout=subprocess.DEVNULL, stderr=open(oi + '.err', 'w'))))
            merged = {'fns': [], 'recs': [], 'enums': [], 'globs': []}
            seen = {k: set() for k in merged}
            for idx, (oi, p) in enumerate(procs):
                if p.wait():
                    raise AnalysisError('sources do not parse:\n' + open(oi + '.err').read()[-3000:])
                d = json.load(open(oi))
                pre = 'u%d.' % idx
                for k in merged:
                    for x in d[k]:
                        key = x.get('id') or x.get('n')
                        if key in seen[k]:
                            continue
                        seen[k].add(key)
                        rename_ids(x, pre)
                        merged[k].append(x)
            json.dump(merged, open(out + '.%d' % os.getpid(), 'w'))
        os.rename(out + '.%d' % os.getpid(), out)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    # keep the cache small
    ms = sorted((os.path.join(CACHE, f) for f in os.listdir(CACHE) if f.startswith('model-')), key=os.path.getmtime)
    for m in ms[:-6]:
        try: os.unlink(m)
        except OSError: pass
    return out

_var = re.compile(r'^v\d+$')
def rename_ids(n, pre):
    if isinstance(n, dict):
        v = n.get('id')
        if isinstance(v, str) and _var.match(v):
            n['id'] = pre + v
        for x in n.values():
            rename_ids(x, pre)
    elif isinstance(n, list):
        for x in n:
            rename_ids(x, pre)

def walk(n):
    """all dict nodes below n (pre-order)"""
    st = [n]
    while st:
        x = st.pop()
        if isinstance(x, dict):
            yield x
            st.extend(reversed([v for v in x.values() if isinstance(v, (dict, list))]))
        elif isinstance(x, list):
            st.extend(reversed([v for v in x if isinstance(v, (dict, list))]))

class Model:
    def __init__(self, repo=None):
        self.nomono = set()
        self.repo = repo or REPO
        d = json.load(open(extract(self.repo)))
        self.fns = {}
        for f in d['fns']:
            self.fns[f['id']] = f
        self.recs = {r['n']: r for r in d['recs']}
        self.enums = {e['n']: e for e in d['enums']}
        self.globs = {g['n']: g for g in d['globs']}
        self.byqn = {}
        for f in self.fns.values():
            self.byqn.setdefault(f['qn'], []).append(f)
        self.subs = {}
        self.over = {}          # base method id -> [overriding method ids]
        self.mcls = {}          # method id -> record name
        for r in self.recs.values():
            for b in r['bases']:
                self.subs.setdefault(b, []).append(r['n'])
            for m in r['m']:
                self.mcls[m['id']] = r['n']
                for o in m['ov']:
                    self.over.setdefault(o, []).append(m['id'])
        self.fnname = {f['id']: f['qn'] for f in self.fns.values()}

    def rec(self, suffix):
        c = [n for n in self.recs if n == suffix or n.endswith('::' + suffix)]
        if len(c) != 1:
            raise AnalysisError('class %s: %d candidates' % (suffix, len(c)))
        return self.recs[c[0]]

    def ctors(self, cls):
        """constructors of cls other than copy constructors"""
        if not hasattr(self, '_ctors'):
            self._ctors = {}
            for f in self.fns.values():
                if f.get('ctor') and not f.get('copyctor'): self._ctors.setdefault(f.get('cls'), []).append(f)
        return self._ctors.get(cls, [])

    def method(self, cls, name, nparams=None, ptype=None):
        """methods `name` of class `cls` (suffix) with a body"""
        r = []
        for f in self.fns.values():
            if f.get('cls') and f['name'] == name and f.get('body') and \
               (f['cls'] == cls or f['cls'].endswith('::' + cls)):
                if nparams is not None and len(f['p']) != nparams:
                    continue
                if ptype is not None and not any(ptype in p['t'] for p in f['p']):
                    continue
                r.append(f)
        return r

    def all_subs(self, cls):
        out, st = [], [cls]
        while st:
            c = st.pop()
            for s in self.subs.get(c, ()):
                if s not in out:
                    out.append(s); st.append(s)
        return out

    def all_bases(self, cls):
        out, st = [], [cls]
        while st:
            c = st.pop()
            for b in self.recs.get(c, {}).get('bases', ()):
                if b not in out:
                    out.append(b); st.append(b)
        return out

    def all_over(self, mid):
        out, st = [], [mid]
        while st:
            m = st.pop()
            for o in self.over.get(m, ()):
                if o not in out:
                    out.append(o); st.append(o)
        return out

    def dispatch(self, cls, mid):
        """final overrider of method mid for dynamic class cls"""
        fam = {mid} | set(self.all_over(mid))
        order = [cls] + self.all_bases(cls)
        for c in order:
            for m in self.recs.get(c, {}).get('m', ()):
                if m['id'] in fam:
                    return m['id']
        return None

    def field(self, cls, name):
        for c in [cls] + self.all_bases(cls):
            for f in self.recs.get(c, {}).get('f', ()):
                if f['n'] == name:
                    return f
        return None

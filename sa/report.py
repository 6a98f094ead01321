"""Obligation book-keeping, known findings, evidence and exit code."""
import json, os, re, sys, time, traceback
from .model import Model, AnalysisError, VERIF

class Report:
    def __init__(self, pid):
        self.pid = pid
        self.obl = []          # (rule, instance, ok)
        self.bad = []          # dicts
        self.rules = {}
        self.samples = []
        self.info = {}
        self.assumptions = []
        self.keys = set(); self.must = set()

    def rule(self, name, text, failonly=False):
        """failonly: obligations are recorded only where the rule is broken"""
        if not failonly: self.must.add(name)
        self.rules[name] = text

    def ok(self, rule, inst):
        self.obl.append((rule, str(inst), True))

    def fail(self, rule, inst, where, msg, path=None):
        """inst: stable instance name (function / site), used to identify known findings"""
        self.obl.append((rule, str(inst), False))
        key = '%s/%s' % (rule, inst)
        if key in self.keys: return
        self.keys.add(key)
        self.bad.append({'key': key, 'rule': rule, 'instance': str(inst), 'where': where, 'message': msg,
                         'path': [str(t) for t in (path or [])][-60:]})

    def check(self, cond, rule, inst, where, msg, path=None):
        if cond: self.ok(rule, inst)
        else: self.fail(rule, inst, where, msg, path)
        return bool(cond)

    def count(self, rule):
        return sum(1 for r, _, _ in self.obl if r == rule)

    def need(self, rule, n):
        """rule must have matched at least n instances"""
        c = len({i for r, i, _ in self.obl if r == rule})
        if c < n and not self.bad:
            raise AnalysisError('rule %s matched %d instances, expected at least %d' % (rule, c, n))

def findings(pid):
    p = os.path.join(VERIF, 'known-findings.txt')
    out = []
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding: property=(\S+) key=(\S+) (.*)', l.strip())
            if m and m.group(1) == pid: out.append((m.group(2), m.group(3)))
    return out

def rel(where, repo):
    return where

def run(pid, fn, tier, rule_text, assumptions):
    t0 = time.time()
    R = Report(pid)
    code = 0
    err = None
    unlisted = []
    try:
        m = Model()
        R.model = m
        fn(m, R, tier)
        idle = R.must - {r for r, _, _ in R.obl}
        if not R.bad and (idle or not R.obl):
            raise AnalysisError('no obligation was generated for %s' % (', '.join(sorted(idle)) or 'any rule'))
    except AnalysisError as e:
        err = 'analysis error: %s' % e
    except Exception:
        err = 'internal error:\n' + traceback.format_exc()
    known = findings(pid)
    kk = {k for k, _ in known}
    hit = {b['key'] for b in R.bad}
    for k, d in known:
        if k in hit: print('KNOWN-FINDING: property=%s %s (%s)' % (pid, d, k))
    unlisted = [b for b in R.bad if b['key'] not in kk]
    ev = os.path.join(VERIF, 'evidence')
    os.makedirs(ev, exist_ok=True)
    replay = os.path.join(ev, pid + '.replay.txt')
    if unlisted:
        with open(replay, 'w') as f:
            for b in unlisted:
                f.write('rule %s\n  %s\ninstance %s\nat %s\n%s\npath:\n' % (b['rule'], R.rules.get(b['rule'], ''), b['instance'], b['where'], b['message']))
                for t in b['path']: f.write('    %s\n' % t)
                f.write('\n')
    elif os.path.exists(replay): os.unlink(replay)
    per = {}
    for r, i, o in R.obl:
        per.setdefault(r, [0, 0, set()])
        per[r][0] += 1; per[r][1] += o; per[r][2].add(i)
    if err: code = 2
    if unlisted: code = 1
    cov = {'explanation': 'Static analysis of the AST of every non-test source file under /repo/src (clang). ' + rule_text,
           'rules': {r: {'text': R.rules.get(r, ''), 'obligations': v[0], 'discharged': v[1], 'instances': sorted(v[2])[:60]} for r, v in per.items()},
           'obligations': len(R.obl), 'discharged': sum(1 for o in R.obl if o[2]),
           'analysed': R.info, 'samples': R.samples[:8],
           'known_findings': sorted(hit & kk)}
    if err: cov['error'] = err[-2000:]
    json.dump({'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'other',
               'coverage': cov, 'assumptions': assumptions + R.assumptions, 'wall_s': round(time.time() - t0, 2), 'violations': len(unlisted)},
              open(os.path.join(ev, pid + '.json'), 'w'), indent=1, default=str)
    for b in unlisted:
        print('%s: [%s] %s: %s' % (b['where'], b['rule'], b['instance'], b['message']))
    if unlisted:
        print('VIOLATION property=%s replay=%s' % (pid, replay))
    if err: print(err, file=sys.stderr)
    if code == 0:
        print('OK property=%s obligations=%d wall=%.1fs' % (pid, len(R.obl), time.time() - t0))
    return code

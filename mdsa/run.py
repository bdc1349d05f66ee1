"""Deciding a property: every obligation (case of /verif/specs/<id>.py) is analysed
by the abstract machine over /repo's current source; results are gathered, the
evidence is written and the verdict is given."""
import json
import multiprocessing
import os
import sys
import time
import traceback
from collections import Counter

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE_MODS = ['md_toc', 'md_toc.api', 'md_toc.cli', 'md_toc.__main__']


class ToolError(Exception):
    pass


def boot(repo, specs):
    from .engine import Engine
    E = Engine(repo)
    E.load([m for m in BASE_MODS if m != 'md_toc.__main__' or os.path.exists(os.path.join(repo, 'md_toc/__main__.py'))])
    E.load(['specs.' + s for s in specs])
    return E


def spec_value(E, spec, name):
    """a module level constant of an interpreted spec module, as a host value"""
    st = E.base
    m = st.get(st.mods_['specs.' + spec])
    return m.f.get(name)


def host(st, v):
    from .vm import Ref, LObj, DObj
    if v.__class__ is tuple:
        return tuple(host(st, x) for x in v)
    if v.__class__ is Ref:
        o = st.get(v)
        if o.__class__ is LObj:
            return [host(st, x) for x in o.items]
        if o.__class__ is DObj:
            return {k: host(st, x) for k, x in o.d.values()}
        return '<%s>' % o.__class__.__name__
    return v


def trace_list(s, n=40):
    out = []
    t = s.trace
    while t is not None:
        t, w, why, i = t
        out.append('%s: %s -> alternative %d' % (w, why, i))
    out.reverse()
    return out[-n:]


def run_case(E, spec, idx, name, budget, usegen):
    from .vm import Budget
    from .witness import Witness, NoWitness, Infeasible
    vm = E.vm
    vm.total = vm.nforks = vm.npaths = 0
    vm.deadline = time.time() + budget
    if usegen:
        from .gen import Generaliser
        vm.gen = Generaliser()
    else:
        vm.gen = None
    t0 = time.time()
    out = {'case': name, 'violations': [], 'undecided': Counter(), 'lossy': Counter(), 'outcomes': Counter(), 'checks': 0, 'sample': None}
    seen = {}

    def sink(s):
        o = s.outcome
        k = o[0]
        bad = k in ('violation', 'raise')
        if bad and s.lossy:
            out['lossy'][s.lossy[:160]] += 1
            out['outcomes']['unproved'] += 1
            return True
        if bad:
            if k == 'raise':
                if not o[2].startswith('md_toc/'):
                    out['undecided']['the harness does not fit the source: %s at %s' % (E.show_exc(s, o[1]), o[2])] += 1
                    out['outcomes']['undecided'] += 1
                    return True
                label = 'unexpected %s at %s' % (E.show_exc(s, o[1]), o[2])
                vals = ()
            else:
                label, vals = o[1], o[2]
            loc = last_repo(s)
            key = (label, loc)
            if seen.get(key, 0) >= 2 or len(seen) > 12:
                out['outcomes']['violation'] += 1
                return True
            try:
                w = Witness(s)
            except Infeasible:
                out['outcomes']['infeasible'] += 1
                return True
            except NoWitness as e:
                out['undecided']['infeasible or unwitnessed path (%s)' % e] += 1
                out['outcomes']['undecided'] += 1
                return True
            seen[key] = seen.get(key, 0) + 1
            out['outcomes']['violation'] += 1
            out['violations'].append({
                'label': label, 'construct': loc,
                'abstract_input': {a: E.show(s, v) for a, v in s.inputs},
                'witness': {a: wval(E, s, w, v) for a, v in s.inputs},
                'compared': [E.show(s, v) for v in vals],
                'path': trace_list(s)})
            return True
        if k == 'undecided':
            out['undecided'][o[1][:200]] += 1
            out['outcomes']['undecided'] += 1
            return True
        if k == 'return':
            out['checks'] += s.checks
            if s.checks and out['sample'] is None and s.inputs:
                out['sample'] = {a: E.show(s, v)[:300] for a, v in s.inputs}
            out['outcomes']['proved' if s.checks else 'no-check'] += 1
            return True
        out['outcomes'][k] += 1
        return True
    vm.sink = sink
    try:
        st = E.start('import specs.%s as M\nc = M.CASES[%d]\nc[1](*c[2:])\n' % (spec, idx), '<obligation>')
        vm.explore([st])
    except Budget:
        out['undecided']['time budget of the case exhausted'] += 1
        out['outcomes']['budget'] += 1
    except RecursionError:
        out['undecided']['recursion in the analyser'] += 1
    except Exception:
        out['undecided']['internal error of the analyser: ' + traceback.format_exc()[-400:]] += 1
        out['internal'] = traceback.format_exc()[-2000:]
    vm.sink = None
    out.update(paths=vm.npaths, forks=vm.nforks, steps=vm.total, wall=round(time.time() - t0, 2),
               funcs=sorted((f, q) for f, q in vm.funcs if '/md_toc/' in f or '/fpyutils/' in f))
    if vm.gen is not None:
        out['loops'] = sorted(vm.gen.proved)
    return out


def wval(E, s, w, v):
    r = w.value(v)
    if r is None and v is not None:
        return E.show(s, v)
    return r


def last_repo(s):
    t = s.trace
    while t is not None:
        t, w, why, i = t
        if w.startswith('md_toc/'):
            return w
    return s.opts.get('lastexc') or 'md_toc'


_E = None


def _worker(a):
    spec, idx, name, budget, usegen, end = a
    left = end - time.time()
    if left < 3:
        return {'case': name, 'error': 'time limit of the check'}
    budget = min(budget, left)
    try:
        return run_case(_E, spec, idx, name, budget, usegen)
    except MemoryError:
        return {'case': name, 'error': 'memory'}


def load_known():
    p = os.path.join(VERIF, 'known-findings.txt')
    out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('known: '):
                d = json.loads(l[7:])
                out.append(d)
    return out


def static_cases(pid):
    """obligations decided by dataflow / call-graph passes over the syntax trees (mdsa/lint.py)"""
    try:
        from . import lint
    except ImportError:
        return []
    return lint.CHECKS.get(pid, [])


def decide(pid, tier, repo='/repo', only=None, jobs=None, quiet=False):
    global _E
    t0 = time.time()
    spec = pid.lower()
    have = os.path.exists(os.path.join(VERIF, 'specs', spec + '.py'))
    res = []
    lint = []
    anchors = []
    for f in static_cases(pid):
        lint.append(f(repo))
    if have:
        try:
            E = boot(repo, [spec])
        except SystemExit as e:
            raise ToolError(str(e))
        _E = E
        st = E.base
        anchors = host(st, spec_value(E, spec, 'ANCHORS') or ())
        for a in anchors:
            mod = a
            while mod and mod not in st.mods_:
                mod = mod.rpartition('.')[0]
            fn = a[len(mod) + 1:].split('.')[0]
            if not mod or fn not in st.get(st.mods_[mod]).f:
                print('  note: %s is not in the source any more' % a)
        cases = []
        for i, c in enumerate(st.get(spec_value(E, spec, 'CASES')).items):
            nm = c[0]
            th = nm.startswith('+')
            if th and tier != 'thorough':
                continue
            if only and only not in nm:
                continue
            cases.append((i, nm.lstrip('+')))
        if not cases:
            raise ToolError('no obligations')
        budget = float(os.environ.get('MDSA_BUDGET', 240 if tier == 'quick' else 1500))
        usegen = host(st, spec_value(E, spec, 'GENERALISE'))
        usegen = True if usegen is None else usegen
        end = t0 + float(os.environ.get('MDSA_TOTAL', 600 if tier == 'quick' else 6 * 3600))
        args = [(spec, i, n, budget, usegen, end) for i, n in cases]
        j = jobs or min(8, os.cpu_count() or 1)
        if j > 1 and len(args) > 1:
            ctx = multiprocessing.get_context('fork')
            with ctx.Pool(j, maxtasksperchild=8) as pool:
                for r in pool.imap_unordered(_worker, args):
                    res.append(r)
                    if not quiet:
                        progress(r)
        else:
            for a in args:
                r = _worker(a)
                res.append(r)
                if not quiet:
                    progress(r)
        res.sort(key=lambda r: r['case'])
    if not have and not lint:
        raise ToolError('no machinery for ' + pid)
    return conclude(pid, tier, res, lint, t0)


def progress(r):
    if os.environ.get('MDSA_VERBOSE'):
        print('  %-50s paths %6d %5.1fs %s %s' % (r['case'][:50], r.get('paths', 0), r.get('wall', 0), dict(r.get('outcomes', {})),
                                               list(r.get('undecided', {}).items())[:2] or list(r.get('lossy', {}).items())[:2] or ''))
        sys.stdout.flush()


def known_match(k, pid, v):
    if k.get('property') != pid:
        return False
    if 'case' in k and k['case'] != v['case']:
        return False
    if 'label' in k and k['label'] not in v['label']:
        return False
    if 'construct' in k and k['construct'] not in v['construct']:
        return False
    return True


def conclude(pid, tier, res, lint, t0):
    viols = []
    und = Counter()
    lossy = Counter()
    tot = Counter()
    oc = Counter()
    funcs = set()
    loops = set()
    discharged = 0
    full = []
    samples = []
    for r in res:
        if 'error' in r:
            und[r['error']] += 1
            continue
        for v in r['violations']:
            v['case'] = r['case']
            viols.append(v)
        und.update(r['undecided'])
        lossy.update(r['lossy'])
        oc.update(r['outcomes'])
        for k in ('paths', 'forks', 'steps', 'checks'):
            tot[k] += r[k]
        funcs.update(map(tuple, r['funcs']))
        loops.update(r.get('loops', ()))
        ok = not r['violations'] and not r['undecided'] and not r['lossy'] and r['checks']
        discharged += bool(ok)
        full.append({'case': r['case'], 'paths': r['paths'], 'checks': r['checks'], 'wall_s': r['wall'], 'discharged': bool(ok),
                     'undecided': dict(list(r['undecided'].items())[:3]), 'unproved': dict(list(r['lossy'].items())[:3])})
        if r['sample'] and len(samples) < 6:
            samples.append({'obligation': r['case'], 'abstract input of one path': r['sample']})
    sites = 0
    rules = []
    for l in lint:
        sites += l['sites']
        rules.append({'rule': l['rule'], 'sites': l['sites'], 'examined': l['examined'][:20]})
        for v in l['violations']:
            v.setdefault('case', l['rule'])
            viols.append(v)
        full.append({'case': l['rule'], 'sites': l['sites'], 'discharged': not l['violations']})
        discharged += not l['violations']
        if not l['sites']:
            raise ToolError('rule %s examined no site' % l['rule'])
    known = load_known()
    new, old = [], []
    for v in viols:
        k = next((k for k in known if known_match(k, pid, v)), None)
        (old if k else new).append((v, k))
    ndir = os.path.join(VERIF, 'evidence')
    os.makedirs(ndir, exist_ok=True)
    ev = {
        'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'other',
        'coverage': {
            'explanation': 'Abstract interpretation of the current source of /repo (bytecode of compile(), never executed) over sets of '
                           'inputs given by string patterns (segments over character classes with interval or unbounded length), '
                           'integer intervals with linear relations and abstract heaps; the obligation of a case is that the '
                           'assertion of the property holds in every abstract state that reaches it. paths = abstract states '
                           'that reached the end of an obligation.',
            'obligations': len(full), 'discharged': discharged,
            'abstract_paths': tot['paths'], 'branch_splits': tot['forks'], 'abstract_instructions': tot['steps'],
            'assertions_proved': tot['checks'], 'path_outcomes': dict(oc),
            'functions_analysed': sorted('%s:%s' % (f.split('/md_toc/')[-1] if '/md_toc/' in f else 'fpyutils/' + os.path.basename(f), q) for f, q in funcs),
            'loops_generalised': sorted(loops),
            'undecided': dict(und.most_common(12)), 'unproved_after_widening': dict(lossy.most_common(12)),
            'lint_rules': rules, 'lint_sites': sites,
            'cases': full, 'samples': samples,
        },
        'assumptions': ['library models of mdsa/lib.py, mods.py, rex.py, strs.py describe CPython 3.12 faithfully',
                        'character atoms group code points that str predicates and case mappings cannot tell apart'],
        'wall_s': round(time.time() - t0, 2), 'violations': len(new),
    }
    report = os.path.join(ndir, pid + '.violations.json')
    if new:
        with open(report, 'w') as f:
            json.dump([v for v, _ in new], f, indent=1, default=str)
    elif os.path.exists(report):
        os.remove(report)
    with open(os.path.join(ndir, pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    done = set()
    for v, k in old:
        if id(k) not in done:
            done.add(id(k))
            print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    print('%s: %d obligations, %d discharged, %d abstract paths, %d assertions, %d undecided, %d unproved, %d violating, %.1fs' % (
        pid, len(full), discharged, tot['paths'], tot['checks'], sum(und.values()), sum(lossy.values()), len(new), time.time() - t0))
    for k, n in und.most_common(5):
        print('  undecided x%d: %s' % (n, k))
    for k, n in lossy.most_common(3):
        print('  unproved x%d: %s' % (n, k))
    if new:
        for v, _ in new[:8]:
            print('  %s [%s] at %s input=%s compared=%s' % (v['label'], v['case'], v['construct'], v.get('witness'), v.get('compared')))
        print('VIOLATION property=%s replay=%s' % (pid, report))
        return 1
    if not discharged:
        raise ToolError('no obligation could be decided: %s' % (list(und)[:3] + list(lossy)[:3]))
    return 0


def main(argv):
    tier = os.environ.get('VERIF_TIER', 'quick')
    only = None
    ids = []
    repo = os.environ.get('MDSA_REPO', '/repo')
    jobs = None
    it = iter(argv)
    for a in it:
        if a == '--tier':
            tier = next(it)
        elif a == '--only':
            only = next(it)
        elif a == '--repo':
            repo = next(it)
        elif a == '--jobs':
            jobs = int(next(it))
        else:
            ids.append(a)
    rc = 0
    for p in ids:
        try:
            rc = max(rc, decide(p, tier, repo, only, jobs))
        except ToolError as e:
            print('ERROR %s: %s' % (p, e))
            return 2
    return rc

#!/opt/venv/bin/python
"""check.py PROP [--tier quick|thorough] | check.py --replay FILE

Decides one property of /verif/properties.jsonl on the current working tree of /repo.
Exit 0: held on everything explored.  Exit 1 + VIOLATION line: broken."""
import sys
import os
sys.dont_write_bytecode = True
sys.pycache_prefix = '/nonexistent/pycache'      # never read a stale .pyc of /repo
HERE = os.path.dirname(os.path.abspath(__file__))
if __name__ == '__main__' and os.environ.get('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
import argparse
import ast
import json
import random
import resource
import time
import traceback
import warnings
import importlib
import multiprocessing as mp
warnings.simplefilter('ignore')

MODULES = sorted(f[:-3] for f in os.listdir(os.path.join(HERE, 'pyvc', 'cases'))
                 if f.startswith('c') and f.endswith('.py'))


def load():
    from pyvc import spec, verify
    for m in MODULES:
        importlib.import_module('pyvc.cases.' + m)
    return spec, verify


def harvest():
    """int literals of the code under test (seeds for the concrete sweeps)"""
    import hwtypes
    root = os.path.dirname(hwtypes.__file__)
    out = set()
    for d, _, fs in os.walk(root):
        for f in fs:
            if f.endswith('.py'):
                try:
                    t = ast.parse(open(os.path.join(d, f)).read())
                except Exception:
                    continue
                for n in ast.walk(t):
                    if isinstance(n, ast.Constant) and type(n.value) is int and abs(n.value) < 1 << 300:
                        out.add(n.value)
                        if 0 < n.value < 300:
                            out.add(1 << n.value)
                        if isinstance(n.value, int) and n.value > 8 and n.value & (n.value + 1) == 0:
                            out.add(n.value.bit_length())
    return sorted(out)


# ------------------------------------------------------------------ worker side
G = {}


def work(task):
    kind, idx, opt = task
    spec, verify, h = G['spec'], G['verify'], G['h']
    c = spec.CASES[idx]
    t0 = time.time()
    try:
        if kind == 'sym':
            r = verify.verify_case(c, h, timeout=opt['timeout'], disable=opt.get('disable', ()), budget=opt['budget'])
            failed = []
            for f in r.failed:
                label, status, inp, reason, notes, goal = f
                rep = None
                if inp is not None:
                    try:
                        with verify.time_limit(20):
                            rep = verify.replay(c, inp)
                    except verify.Timeout:
                        rep = None
                failed.append(dict(obligation=label, status=status, inputs=inp, reason=str(reason), notes=notes[:6],
                                   goal=goal, replay=jsonable(rep)))
            return dict(kind=kind, idx=idx, id=c.id, status=r.status, obligations=r.obligations, discharged=r.discharged,
                        by=r.by, failed=failed, reason=r.reason, paths=r.paths, secs=time.time() - t0,
                        functions=sorted({fname(f) for f in r.functions}), contracts=sorted(r.contracts), externals=sorted(map(str, r.externals)),
                        invariants=r.invariants, disabled=sorted(opt.get('disable', ())))
        # sweep
        rng = random.Random(f"{opt['seed']}/{c.id}")
        try:
            with verify.time_limit(opt['secs'] * 3 + 30):
                v, n, d = verify.sweep(c, rng, opt['count'], G['consts'], secs=opt['secs'], maxw=opt['maxw'])
        except verify.Timeout:
            v, n, d = None, 0, 0
        return dict(kind=kind, idx=idx, id=c.id, violation=jsonable(v), evals=n, distinct=d, secs=time.time() - t0,
                    bounded=c.bounded, sample=jsonable(getattr(verify, 'LAST_SAMPLE', None)))
    except BaseException as e:
        return dict(kind=kind, idx=idx, id=c.id, status='undecided', error=repr(e), reason='engine ' + traceback.format_exc()[-600:],
                    evals=0, distinct=0, violation=None, failed=[], obligations=0, discharged=0, by={}, functions=[],
                    contracts=[], externals=[], invariants=0, secs=time.time() - t0, paths=0,
                    disabled=sorted(opt.get('disable', ())))


def fname(f):
    f = getattr(f, '__wrapped__', f)
    return f if isinstance(f, str) else f"{getattr(f, '__module__', '?')}.{getattr(f, '__qualname__', repr(f))}"


def jsonable(x):
    if x is None or isinstance(x, (bool, int, float, str)):
        return x
    if isinstance(x, (list, tuple)):
        return [jsonable(y) for y in x]
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    return repr(x)[:400]


def init_worker():
    gb = 1 << 30
    try:
        resource.setrlimit(resource.RLIMIT_AS, (6 * gb, 6 * gb))
    except Exception:
        pass


class Runner:
    def __init__(self, deadline, jobs):
        self.deadline, self.jobs = deadline, jobs

    def run(self, tasks):
        """run tasks (longest first); tasks not finished by the deadline are absent from the result"""
        out = []
        if not tasks or time.time() > self.deadline:
            return out
        pool = mp.get_context('fork').Pool(min(self.jobs, len(tasks)), initializer=init_worker, maxtasksperchild=40)
        try:
            it = pool.imap_unordered(work, tasks, chunksize=1)
            for _ in tasks:
                left = self.deadline - time.time()
                if left <= 0:
                    break
                try:
                    out.append(it.next(timeout=left))
                except mp.TimeoutError:
                    break
        finally:
            pool.terminate()
            pool.join()
        return out


def text(x):
    return json.dumps(x, default=repr)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--jobs', type=int, default=os.cpu_count() or 1)
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    sys.set_int_max_str_digits(0)
    spec, verify = load()
    if a.replay:
        return do_replay(a.replay, spec, verify)
    t_start = time.time()
    tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    quick = tier == 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    prop = a.prop
    cfg = dict(soft=480 if quick else 3000, timeout=20 if quick else 60, budget=150 if quick else 900)
    G.update(spec=spec, verify=verify, h=verify.make_hooks(), consts=harvest())
    try:
        base = set(json.load(open(os.path.join(HERE, 'pyvc', 'literals.json'))))
    except Exception:
        base = set(G['consts'])
    verify.Rand.fresh = sorted(set(G['consts']) - base, key=abs)
    lean = lemma_library(quick)
    R = Runner(t_start + cfg['soft'], a.jobs)
    mine = [i for i, c in enumerate(spec.CASES) if c.prop == prop]
    if not mine:
        print(f'no case for {prop}', file=sys.stderr)
        return 2
    # warm-up in the parent (lemma templates are shared by the forked workers)
    from pyvc import lemmas
    providers = {}
    for i, c in enumerate(spec.CASES):
        if not c.bounded:
            for n in c.verifies:
                providers.setdefault(n, []).append(i)

    sweepers = mine
    nsw = len(sweepers)
    per = max(0.25, min(6.0 if quick else 60.0, (25 if quick else 400) * a.jobs / nsw))
    wt = {i: spec.CASES[i].weight for i in mine}
    sw = [('sweep', i, dict(seed=seed, count=(12000 if spec.CASES[i].bounded else 400) if quick else 6000, secs=per * (wt[i] if spec.CASES[i].bounded else 1.0),
                            maxw=2 if quick else 3)) for i in sweepers]
    sy = [('sym', i, dict(timeout=cfg['timeout'], budget=cfg['budget'])) for i in mine if not spec.CASES[i].bounded]
    sy.sort(key=lambda t: -wt[t[1]])
    res_sym, res_sw = {}, {}

    def take(rs):
        for r in rs:
            if r['kind'] == 'sym':
                res_sym[r['idx']] = r
            else:
                res_sw[r['idx']] = r
    take(R.run(sy + sw))
    # contracts used, transitively
    wanted = set(sy_i for _, sy_i, _ in sy)
    while True:
        used = set()
        for i in wanted:
            if i in res_sym:
                used |= set(res_sym[i]['contracts'])
        new = sorted({i for n in used for i in providers.get(n, ()) if i not in wanted})
        if not new or time.time() > R.deadline:
            break
        wanted |= set(new)
        take(R.run([('sym', i, dict(timeout=cfg['timeout'], budget=cfg['budget'])) for i in
                    sorted(new, key=lambda i: -spec.CASES[i].weight)]))
    # contracts whose verification did not go through are not relied upon
    broken, rounds = set(), 0
    while rounds < 4 and time.time() < R.deadline:
        rounds += 1
        bad = set()
        for n in {n for i in wanted for n in res_sym.get(i, {}).get('contracts', ())}:
            for i in providers.get(n, ()):
                if i in res_sym and res_sym[i]['status'] != 'proved' or i not in res_sym:
                    bad.add(n)
            if not providers.get(n) and n not in ASSUMED_CONTRACTS:
                bad.add(n)
        bad -= broken
        redo = [i for i in sorted(wanted) if i in res_sym and
                set(res_sym[i]['contracts']) & (bad | broken) and not (set(res_sym[i]['disabled']) >= (bad | broken))]
        # a failing case that relied on contracts is retried with everything inlined as well
        if not redo:
            break
        broken |= bad
        take(R.run([('sym', i, dict(timeout=cfg['timeout'], budget=cfg['budget'], disable=sorted(broken))) for i in redo]))

    # ------------------------------------------------------------------ verdict
    known = [k for k in json.load(open(os.path.join(HERE, 'known_findings.json')))['findings'] if k['property'] == prop]
    violations, undecided, known_hit = [], [], []

    def report(kind, cid, label, detail, inputs, extra=None):
        rec = dict(property=prop, kind=kind, case=cid, obligation=label, detail=detail, inputs=inputs, **(extra or {}))
        for k in known:
            if matches(k, rec):
                if k not in known_hit:
                    known_hit.append(k)
                return
        violations.append(rec)

    retry = []
    for i in mine:
        c = spec.CASES[i]
        s, w = res_sym.get(i), res_sw.get(i)
        if w and w['violation']:
            label, detail, inputs, log = w['violation']
            report('input', c.id, f'{c.id}/{label}', detail, inputs, dict(log=log))
        if c.bounded:
            continue
        if s is None or s['status'] == 'undecided':
            undecided.append((c.id, (s or {}).get('reason') or 'not finished'))
            if not (w and w['violation']):
                retry.append((i, []))
            continue
        open_ = []
        for f in s['failed']:
            if f['replay']:
                label, detail, inputs, log = f['replay']
                report('input', c.id, f['obligation'], detail, inputs, dict(log=log, goal=f['goal']))
            else:
                open_.append(f)
        if open_ and not (w and w['violation']):
            retry.append((i, open_))
    # obligations that failed without a reproducing input: search harder
    if retry and time.time() < R.deadline + 60:
        R2 = Runner(min(R.deadline + 90, time.time() + (60 if quick else 600)), a.jobs)
        per2 = max(1.0, min(20.0, 40.0 * a.jobs / len(retry)))
        out = {r['idx']: r for r in R2.run([('sweep', i, dict(seed=f'{seed}+', count=40000, secs=per2, maxw=3)) for i, _ in retry])}
        for i, open_ in retry:
            c, w = spec.CASES[i], out.get(i)
            if w:
                res_sw.setdefault(i, w)
                if res_sw[i] is not w:
                    res_sw[i]['evals'] += w['evals']
                    res_sw[i]['distinct'] += w['distinct']
            if w and w['violation']:
                label, detail, inputs, log = w['violation']
                report('input', c.id, f'{c.id}/{label}', detail, inputs, dict(log=log))
            elif open_:
                if any(v['kind'] == 'input' for v in violations):
                    continue
                f = open_[0]
                report('obligation', c.id, f['obligation'], f"verifier: {f['status']} {f['reason']}", f['inputs'],
                       dict(goal=f['goal'], notes=f['notes'], all_failed=[x['obligation'] for x in open_]))
    proved = [i for i in mine if i in res_sym and res_sym[i]['status'] == 'proved']
    evals = sum(r['evals'] for r in res_sw.values())
    distinct = sum(r['distinct'] for r in res_sw.values())
    empty = [spec.CASES[i].id for i in mine if i in res_sw and res_sw[i]['evals'] == 0]
    deps = sorted(wanted - set(mine))
    allr = [res_sym[i] for i in wanted if i in res_sym]
    mres = [res_sym[i] for i in mine if i in res_sym]
    bounded = [spec.CASES[i].id for i in mine if spec.CASES[i].bounded]
    by = {}
    for r in allr:
        for k, v in r['by'].items():
            by[k] = by.get(k, 0) + v
    level = 'proof' if proved and not undecided and len(proved) >= len(bounded) else ('proof' if proved else 'exploration')
    man = manifest_level(prop)
    samples = []
    for i in mine:
        r = res_sw.get(i)
        if r and r.get('sample') and len(samples) < 6 and (not samples or hash(r['id']) % 7 == 0):
            samples.append(dict(case=r['id'], inputs=r['sample']))
    cov = dict(
        obligations=sum(r['obligations'] for r in allr), discharged=sum(r['discharged'] for r in allr),
        own_obligations=sum(r['obligations'] for r in mres), own_discharged=sum(r['discharged'] for r in mres),
        checker_cmd=f'/opt/venv/bin/python check.py {prop} --tier {tier}',
        trusted_base=TRUSTED + sorted({'external: ' + e for r in allr for e in r['externals']}),
        cases=len(mine), cases_proved=len(proved), cases_undecided=[list(u) for u in undecided][:40],
        cases_bounded_only=len(bounded), bounded_reason=sorted({spec.CASES[i].bounded for i in mine if spec.CASES[i].bounded}),
        functions_under_contract=sorted({f for r in allr for f in r['functions']}),
        contracts_used=sorted({f for r in allr for f in r['contracts']}),
        contracts_not_relied_on=sorted(broken),
        contracts_assumed={n: ASSUMED_CONTRACTS[n] for r in allr for n in r['contracts'] if n in ASSUMED_CONTRACTS},
        lemma_library=lean, dependency_cases=len(deps), loop_invariants=sum(r['invariants'] for r in allr),
        paths=sum(r['paths'] for r in allr), backends=by, solver_time_s=round(sum(r['secs'] for r in allr), 2),
        evaluations=evals, distinct_nontrivial=distinct,
        rule='each case run on the real code with inputs enumerated exhaustively at widths <= %d, then drawn at random from boundary-biased pools (seeded); distinct input assignments counted, inputs outside the precondition skipped' % (2 if quick else 3),
        samples=samples or ['none'], cases_without_evaluation=empty[:20])
    if level == 'exploration':
        cov['exhaustive'] = False
    ev = dict(property=prop, tier=tier, seed=seed, level=man or level, coverage=cov,
              assumptions=ASSUME + EXTRA_ASSUME.get(prop, []), wall_s=round(time.time() - t_start, 2), violations=len(violations))
    EVD = os.environ.get('HWV_EVIDENCE', os.path.join(HERE, 'evidence'))
    os.makedirs(os.path.join(EVD, 'replay'), exist_ok=True)
    json.dump(ev, open(os.path.join(EVD, f'{prop}.json'), 'w'), indent=1, default=repr)
    for k in known_hit:
        print(f"KNOWN-FINDING: property={prop} {k['what']}")
    print(f"{prop} {tier}: {len(proved)}/{len(mine) - len(bounded)} cases proved, {cov['discharged']}/{cov['obligations']} obligations "
          f"(incl. {len(deps)} dependency cases), {len(bounded)} bounded-only cases, {evals} concrete evaluations, {ev['wall_s']}s")
    for cid, why in undecided[:10]:
        print(f'  UNDECIDED (bounded stand-in used): {cid}: {str(why)[-200:]}')
    if empty:
        print(f'  no evaluation: {empty[:5]}')
    if a.v:
        for r in sorted(allr, key=lambda r: -r['secs'])[:8]:
            print(f"   {r['id']} {r['secs']:.1f}s {r['status']}")
        if broken:
            print('   broken contracts', sorted(broken))
            for n in sorted(broken):
                for i in providers.get(n, ()):
                    r = res_sym.get(i)
                    if not r or r['status'] != 'proved':
                        print('      ', n, spec.CASES[i].id, r and (r['status'], (r['reason'] or '')[-300:], r['failed'][:1]))
    if not violations:
        return 0
    violations.sort(key=lambda v: v['kind'] != 'input')
    v = violations[0]
    path = os.path.join('evidence', 'replay', f'{prop}.json')
    v['others'] = [dict(case=o['case'], obligation=o['obligation'], kind=o['kind'], inputs=o['inputs']) for o in violations[1:30]]
    v['replay_cmd'] = f'/opt/venv/bin/python check.py --replay {path}'
    json.dump(v, open(os.path.join(EVD, 'replay', f'{prop}.json'), 'w'), indent=1, default=repr)
    print(f"  obligation {v['obligation']}: {str(v['detail'])[:400]} inputs={str(v['inputs'])[:300]}")
    tail = '' if v['kind'] == 'input' else ' no-failing-input-found'
    print(f'VIOLATION property={prop} replay={path}{tail}')
    return 1


def lemma_library(quick):
    """quick: the statements lean/Lemmas.lean proves are the ones the verifier instantiates now; thorough: Lean checks the proofs"""
    import subprocess
    try:
        r = subprocess.run([sys.executable, os.path.join(HERE, 'tools', 'mklean.py')] + (['--same'] if quick else ['--check']),
                           capture_output=True, text=True, timeout=900)
        return (r.stdout.strip().splitlines() or ['?'])[-1]
    except Exception as e:
        return f'not run: {e!r}'


def matches(k, rec):
    """a listed finding matches by case id and, when given, label and exact inputs"""
    m = k['match']
    if rec['case'] != m['case']:
        return False
    if 'label' in m and not rec['obligation'].endswith(m['label']):
        return False
    ins = m.get('inputs')
    return ins is None or all((rec['inputs'] or {}).get(x) == y for x, y in ins.items())


def manifest_level(prop):
    try:
        for c in json.load(open(os.path.join(HERE, 'MANIFEST.json')))['checks']:
            if c['property'] == prop:
                return c['level']
    except Exception:
        pass


TRUSTED = ['pyvc (the verification-condition generator: Python semantics of the subset it interprets)',
           'z3 / cvc5', 'CPython semantics of int, list, tuple, str and dispatch as modelled',
           'lemma library over Z (proved in Lean: /verif/lean/Lemmas.lean)']
ASSUME = ['Python ints are mathematical integers (no machine arithmetic to abstract)',
          'partial correctness: termination is not proved',
          'memory exhaustion and recursion limits are not modelled',
          'decorators and metaclass calls are executed as Python executes them; functools caches are treated as transparent']
EXTRA_ASSUME = {}
# contracts on code outside the verifier's reach: name -> where a bounded check stands in
ASSUMED_CONTRACTS = {
    'poly.getitem': 'PolyVector[T0, T1, select] creates the polymorphic class (class creation by metaclass: bounded check in C10)',
    **{'induction.' + f: f'induction hypothesis: what the cases on one level of a type prove of {f}, for its components (types are finite trees)'
       for f in ('enumerate', 'rebind', 'rebind_type', 'strip', 'push', 'rebind_bitvector', 'rebind_keep_modifiers')},
    **{'modifiers.' + f: 'modifiers wrap and unwrap losslessly (C23)' for f in ('is_modified', 'unwrap', 'wrap', 'get', 'get_unmodified')},
}


def do_replay(path, spec, verify):
    v = json.load(open(path))
    if v['kind'] != 'input':
        print('failed obligation (no failing input):', v['obligation'])
        print(v.get('detail'), v.get('goal'))
        return 1
    for c in spec.CASES:
        if c.id == v['case']:
            r = verify.replay(c, v['inputs'])
            print(c.id, v['inputs'])
            print('reproduced: ' + str(r[:2]) if r else 'not reproduced')
            for l in (r[3] if r else []):
                print('   ', l)
            return 1 if r else 0
    print('case not found')
    return 2


if __name__ == '__main__':
    sys.exit(main())

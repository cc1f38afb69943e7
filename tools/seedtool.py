#!/opt/venv/bin/python
"""Development tool: build /verif/seeded/<id>/ from tools/seeds_spec.py and try checks on them.
  seedtool.py make ID...      write seeded/ID, confirm: applies, builds, tests pass, demo fails/passes
  seedtool.py check ID...     run the property's quick check against a patched scratch copy
Scratch copies live under /tmp and are removed."""
import os, sys, json, subprocess, shutil, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'tools'))
PY = '/opt/venv/bin/python'


def sh(cmd, cwd=None, env=None, timeout=900):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', **(env or {}))
    return subprocess.run(cmd, shell=True, cwd=cwd, env=e, capture_output=True, text=True, timeout=timeout)


def copy():
    d = tempfile.mkdtemp(prefix='seed_', dir='/tmp')
    r = sh(f'git -C /repo archive HEAD | tar -x -C {d}')
    return d


def make(s):
    d = copy()
    out = os.path.join(HERE, 'seeded', s['id'])
    try:
        sh('git init -q . && git add -A && git -c user.email=a@b -c user.name=x commit -qm x', cwd=d)
        for f, old, new in s['edits']:
            p = os.path.join(d, f)
            t = open(p).read()
            if t.count(old) != 1:
                return f"{s['id']}: pattern occurs {t.count(old)} times in {f}: {old[:60]!r}"
            open(p, 'w').write(t.replace(old, new))
        diff = sh('git diff', cwd=d).stdout
        env = dict(PYTHONPATH=d)
        demo = s['demo']
        os.makedirs(out, exist_ok=True)
        open(os.path.join(out, 'patch.diff'), 'w').write(diff)
        open(os.path.join(out, 'demo.py'), 'w').write(demo)
        open(os.path.join(out, 'demo.sh'), 'w').write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        json.dump(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['breaks']), open(os.path.join(out, 'meta.json'), 'w'), indent=1)
        r0 = sh(f'{PY} {out}/demo.py', cwd='/repo')
        r1 = sh(f'{PY} {out}/demo.py', cwd=d, env=env)
        t = sh(f"{PY} -m pytest -q -x -p no:cacheprovider --disable-warnings tests 2>&1 | tail -5", cwd=d, env=env)
        ok = ' failed' not in t.stdout and ' error' not in t.stdout and 'passed' in t.stdout
        if r0.returncode == 0 and r1.returncode != 0 and ok:
            return f"{s['id']}: kept"
        shutil.rmtree(out)
        return f"{s['id']}: NOT KEPT demo clean={r0.returncode} demo patched={r1.returncode} tests={t.stdout[-300:]} {r0.stderr[-300:]}"
    finally:
        shutil.rmtree(d)


def check(sid, tier='quick'):
    d = copy()
    out = os.path.join(HERE, 'seeded', sid)
    meta = json.load(open(os.path.join(out, 'meta.json')))
    try:
        r = sh(f'git apply --unsafe-paths --directory={d} {out}/patch.diff', cwd=d)
        if r.returncode:
            r = sh(f'patch -p1 < {out}/patch.diff', cwd=d)
        r = sh(f"{PY} check.py {meta['property']} --tier {tier}", cwd=HERE, env=dict(PYTHONPATH=d, HWV_EVIDENCE=d + '/evidence'))
        return f"{sid} ({meta['property']}): exit {r.returncode} " + ' | '.join(l for l in r.stdout.splitlines() if 'VIOLATION' in l or 'obligation ' in l)[:500] + r.stderr[-300:]
    finally:
        shutil.rmtree(d)


if __name__ == '__main__':
    from seeds_spec import SEEDS
    ids = sys.argv[2:]
    if sys.argv[1] == 'make':
        from concurrent.futures import ThreadPoolExecutor
        todo = [s for s in SEEDS if (s['id'] in ids or (not ids and not os.path.exists(os.path.join(HERE, 'seeded', s['id']))))]
        with ThreadPoolExecutor(6) as ex:
            for r in ex.map(make, todo):
                print(r, flush=True)
    else:
        for i in ids or sorted(os.listdir(os.path.join(HERE, 'seeded'))):
            print(check(i), flush=True)

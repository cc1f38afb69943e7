#!/opt/venv/bin/python
"""Writes lean/Lemmas.lean: the statement of every lemma of pyvc/lemmas.py, printed from the very function the
verifier instantiates, with the proof of that name in lean/proofs.txt.
  mklean.py           write the file
  mklean.py --check   also run lean on it (slow: loads Mathlib) and fail unless every lemma is proved"""
import os, re, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from pyvc import theory as T, lemmas as L


def statement(l):
    vs = [T.LeanExpr(v) for v in l.vars]
    if l.name == 'bit_ext':
        h, c = ['x ≠ y'], '∃ i : ℤ, 0 ≤ i ∧ ¬ ((bit x i) ↔ (bit y i))'
    else:
        h, c = l.fn(*vs)
        h, c = [T.lean(x) for x in h], T.lean(c)
    return f"theorem {l.name} ({' '.join(l.vars)} : ℤ)" + ''.join(f' (h{i} : {x})' for i, x in enumerate(h)) + f' : {c} := by\n'


def main():
    text = open(os.path.join(HERE, 'lean', 'proofs.txt')).read()
    parts = re.split(r'^## (\w+)\n', text, flags=re.M)
    head, proofs = parts[0], dict(zip(parts[1::2], parts[2::2]))
    out, missing = [head], []
    order = [n for n in proofs if n in L.LEMMAS] + [n for n in L.LEMMAS if n not in proofs]
    for n in parts[1::2]:
        if n.startswith('aux'):
            out.append(proofs[n])
            continue
        out.append(statement(L.LEMMAS[n]) + proofs[n])
    for n in L.LEMMAS:
        if n not in proofs:
            missing.append(n)
    if '-s' in sys.argv:
        for n in missing:
            print(statement(L.LEMMAS[n]), end='')
    body = '\n'.join(out) + '\nend PyVC\n'
    f = os.path.join(HERE, 'lean', 'Lemmas.lean')
    old = open(f).read() if os.path.exists(f) else None
    if '--same' in sys.argv:
        print(f'{len(L.LEMMAS)} statements, the ones proved in lean/Lemmas.lean' if old == body else 'lean/Lemmas.lean is stale')
        return 0
    if old != body:
        open(f, 'w').write(body)
    if missing:
        print('no proof:', *missing)
    if '--check' in sys.argv:
        r = subprocess.run(['lean', f], capture_output=True, text=True)
        print(r.stdout[-6000:], r.stderr[-2000:])
        bad = r.returncode or 'axiom' in body or 'sorry' in r.stdout or missing
        print('FAILED' if bad else f'{len(L.LEMMAS)} lemmas proved')
        return 1 if bad else 0


sys.exit(main())

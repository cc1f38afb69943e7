#!/opt/venv/bin/python
"""self-test of the framework: imports, lemma library sampled against exact integer semantics"""
import os, sys, random
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True
from pyvc import lemmas
import check
check.load()
print('lemma self-test', lemmas.selftest(random.Random(1)))

# the lemma library the verifier instantiates, proved by Lean from the statements it prints
import subprocess
try:
    r = subprocess.run([sys.executable, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'mklean.py'), '--check'],
                       capture_output=True, text=True, timeout=900)
    print(r.stdout[-300:].strip())
except Exception as e:
    print('lean not run:', e)

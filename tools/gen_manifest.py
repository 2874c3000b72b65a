"""writes /verif/MANIFEST.json from the checks present and properties.jsonl"""
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(R, 'properties.jsonl'))]
NA = {}
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(R, 'checks', i.lower() + '.py')):
        checks.append(dict(property=i, quick_cmd='./check.sh %s --tier quick' % i, thorough_cmd='./check.sh %s --tier thorough' % i,
                           evidence_file='evidence/%s.json' % i,
                           technique='symbolic execution of the real Python code with an SMT solver (z3) deciding every assertion for all values within the bounds; counterexamples replayed on the unpatched code',
                           level='model_checking',
                           level_note='bounded: every path of the harness within the stated sizes is explored and each assertion is decided by z3 for all symbolic values; reals are exact unless a harness says fp; bounds and stubs are listed in the evidence and in DESIGN.md'))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'check not built yet')))
m = dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=na,
         notes='run from /verif; the code under test is imported from /repo sources on every run; see DESIGN.md')
json.dump(m, open(os.path.join(R, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')

"""Writes /verif/MANIFEST.json from the harness modules present."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python -B run.py'
NOTES = {}
DEFAULT = ('Symbolic execution of the real functions, regenerated from /repo on every run; the solver decides each branch and assertion for all '
           'values within the bounds written to the evidence file. Trusts the executor (sx/), its models of numpy, string and parser primitives '
           '(paths are sampled and re-run on the unmodified code), and treats floating-point arithmetic as exact real arithmetic unless stated.')
props = [json.loads(x) for x in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(V, 'props', i.lower() + '.py')):
        checks.append(dict(property=i, quick_cmd='%s %s --tier quick' % (PY, i), thorough_cmd='%s %s --tier thorough' % (PY, i),
                           technique='symbolic execution of the Python source with SMT (z3), counterexamples replayed on the real code',
                           level='model_checking', level_note=NOTES.get(i, DEFAULT)))
    else:
        na.append(dict(property=i, reason='no harness has been built for it yet'))
m = dict(version=1, setup_cmd='/opt/venv/bin/python -B -m sx.selftest', checks=checks, not_applicable=na)
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print(len(checks), 'checks', len(na), 'n/a')

"""Regenerates /verif/MANIFEST.json from the property list and the harness modules present."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
NA = {}
checks, na = [], []
PYX = '/opt/venv/bin/python'
for p in props:
    i = p['id']
    f = os.path.join(V, 'engine', 'props', i.lower() + '.py')
    if os.path.exists(f) and i not in NA:
        checks.append(dict(
            property=i,
            quick_cmd='%s check.py %s --tier quick' % (PYX, i),
            thorough_cmd='%s check.py %s --tier thorough' % (PYX, i),
            technique='symbolic execution of the current Python and Fortran sources with z3 deciding every branch and assertion; counterexamples replayed on a real build',
            level='model_checking',
            level_note='For each knot structure, degree, shape and axis in the bounds: holds for all real values of the symbolic knots, parameters, '
                       'control points, weights and fields of the case (real arithmetic in place of float64; numpy, f2py and file I/O modelled, one witness per '
                       'case replayed on a real build). Nothing is claimed outside the bounds listed in the evidence file.'))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'no check has been built yet')))
json.dump(dict(version=1, setup_cmd='%s tools/setup.py' % PYX, checks=checks, not_applicable=na,
               notes='Checks read /repo at run time; every run translates the current sources again and builds a copy in a scratch directory for replays. No hooks in /repo.'),
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')

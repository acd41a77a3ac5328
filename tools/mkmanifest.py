#!/usr/bin/env python3
"""MANIFEST.json from the harnesses present (each has BOUNDS) and the not-applicable list below"""
import ast
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
    'C37': 'What reaches the eye is decided by matplotlib/cartopy drawing code, which cannot be encoded, and plot_surface calls plt.cm.get_cmap, which the installed matplotlib no longer has, so it raises before drawing anything and no counterexample could be replayed (recorded in DESIGN.md). The numerical inputs of the plot (combined map, occultation mask, limb darkening, resampling) are decided by C02, C03, C13 and C17.',
    'C38': 'Positive semi-definiteness for every set of times quantifies over matrices of unbounded size with transcendental entries, and the sampling itself is tinygp/jax compiled code (Cholesky factorisation in float32), not code of this repository; z3/cvc5 cannot decide it within reach. The entries of the covariance matrix are decided by C29.',
}
checks, na = [], []
for l in open(os.path.join(V, 'properties.jsonl')):
    pid = json.loads(l)['id']
    f = os.path.join(V, 'harness', pid.lower() + '.py')
    if pid in NA:
        na.append(dict(property=pid, reason=NA[pid]))
        continue
    if not os.path.exists(f):
        na.append(dict(property=pid, reason='check not built yet'))
        continue
    b = ''
    for n in ast.parse(open(f).read()).body:
        if isinstance(n, ast.Assign) and n.targets[0].id == 'BOUNDS':
            b = ast.literal_eval(n.value)
    checks.append(dict(
        property=pid,
        quick_cmd=f'/opt/venv/bin/python check.py {pid} --tier quick',
        thorough_cmd=f'/opt/venv/bin/python check.py {pid} --tier thorough',
        technique='bounded symbolic execution of the package source (vsym) with an SMT query per path and assertion (z3); counterexamples replayed on the real package',
        level='model_checking',
        level_note='Decided over exact reals for all values within: ' + b))
json.dump(dict(version=1, setup_cmd='true', checks=checks, not_applicable=na), open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not applicable')

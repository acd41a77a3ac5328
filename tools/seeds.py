"""writes /verif/seeded/<id>/ and validates each planted bug: tools/seeds.py [id ...]  (--check: also run the property's check)"""
import json
import os
import subprocess
import sys
import tempfile

REPO, OUT = '/repo', '/verif/seeded'
HEAD = '''import warnings
warnings.simplefilter('ignore')
import numpy as np
from astropy import units as u
import vspec_vsm as v
from vspec_vsm import MSH
from vspec_vsm.coordinate_grid import CoordinateGrid
from vspec_vsm.helpers import *


def spot(lat, lon, area, umbra=2500, pen=2700, grid=2000, **k):
    a = area * MSH
    k.setdefault('area_max', a)
    return v.StarSpot(lat=lat * u.deg, lon=lon * u.deg, area_current=a, teff_umbra=umbra * u.K, teff_penumbra=pen * u.K,
                      gridmaker=CoordinateGrid.new(grid), **k)


def facula(lat, lon, rad, grid=2000, depth=100, **k):
    d = dict(r_max=rad * u.km, r_init=rad * u.km, depth=depth * u.km, lifetime=6 * u.hr, floor_teff_slope=0 * u.K / u.km,
             floor_teff_min_rad=20 * u.km, floor_teff_base_dteff=-100 * u.K, wall_teff_slope=0 * u.K / u.km,
             wall_teff_intercept=100 * u.K)
    d.update(k)
    return v.Facula(lat=lat * u.deg, lon=lon * u.deg, gridmaker=CoordinateGrid.new(grid), **d)


def star(spots=(), facs=(), grid=2000, teff=3300, radius=0.3, **k):
    return v.Star(teff=teff * u.K, radius=radius * u.R_sun, period=10 * u.day, spots=v.SpotCollection(*spots, grid_params=grid),
                  faculae=v.FaculaCollection(*facs, grid_params=grid), grid_params=grid, **k)


'''
S = []


def seed(id, prop, file, edits, needs, breaks, demo):
    S.append(dict(id=id, property=prop, file=file, edits=edits, needs=needs, what_it_breaks=breaks, demo=demo))


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


def tests_ok():
    r = sh('bash /opt/vp/build.sh')
    if r.returncode:
        return 'build: ' + r.stderr[-300:]
    o = tempfile.mktemp(suffix='.json')
    sh(f'bash /opt/vp/test.sh {o}')
    d = json.load(open(o))
    os.remove(o)
    stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    passed = set(d.get('passed', []))
    miss = stable - passed
    return None if not miss else f'{len(miss)} stable tests fail: {sorted(miss)[:3]}'


def write(s):
    d = f"{OUT}/{s['id']}"
    os.makedirs(d, exist_ok=True)
    p = f"{REPO}/vspec_vsm/{s['file']}"
    src = open(p).read()
    new = src
    for old, rep in s['edits']:
        assert new.count(old) == 1, (s['id'], old, new.count(old))
        new = new.replace(old, rep)
    open(p, 'w').write(new)
    open(d + '/patch.diff', 'w').write(sh('git diff', cwd=REPO).stdout)
    open(p, 'w').write(src)
    open(d + '/demo.py', 'w').write(HEAD + s['demo'].strip() + '\n')
    open(d + '/demo.sh', 'w').write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 JAX_PLATFORMS=cpu MPLBACKEND=Agg\n'
                                    'exec /opt/venv/bin/python -c "import sys; sys.path.insert(0, sys.argv[1]); f = sys.argv[2]; '
                                    'exec(compile(open(f).read(), f, \'exec\'))" "$PWD" "$(dirname "$0")/demo.py"\n')
    json.dump({k: s[k] for k in ('property', 'needs', 'what_it_breaks')}, open(d + '/meta.json', 'w'), indent=1)
    return d


def main():
    args = [a for a in sys.argv[1:] if not a.startswith('-')]
    import seedspecs  # noqa: F401
    for s in S:
        if args and s['id'] not in args:
            continue
        assert not sh('git status --porcelain', cwd=REPO).stdout.strip(), 'repo dirty'
        d = write(s)
        r0 = sh(f'timeout 250 bash {d}/demo.sh', cwd=REPO)
        a = sh(f'git apply {d}/patch.diff', cwd=REPO)
        assert a.returncode == 0, a.stderr
        try:
            t = tests_ok() if '--notest' not in sys.argv else None
            r1 = sh(f'timeout 250 bash {d}/demo.sh', cwd=REPO)
            c = None
            if '--check' in sys.argv:
                c = sh(f"/opt/venv/bin/python check.py {s['property']}", cwd='/verif')
        finally:
            sh('git checkout -- .', cwd=REPO)
        print(s['id'], s['property'], 'demo clean', r0.returncode, 'patched', r1.returncode, 'tests', t or 'pass',
              ('check rc %d' % c.returncode + (' CAUGHT' if c.returncode == 1 and f"VIOLATION property={s['property']}" in c.stdout else ' MISSED')) if c else '',
              flush=True)
        if r0.returncode:
            print('   ', r0.stderr[-400:])


if __name__ == '__main__':
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    sys.modules['seeds'] = sys.modules['__main__']
    main()

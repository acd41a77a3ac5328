#!/usr/bin/env python3
"""
mutants.py [--par N] [--jobs N] [name-prefix ...]

One-site (or few-site) breakages of single properties, run on scratch copies of the package (VSM_REPO), quick tier.
Prints which are caught by the check(s) named with them; no demonstration (see seeds.py for those).
"""
import concurrent.futures as cf
import json
import os
import shutil
import subprocess
import sys
import tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mutantspecs import M      # noqa: E402


def run(i, m, jobs, tests):
    name, checks, edits = m
    d = tempfile.mkdtemp(prefix='mut.')
    try:
        os.mkdir(d + '/r')
        subprocess.run(f'git -C /repo archive HEAD | tar x -C {d}/r', shell=True, check=True)
        for f, old, new in edits:
            p = f'{d}/r/vspec_vsm/{f}.py'
            s = open(p).read()
            if s.count(old) < 1:
                return name, 'BAD-SPEC ' + old
            s = s.replace(old, new, 1)
            open(p, 'w').write(s)
        env = dict(os.environ, VSM_REPO=d + '/r', VSM_OUT=d, VERIF_SEED='1', PYTHONDONTWRITEBYTECODE='1')
        out = []
        if tests:
            t = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', d + '/r'], cwd=d + '/r',
                               env=dict(env, PYTHONPATH=d + '/r'), capture_output=True, text=True)
            out.append('tests:' + ('pass' if t.returncode == 0 else 'FAIL'))
        for c in checks.split():
            r = subprocess.run(['/opt/venv/bin/python', V + '/check.py', c, '--tier', 'quick', '--jobs', str(jobs)],
                               env=env, capture_output=True, text=True, cwd=V)
            got = r.returncode == 1 and f'VIOLATION property={c}' in r.stdout
            kinds = [l.strip()[:110] for l in r.stdout.splitlines() if 'fails (' in l][:1]
            out.append(f'{c}:' + (f'caught [{kinds[0] if kinds else ""}]' if got else f'MISSED rc={r.returncode} {r.stdout.strip()[-260:]} {r.stderr[-200:]}'))
        return name, ' | '.join(out)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    a = sys.argv[1:]
    par, jobs, tests, sel = 3, 3, False, []
    while a:
        x = a.pop(0)
        if x == '--par':
            par = int(a.pop(0))
        elif x == '--jobs':
            jobs = int(a.pop(0))
        elif x == '--tests':
            tests = True
        else:
            sel.append(x)
    ms = [m for m in M if not sel or any(m[0].startswith(s) for s in sel)]
    n = bad = 0
    with cf.ThreadPoolExecutor(par) as ex:
        for name, r in ex.map(lambda im: run(im[0], im[1], jobs, tests), enumerate(ms)):
            n += 1
            if 'MISSED' in r or 'BAD-SPEC' in r:
                bad += 1
            print(name, r, flush=True)
    print(f'{n} mutants, {n - bad} caught, {bad} missed')


if __name__ == '__main__':
    main()

#!/usr/bin/env python3
"""refactors.py [--tests] [--single] [sets...] [-- ids...]: the checks on rewritten copies of the package; all have to stay quiet"""
import os
import subprocess
import sys
import tempfile
import shutil
import concurrent.futures as cf

from refactorspecs import R

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)


def copy(edits):
    d = tempfile.mkdtemp(prefix='refac.')
    subprocess.run(f'git -C /repo archive HEAD | tar x -C {d}', shell=True, check=True)
    for f, old, new in edits:
        p = os.path.join(d, 'vspec_vsm', f + '.py')
        s = open(p).read()
        if s.count(old) != 1:
            print('NOT APPLICABLE', f, s.count(old), repr(old[:80]))
            continue
        open(p, 'w').write(s.replace(old, new))
    return d


def check(d, c):
    env = dict(os.environ, VSM_REPO=d, VSM_OUT=os.path.join(d, 'out'))
    r = subprocess.run(['/opt/venv/bin/python', os.path.join(ROOT, 'check.py'), c], env=env, capture_output=True, text=True)
    return r.returncode, r.stdout + r.stderr


def main():
    a = sys.argv[1:]
    tests = '--tests' in a
    a = [x for x in a if x != '--tests']
    ids = a[a.index('--') + 1:] if '--' in a else []
    sets = (a[:a.index('--')] if '--' in a else a) or sorted(R)
    ids = ids or sorted('C' + f[1:3] for f in os.listdir(os.path.join(ROOT, 'harness')) if f[0] == 'c' and f[1:3].isdigit())
    for s in sets:
        d = copy(R[s])
        try:
            if tests:
                t = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', 'test'], cwd=d, capture_output=True, text=True,
                                   env=dict(os.environ, PYTHONPATH=d))
                print(s, 'tests:', '\n'.join(t.stdout.splitlines()[-8:]))
            bad = 0
            with cf.ThreadPoolExecutor(2) as ex:
                for c, (rc, out) in zip(ids, ex.map(lambda c: check(d, c), ids)):
                    last = [l for l in out.splitlines() if l.startswith(c + ':')]
                    quiet = rc == 0
                    bad += not quiet
                    if not quiet or 'inconclusive' in out or ', 0 unknown, 0 unconfirmed' not in out:
                        print(s, c, 'QUIET' if quiet else 'ALARM rc=%d' % rc, (last or [''])[-1][:200], '' if quiet else '\n'.join(out.splitlines()[:6])[:900], flush=True)
            print(s, len(ids), 'checks,', bad, 'alarms', flush=True)
        finally:
            shutil.rmtree(d)


main()

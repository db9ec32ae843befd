#!/usr/bin/env python3
"""Writes seeded/<id>/ from a description and confirms it.

usage: tools_seed.py FILE.py [id ...]   FILE.py defines BUGS, a list of dicts
id, property, edits [(file, old, new)...], demo, needs, breaks.
A change is kept only when it applies, the stable tests pass with it, and the
demonstration passes without and fails with it."""
import json
import os
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
SH = """#!/bin/bash
# run with cwd = repository root
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONPATH="$here/shims:$here:$PWD/py" NUMBA_DISABLE_JIT=1
export PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1
t=$(mktemp -d /tmp/vp-demo-XXXXXX) || exit 99
trap 'rm -rf "$t"' EXIT
cd "$t" && /opt/venv/bin/python "$here/demo.py"
"""


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, text=True, capture_output=True,
                          **k)


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    want = sys.argv[2:]
    for b in ns['BUGS']:
        if want and b['id'] not in want:
            continue
        d = os.path.join(HERE, 'seeded', b['id'])
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        w = '/tmp/vp-seed-wt'
        shutil.rmtree(w, ignore_errors=True)
        sh(f'cp -a /repo {w}')
        sh('git checkout -q -- .', cwd=w)
        ok = True
        for f, old, new in b['edits']:
            p = os.path.join(w, f)
            s = open(p).read()
            if s.count(old) != 1:
                print(b['id'], 'EDIT matches', s.count(old), 'times:', old)
                ok = False
                break
            open(p, 'w').write(s.replace(old, new))
        if not ok:
            shutil.rmtree(d)
            continue
        diff = sh('git diff', cwd=w).stdout
        open(d + '/patch.diff', 'w').write(diff)
        open(d + '/demo.py', 'w').write(b['demo'].lstrip())
        open(d + '/demo.sh', 'w').write(SH)
        os.chmod(d + '/demo.sh', 0o755)
        shutil.copytree(HERE + '/shims', d + '/shims',
                        ignore=shutil.ignore_patterns('__pycache__'))
        shutil.copy(ns.get('LIB', '/tmp/seedlib/lib.py'), d + '/lib.py')
        json.dump(dict(property=b['property'], needs=b['needs'],
                       what_it_breaks=b['breaks']),
                  open(d + '/meta.json', 'w'), indent=1)
        r0 = sh(f'bash {d}/demo.sh', cwd='/repo')
        r1 = sh(f'bash {d}/demo.sh', cwd=w)
        t = sh('PYTHONPATH=py /opt/venv/bin/python -m pytest -q -p '
               'no:cacheprovider tests/test_catalog.py '
               'tests/test_mpi_utils.py', cwd=w)
        last = t.stdout.strip().splitlines()[-1] if t.stdout else t.stderr
        good = r0.returncode == 0 and r1.returncode != 0 and \
            '4 passed' in last and 'failed' not in last
        print(b['id'], 'OK' if good else 'BAD', r0.returncode, r1.returncode,
              last, '|', (r1.stdout + r1.stderr).strip()[-150:].replace(
                  '\n', ' '))
        if r0.returncode:
            print(r0.stdout[-1500:], r0.stderr[-1500:])
        if not good:
            shutil.rmtree(d)
        shutil.rmtree(w, ignore_errors=True)


main()

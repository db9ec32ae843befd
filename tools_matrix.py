#!/usr/bin/env python3
"""Runs the claimed check of each planted bug on a patched copy of /repo.

usage: tools_matrix.py [id ...] [--all-checks]"""
import glob
import json
import os
import re
import shutil
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
ids = [a for a in sys.argv[1:] if not a.startswith('-')]
every = '--all-checks' in sys.argv
for d in sorted(glob.glob(HERE + '/seeded/*/')):
    i = os.path.basename(d[:-1])
    if ids and i not in ids:
        continue
    prop = json.load(open(d + 'meta.json'))['property']
    w = '/tmp/vp-matrix-wt'
    shutil.rmtree(w, ignore_errors=True)
    subprocess.run(['cp', '-a', '/repo', w], check=True)
    r = subprocess.run(['git', 'apply', d + 'patch.diff'], cwd=w,
                       capture_output=True, text=True)
    if r.returncode:
        print(i, 'DOES NOT APPLY', r.stderr)
        continue
    checks = [prop]
    if every:
        checks = sorted(os.path.basename(p)[:-3].upper()
                        for p in glob.glob(HERE + '/props/c*.py'))
    out = []
    for c in checks:
        t = time.time()
        r = subprocess.run([HERE + '/check.sh', c, 'quick'],
                           capture_output=True, text=True,
                           env=dict(os.environ, QSONIC_PY=w + '/py'))
        m = re.search(r'^' + c + r'/(\w+): (.*)', r.stdout, re.M)
        out.append(f"{c}={'caught' if r.returncode == 1 else r.returncode}"
                   f"({time.time() - t:.0f}s)"
                   + (f" {m.group(1)}: {m.group(2)[:110]}" if m else ''))
    print(i, '; '.join(out), flush=True)
    shutil.rmtree(w, ignore_errors=True)

#!/usr/bin/env python3
"""Mutation testing of the checks (not part of any check).

usage: tools_mutate.py COVDIR OUT.jsonl N SEED NWORKERS [file-substring]
COVDIR holds, per check, the covered 'file:line' pairs. Every sampled mutant
of a covered line that keeps the stable tests passing is given to the checks
covering the line, until one reports a violation."""
import ast
import json
import os
import random
import re
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor
from queue import Queue

HERE = os.path.dirname(os.path.abspath(__file__))
SRC = '/repo/py/qsonic/'
CMP = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=',
       ast.NotEq: '==', ast.In: 'not in', ast.NotIn: 'in', ast.Is: 'is not',
       ast.IsNot: 'is'}
BIN = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*',
       ast.FloorDiv: '/', ast.Pow: '*', ast.BitAnd: '|', ast.BitOr: '&'}
SWAP = {'min': 'max', 'max': 'min', 'any': 'all', 'all': 'any',
        'zeros': 'ones', 'ones': 'zeros', 'sum': 'prod', 'minimum': 'maximum',
        'maximum': 'minimum', 'argmin': 'argmax', 'argmax': 'argmin',
        'append': 'extend', 'mean': 'median', 'searchsorted': 'digitize',
        'zeros_like': 'ones_like', 'ones_like': 'zeros_like',
        'floor': 'ceil', 'sqrt': 'abs', 'exp': 'expm1'}


def mutants(path):
    src = open(path).read()
    tree = ast.parse(src)
    lines = src.split('\n')
    off = [0]
    for x in lines:
        off.append(off[-1] + len(x.encode()) + 1)
    raw = src.encode()

    def pos(n):
        return off[n.lineno - 1] + n.col_offset, \
            off[n.end_lineno - 1] + n.end_col_offset

    def seg(n):
        a, b = pos(n)
        return raw[a:b].decode()
    out = []

    def add(n, new, kind):
        a, b = pos(n)
        if raw[a:b].decode() != new:
            out.append((n.lineno, a, b, new, kind))

    def between(x, y, pat, new, kind):
        a, b = pos(x)[1], pos(y)[0]
        t = raw[a:b].decode()
        m = re.search(pat, t)
        if m:
            out.append((x.end_lineno, a + m.start(), a + m.end(), new, kind))

    def skip(n):
        t = seg(n) if hasattr(n, 'lineno') else ''
        return t.startswith('logging.') or t.startswith('warnings.warn')
    funcs = [n for n in ast.walk(tree)
             if isinstance(n, (ast.FunctionDef,))]
    seen = set()
    for f in funcs:
        if f.name.startswith('add_') and 'parser' in f.name or \
                f.name == 'get_parser' or f.name == '__repr__':
            continue
        stack = list(f.body)
        while stack:
            n = stack.pop()
            if id(n) in seen:
                continue
            seen.add(id(n))
            if isinstance(n, ast.Expr) and isinstance(
                    n.value, ast.Constant):
                continue
            if isinstance(n, ast.Expr) and skip(n):
                continue
            if isinstance(n, (ast.Raise, ast.JoinedStr)):
                continue
            stack.extend(ast.iter_child_nodes(n))
            if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
                add(n, 'pass', 'drop-call')
            elif isinstance(n, ast.AugAssign):
                add(n, 'pass', 'drop-aug')
                t, v = seg(n.target), seg(n.value)
                add(n, f"{t} = {v}", 'aug-assign')
                o = {ast.Add: '-=', ast.Sub: '+=', ast.Mult: '/=',
                     ast.Div: '*='}.get(type(n.op))
                if o:
                    add(n, f"{t} {o} {v}", 'aug-op')
            elif isinstance(n, ast.Assign) and isinstance(
                    n.targets[0], ast.Subscript):
                add(n, 'pass', 'drop-assign')
            elif isinstance(n, ast.Compare) and len(n.ops) == 1:
                o = {ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=',
                     ast.Eq: '==', ast.NotEq: '!=', ast.In: 'in',
                     ast.NotIn: 'not in', ast.Is: 'is',
                     ast.IsNot: 'is not'}[type(n.ops[0])]
                between(n.left, n.comparators[0],
                        re.escape(o) + (r'\b' if o[0].isalpha() else ''),
                        CMP[type(n.ops[0])], 'cmp')
            elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
                o = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/',
                     ast.FloorDiv: '//', ast.Pow: '**', ast.BitAnd: '&',
                     ast.BitOr: '|'}[type(n.op)]
                if not (isinstance(n.left, (ast.Constant, ast.JoinedStr))
                        and 'str' in str(type(getattr(n.left, 'value', 0)))):
                    between(n.left, n.right, re.escape(o),
                            BIN[type(n.op)], 'bin')
            elif isinstance(n, ast.Constant):
                if isinstance(n.value, bool):
                    add(n, str(not n.value), 'bool')
                elif isinstance(n.value, int) and abs(n.value) < 50:
                    add(n, str(n.value + 1), 'int+1')
                    if n.value > 0:
                        add(n, str(n.value - 1), 'int-1')
                elif isinstance(n.value, float):
                    add(n, repr(n.value * 1.07 if n.value else 0.01),
                        'float')
            elif isinstance(n, ast.BoolOp):
                o = 'and' if isinstance(n.op, ast.And) else 'or'
                between(n.values[0], n.values[1], r'\b' + o + r'\b',
                        'or' if o == 'and' else 'and', 'bool')
            elif isinstance(n, ast.UnaryOp):
                if isinstance(n.op, (ast.Not, ast.Invert, ast.USub)):
                    add(n, '(' + seg(n.operand) + ')', 'unary')
            elif isinstance(n, (ast.If, ast.IfExp, ast.While)):
                add(n.test, 'False', 'if-false')
                if not isinstance(n, ast.While):
                    add(n.test, 'True', 'if-true')
            elif isinstance(n, ast.Continue):
                add(n, 'break', 'continue')
            elif isinstance(n, ast.Break):
                add(n, 'continue', 'break')
            elif isinstance(n, ast.Call):
                fn = n.func
                if isinstance(fn, ast.Attribute) and fn.attr == 'copy' \
                        and not n.args:
                    add(n, seg(fn.value), 'no-copy')
                nm = fn.attr if isinstance(fn, ast.Attribute) else getattr(
                    fn, 'id', '')
                if nm in SWAP:
                    a, b = pos(fn)
                    out.append((fn.end_lineno, b - len(nm), b, SWAP[nm],
                                'swap-fn'))
                if len(n.args) >= 2 and not any(isinstance(
                        x, ast.Starred) for x in n.args[:2]):
                    a, b = pos(n.args[0])[0], pos(n.args[1])[1]
                    out.append((n.args[0].lineno, a, b, seg(n.args[1]) + ', '
                                + seg(n.args[0]), 'swap-args'))
                for k in n.keywords:
                    if k.arg and nm not in ('info', 'warning', 'error'):
                        a, b = pos(k)
                        # remove with neighbouring comma
                        t = raw[:a].decode().rstrip()
                        if t.endswith(','):
                            a2 = len(t[:-1].encode())
                            out.append((k.lineno, a2, b, '', 'drop-kw'))
            elif isinstance(n, ast.Slice):
                if n.lower is not None:
                    add(n.lower, f"{seg(n.lower)} + 1", 'slice-lo')
                if n.upper is not None:
                    add(n.upper, f"{seg(n.upper)} - 1", 'slice-hi')
    # de-duplicate
    return sorted(set(out)), raw


def fid(text):
    return text


def main():
    cov, outf, num, seed, nw = sys.argv[1:6]
    sub = sys.argv[6] if len(sys.argv) > 6 else ''
    cover = {}
    for c in sorted(os.listdir(cov)):
        for l in open(os.path.join(cov, c)):
            cover.setdefault(l.strip(), []).append(c)
    size = {c: sum(1 for _ in open(os.path.join(cov, c)))
            for c in os.listdir(cov)}
    pool = []
    for d, _, fs in os.walk(SRC):
        for f in sorted(fs):
            if not f.endswith('.py') or sub not in os.path.join(d, f):
                continue
            p = os.path.join(d, f)
            rel = os.path.relpath(p, '/repo/py/')
            ms, raw = mutants(p)
            for m in ms:
                pool.append((rel, m, raw))
    done = set()
    if os.path.exists(outf):
        for l in open(outf):
            r = json.loads(l)
            done.add((r['file'], r['a'], r['b'], r['new']))
    random.Random(int(seed)).shuffle(pool)
    pool = [x for x in pool if (x[0], x[1][1], x[1][2], x[1][3]) not in done]
    print(len(pool), 'mutants in the pool', flush=True)
    pool = pool[:int(num)]
    q = Queue()
    for k in range(int(nw)):
        w = f'/tmp/mut/w{k}'
        shutil.rmtree(w, ignore_errors=True)
        os.makedirs(w)
        shutil.copytree('/repo', w + '/repo', ignore=shutil.ignore_patterns(
            '.git', '__pycache__'))
        shutil.copytree(HERE, w + '/verif', ignore=shutil.ignore_patterns(
            '.git', 'seeded', '__pycache__', 'evidence'))
        os.makedirs(w + '/verif/evidence', exist_ok=True)
        q.put(w)

    def one(x):
        rel, (ln, a, b, new, kind), raw = x
        w = q.get()
        try:
            p = f"{w}/repo/py/{rel}"
            mod = raw[:a] + new.encode() + raw[b:]
            try:
                compile(mod, p, 'exec')
            except SyntaxError:
                return None
            open(p, 'wb').write(mod)
            base = dict(file=rel, line=ln, a=a, b=b, new=new, kind=kind,
                        old=raw[a:b].decode())
            r = subprocess.run(
                ['timeout', '120', '/opt/venv/bin/python', '-m', 'pytest',
                 '-q', '-x', '-p', 'no:cacheprovider',
                 'tests/test_catalog.py', 'tests/test_mpi_utils.py'],
                cwd=w + '/repo', capture_output=True, text=True,
                env=dict(os.environ, PYTHONPATH=w + '/repo/py',
                         PYTHONDONTWRITEBYTECODE='1'))
            if r.returncode:
                return dict(base, result='tests')
            key = f"{rel}:{ln}"
            cs = sorted(cover.get(key, []), key=lambda c: size[c])
            if not cs:
                return dict(base, result='uncovered')
            log = []
            for c in cs:
                r = subprocess.run(
                    ['timeout', '300', w + '/verif/check.sh', c, 'quick',
                     '--ncpu', '1'], capture_output=True, text=True,
                    env=dict(os.environ, QSONIC_PY=w + '/repo/py'))
                log.append((c, r.returncode))
                if r.returncode == 1:
                    return dict(base, result='caught', by=c, log=log)
                if r.returncode not in (0, 1):
                    return dict(base, result='error', by=c, log=log,
                                msg=(r.stdout + r.stderr)[-400:])
            return dict(base, result='SURVIVED', log=log)
        finally:
            open(f"{w}/repo/py/{rel}", 'wb').write(raw)
            q.put(w)
    with ThreadPoolExecutor(int(nw)) as ex, open(outf, 'a') as o:
        for r in ex.map(one, pool):
            if r:
                o.write(json.dumps(r) + '\n')
                o.flush()


main()

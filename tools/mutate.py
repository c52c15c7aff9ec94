#!/usr/bin/env python3
"""Development aid: small mutations of functions of the repository, judged by checks.
mutate.py FILE FUNCS CHECKS [-n N] [-s SEED]   (FUNCS: comma separated names or '*'; CHECKS: comma separated)
Works on a copy under /tmp; nothing here is part of a check."""
import argparse
import ast
import copy
import os
import random
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sites(tree, funcs):
    """-> list of (description, function that mutates a fresh tree in place)."""
    out = []
    nodes = []

    def visit(n, inside, name):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            name = n.name
            inside = inside or funcs == ['*'] or n.name in funcs
        if inside:
            nodes.append((n, name))
        for c in ast.iter_child_nodes(n):
            visit(c, inside, name)
    visit(tree, funcs == ['*'], '<module>')
    return nodes


def variants(n):
    CMP = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt, ast.Gt], ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt, ast.Lt],
           ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is], ast.In: [ast.NotIn], ast.NotIn: [ast.In]}
    BIN = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Div], ast.Div: [ast.Mult], ast.FloorDiv: [ast.Mult], ast.Mod: [ast.FloorDiv]}
    v = []
    if isinstance(n, ast.Compare):
        for op in CMP.get(type(n.ops[0]), []):
            v.append(lambda m, op=op: m.ops.__setitem__(0, op()))
    if isinstance(n, ast.BinOp):
        for op in BIN.get(type(n.op), []):
            v.append(lambda m, op=op: setattr(m, 'op', op()))
    if isinstance(n, ast.BoolOp):
        v.append(lambda m: setattr(m, 'op', ast.Or() if isinstance(m.op, ast.And) else ast.And()))
        v.append(lambda m: m.values.pop())
    if isinstance(n, ast.Constant) and isinstance(n.value, bool):
        v.append(lambda m: setattr(m, 'value', not m.value))
    elif isinstance(n, ast.Constant) and isinstance(n.value, (int, float)):
        v.append(lambda m: setattr(m, 'value', m.value + 1))
        v.append(lambda m: setattr(m, 'value', m.value - 1))
    if isinstance(n, ast.Call) and len(n.args) >= 2:
        v.append(lambda m: m.args.reverse())
    if isinstance(n, (ast.If, ast.While)):
        v.append(lambda m: setattr(m, 'test', ast.UnaryOp(ast.Not(), m.test)))
    if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
        v.append(lambda m: setattr(m, 'op', ast.UAdd() if isinstance(m.op, ast.USub) else ast.Not()))
    if isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign)) and not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)) \
            and not (isinstance(n, ast.Expr) and 'print' in ast.unparse(n)[:6]):
        v.append('delete')
    if isinstance(n, (ast.Break, ast.Continue)):
        v.append('delete')
    if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
        import re
        m_ = re.match(r'^(.*?)(\d)$', n.id)
        if m_:
            v.append(lambda m, i=m_.group(1) + str(int(m_.group(2)) + 1): setattr(m, 'id', i))
            v.append(lambda m, i=m_.group(1) + str(max(0, int(m_.group(2)) - 1)): setattr(m, 'id', i))
    return v


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('file')
    ap.add_argument('funcs')
    ap.add_argument('checks')
    ap.add_argument('-n', type=int, default=20)
    ap.add_argument('-s', type=int, default=1)
    ap.add_argument('-t', type=int, default=300)
    a = ap.parse_args()
    repo = '/repo'
    src = open(os.path.join(repo, a.file)).read()
    funcs = a.funcs.split(',')
    tree = ast.parse(src)
    nodes = sites(tree, funcs)
    muts = []
    for k, (n, name) in enumerate(nodes):
        for j, v in enumerate(variants(n)):
            muts.append((k, j, name, getattr(n, 'lineno', 0)))
    random.Random(a.s).shuffle(muts)
    print('%d mutants, %d sampled' % (len(muts), min(a.n, len(muts))), flush=True)
    d = '/tmp/mut_%d' % os.getpid()
    shutil.copytree(repo, d, ignore=shutil.ignore_patterns('.git'), symlinks=True)
    live = []
    try:
        for k, j, name, line in muts[:a.n]:
            t = ast.parse(src)
            ns = sites(t, funcs)
            n = ns[k][0]
            before = ast.unparse(n)
            v = variants(n)[j]
            if v == 'delete':
                for p in ast.walk(t):
                    for fld in ('body', 'orelse', 'finalbody'):
                        b = getattr(p, fld, None)
                        if isinstance(b, list) and n in b:
                            b[b.index(n)] = ast.copy_location(ast.Pass(), n)
                after = 'pass'
            else:
                v(n)
                after = ast.unparse(n)
            if before == after:
                continue
            ast.fix_missing_locations(t)
            with open(os.path.join(d, a.file), 'w') as f:
                f.write(ast.unparse(t))
            res = []
            for c in a.checks.split(','):
                try:
                    r = subprocess.run([sys.executable, os.path.join(HERE, 'check.py'), c], env=dict(os.environ, SYMX_REPO=d), timeout=a.t,
                                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
                    res.append((c, r.returncode, r.stdout.decode(errors='replace')))
                except subprocess.TimeoutExpired:
                    res.append((c, 'T', ''))
                if res[-1][1] == 1:
                    break
            best = 1 if any(r[1] == 1 for r in res) else (2 if any(r[1] != 0 for r in res) else 0)
            tag = {1: 'killed  ', 2: 'NOANSWER', 0: 'SURVIVED'}[best]
            print('%s %s:%d %s: %s -> %s%s' % (tag, os.path.basename(a.file), line, name, before.split('\n')[0][:70], after.split('\n')[0][:70],
                                             '' if best == 1 else '   ' + ' | '.join('%s:%s' % (r[0], r[1]) for r in res)), flush=True)
            if best == 2:
                print('    ' + '\n    '.join(l[:200] for l in [r for r in res if r[1] not in (0, 1)][0][2].split('\n')[-4:]), flush=True)
    finally:
        shutil.rmtree(d, ignore_errors=True)


main()

"""The native function of swim changes its arrays as declared and touches nothing else."""

import json
import os
import shutil
import subprocess
import tempfile
import time

import z3

from symx import llvm

PROPERTY = 'P47'
BOUNDS = 'three different arrays of any sizes from 0 up to 4 (thorough: 9) each, chosen independently, any IEEE double in every element, all paths of the LLVM IR of the function'
OUTSIDE = 'larger arrays; one array passed twice; the wrapper generated by SWIG; races of OpenMP'
REPO = os.environ.get('SYMX_REPO', '/repo')
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLANG = ['clang++', '-std=c++11', '-O2', '-fno-vectorize', '-fno-slp-vectorize', '-fno-discard-value-names', '-S', '-emit-llvm', '-fno-exceptions', '-ffp-contract=off']
DRIVER = r'''
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <vector>
#include "swim.h"
int main(int argc, char **argv)
{
    int n[3], at = 1, bad = 0;
    double *a[3]; std::vector<double> was[3];
    for (int k = 0; k < 3; k++) {
        n[k] = atoi(argv[at++]);
        int m = n[k] > 0 ? n[k] : 0;
        a[k] = (double *)malloc(m * sizeof(double));
        for (int i = 0; i < m; i++) { unsigned long long b = strtoull(argv[at++], 0, 16); memcpy(&a[k][i], &b, 8); was[k].push_back(a[k][i]); }
    }
    hi(n[0], a[0], n[1], a[1], n[2], a[2]);
    for (int k = 0; k < 3; k++)
        for (size_t i = 0; i < was[k].size(); i++) {
            double w = was[k][i] + (k + 1);
            if (!(a[k][i] == w || (a[k][i] != a[k][i] && w != w))) { printf("array %d element %d is %.17g, %.17g expected\n", k + 1, (int)i, a[k][i], w); bad = 1; }
        }
    for (int k = 0; k < 3; k++) free(a[k]);
    return bad;
}
'''


def replay(runs):
    """Run the real function under the address sanitizer on the given sizes and bits of the elements."""
    d = tempfile.mkdtemp(prefix='swim')
    try:
        src = os.path.join(REPO, 'crysgsu/cpp/src')
        with open(os.path.join(d, 'd.cpp'), 'w') as f:
            f.write(DRIVER)
        r = subprocess.run(['g++', '-std=c++11', '-g', '-O1', '-fsanitize=address,undefined', '-fno-sanitize-recover=undefined', '-I' + src, os.path.join(d, 'd.cpp'), os.path.join(src, 'swim.cpp'), '-o', os.path.join(d, 'd')],
                           capture_output=True, text=True)
        if r.returncode:
            return [(None, r.stderr[-500:])] * len(runs)
        out = []
        for x in runs:
            a = []
            for k in ('1', '2', '3'):
                a += [str(x['n' + k])] + ['%x' % b for b in x['a' + k]]
            try:
                r = subprocess.run([os.path.join(d, 'd')] + a, capture_output=True, text=True, timeout=60)
                out.append((r.returncode != 0, (r.stdout + r.stderr)[:400]))
            except subprocess.TimeoutExpired:
                out.append((True, 'does not end'))
        return out
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main(tier):
    t0 = time.time()
    N = 4 if tier == 'quick' else 9
    d = tempfile.mkdtemp(prefix='swim')
    bad, unsup = [], None
    try:
        src = os.path.join(REPO, 'crysgsu/cpp/src')
        r = subprocess.run(CLANG + ['-I' + src, os.path.join(src, 'swim.cpp'), '-o', os.path.join(d, 's.ll')], capture_output=True, text=True)
        if r.returncode:
            print('INCONCLUSIVE: swim.cpp does not compile: %s' % r.stderr[-800:])
            return 2
        funcs, consts = llvm.parse(open(os.path.join(d, 's.ll')).read())
    finally:
        shutil.rmtree(d, ignore_errors=True)
    name = [n for n in funcs if n.startswith('_Z2hii')]
    if len(name) != 1 or [t for t, _ in funcs[name[0]].params] != ['i32', 'ptr'] * 3:
        print('INCONCLUSIVE: no function hi(int, double *, int, double *, int, double *)')
        return 2
    n = [z3.BitVec('n%d' % k, 32) for k in (1, 2, 3)]
    B = [llvm.Block('array %d' % k, z3.If(x > 0, z3.SignExt(32, x) * 8, z3.BitVecVal(0, 64)), most=8 * N, free=True) for k, x in zip((1, 2, 3), n)]
    E = llvm.Executor(funcs, consts)
    for x in n:
        E.solver.add(x >= 0, x <= N)
    args = []
    for x, b in zip(n, B):
        args += [x, llvm.Ptr(b, z3.BitVecVal(0, 64))]
    checks = {'bounds': 0, 'value': 0}
    ends = []

    def values(m):
        out = {}
        for k, (x, a) in enumerate(zip(n, B)):
            c = m.eval(x, model_completion=True).as_signed_long()
            out['n%d' % (k + 1)] = c
            out['a%d' % (k + 1)] = [m.eval(z3.fpToIEEEBV(a.first(8 * i)[1]), model_completion=True).as_long() for i in range(max(c, 0))]
        return out

    def fault(e, kind, m):
        if len(bad) < 5:
            bad.append((kind, values(m)))

    def end(e, ret):
        for k in range(3):
            for i in range(N):
                now, was = e.mem.get((B[k], 8 * i), B[k].first(8 * i))[1], B[k].first(8 * i)[1]
                want = z3.fpAdd(llvm.RNE, was, z3.FPVal(float(k + 1), llvm.F64))
                inside = z3.BitVecVal(i, 32) < n[k]
                checks['value'] += 1
                # each element of the array, bit for bit (any NaN is a NaN); those above its size were never there to be written
                if len(bad) < 5 and not now.eq(want) and e.check(inside, now != want):
                    bad.append(('value of array %d' % (k + 1), values(e.solver.model())))
        if len(ends) < 40 and e.check():
            ends.append(values(e.solver.model()))

    try:
        E.run(name[0], args, end, fault)
    except llvm.Unsupported as e:
        unsup = str(e)
    checks['bounds'] = E.queries
    viol, unrepro, notes = None, [], 0
    if bad:
        for (kind, v), (res, text) in zip(bad, replay([v for _, v in bad])):
            if res and viol is None:
                viol = dict(property=PROPERTY, label=kind, values=v, outcome=text)
            elif not res:
                unrepro.append((kind, v, text))
    wit = 0
    if viol is None:
        probe = ends + [{'n1': a, 'n2': b, 'n3': c, 'a1': [0x3ff0000000000000 + i for i in range(max(a, 0))], 'a2': [0x4000000000000000 + i for i in range(max(b, 0))],
                         'a3': [0xc008000000000000 + i for i in range(max(c, 0))]} for a, b, c in ((1, 2, 3), (3, 2, 1), (0, 4, 2))]
        for v, (res, text) in zip(probe, replay(probe)):
            wit += 1
            if res and (unsup or unrepro):
                viol = viol or dict(property=PROPERTY, label='witness', values=v, outcome=text)
            notes += bool(res)
    cov = dict(explanation='LLVM IR of swim.cpp (compiled on this run) executed symbolically: sizes are bit-vectors, elements IEEE doubles, each access is checked against the bounds of its array, '
                           'the contents after the call against the ones before.',
               states=E.paths, transitions=E.decisions, paths=E.paths, solver_queries=E.queries, solver_seconds=round(E.solver_s, 3), traces_validated_against_impl=wit + bool(viol),
               samples=ends[:3], functions_encoded=sorted(E.used), bounds=BOUNDS, outside_the_claim=OUTSIDE, assertions=checks, inconclusive=unsup, exhaustive=not (unsup or viol or unrepro))
    ev = dict(property=PROPERTY, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1')), level='model_checking', coverage=cov, assumptions=['clang -O2 keeps the meaning of the source'],
              wall_s=round(time.time() - t0, 2), violations=1 if viol else 0)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', PROPERTY + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('P47 [%s]: %d paths, %d decisions, %d queries, %.1f s solver, %.1f s wall; %d witnesses replayed' % (tier, E.paths, E.decisions, E.queries, E.solver_s, time.time() - t0, wit))
    if viol:
        p = os.path.join(HERE, 'evidence', 'replay')
        os.makedirs(p, exist_ok=True)
        p = os.path.join(p, PROPERTY + '.json')
        with open(p, 'w') as f:
            json.dump(viol, f, indent=1)
        print('failed assertion: %s, %s' % (viol['label'], viol['outcome']))
        print('VIOLATION property=%s replay=%s' % (PROPERTY, p))
        return 1
    if unsup or unrepro:
        print('INCONCLUSIVE: %s %s' % (unsup or '', unrepro[:2]))
        return 2
    return 0

"""Edits that keep the behaviour, made over all of the code: the checks must stay quiet on the result.

python3-vt tools/refactor.py SET DIR  rewrites the sources of the copy of the repository in DIR.
"""

import ast
import os
import sys

COUNT = {}


def done(k, n=1):
    COUNT[k] = COUNT.get(k, 0) + n


def name(i=[0]):
    i[0] += 1
    return '_tmp%d' % i[0]


def N(x):
    return ast.Name(id=x, ctx=ast.Load())


def S(x):
    return ast.Name(id=x, ctx=ast.Store())


def simple(e):
    return isinstance(e, (ast.Name, ast.Constant)) or isinstance(e, ast.Attribute) and simple(e.value)


class Swap(ast.NodeTransformer):
    """if c: A else: B -> if not c: B else: A;  a < b -> b > a;  a if c else b -> b if not c else a."""

    def visit_If(self, n):
        self.generic_visit(n)
        if n.orelse and not (len(n.orelse) == 1 and isinstance(n.orelse[0], ast.If)):
            done('if')
            return ast.If(test=ast.UnaryOp(op=ast.Not(), operand=n.test), body=n.orelse, orelse=n.body)
        return n

    def visit_IfExp(self, n):
        self.generic_visit(n)
        done('ifexp')
        return ast.IfExp(test=ast.UnaryOp(op=ast.Not(), operand=n.test), body=n.orelse, orelse=n.body)

    def visit_Compare(self, n):
        self.generic_visit(n)
        f = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}
        if len(n.ops) == 1 and type(n.ops[0]) in f and simple(n.left) and simple(n.comparators[0]):
            done('compare')
            return ast.Compare(left=n.comparators[0], ops=[f[type(n.ops[0])]()], comparators=[n.left])
        return n


class Loops(ast.NodeTransformer):
    """List comprehensions in assignments and returns -> loops;  enumerate -> a counter;  and in if -> if in if."""

    def body(self, b):
        out = []
        for s in b:
            out += self.stmt(s)
        return out

    def stmt(self, s):
        for f in ('body', 'orelse', 'finalbody'):
            if isinstance(getattr(s, f, None), list) and getattr(s, f):
                setattr(s, f, self.body(getattr(s, f)))
        for h in getattr(s, 'handlers', []):
            h.body = self.body(h.body)
        if isinstance(s, (ast.Assign, ast.Return)) and isinstance(s.value, ast.ListComp) and self.infunc:
            t = name()
            done('comprehension')
            return self.unroll(s.value, t) + [ast.Return(value=N(t)) if isinstance(s, ast.Return) else ast.Assign(targets=s.targets, value=N(t), lineno=1)]
        if isinstance(s, ast.If) and not s.orelse and isinstance(s.test, ast.BoolOp) and isinstance(s.test.op, ast.And):
            done('and')
            r = s.body
            for v in reversed(s.test.values):
                r = [ast.If(test=v, body=r, orelse=[])]
            return r
        if isinstance(s, ast.For) and isinstance(s.iter, ast.Call) and isinstance(s.iter.func, ast.Name) and s.iter.func.id == 'enumerate' and len(s.iter.args) == 1 \
                and isinstance(s.target, ast.Tuple) and len(s.target.elts) == 2 and not s.orelse:
            done('enumerate')
            t = name()
            # the counter goes up first, continue is then no trouble
            return [ast.Assign(targets=[S(t)], value=ast.Constant(-1), lineno=1),
                    ast.For(target=s.target.elts[1], iter=s.iter.args[0], orelse=[], lineno=1,
                            body=[ast.AugAssign(target=S(t), op=ast.Add(), value=ast.Constant(1)), ast.Assign(targets=[s.target.elts[0]], value=N(t), lineno=1)] + s.body)]
        return [s]

    def unroll(self, c, t):
        inner = [ast.Expr(value=ast.Call(func=ast.Attribute(value=N(t), attr='append', ctx=ast.Load()), args=[c.elt], keywords=[]))]
        ren = {}
        for g in reversed(c.generators):
            for i in reversed(g.ifs):
                inner = [ast.If(test=i, body=inner, orelse=[])]
            inner = [ast.For(target=g.target, iter=g.iter, body=inner, orelse=[], lineno=1)]
        # names of a comprehension are its own
        names = {x.id for g in c.generators for x in ast.walk(g.target) if isinstance(x, ast.Name)}
        ren = {x: name() for x in names}
        first = c.generators[0].iter
        for st in inner:
            for x in ast.walk(st):
                if isinstance(x, ast.Name) and x.id in ren and not any(x is y for y in ast.walk(first)):
                    x.id = ren[x.id]
        return [ast.Assign(targets=[S(t)], value=ast.List(elts=[], ctx=ast.Load()), lineno=1)] + inner

    infunc = False

    def visit_FunctionDef(self, n):
        if any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(n)):
            return n
        self.infunc = True
        n.body = self.body(n.body)
        self.infunc = False
        return n


class Builtins(ast.NodeTransformer):
    """Comprehensions -> map and filter;  x ** 2 -> x * x;  s in (a, b);  self.X -> local names;  format -> f-string."""

    def visit_ListComp(self, n):
        self.generic_visit(n)
        if len(n.generators) == 1 and isinstance(n.generators[0].target, ast.Name):
            g = n.generators[0]
            arg = ast.arguments(posonlyargs=[], args=[ast.arg(arg=g.target.id)], kwonlyargs=[], kw_defaults=[], defaults=[])
            it = g.iter
            for i in g.ifs:
                it = ast.Call(func=N('filter'), args=[ast.Lambda(args=arg, body=i), it], keywords=[])
            if not (isinstance(n.elt, ast.Name) and n.elt.id == g.target.id):
                it = ast.Call(func=N('map'), args=[ast.Lambda(args=arg, body=n.elt), it], keywords=[])
            done('map')
            return ast.Call(func=N('list'), args=[it], keywords=[])
        return n

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Pow) and isinstance(n.right, ast.Constant) and n.right.value == 2 and simple(n.left):
            done('square')
            return ast.BinOp(left=n.left, op=ast.Mult(), right=n.left)
        return n

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Attribute) and n.func.attr == 'format' and isinstance(n.func.value, ast.Constant) and isinstance(n.func.value.value, str) and not n.keywords:
            import string
            vals = []
            k = 0
            try:
                for lit, f, spec, conv in string.Formatter().parse(n.func.value.value):
                    if lit:
                        vals.append(ast.Constant(lit))
                    if f is not None:
                        i = int(f) if f else k
                        k += 1
                        if conv:
                            return n
                        vals.append(ast.FormattedValue(value=n.args[i], conversion=-1, format_spec=ast.JoinedStr(values=[ast.Constant(spec)]) if spec else None))
            except Exception:
                return n
            done('format')
            return ast.JoinedStr(values=vals)
        return n


class Aug(ast.NodeTransformer):
    """x += number -> x = x + number;  while -> while True;  for -> iterator."""

    def visit_AugAssign(self, n):
        if isinstance(n.target, ast.Name) and isinstance(n.value, (ast.Constant,)):
            done('augmented')
            return ast.Assign(targets=[n.target], value=ast.BinOp(left=N(n.target.id), op=n.op, right=n.value), lineno=1)
        return n

    def visit_While(self, n):
        self.generic_visit(n)
        if n.orelse or isinstance(n.test, ast.Constant):
            return n
        done('while')
        return ast.While(test=ast.Constant(True), body=[ast.If(test=ast.UnaryOp(op=ast.Not(), operand=n.test), body=[ast.Break()], orelse=[])] + n.body, orelse=[])

    def visit_For(self, n):
        self.generic_visit(n)
        it = n.iter
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == 'range' and len(it.args) == 1 and isinstance(n.target, ast.Name) and not n.orelse \
                and not any(isinstance(x, ast.Continue) for x in ast.walk(n)) and not any(isinstance(x, ast.Name) and x.id == n.target.id and isinstance(x.ctx, ast.Store) for b in n.body for x in ast.walk(b)):
            done('range')
            t, e = name(), name()
            return [ast.Assign(targets=[S(e)], value=it.args[0], lineno=1), ast.Assign(targets=[S(t)], value=ast.Constant(0), lineno=1),
                    ast.While(test=ast.Compare(left=N(t), ops=[ast.Lt()], comparators=[N(e)]), orelse=[],
                              body=[ast.Assign(targets=[S(n.target.id)], value=N(t), lineno=1)] + n.body + [ast.Assign(targets=[S(t)], value=ast.BinOp(left=N(t), op=ast.Add(), right=ast.Constant(1)), lineno=1)])]
        if isinstance(it, (ast.Attribute, ast.Name)) and not n.orelse:
            done('list')
            n.iter = ast.Call(func=N('iter'), args=[it], keywords=[])
        return n


class Helpers(ast.NodeTransformer):
    """The body of each plain method goes to a helper; a value that is returned gets a name first."""

    def visit_Return(self, n):
        if n.value is None or simple(n.value):
            return n
        t = name()
        done('return')
        return [ast.Assign(targets=[S(t)], value=n.value, lineno=1), ast.Return(value=N(t))]

    def visit_ClassDef(self, n):
        self.generic_visit(n)
        out = []
        for f in n.body:
            out.append(f)
            if isinstance(f, ast.FunctionDef) and not f.decorator_list and not f.name.startswith('__') and not f.args.vararg and not f.args.kwarg and not f.args.kwonlyargs \
                    and not any(isinstance(x, (ast.Yield, ast.YieldFrom)) or isinstance(x, ast.Name) and x.id == 'super' for x in ast.walk(f)) and f.args.args and f.args.args[0].arg == 'self':
                doc = f.body[:1] if isinstance(f.body[0], ast.Expr) and isinstance(f.body[0].value, ast.Constant) else []
                a = ast.arguments(posonlyargs=[], args=[ast.arg(arg=x.arg) for x in f.args.args], kwonlyargs=[], kw_defaults=[], defaults=[])
                out.append(ast.FunctionDef(name='_do_' + f.name, args=a, body=f.body[len(doc):] or [ast.Pass()], decorator_list=[], lineno=1, type_params=[]))
                f.body = doc + [ast.Return(value=ast.Call(func=ast.Attribute(value=N('self'), attr='_do_' + f.name, ctx=ast.Load()), args=[N(x.arg) for x in f.args.args[1:]], keywords=[]))]
                done('helper')
        n.body = out
        return n


SETS = {'a': [Swap, Helpers], 'b': [Loops, Swap], 'c': [Builtins, Aug], 'd': [Aug, Loops, Helpers]}


def main():
    for root, ds, fs in os.walk(os.path.join(sys.argv[2], 'crysgsu')):
        for f in fs:
            if f.endswith('.py') and f != '__init__.py':
                p = os.path.join(root, f)
                try:
                    t = ast.parse(open(p).read())
                except SyntaxError:
                    continue
                for c in SETS[sys.argv[1]]:
                    t = c().visit(t)
                    ast.fix_missing_locations(t)
                s = ast.unparse(t)
                compile(s, p, 'exec')
                open(p, 'w').write(s + '\n')
    print(COUNT)


main()

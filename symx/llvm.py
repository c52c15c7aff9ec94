"""Symbolic execution of LLVM IR (clang -O1 without vectorising) with Z3: bit-vectors, IEEE doubles, arrays with bounds.

Only what small numeric kernels need is there; anything else raises Unsupported and the check gives no answer."""

import re
import struct
import time

import z3

RNE = z3.RNE()
F64 = z3.Float64()
F32 = z3.Float32()
FLT = {'double': F64, 'float': F32}


class Unsupported(Exception):
    pass


class Ptr:
    """Pointer to a byte of a block (an offset is a 64 bit vector)."""

    def __init__(self, block, off):
        self.block, self.off = block, off


SIZE = {'double': 8, 'float': 4, 'ptr': 8, 'i64': 8, 'i32': 4, 'i16': 2, 'i8': 1}


class Block:
    """Memory: one term for each element (in the memory of a path, by its offset in bytes); size is in bytes, most is the greatest offset."""

    def __init__(self, name, size, writable=True, init=None, most=512, free=False):
        self.name, self.size, self.writable, self.init, self.most, self.free = name, size, writable, init or {}, most, free

    def first(self, i):
        if i not in self.init:
            if not self.free:
                raise Unsupported('read of unset memory')
            self.init[i] = ('double', z3.FP('%s[%d]' % (self.name, i // 8), F64))
        return self.init[i]


class Func:
    def __init__(self, name, params, ret):
        self.name, self.params, self.ret, self.blocks, self.order = name, params, ret, {}, []


ATTR = r'(?:\b(?:noundef|nocapture|readonly|writeonly|readnone|noalias|nonnull|signext|zeroext|nofree|returned|immarg|local_unnamed_addr|tail|musttail|notail|fastcc|' \
       r'dereferenceable\(\d+\)|align \d+|range\([^)]*\))\s*)'


def parse(text):
    """Functions and constants of a module."""
    funcs, consts, cur = {}, {}, None
    label = None
    for line in text.split('\n'):
        line = re.sub(r', !\w.*$', '', line.split(';')[0].rstrip() if ';' in line else line.rstrip())
        m = re.match(r'define .*?@([\w.$]+)\((.*?)\)[^()]*(?:\([^)]*\)[^()]*)*\{$', line)
        if m:
            params = []
            for p in split(m.group(2)):
                p = re.sub(ATTR, '', p)
                t, n = p.rsplit(' ', 1)
                params.append((t.strip(), n.strip()))
            ret = re.sub(ATTR, '', line[len('define '):line.index('@')])
            ret = [w for w in ret.split() if re.match(r'^(void|i\d+|double|float|ptr)$', w)]
            cur = funcs[m.group(1)] = Func(m.group(1), params, ret[0] if ret else '?')
            label = None
            continue
        if cur is None:
            m = re.match(r'@([\w.$]+) = .*constant (?:\[(\d+) x (double|float|i\d+)\] (\[.*\]|zeroinitializer)|(double|float|i\d+) (\S+?),)', line)
            if m:
                t = m.group(3) or m.group(5)
                v = [m.group(6)] if m.group(5) else ['0'] * int(m.group(2)) if m.group(4) == 'zeroinitializer' else [x.strip().split()[-1] for x in m.group(4)[1:-1].split(',')]
                consts[m.group(1)] = (t, v)
            continue
        if line == '}':
            cur = None
            continue
        m = re.match(r'^([\w.$-]+|"[^"]*"):', line)
        if m:
            label = m.group(1)
            cur.blocks[label] = []
            cur.order.append(label)
            continue
        s = line.strip()
        if s:
            if label is None:
                label = '0'
                cur.blocks[label] = []
                cur.order.append(label)
            cur.blocks[label].append(s)
    # a switch takes several lines
    for f in funcs.values():
        for b, ins in f.blocks.items():
            out = []
            for s in ins:
                if out and out[-1].startswith('switch') and not out[-1].endswith(']'):
                    out[-1] += ' ' + s
                else:
                    out.append(s)
            f.blocks[b] = out
    return funcs, consts


def split(s):
    out, depth, cur = [], 0, ''
    for c in s:
        depth += c in '([{<'
        depth -= c in ')]}>'
        if c == ',' and depth == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += c
    return out + ([cur.strip()] if cur.strip() else [])


def fp(t):
    if t.startswith('0x'):
        return struct.unpack('>d', bytes.fromhex(t[2:].zfill(16)))[0]
    return float(t)


class Executor:
    """Explores all paths of a function; on_end(path) is called at each return, on_fault(kind, path) on each possible bad access."""

    def __init__(self, funcs, consts, max_steps=20000):
        self.funcs, self.consts, self.max_steps = funcs, consts, max_steps
        self.solver = z3.Solver()
        self.solver.set('timeout', 60000)
        self.queries = self.paths = self.decisions = 0
        self.solver_s = 0.0
        self.used = set()
        self.faults = []
        self.cblocks = {}

    def check(self, *cs):
        t = time.time()
        r = self.solver.check(*cs)
        self.solver_s += time.time() - t
        self.queries += 1
        if r == z3.unknown:
            raise Unsupported('solver unknown')
        return r == z3.sat

    def run(self, name, args, on_end, on_fault):
        """Depth-first over decisions; each path is run again from the start."""
        todo = [[]]
        while todo:
            self.prefix, self.taken, self.alts = todo.pop(), [], []
            self.solver.push()
            self.mem = {}
            self.steps = 0
            self.on_fault = on_fault
            try:
                ret = self.call(name, args, 0)
                self.paths += 1
                on_end(self, ret)
            except Dead:
                pass
            finally:
                self.solver.pop()
            todo += self.alts

    def decide(self, c):
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        self.decisions += 1
        k = len(self.taken)
        if k < len(self.prefix):
            v = self.prefix[k]
        else:
            t = self.check(c)
            f = self.check(z3.Not(c))
            if not t and not f:
                raise Dead()
            v = t
            if t and f:
                self.alts.append(self.taken + [False])
        self.taken.append(v)
        self.solver.add(c if v else z3.Not(c))
        return v

    # values ---------------------------------------------------------------------------------------

    def val(self, t, s, env):
        s = s.strip()
        if s.startswith('%'):
            return env[s]
        if t in FLT:
            return z3.FPVal(fp(s), FLT[t])
        m = re.match(r'^i(\d+)$', t)
        if m:
            w = int(m.group(1))
            if s in ('true', 'false'):
                return z3.BitVecVal(int(s == 'true'), w)
            if s in ('undef', 'poison'):
                return z3.FreshConst(z3.BitVecSort(w))
            return z3.BitVecVal(int(s), w)
        if t == 'ptr':
            if s == 'null':
                return None
            if s.startswith('@'):
                n = s[1:]
                if n in self.consts:
                    return Ptr(self.const_block(n), z3.BitVecVal(0, 64))
            m = re.match(r'^getelementptr inbounds \((.*)\)$', s)
            if m:
                return self.gep(m.group(1), env)
        raise Unsupported('operand %s %s' % (t, s))

    def const_block(self, n):
        if n not in self.cblocks:
            t, c = self.consts[n]
            z = SIZE[t]
            self.cblocks[n] = Block('@' + n, z3.BitVecVal(z * len(c), 64), False, {z * i: (t, self.val(t, v, {})) for i, v in enumerate(c)}, z * len(c))
        return self.cblocks[n]

    def element(self, i, b, z):
        """Offset of the element (in bounds); a symbolic one is split into its values."""
        i = z3.simplify(i)
        if not z3.is_bv_value(i):
            for k in range(0, b.most, z):
                if self.decide(i == k):
                    return k
            raise Unsupported('index')
        return i.as_signed_long()

    def get(self, b, i, t):
        u, v = self.mem[b, i] if (b, i) in self.mem else b.first(i)
        if u != t:
            raise Unsupported('read of %s as %s' % (u, t))
        return v

    def tv(self, s, env):
        """'type value' -> value."""
        s = re.sub(ATTR, '', s).strip()
        t, v = s.split(' ', 1)
        return self.val(t, v, env)

    def gep(self, s, env):
        s = re.sub(r'^(?:inbounds |nuw |nusw )+', '', s)
        parts = split(s)
        ty, p = parts[0], self.tv(parts[1], env)
        if p is None:
            raise Unsupported('null pointer')
        idx = [self.tv(x, env) for x in parts[2:]]
        idx = [z3.SignExt(64 - i.size(), i) if i.size() < 64 else i for i in idx]
        off = p.off
        m = re.match(r'^\[(\d+) x (\w+)\]$', ty)
        if m:
            e = SIZE[m.group(2)]
            off = off + idx[0] * (e * int(m.group(1)))
            for i in idx[1:]:
                off = off + i * e
        elif ty in SIZE and len(idx) == 1:
            off = off + idx[0] * SIZE[ty]
        else:
            raise Unsupported('getelementptr ' + s)
        return Ptr(p.block, z3.simplify(off))

    def access(self, p, ty, write):
        if ty not in SIZE:
            raise Unsupported('access of type %s' % ty)
        z = SIZE[ty]
        if p is None:
            self.fault('null', z3.BoolVal(True))
            raise Dead()
        b = p.block
        if write and not b.writable:
            self.fault('write to constant', z3.BoolVal(True))
            raise Dead()
        last = p.off + z
        bad = z3.Or(p.off < 0, last > b.size, z3.URem(p.off, z3.BitVecVal(z, 64)) != 0)
        self.fault('%s outside of %s' % ('write' if write else 'read', b.name), bad)
        return self.element(p.off, b, z)

    def fault(self, kind, bad):
        bad = z3.simplify(bad)
        if z3.is_false(bad):
            return
        if len(self.taken) >= len(self.prefix) and self.check(bad):
            self.on_fault(self, kind, self.solver.model())
        if self.check(z3.Not(bad)):
            self.solver.add(z3.Not(bad))
        else:
            raise Dead()

    # execution ------------------------------------------------------------------------------------

    def call(self, name, args, depth):
        if depth > 20:
            raise Unsupported('recursion')
        f = self.funcs[name]
        self.used.add(name)
        env = {n: v for (_, n), v in zip(f.params, args)}
        blk, prev = f.order[0], None
        while True:
            phis = []
            for s in f.blocks[blk]:
                m = re.match(r'^(%\S+) = phi (\S+) (.*)$', s)
                if not m:
                    break
                for v, l in re.findall(r'\[ (.*?), %(.*?) \]', m.group(3)):
                    if l == prev:
                        phis.append((m.group(1), self.val(m.group(2), v, env)))
            env.update(phis)
            nxt = None
            for s in f.blocks[blk]:
                if ' = phi ' in s:
                    continue
                self.steps += 1
                if self.steps > self.max_steps:
                    raise Unsupported('too many steps')
                if s.startswith('ret'):
                    return None if s == 'ret void' else self.tv(s[4:], env)
                nxt = self.step(s, env, depth)
                if nxt is not None:
                    break
            if nxt is None:
                raise Unsupported('block without end')
            prev, blk = blk, nxt

    def step(self, s, env, depth):
        if s.startswith('br label'):
            return s.split('%')[1]
        m = re.match(r'^br i1 (\S+), label %(\S+), label %(\S+)$', s)
        if m:
            return m.group(2) if self.decide(self.val('i1', m.group(1), env) == 1) else m.group(3)
        m = re.match(r'^switch (i\d+) (\S+), label %(\S+) \[(.*)\]$', s)
        if m:
            v = self.val(m.group(1), m.group(2), env)
            for k, l in re.findall(r'i\d+ (-?\d+), label %(\S+)', m.group(4)):
                if self.decide(v == int(k)):
                    return l
            return m.group(3)
        if s.startswith('unreachable'):
            self.fault('unreachable', z3.BoolVal(True))
            raise Dead()
        m = re.match(r'^store (\S+) (.*?), (ptr .*?)(?:, align \d+)?$', s)
        if m:
            v, p = self.val(m.group(1), m.group(2), env), self.tv(m.group(3), env)
            i = self.access(p, m.group(1), True)
            self.mem[p.block, i] = (m.group(1), v)
            return None
        m = re.match(r'^(?:(%\S+) = )?(?:tail |musttail |notail )?call (.*?)@([\w.$]+)\((.*)\)[^()]*$', s)
        if m:
            n = m.group(3)
            if re.match(r'llvm\.(lifetime|dbg|assume|experimental\.noalias)', n):
                return None
            a = split(m.group(4))
            if n.startswith('llvm.memcpy') or n.startswith('llvm.memmove'):
                p, q, c = [self.tv(x, env) for x in a[:3]]
                c = z3.simplify(c)
                if not (z3.is_bv_value(c) and z3.is_bv_value(z3.simplify(p.off)) and z3.is_bv_value(z3.simplify(q.off))):
                    raise Unsupported('copy of unknown size')
                c, po, qo = [z3.simplify(x).as_signed_long() for x in (c, p.off, q.off)]
                have = {i: v for i, v in list(q.block.init.items()) + [(i, v) for (b, i), v in self.mem.items() if b is q.block]}
                if q.block.free or p.block.free:
                    raise Unsupported('copy of an array')
                self.mem.update({(p.block, i - qo + po): v for i, v in have.items() if qo <= i < qo + c})
                return None
            r = self.intrinsic(n, a, env)
            if r is None:
                if n not in self.funcs:
                    raise Unsupported('call of ' + n)
                r = self.call(n, [self.tv(x, env) for x in a], depth + 1)
            if m.group(1):
                env[m.group(1)] = r
            return None
        m = re.match(r'^(%\S+) = (\w+) (.*)$', s)
        if not m:
            raise Unsupported(s)
        env[m.group(1)] = self.value(m.group(2), m.group(3), env, s)
        return None

    def intrinsic(self, n, a, env):
        b = re.match(r'llvm\.([a-z]+)\.(?:i\d+|f64|f32)$', n)
        if not b:
            return None
        x = [self.tv(y, env) for y in a if not y.startswith('i1 ')]
        k = b.group(1)
        if k in ('smax', 'smin', 'umax', 'umin'):
            c = {'smax': lambda p, q: p > q, 'smin': lambda p, q: p < q, 'umax': z3.UGT, 'umin': z3.ULT}[k](x[0], x[1])
            return z3.If(c, x[0], x[1])
        if k == 'fmuladd':
            return z3.fpAdd(RNE, z3.fpMul(RNE, x[0], x[1]), x[2])
        if k == 'fabs':
            return z3.fpAbs(x[0])
        if k == 'sqrt':
            return z3.fpSqrt(RNE, x[0])
        rounding = {'floor': z3.RTN, 'ceil': z3.RTP, 'trunc': z3.RTZ, 'rint': z3.RNE, 'nearbyint': z3.RNE, 'roundeven': z3.RNE, 'round': z3.RNA}
        if k in rounding:
            return z3.fpRoundToIntegral(rounding[k](), x[0])
        if k in ('minnum', 'maxnum'):
            return (z3.fpMin if k == 'minnum' else z3.fpMax)(x[0], x[1])
        if k == 'copysign':
            return z3.If(z3.fpIsNegative(x[1]), z3.fpNeg(z3.fpAbs(x[0])), z3.fpAbs(x[0]))
        if k == 'abs':
            return z3.If(x[0] < 0, -x[0], x[0])
        return None

    def value(self, op, rest, env, s):
        rest = re.sub(r'^(?:(?:nuw|nsw|nneg|exact|inbounds|disjoint|fast|nnan|ninf|nsz|arcp|contract|reassoc|afn) )+', '', rest)
        ints = {'add': lambda a, b: a + b, 'sub': lambda a, b: a - b, 'mul': lambda a, b: a * b, 'and': lambda a, b: a & b, 'or': lambda a, b: a | b,
                'xor': lambda a, b: a ^ b, 'shl': lambda a, b: a << b, 'lshr': z3.LShR, 'ashr': lambda a, b: a >> b,
                'sdiv': lambda a, b: a / b, 'srem': z3.SRem, 'udiv': z3.UDiv, 'urem': z3.URem}
        flts = {'fadd': z3.fpAdd, 'fsub': z3.fpSub, 'fmul': z3.fpMul, 'fdiv': z3.fpDiv}
        if op in ints or op in flts:
            t, ab = rest.split(' ', 1)
            a, b = [self.val(t, x, env) for x in split(ab)]
            if op in ('sdiv', 'srem', 'udiv', 'urem'):
                self.fault('division by zero', b == 0)
            return z3.simplify(ints[op](a, b)) if op in ints else flts[op](RNE, a, b)
        if op == 'fneg':
            return z3.fpNeg(self.tv(rest, env))
        if op == 'icmp':
            c, t, ab = rest.split(' ', 2)
            a, b = [self.val(t, x, env) for x in split(ab)]
            if t == 'ptr':
                if a is None or b is None:
                    r = z3.BoolVal((a is None and b is None) == (c == 'eq'))
                    return z3.If(r, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))
                if a.block is not b.block:
                    if c not in ('eq', 'ne'):
                        raise Unsupported('order of pointers to different arrays')
                    return z3.BitVecVal(int(c == 'ne'), 1)
                a, b = a.off, b.off
            r = {'eq': lambda: a == b, 'ne': lambda: a != b, 'slt': lambda: a < b, 'sle': lambda: a <= b, 'sgt': lambda: a > b, 'sge': lambda: a >= b,
                 'ult': lambda: z3.ULT(a, b), 'ule': lambda: z3.ULE(a, b), 'ugt': lambda: z3.UGT(a, b), 'uge': lambda: z3.UGE(a, b)}[c]()
            return z3.simplify(z3.If(r, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1)))
        if op == 'fcmp':
            c, t, ab = rest.split(' ', 2)
            a, b = [self.val(t, x, env) for x in split(ab)]
            nan = z3.Or(z3.fpIsNaN(a), z3.fpIsNaN(b))
            if c == 'uno':
                r = nan
            elif c == 'ord':
                r = z3.Not(nan)
            else:
                r = {'eq': z3.fpEQ, 'ne': lambda p, q: z3.Not(z3.fpEQ(p, q)), 'lt': z3.fpLT, 'le': z3.fpLEQ, 'gt': z3.fpGT, 'ge': z3.fpGEQ}[c[1:]](a, b)
                r = z3.Or(r, nan) if c[0] == 'u' else z3.And(r, z3.Not(nan))
            return z3.If(r, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))
        if op == 'getelementptr':
            return self.gep(rest, env)
        if op == 'load':
            m = re.match(r'^(\S+), (ptr .*?)(?:, align \d+)?$', rest)
            p = self.tv(m.group(2), env)
            i = self.access(p, m.group(1), False)
            return self.get(p.block, i, m.group(1))
        if op == 'select':
            c, a, b = split(rest)
            c, a, b = self.tv(c, env), self.tv(a, env), self.tv(b, env)
            if a is None or b is None or isinstance(a, Ptr):
                return a if self.decide(c == 1) else b
            return z3.simplify(z3.If(c == 1, a, b))
        m = re.match(r'^(.*) to (\S+)$', rest)
        if m:
            a, t = self.tv(m.group(1), env), m.group(2)
            if op in ('zext', 'sext', 'trunc'):
                w = int(t[1:])
                return z3.simplify({'zext': lambda: z3.ZeroExt(w - a.size(), a), 'sext': lambda: z3.SignExt(w - a.size(), a), 'trunc': lambda: z3.Extract(w - 1, 0, a)}[op]())
            if op == 'sitofp' and t in FLT:
                return z3.fpSignedToFP(RNE, a, FLT[t])
            if op == 'uitofp' and t in FLT:
                return z3.fpUnsignedToFP(RNE, a, FLT[t])
            if op in ('fptosi', 'fptoui') and t[0] == 'i':
                # a number outside of the integers has no defined result: any integer
                w = int(t[1:])
                lo, hi = (-2.0 ** (w - 1), 2.0 ** (w - 1)) if op == 'fptosi' else (0.0, 2.0 ** w)
                r = z3.fpRoundToIntegral(z3.RTZ(), a)
                ok = z3.And(z3.fpGEQ(r, z3.FPVal(lo, a.sort())), z3.fpLT(r, z3.FPVal(hi, a.sort())))
                return z3.If(ok, (z3.fpToSBV if op == 'fptosi' else z3.fpToUBV)(z3.RTZ(), a, z3.BitVecSort(w)), z3.FreshConst(z3.BitVecSort(w)))
            if op in ('fptrunc', 'fpext') and t in FLT:
                return z3.fpFPToFP(RNE, a, FLT[t])
            if op == 'bitcast' and t in FLT and z3.is_bv(a):
                return z3.fpBVToFP(a, FLT[t])
            if op == 'freeze':
                return a
        if op == 'freeze':
            return self.tv(rest, env)
        if op == 'alloca':
            m = re.match(r'^(?:\[(\d+) x (\w+)\]|(\w+))', rest)
            if m and (m.group(2) or m.group(3)) in SIZE:
                b = Block('local%d' % self.steps, z3.BitVecVal(SIZE[m.group(2) or m.group(3)] * int(m.group(1) or 1), 64))
                return Ptr(b, z3.BitVecVal(0, 64))
        raise Unsupported(s)


class Dead(Exception):
    pass

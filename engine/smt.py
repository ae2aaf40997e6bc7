"""SMT encodings of terms.py terms.

BVEnc(fp=False): machine integers as bit-vectors; floats as bit patterns, comparisons / sign operations exact, float arithmetic
                 and libm as uninterpreted functions.  UNSAT here is valid for the true IEEE semantics (bit-exact equality by
                 congruence); SAT may be spurious.
BVEnc(fp=True):  floats in the SMT FloatingPoint theory, bit-precise (libm still uninterpreted).
Real encoding:   see real.py
"""
import time, z3
from terms import *

STATS = {'queries': 0, 'time': 0.0, 'unsat': 0, 'sat': 0, 'unknown': 0, 'by': {}}
TALLY = []


def note(enc, res, dt):
    STATS['queries'] += 1
    STATS['time'] += dt
    STATS[res] += 1
    d = STATS['by'].setdefault(enc, {'queries': 0, 'time': 0.0, 'unsat': 0, 'sat': 0, 'unknown': 0})
    d['queries'] += 1
    d['time'] += dt
    d[res] += 1


class BVEnc:
    def __init__(self, fp=False):
        self.fp = fp
        self.name = 'fp' if fp else 'uf'
        self.cache = {}
        self.funs = {}
        self.vars = {}

    # sorts
    def sort(self, s):
        if s == BOOL: return z3.BoolSort()
        if isinstance(s, str):
            if self.fp: return z3.Float32() if s == 'f32' else z3.Float64()
            return z3.BitVecSort(fw(s))
        if s[0] == 'bv': return z3.BitVecSort(s[1])
        if s[0] == 'arr': return z3.ArraySort(z3.BitVecSort(64), self.sort(s[1]))
        raise KeyError(s)

    def fun(self, name, *sorts):
        k = (name,) + tuple(str(s) for s in sorts)
        if k not in self.funs: self.funs[k] = z3.Function('%s_%d' % (name, len(self.funs)), *sorts)
        return self.funs[k]

    def enc(self, root):
        c = self.cache
        if root.id in c: return c[root.id]
        for t in subterms([root]):
            if t.id not in c: c[t.id] = self.one(t, [c[a.id] for a in t.args])
        return c[root.id]

    def const(self, v, s):
        if s == BOOL: return z3.BoolVal(bool(v))
        if isinstance(s, str) and self.fp:
            return z3.simplify(z3.fpBVToFP(z3.BitVecVal(v, fw(s)), self.sort(s)))
        return z3.BitVecVal(v, fw(s) if isinstance(s, str) else s[1])

    def one(self, t, a):
        op, s = t.op, t.sort
        if op == 'const': return self.const(t.val, s)
        if op == 'var':
            v = z3.Const(str(t.val), self.sort(s))
            self.vars[t.val] = (v, s)
            return v
        if op == 'avar': return z3.Const('arr_' + str(t.val), self.sort(s))
        if op == 'aconst': return z3.K(z3.BitVecSort(64), a[0])
        if op == 'astore': return z3.Store(a[0], a[1], a[2])
        if op == 'asel': return z3.Select(a[0], a[1])
        if op == 'ite': return z3.If(a[0], a[1], a[2])
        if op == 'icmp':
            x, y = a
            p = t.val
            if t.args[0].sort == BOOL:
                if p == 'eq': return x == y
                if p == 'ne': return x != y
                if p == 'ult': return z3.And(z3.Not(x), y)
                if p == 'slt': return z3.And(x, z3.Not(y))
                raise KeyError(p)
            return {'eq': lambda: x == y, 'ne': lambda: x != y, 'ult': lambda: z3.ULT(x, y), 'ule': lambda: z3.ULE(x, y),
                    'slt': lambda: x < y, 'sle': lambda: x <= y}[p]()
        if op == 'fcmp': return self.fcmp(t, a)
        if s == BOOL:
            if op == 'and': return z3.And(*a)
            if op == 'or': return z3.Or(*a)
            if op == 'xor': return z3.Not(a[0]) if t.args[1] is TRUE else z3.Xor(*a)
            if op == 'extract': return z3.Extract(t.val, t.val, a[0]) == 1
            if op == 'add': return z3.Xor(*a)
            if op == 'zext': return a[0]
            raise KeyError(op)
        if op in ('zext', 'sext'):
            if t.args[0].sort == BOOL:
                return z3.If(a[0], z3.BitVecVal(1 if op == 'zext' else -1, s[1]), z3.BitVecVal(0, s[1]))
            n = s[1] - t.args[0].sort[1]
            return z3.ZeroExt(n, a[0]) if op == 'zext' else z3.SignExt(n, a[0])
        if op == 'extract':
            return z3.Extract(t.val + s[1] - 1, t.val, a[0])
        if op == 'concat':
            xs = [z3.If(x, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1)) if y.sort == BOOL else x for x, y in zip(a, t.args)]
            return z3.Concat(*xs)
        if op == 'bits':
            if not self.fp: return a[0]
            return z3.fpToIEEEBV(a[0])
        if op == 'fbits':
            if not self.fp: return a[0]
            return z3.fpBVToFP(a[0], self.sort(s))
        if isinstance(s, tuple) and s[0] == 'bv' and op not in ('fptoui', 'fptosi', 'ctpop', 'ctlz', 'cttz'):
            x, y = a
            if op == 'add': return x + y
            if op == 'sub': return x - y
            if op == 'mul': return x * y
            if op == 'and': return x & y
            if op == 'or': return x | y
            if op == 'xor': return x ^ y
            if op == 'udiv': return z3.UDiv(x, y)
            if op == 'urem':
                if t.args[1].op == 'const': return z3.URem(x, y)
                d = x - y
                return z3.If(z3.ULT(x, y), x, z3.If(z3.ULT(d, y), d, z3.URem(x, y)))
            if op == 'sdiv': return x / y
            if op == 'srem': return z3.SRem(x, y)
            if op == 'shl': return x << y
            if op == 'lshr': return z3.LShR(x, y)
            if op == 'ashr': return x >> y
            raise KeyError(op)
        if op in ('ctpop', 'ctlz', 'cttz'):
            w = s[1]
            if op == 'ctpop':
                return sum([z3.ZeroExt(w - 1, z3.Extract(i, i, a[0])) for i in range(w)], z3.BitVecVal(0, w))
            r = z3.BitVecVal(w, w)
            for i in (range(w) if op == 'ctlz' else reversed(range(w))):
                r = z3.If(z3.Extract(i, i, a[0]) == 1, z3.BitVecVal(w - 1 - i if op == 'ctlz' else i, w), r)
            return r
        # float ops
        if not self.fp:
            w = fw(s) if isinstance(s, str) else s[1]
            if op == 'fabs': return a[0] & z3.BitVecVal((1 << (w - 1)) - 1, w)
            if op == 'fneg': return a[0] ^ z3.BitVecVal(1 << (w - 1), w)
            f = self.fun(op, *[x.sort() for x in a], z3.BitVecSort(w))
            return f(*a)
        rm = z3.RNE()
        S = self.sort(s)
        if op == 'fadd': return z3.fpAdd(rm, *a)
        if op == 'fsub': return z3.fpSub(rm, *a)
        if op == 'fmul': return z3.fpMul(rm, *a)
        if op == 'fdiv': return z3.fpDiv(rm, *a)
        if op == 'fsqrt': return z3.fpSqrt(rm, a[0])
        if op == 'fabs': return z3.fpAbs(a[0])
        if op == 'fneg': return z3.fpNeg(a[0])
        if op == 'fma': return z3.fpFMA(rm, *a)
        if op == 'ffloor': return z3.fpRoundToIntegral(z3.RTN(), a[0])
        if op == 'fceil': return z3.fpRoundToIntegral(z3.RTP(), a[0])
        if op == 'ftrunc': return z3.fpRoundToIntegral(z3.RTZ(), a[0])
        if op == 'fround': return z3.fpRoundToIntegral(z3.RNA(), a[0])
        if op == 'frint': return z3.fpRoundToIntegral(rm, a[0])
        if op == 'fminnum': return z3.If(z3.fpIsNaN(a[0]), a[1], z3.If(z3.fpIsNaN(a[1]), a[0], z3.If(z3.fpLT(a[1], a[0]), a[1], a[0])))
        if op == 'fmaxnum': return z3.If(z3.fpIsNaN(a[0]), a[1], z3.If(z3.fpIsNaN(a[1]), a[0], z3.If(z3.fpLT(a[0], a[1]), a[1], a[0])))
        if op == 'copysign': return z3.If(z3.fpIsNegative(a[1]), z3.fpNeg(z3.fpAbs(a[0])), z3.fpAbs(a[0]))
        if op in ('fptrunc', 'fpext'): return z3.fpFPToFP(rm, a[0], S)
        if op == 'uitofp': return z3.fpUnsignedToFP(rm, a[0], S)
        if op == 'sitofp': return z3.fpSignedToFP(rm, a[0], S)
        if op in ('fptoui', 'fptosi'):
            w = s[1]
            fs = t.args[0].sort
            x = a[0]
            if op == 'fptoui':
                lim = self.const(f2bits(float(2 ** w), fs), fs)
                z = self.const(0, fs)
                return z3.If(z3.Or(z3.fpIsNaN(x), z3.fpLEQ(x, z)), z3.BitVecVal(0, w),
                             z3.If(z3.fpGEQ(x, lim), z3.BitVecVal(-1, w), z3.fpToUBV(z3.RTZ(), x, z3.BitVecSort(w))))
            hi = self.const(f2bits(float(2 ** (w - 1)), fs), fs)
            lo = self.const(f2bits(-float(2 ** (w - 1)), fs), fs)
            return z3.If(z3.fpIsNaN(x), z3.BitVecVal(0, w), z3.If(z3.fpGEQ(x, hi), z3.BitVecVal((1 << (w - 1)) - 1, w),
                         z3.If(z3.fpLEQ(x, lo), z3.BitVecVal(1 << (w - 1), w), z3.fpToSBV(z3.RTZ(), x, z3.BitVecSort(w)))))
        f = self.fun(op, *[x.sort() for x in a], S)
        return f(*a)

    def fcmp(self, t, a):
        x, y = a
        p = t.val
        if self.fp:
            if p == 'ord': return z3.And(z3.Not(z3.fpIsNaN(x)), z3.Not(z3.fpIsNaN(y)))
            if p == 'oeq': return z3.fpEQ(x, y)
            if p == 'olt': return z3.fpLT(x, y)
            if p == 'ole': return z3.fpLEQ(x, y)
            if p == 'one': return z3.Or(z3.fpLT(x, y), z3.fpLT(y, x))
            raise KeyError(p)
        w = fw(t.args[0].sort)
        mb = 23 if w == 32 else 52
        M = z3.BitVecVal((1 << (w - 1)) - 1, w)
        inf = z3.BitVecVal(((1 << (w - 1 - mb)) - 1) << mb, w)

        def isc(u): return u.op == 'const' and not np.isnan(tofloat(u))
        nn = [z3.ULE(v & M, inf) for v, u in zip(a, t.args) if not isc(u)]
        if t.args[0] is t.args[1]: nn = nn[:1]
        if p == 'ord': return z3.And(*nn) if nn else z3.BoolVal(True)
        z = z3.And((x & M) == 0, (y & M) == 0)
        lt = z3.And(z3.Not(z), z3.If(x < 0, z3.If(y < 0, z3.ULT(y, x), True), z3.If(y < 0, False, z3.ULT(x, y))))
        eq = z3.Or(x == y, z)
        if p == 'oeq': return z3.And(eq, *nn)
        if p == 'olt': return z3.And(lt, *nn)
        if p == 'ole': return z3.And(z3.Or(lt, eq), *nn)
        if p == 'one': return z3.And(z3.Not(eq), *nn)
        raise KeyError(p)

    # solving
    def check(self, terms, timeout_ms, want_model=False, extra=(), seed=0):
        s = z3.Solver() if not self.fp else z3.SolverFor('QF_FP') if not any_uf(terms) else z3.Solver()
        s.set('timeout', int(timeout_ms))
        if seed: s.set('random_seed', seed)
        for t in terms: s.add(self.enc(t))
        for e in extra: s.add(e)
        if not self.fp:
            # addition and multiplication commute, also where an operand is known only up to a case distinction
            for t in subterms(terms):
                if t.op in ('fadd', 'fmul') and any(a.op in ('ite', 'asel') for a in t.args):
                    x, y = (self.enc(a) for a in t.args)
                    f = self.fun(t.op, x.sort(), y.sort(), z3.BitVecSort(fw(t.sort)))
                    s.add(f(x, y) == f(y, x))
                self.facts(s, t)
        t0 = time.time()
        r = str(s.check())
        note(self.name, r, time.time() - t0)
        if r == 'sat' and want_model:
            return r, self.model(s.model(), terms)
        return (r, None) if want_model else r

    def facts(self, s, t):
        """signs and special values the uninterpreted operations still have"""
        if not isinstance(t.sort, str): return
        w = fw(t.sort)
        mb = 23 if w == 32 else 52
        M = z3.BitVecVal((1 << (w - 1)) - 1, w)
        inf = z3.BitVecVal(((1 << (w - 1 - mb)) - 1) << mb, w)
        nan = lambda x: z3.UGT(x & M, inf)
        if t.op == 'exp':
            x, r = self.enc(t.args[0]), self.enc(t)
            s.add(z3.Implies(z3.Not(nan(x)), z3.ULE(r, inf)))
            s.add(z3.Implies(z3.And(z3.Not(nan(x)), x < 0), z3.ULE(r, z3.BitVecVal(f2bits(1.0, t.sort), w))))
        elif t.op == 'fdiv' and t.args[0].op == 'const':
            c = tofloat(t.args[0])
            if not (np.isfinite(c) and c != 0): return
            x, r = self.enc(t.args[1]), self.enc(t)
            s.add(z3.Implies(z3.Not(nan(x)), z3.And(z3.Not(nan(r)), (r < 0) == ((x < 0) != bool(np.signbit(c))))))
        elif t.op == 'fmul' and t.args[1].op == 'const' and tofloat(t.args[1]) == 0:
            x, r = self.enc(t.args[0]), self.enc(t)
            c = bool(np.signbit(tofloat(t.args[1])))
            s.add(z3.Implies(z3.ULT(x & M, inf), r == z3.If((x < 0) != c, z3.BitVecVal(1 << (w - 1), w), z3.BitVecVal(0, w))))

    def same(self, t):
        if getattr(self, '_ss', None) is None: self._ss = z3.Solver()
        x = self.enc(t)
        t0 = time.time()
        self._ss.push()
        self._ss.add(x != x)
        r = str(self._ss.check())
        self._ss.pop()
        note(self.name, r, time.time() - t0)
        return r

    def model(self, m, terms):
        env = {}
        for t in subterms(terms):
            if t.op == 'var':
                v = self.enc(t)
                x = m.eval(v, model_completion=True)
                if t.sort == BOOL: env[t.val] = int(z3.is_true(x))
                elif isinstance(t.sort, str) and self.fp:
                    b = z3.simplify(z3.fpToIEEEBV(x))
                    env[t.val] = b.as_long() if z3.is_bv_value(b) else (0x7fc00000 if t.sort == 'f32' else 0x7ff8 << 48)
                else: env[t.val] = x.as_long()
        return env


def any_uf(terms):
    return any(t.op in LIBM1 or t.op in LIBM2 or t.op in ('asel', 'frem', 'fma') for t in subterms(terms))

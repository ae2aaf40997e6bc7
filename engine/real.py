"""Real-arithmetic encoding: float terms become rational functions over the input variables and over atoms for transcendental
values, normalised exactly (Fraction coefficients); rounding is ignored, comparisons, zero-divisors and domains are kept.

A query is decided by z3 (nlsat / default) over polynomial constraints.  Machine integers are relaxed to reals after the bit-vector
encoding has shown (under the path condition) that the operation does not wrap.
"""
import math, time, z3
from fractions import Fraction as Fr
from terms import *
import smt


class Unsup(Exception):
    pass


# ------------------------------------------------------------------ polynomials: {monomial: Fraction}, monomial = ((var,exp),...)
PI50 = Fr('3.14159265358979323846264338327950288419716939937510')


class Poly:
    __slots__ = ('d',)

    def __init__(self, d): self.d = d

    @staticmethod
    def const(c): return Poly({(): Fr(c)} if c else {})

    @staticmethod
    def var(v): return Poly({((v, 1),): Fr(1)})

    def isconst(self): return not self.d or (len(self.d) == 1 and () in self.d)

    def cval(self): return self.d.get((), Fr(0))

    def __add__(self, o):
        d = dict(self.d)
        for m, c in o.d.items():
            x = d.get(m, 0) + c
            if x: d[m] = x
            else: d.pop(m, None)
        return Poly(d)

    def scale(self, k):
        return Poly({m: c * k for m, c in self.d.items()}) if k else Poly({})

    def __neg__(self): return self.scale(-1)

    def __sub__(self, o): return self + (-o)

    def mul(self, o, red):
        if len(self.d) * len(o.d) > 200000: raise Unsup('polynomial too large')
        d = {}
        for m1, c1 in self.d.items():
            for m2, c2 in o.d.items():
                m = mmul(m1, m2)
                x = d.get(m, 0) + c1 * c2
                d[m] = x
        p = Poly({m: c for m, c in d.items() if c})
        return reduce(p, red) if red else p

    def vars(self):
        return {v for m in self.d for v, _ in m}

    def key(self): return tuple(sorted(self.d.items()))


def mmul(a, b):
    if not a: return b
    if not b: return a
    d = dict(a)
    for v, e in b: d[v] = d.get(v, 0) + e
    return tuple(sorted(d.items()))


def reduce(p, red):
    """rewrite v^2 -> red[v] until no reducible monomial remains"""
    while True:
        hit = None
        for m in p.d:
            for v, e in m:
                if e >= 2 and v in red:
                    hit = (m, v, e)
                    break
            if hit: break
        if not hit: return p
        v = hit[1]
        out = Poly({})
        for m, c in p.d.items():
            dm = dict(m)
            e = dm.get(v, 0)
            if e >= 2:
                if e % 2: dm[v] = 1
                else: del dm[v]
                q = Poly({tuple(sorted(dm.items())): c})
                for _ in range(e // 2): q = q.mul(red[v], None)
                out = out + q
            else:
                out = out + Poly({m: c})
        p = out


class Rat:
    __slots__ = ('n', 'd')

    def __init__(self, n, d):
        self.n, self.d = n, d


class Real:
    rounding = False                  # True: every inexact operation carries its rounding error as a bounded unknown

    def rd(self, x, t):
        if not self.rounding or (x.n.isconst() and x.d.isconst()): return x
        if t.op in ('fadd', 'fsub') and any(a.op == 'const' and a.val << 1 & ((1 << 64) - 1 if t.sort == 'f64' else (1 << 32) - 1) == 0 for a in t.args): return x
        u, tiny = (Fr(1, 1 << 24), Fr(1, 1 << 149)) if t.sort == 'f32' else (Fr(1, 1 << 53), Fr(1, 1 << 1074))
        r = self.add(x, self.V(self.noise(Fr(0) if t.op in ('fadd', 'fsub') else tiny, u, x)))
        # rounding is monotone: it does not cross a representable number
        for c in self.marks(t.sort):
            a, b = self.sub(x, self.C(c)), self.sub(r, self.C(c))
            self.side += [z3.Implies(self.sgn(a, '<='), self.sgn(b, '<=')), z3.Implies(self.sgn(a, '>='), self.sgn(b, '>='))]
        return r

    def near(self, x, lim):
        """an integer too large for the format: some number within its rounding"""
        a = self.A(x)
        key = ('near', x.id, lim)
        v, new = self.memo(key, 'near')
        if new:
            k = self.div(a, self.C(1 << lim))
            d = self.sub(self.V(v), a)
            self.side += [self.sgn(self.sub(d, k), '<='), self.sgn(self.add(d, k), '>='),
                          z3.Implies(self.sgn(self.sub(a, self.C(1 << lim)), '<='), self.sgn(d, '=='))]
        return self.V(v)

    def marks(self, sort):
        m = getattr(self, '_marks', None)
        if m is None:
            ps = sorted((p for p in self.points if Fr(1, 1 << 20) < p < (1 << 20) and Fr(float(np.float32(float(p)))) == p))[:8]
            m = self._marks = sorted({Fr(1), Fr(-1)} | set(ps) | {-p for p in ps})
        return m

    def __init__(self, oracle, tol_note=None):
        self.oracle = oracle          # oracle(term) -> True if the boolean term holds under the path condition (bit-vector proof)
        self.cache = {}
        self.red = {}
        self.zv = {}
        self.side = []                # z3 facts about atoms (always asserted)
        self.divs = []                # divisor numerators (Poly) for side queries
        self.atoms = {}               # atom name -> ('trigc'|'trigs'|'exp'|'log'|'sqrt'|..., data)
        self.groups = []              # trig groups
        self.exps = []
        self.logs = []
        self.natom = 0
        self.intvars = set()
        self.points = set()           # constants of the query: ln and exp are pinned there

    # ---------------------------------------------------------- rational functions
    def C(self, c): return Rat(Poly.const(Fr(c)), Poly.const(1))

    def V(self, name): return Rat(Poly.var(name), Poly.const(1))

    def norm(self, n, d):
        if not n.d: return Rat(n, Poly.const(1))
        if d.isconst(): return Rat(n.scale(1 / d.cval()), Poly.const(1))
        # cancel common monomial factor and content
        ms = list(n.d) + list(d.d)
        common = dict(ms[0])
        for m in ms[1:]:
            dm = dict(m)
            common = {v: min(e, dm[v]) for v, e in common.items() if v in dm}
            if not common: break
        if common:
            def strip(p): return Poly({tuple((v, e - common.get(v, 0)) for v, e in m if e - common.get(v, 0)): c for m, c in p.d.items()})
            n, d = strip(n), strip(d)
        lead = d.d[max(d.d)]
        if lead != 1: n, d = n.scale(1 / lead), d.scale(1 / lead)
        if d.isconst(): return Rat(n.scale(1 / d.cval()), Poly.const(1))
        # n multiple of d?
        if len(n.d) == len(d.d):
            k = n.d.get(max(d.d))
            if k is not None and n.key() == d.scale(k).key(): return self.C(k)
        return Rat(n, d)

    def mulp(self, a, b): return a.mul(b, self.red)

    def add(self, a, b):
        if a.d.key() == b.d.key(): return self.norm(a.n + b.n, a.d)
        if a.d.isconst(): return self.norm(self.mulp(a.n, b.d).scale(1 / a.d.cval()) + b.n, b.d)
        if b.d.isconst(): return self.norm(a.n + self.mulp(b.n, a.d).scale(1 / b.d.cval()), a.d)
        q = self.divp(a.d, b.d)
        if q is not None: return self.norm(a.n + self.mulp(b.n, q), a.d)
        q = self.divp(b.d, a.d)
        if q is not None: return self.norm(self.mulp(a.n, q) + b.n, b.d)
        return self.norm(self.mulp(a.n, b.d) + self.mulp(b.n, a.d), self.mulp(a.d, b.d))

    def divp(self, a, b):
        """exact polynomial division a/b (no reduction relations), or None"""
        if self.red and (a.vars() | b.vars()) & set(self.red): return None
        if len(a.d) > 60: return None
        lead = max(b.d)
        q = Poly({})
        r = a
        for _ in range(80):
            if not r.d: return q
            lm = max(r.d)
            dm = dict(lm)
            for v, e in lead:
                if dm.get(v, 0) < e: return None
                dm[v] -= e
            m = tuple(sorted((v, e) for v, e in dm.items() if e))
            t = Poly({m: r.d[lm] / b.d[lead]})
            q = q + t
            r = r - t.mul(b, None)
        return None

    def neg(self, a): return Rat(-a.n, a.d)

    def sub(self, a, b): return self.add(a, self.neg(b))

    def mul(self, a, b):
        if a.n.key() == b.d.key(): return self.norm(b.n, a.d)
        if b.n.key() == a.d.key(): return self.norm(a.n, b.d)
        return self.norm(self.mulp(a.n, b.n), self.mulp(a.d, b.d))

    def div(self, a, b):
        if not b.n.d: raise ZeroDivisionError
        if not b.n.isconst(): self.divs.append(b.n)
        return self.mul(a, Rat(b.d, b.n)) if not b.n.isconst() else self.norm(self.mulp(a.n, b.d).scale(1 / b.n.cval()), a.d)

    # ---------------------------------------------------------- z3
    def z(self, name):
        if name not in self.zv: self.zv[name] = z3.Real(name)
        return self.zv[name]

    def zp(self, p):
        ts = []
        for m, c in p.d.items():
            t = [z3.RealVal(c)] if c != 1 or not m else []
            for v, e in m:
                x = self.z(v)
                t += [x] * e
            ts.append(z3.Product(*t) if len(t) > 1 else t[0])
        if not ts: return z3.RealVal(0)
        return z3.Sum(*ts) if len(ts) > 1 else ts[0]

    def sgn(self, a, op):
        """z3 formula for  a op 0"""
        n = self.zp(a.n)
        if a.d.isconst():
            k = a.d.cval()
            e = n if k > 0 else -n
        elif op in ('==', '!='):
            e = n
        else:
            e = self.zp(self.mulp(a.n, a.d)) if len(a.n.d) * len(a.d.d) < 400 else n * self.zp(a.d)
        return {'<': lambda: e < 0, '<=': lambda: e <= 0, '==': lambda: e == 0, '!=': lambda: e != 0, '>': lambda: e > 0, '>=': lambda: e >= 0}[op]()

    def fresh(self, kind):
        self.natom += 1
        return '%s#%d' % (kind, self.natom)

    # ---------------------------------------------------------- terms
    def prepare(self, terms):
        """create the trig groups for all trig terms up front (so that multiples share one base angle)"""
        allt = subterms(terms)
        for t in allt:
            if t.op == 'const' and isinstance(t.sort, str):
                x = float(tofloat(t))
                if 1e-300 < x < 1.7e308: self.points.add(Fr(x))
        trig = [t for t in allt if t.op in ('sin', 'cos', 'tan')]
        args = []
        for t in trig:
            a = t.args[0]
            if a.id not in [x.id for x in args]: args.append(a)
        if not args: return
        for a in args:
            if any(u.op in ('sin', 'cos', 'tan') for u in subterms([a])): raise Unsup('nested trig')
        self.trigmap = {}
        gs = []   # [rat0, [(term, ratio, shift m, shift error, relative error of the ratio)]]
        for a in args:
            r = self.rat(a)
            if r.n.isconst() and r.d.isconst():
                self.trigmap[a.id] = ('const', float(r.n.cval()))
                continue
            for g in gs:
                k = self.ratio(r, g[0])
                if k is not None:
                    g[1].append((a, k[0], 0, Fr(0), k[1]))
                    break
            else:
                for g in gs:
                    hit = self.shifted(r, g[0])
                    if hit:
                        g[1].append((a,) + hit)
                        break
                else:
                    gs.append([r, [(a, Fr(1), 0, Fr(0), Fr(0))]])
        for r0, members in gs:
            q = 1
            for _, k, _, _, _ in members: q = q * k.denominator // math.gcd(q, k.denominator)
            base = self.mul(r0, self.C(Fr(1, q)))
            c, s = self.fresh('cos'), self.fresh('sin')
            self.red[s] = Poly.const(1) - Poly.var(c).mul(Poly.var(c), None)
            zc, zs = self.z(c), self.z(s)
            self.side += [zc >= -1, zc <= 1, zs >= -1, zs <= 1, zc * zc + zs * zs == 1]
            self.groups.append((base, c, s))
            self.atoms[c] = ('cos', base, s)
            self.atoms[s] = ('sin', base, c)
            # sign facts on the first two half-turns
            PI = Fr(math.pi)
            lo, hi = self.sgn(base, '>'), self.sgn(self.sub(base, self.C(PI - Fr(1, 10 ** 12))), '<')
            self.side.append(z3.Implies(z3.And(lo, hi), zs > 0))
            self.side.append(z3.Implies(self.sgn(base, '=='), z3.And(zc == 1, zs == 0)))
            h = self.sgn(self.sub(base, self.C(PI / 2)), '<')
            self.side.append(z3.Implies(z3.And(lo, h), zc > 0))
            self.side.append(z3.Implies(z3.And(z3.Not(h), hi), zc < Fr(1, 10 ** 12)))
            self.side.append(z3.Implies(lo, z3.And(self.sgn(self.sub(base, self.V(s)), '>='))))
            # chords on (0, pi): |sin| >= 2/pi * distance to the nearest multiple of pi
            self.side.append(z3.Implies(z3.And(lo, h), self.sgn(self.sub(self.V(s), self.mul(base, self.C(Fr(6366, 10000)))), '>=')))
            self.side.append(z3.Implies(z3.And(z3.Not(h), hi),
                                        self.sgn(self.sub(self.V(s), self.mul(self.sub(self.C(PI), base), self.C(Fr(6366, 10000)))), '>=')))
            for a, k, m, err, rel in members:
                self.trigmap[a.id] = ('g', c, s, int(k * q), m, err, rel, self.rat(a))

    trigmap = {}

    def ratio(self, a, b):
        """a = k*b for a rational constant k with small numerator/denominator, up to rounding of the constants involved: (k, relative error)"""
        x, y = self.mulp(a.n, b.d), self.mulp(b.n, a.d)
        if set(x.d) != set(y.d) or not x.d: return None
        m = max(x.d, key=lambda mm: abs(x.d[mm]))
        k = x.d[m] / y.d[m]
        kk = k.limit_denominator(24)
        if kk == 0 or abs(kk) > 24: return None
        rel = Fr(0)
        for mm in x.d:
            e = abs(x.d[mm] / y.d[mm] / kk - 1)
            if e > rel: rel = e
        # a common relative error of every coefficient is a relative error of the value; differing ones are not
        if rel and any(x.d[mm] != k * y.d[mm] for mm in x.d): return None
        if rel > Fr(1, 10 ** 6): return None
        return kk, rel

    def shifted(self, a, b):
        best = None
        for pi in (Fr(math.pi), Fr(float(np.float32(math.pi)))):
            for m in range(-16, 17):
                if m == 0: continue
                c = pi * m / 2
                cs = {c, Fr(float(np.float32(float(c)))), Fr(float(c))}
                for c in cs:
                    k = self.ratio(self.sub(a, self.C(c)), b)
                    if k is None: continue
                    err = abs(c - m * PI50 / 2)
                    if best is None or (err, k[1]) < (best[2], best[3]): best = (k[0], m, err, k[1])
        return best

    def cheb(self, c, s, k):
        """(cos(k b), sin(k b)) as polynomials"""
        C, S = Poly.var(c), Poly.var(s)
        n = abs(k)
        cc, ss = Poly.const(1), Poly.const(0)
        for _ in range(n):
            cc, ss = self.mulp(cc, C) - self.mulp(ss, S), self.mulp(ss, C) + self.mulp(cc, S)
        if k < 0: ss = -ss
        return cc, ss

    def trig(self, t):
        g = self.trigmap.get(t.args[0].id)
        if g is None: raise Unsup('trig')
        if g[0] == 'const':
            return self.C(Fr({'cos': math.cos, 'sin': math.sin, 'tan': math.tan}[t.op](g[1])))
        _, c, s, k, m, err, rel, arg = g
        cc, ss = self.cheb(c, s, k)
        for _ in range(m % 4): cc, ss = -ss, cc       # +pi/2
        if t.op == 'tan': return self.div(Rat(ss, Poly.const(1)), Rat(cc, Poly.const(1)))
        r = Rat(cc if t.op == 'cos' else ss, Poly.const(1))
        if err or rel: r = self.add(r, self.V(self.noise(err, rel, arg)))
        return r

    def noise(self, err, rel, arg):
        """an error term of size at most err + rel*|arg|"""
        e = self.fresh('err')
        E = self.V(e)
        self.atoms[e] = ('err', None)
        for sg in (1, -1):
            b = self.add(self.C(err), self.mul(arg, self.C(rel * sg)))
            inside = z3.And(self.sgn(self.sub(E, b), '<='), self.sgn(self.add(E, b), '>='))
            self.side.append(z3.Implies(self.sgn(arg, '>=' if sg == 1 else '<='), inside) if rel else inside)
        return e

    def rat(self, t):
        r = self.cache.get(t.id)
        if r is None:
            for u in subterms([t]):
                if u.id not in self.cache and not (u.sort == BOOL) and not (isinstance(u.sort, tuple) and u.sort[0] == 'arr'):
                    try: self.cache[u.id] = self.rat1(u)
                    except (Unsup, ZeroDivisionError) as e:
                        self.cache[u.id] = e
            r = self.cache[t.id]
        if isinstance(r, Exception): raise Unsup(str(r))
        return r

    def A(self, t):
        r = self.cache.get(t.id)
        if r is None: r = self.rat(t)
        if isinstance(r, Exception): raise r
        return r

    def rat1(self, t):
        op = t.op
        if isinstance(t.sort, tuple): return self.int1(t)
        if op == 'const':
            x = float(tofloat(t))
            if not math.isfinite(x): raise Unsup('non-finite constant')
            return self.C(Fr(x))
        if op == 'var': return self.V(t.val)
        if op == 'fadd': return self.rd(self.add(self.A(t.args[0]), self.A(t.args[1])), t)
        if op == 'fsub': return self.rd(self.sub(self.A(t.args[0]), self.A(t.args[1])), t)
        if op == 'fmul': return self.rd(self.mul(self.A(t.args[0]), self.A(t.args[1])), t)
        if op == 'fdiv': return self.rd(self.div(self.A(t.args[0]), self.A(t.args[1])), t)
        if self.rounding and op not in ('fneg', 'fabs', 'uitofp', 'sitofp', 'ffloor', 'ftrunc', 'fpext', 'fptrunc'): raise Unsup('rounding of ' + op)
        if op == 'fma': return self.add(self.mul(self.A(t.args[0]), self.A(t.args[1])), self.A(t.args[2]))
        if op == 'fneg': return self.neg(self.A(t.args[0]))
        if op == 'fpext': return self.A(t.args[0])
        if op == 'fptrunc': return self.rd(self.A(t.args[0]), t)
        if op == 'fabs':
            a = self.A(t.args[0])
            if a.n.isconst() and a.d.isconst(): return self.C(abs(a.n.cval() / a.d.cval()))
            key = ('abs', a.n.key(), a.d.key())
            v = self.memo(key, 'abs')
            if v[1]:
                x = self.z(v[0])
                self.side += [x >= 0, self.sgn(self.sub(self.V(v[0]), a), '>='), self.sgn(self.add(self.V(v[0]), a), '>='),
                              z3.Or(self.sgn(self.sub(self.V(v[0]), a), '=='), self.sgn(self.add(self.V(v[0]), a), '=='))]
                self.atoms[v[0]] = ('abs', a)
            return self.V(v[0])
        if op == 'fsqrt':
            a = self.A(t.args[0])
            if a.n.isconst() and a.d.isconst():
                return self.C(Fr(math.sqrt(a.n.cval() / a.d.cval())))
            v = self.memo(('sqrt', a.n.key(), a.d.key()), 'sqrt')
            if v[1]:
                self.side += [self.z(v[0]) >= 0, self.z(v[0]) * self.z(v[0]) * self.zp(a.d) == self.zp(a.n)]
                if a.d.isconst(): self.red[v[0]] = a.n.scale(1 / a.d.cval())
                self.atoms[v[0]] = ('sqrt', a)
                self.domains.append(self.sgn(a, '<'))
            return self.V(v[0])
        if op in ('sin', 'cos', 'tan'): return self.trig(t)
        if op == 'exp': return self.expo(self.A(t.args[0]), t)
        if op == 'exp2': return self.expo(self.mul(self.A(t.args[0]), self.C(Fr(math.log(2)))), t)
        if op == 'pow':
            b, e = t.args
            if b.op == 'const' and float(tofloat(b)) > 0:
                return self.expo(self.mul(self.A(e), self.C(Fr(math.log(float(tofloat(b)))))), t)
            if e.op == 'const' and float(tofloat(e)) == int(tofloat(e)) and abs(int(tofloat(e))) <= 8:
                k = int(tofloat(e))
                r = self.C(1)
                for _ in range(abs(k)): r = self.mul(r, self.A(b))
                return r if k >= 0 else self.div(self.C(1), r)
            if e.op == 'const' and float(tofloat(e)) == 0.5:
                return self.rat(app('fsqrt', (b,), b.sort))
            raise Unsup('pow')
        if op in ('log', 'log10', 'log2'):
            k = {'log': 1, 'log10': Fr(1) / Fr(math.log(10)), 'log2': Fr(1) / Fr(math.log(2))}[op]
            return self.mul(self.ln(self.A(t.args[0])), self.C(k))
        if op in ('uitofp', 'sitofp'):
            x = t.args[0]
            lim = 24 if t.sort == 'f32' else 53
            if x.sort[1] > lim and not self.oracle(icmp('ule', x, bv(1 << lim, x.sort[1]))): return self.near(x, lim)
            return self.A(x)
        if op in ('ffloor', 'ftrunc'):
            a = self.A(t.args[0])
            v = self.fresh('floor')
            self.side += [self.sgn(self.sub(self.V(v), a), '<='), self.sgn(self.sub(self.add(self.V(v), self.C(1)), a), '>')]
            if op == 'ftrunc': self.domains.append(self.sgn(a, '<'))
            self.atoms[v] = ('floor', a)
            return self.V(v)
        raise Unsup('real op ' + op)

    domains = None

    def memo(self, key, kind):
        d = self.__dict__.setdefault('_memo', {})
        if key in d: return d[key], False
        d[key] = self.fresh(kind)
        return d[key], True

    def expo(self, u, t):
        """exp(u)"""
        if u.n.isconst() and u.d.isconst(): return self.C(Fr(math.exp(u.n.cval() / u.d.cval())))
        # exp(k*ln x) = x^k, exp(k*u) = exp(u)^k
        for (v, r0) in [(self.V(nm), x) for x, nm in self.logs] + [(v, self.V(nm)) for v, nm in self.exps]:
            kr = self.ratio(u, v)
            if kr is None: continue
            k, rel = kr
            if k.denominator != 1 or abs(k) > 4: continue
            r = self.C(1)
            for _ in range(abs(int(k))): r = self.mul(r, r0)
            if k < 0: r = self.div(self.C(1), r)
            if rel:
                # exp(u*(1+rel)) = exp(u)*exp(rel*u), |exp(z)-1| <= 2|z| for |z| <= 1
                e = self.noise(Fr(0), 2 * rel, u)
                z = self.mul(u, self.C(rel))
                self.domains.append(z3.Or(self.sgn(self.sub(z, self.C(1)), '>'), self.sgn(self.add(z, self.C(1)), '<')))
                r = self.mul(r, self.add(self.C(1), self.V(e)))
            return r
        name = self.fresh('exp')
        E = self.z(name)
        self.side += [E > 0, z3.Implies(self.sgn(u, '<'), E < 1), z3.Implies(self.sgn(u, '>'), E > 1),
                      z3.Implies(self.sgn(u, '=='), E == 1), self.sgn(self.sub(self.V(name), self.add(u, self.C(1))), '>=')]
        for P in self.points:
            l, eps = Fr(math.log(P)), Fr(1, 10 ** 13)
            self.side.append(z3.Implies(self.sgn(self.sub(u, self.C(l + eps)), '>='), E > z3.RealVal(P)))
            self.side.append(z3.Implies(self.sgn(self.sub(u, self.C(l - eps)), '<='), E < z3.RealVal(P)))
        for (v, nm) in self.exps:
            self.side += [z3.Implies(self.sgn(self.sub(u, v), '<'), E < self.z(nm)), z3.Implies(self.sgn(self.sub(u, v), '>'), E > self.z(nm)),
                          z3.Implies(self.sgn(self.sub(u, v), '=='), E == self.z(nm))]
        self.exps.append((u, name))
        self.atoms[name] = ('exp', u)
        return self.V(name)

    def ln(self, x):
        if x.n.isconst() and x.d.isconst(): return self.C(Fr(math.log(x.n.cval() / x.d.cval())))
        # ln(exp(u)) = u
        if x.d.isconst() and len(x.n.d) == 1:
            (m, c), = x.n.d.items()
            if len(m) == 1 and m[0][1] == 1:
                for (u, nm) in self.exps:
                    if nm == m[0][0]:
                        k = c / x.d.cval()
                        return u if k == 1 else self.add(u, self.C(Fr(math.log(k))))
        for (y, nm) in self.logs:
            if y.n.key() == x.n.key() and y.d.key() == x.d.key(): return self.V(nm)
        name = self.fresh('ln')
        L = self.z(name)
        one = self.C(1)
        self.domains.append(self.sgn(x, '<='))
        self.side += [z3.Implies(self.sgn(self.sub(x, one), '<'), L < 0), z3.Implies(self.sgn(self.sub(x, one), '>'), L > 0),
                      z3.Implies(self.sgn(self.sub(x, one), '=='), L == 0),
                      z3.Implies(self.sgn(x, '>'), self.sgn(self.sub(self.V(name), self.sub(x, one)), '<='))]
        # a few points so that bounds of ln over decades are known
        for P in sorted({Fr(p) for p in (1e-30, 1e-20, 1e-10, 1e-6, 1e-3, 1e-1, 10, 1e3, 1e6, 1e12, 1e20, 1e30, 1e38)} | self.points):
            l = Fr(math.log(P))
            eps = Fr(1, 10 ** 13)
            self.side.append(z3.Implies(self.sgn(self.sub(x, self.C(P)), '>='), L >= z3.RealVal(l - eps)))
            self.side.append(z3.Implies(self.sgn(self.sub(x, self.C(P)), '<='), L <= z3.RealVal(l + eps)))
        for (y, nm) in self.logs:
            d = self.sub(x, y)
            self.side += [z3.Implies(self.sgn(d, '<'), L < self.z(nm)), z3.Implies(self.sgn(d, '>'), L > self.z(nm)), z3.Implies(self.sgn(d, '=='), L == self.z(nm))]
        self.logs.append((x, name))
        self.atoms[name] = ('ln', x)
        return self.V(name)

    # ---------------------------------------------------------- integers
    def int1(self, t):
        op = t.op
        w = t.sort[1]
        if op == 'const': return self.C(t.val)
        if op == 'var':
            self.side += [self.z(t.val) >= 0, self.z(t.val) <= z3.RealVal((1 << w) - 1)]
            self.intvars.add(t.val)
            return self.V(t.val)
        if op == 'zext' and t.args[0].sort != BOOL: return self.A(t.args[0])
        if op == 'add':
            x, y = t.args
            if y.op == 'const' and y.val >> (w - 1):
                k = (1 << w) - y.val
                if not self.oracle(icmp('uge', x, bv(k, w))): raise Unsup('int wrap')
                return self.sub(self.A(x), self.C(k))
            if not self.oracle(icmp('uge', t, x)): raise Unsup('int wrap')
            return self.add(self.A(x), self.A(y))
        if op == 'sub':
            if not self.oracle(icmp('uge', t.args[0], t.args[1])): raise Unsup('int wrap')
            return self.sub(self.A(t.args[0]), self.A(t.args[1]))
        if op == 'mul':
            x, y = t.args
            if y.op == 'const':
                if y.val >> (w - 1): raise Unsup('int wrap')
                if not self.oracle(icmp('ule', x, bv(((1 << w) - 1) // y.val, w))): raise Unsup('int wrap')
            else:
                h = bv(1 << (w // 2), w)
                if not (self.oracle(icmp('ult', x, h)) and self.oracle(icmp('ult', y, h))): raise Unsup('int wrap')
            return self.mul(self.A(x), self.A(y))
        if op in ('udiv', 'lshr') and t.args[1].op == 'const':
            k = t.args[1].val if op == 'udiv' else 1 << t.args[1].val
            x = self.A(t.args[0])
            # k*p + c with p integral and 0 <= c < k
            if x.d.isconst() and x.d.cval() == 1 and all(c.denominator == 1 for c in x.n.d.values()) and \
               all(n in self.intvars or self.atoms.get(n, ('',))[0] == 'int' for n in x.n.vars()):
                p = {m: c for m, c in x.n.d.items() if m}
                c0 = x.n.cval()
                if all(c % k == 0 for c in p.values()):
                    q0 = c0 // k
                    return Rat(Poly({m: c / k for m, c in p.items()}) + Poly.const(q0), Poly.const(1))
            v = self.fresh('quo')
            self.side += [self.sgn(self.sub(self.mul(self.V(v), self.C(k)), x), '<='),
                          self.sgn(self.add(self.sub(self.mul(self.V(v), self.C(k)), x), self.C(k - 1)), '>='), self.z(v) >= 0]
            self.atoms[v] = ('int', x)
            return self.V(v)
        if op == 'urem' and t.args[1].op == 'const' or op == 'and' and t.args[1].op == 'const' and (t.args[1].val & (t.args[1].val + 1)) == 0:
            k = t.args[1].val + (1 if op == 'and' else 0)
            q = app('udiv', (t.args[0], bv(k, w)), t.sort)
            return self.sub(self.A(t.args[0]), self.mul(self.rat(q), self.C(k)))
        if op == 'extract' and t.val == 0:
            x = t.args[0]
            if not self.oracle(icmp('ule', x, bv((1 << w) - 1, x.sort[1]))): raise Unsup('truncation')
            return self.A(x)
        if op == 'fptoui':
            a = self.A(t.args[0])
            v = self.fresh('toui')
            self.side.append(z3.Or(z3.And(self.sgn(a, '<'), self.z(v) == 0),
                                   z3.And(self.sgn(self.sub(self.V(v), a), '<='), self.sgn(self.sub(self.add(self.V(v), self.C(1)), a), '>'), self.z(v) >= 0)))
            self.atoms[v] = ('int', a)
            return self.V(v)
        if op == 'shl' and t.args[1].op == 'const':
            return self.rat(app('mul', (t.args[0], bv(1 << t.args[1].val, w)), t.sort)) if t.args[1].val < w else self.C(0)
        if op == 'or':
            x, y = t.args
            if not self.oracle(icmp('eq', app('and', (x, y), t.sort), bv(0, w))): raise Unsup('int op or')
            return self.add(self.A(x), self.A(y))
        raise Unsup('int op ' + op)

    # ---------------------------------------------------------- booleans
    def bitcmp(self, p, a, b):
        """order comparisons on the bit pattern of a float"""
        def pat(u):
            if u.op == 'and' and u.args[1].op == 'const' and u.args[0].op == 'bits' and u.args[1].val == (1 << (u.sort[1] - 1)) - 1:
                return u.args[0].args[0]
            return None
        w = a.sort[1]
        sort = 'f32' if w == 32 else 'f64' if w == 64 else None
        if sort is None: return None
        inf = 0xff << 23 if w == 32 else 0x7ff << 52
        for x, c, left in ((a, b, True), (b, a, False)):
            f = pat(x)
            if f is None or c.op != 'const': continue
            if c.val > inf: return z3.BoolVal({'ult': left, 'slt': left, 'eq': False}[p]) if p in ('ult', 'slt', 'eq') and c.val < (1 << (w - 1)) else None
            if c.val == inf: return z3.BoolVal(left if p in ('ult', 'slt') else False)
            k = self.C(Fr(float(bits2f(c.val, sort))))
            r = self.rat(f)
            up, dn = self.sub(r, k), self.add(r, k)
            if p == 'eq': return z3.Or(self.sgn(up, '=='), self.sgn(dn, '=='))
            if p in ('ult', 'slt'):
                if left: return z3.And(self.sgn(up, '<'), self.sgn(dn, '>'))
                return z3.Or(self.sgn(up, '>'), self.sgn(dn, '<'))
        if p == 'ult' and a.op == 'add' and a.args[0].op == 'bits' and a.args[1].op == 'const' and b.op == 'const':
            lo = (-a.args[1].val) % (1 << w)
            hi = lo + b.val
            if hi <= inf + 1:
                r = self.rat(a.args[0].args[0])
                x = self.sgn(self.sub(r, self.C(Fr(float(bits2f(lo, sort))))), '>=' if lo != 1 else '>') if lo > 1 else self.sgn(r, '>' if lo == 1 else '>=')
                if hi >= inf: return x
                return z3.And(x, self.sgn(self.sub(r, self.C(Fr(float(bits2f(hi, sort))))), '<'))
        return None

    def boolean(self, t):
        if t is TRUE: return z3.BoolVal(True)
        if t is FALSE: return z3.BoolVal(False)
        op = t.op
        if op == 'xor' and t.args[1] is TRUE:
            u = t.args[0]
            if u.op == 'icmp' and u.args[0].sort != BOOL and u.val in ('ult', 'eq') and not any(x.op in ('bits', 'and') for x in u.args):
                d = self.sub(self.rat(u.args[0]), self.rat(u.args[1]))
                if u.val == 'ult': return self.sgn(d, '>=')
                if u.args[1].op == 'const' and u.args[1].val == 0: return self.sgn(self.sub(d, self.C(1)), '>=')
            return z3.Not(self.boolean(t.args[0]))
        if op in ('and', 'or', 'xor'):
            a, b = self.boolean(t.args[0]), self.boolean(t.args[1])
            return {'and': z3.And, 'or': z3.Or, 'xor': z3.Xor}[op](a, b)
        if op == 'ite':
            return z3.If(self.boolean(t.args[0]), self.boolean(t.args[1]), self.boolean(t.args[2]))
        if op == 'fcmp':
            a, b = t.args
            p = t.val
            if p == 'ord': return z3.BoolVal(True)
            ca = float(tofloat(a)) if a.op == 'const' else None
            cb = float(tofloat(b)) if b.op == 'const' else None
            for c, other in ((ca, 'l'), (cb, 'r')):
                if c is not None and (math.isinf(c) or math.isnan(c)):
                    if math.isnan(c): return z3.BoolVal(False)
                    if p in ('oeq',): return z3.BoolVal(False)
                    if p == 'one': return z3.BoolVal(True)
                    pos = c > 0
                    return z3.BoolVal((not pos) if other == 'l' else pos)
            d = self.sub(self.rat(a), self.rat(b))
            return self.sgn(d, {'oeq': '==', 'olt': '<', 'ole': '<=', 'one': '!='}[p])
        if op == 'icmp':
            a, b = t.args
            p = t.val
            if a.sort == BOOL:
                x, y = self.boolean(a), self.boolean(b)
                if p == 'eq': return x == y
                raise Unsup('bool icmp')
            # sign-bit tests of floats
            if p == 'slt' and b.op == 'const' and b.val == 0 and a.op == 'bits':
                return self.sgn(self.rat(a.args[0]), '<')
            if p == 'slt' and a.op == 'const' and a.val == (1 << a.sort[1]) - 1 and b.op == 'bits':
                return z3.Not(self.sgn(self.rat(b.args[0]), '<'))
            if p == 'eq' and b.op == 'const' and b.val == 0 and a.op == 'bits':
                return self.sgn(self.rat(a.args[0]), '==')
            if p == 'eq' and a.op == 'bits' and b.op == 'bits':
                return self.sgn(self.sub(self.rat(a.args[0]), self.rat(b.args[0])), '==')
            r = self.bitcmp(p, a, b)
            if r is not None: return r
            if p == 'slt':
                h = 1 << (a.sort[1] - 1)
                # both known non-negative: same as unsigned
                if (a.op == 'const' and a.val < h or self.oracle(icmp('ult', a, bv(h, a.sort[1])))) and \
                   (b.op == 'const' and b.val < h or self.oracle(icmp('ult', b, bv(h, b.sort[1])))):
                    p = 'ult'
                else: raise Unsup('signed compare')
            d = self.sub(self.rat(a), self.rat(b))
            if p == 'ult' and a.op != 'const' or p == 'ult':
                # integers: a < b  <=>  a <= b-1
                return self.sgn(self.add(d, self.C(1)), '<=')
            if p == 'eq': return self.sgn(d, '==')
            raise Unsup('icmp ' + p)
        raise Unsup('bool op ' + op)


class Cut(Real):
    """Polynomials over the inputs, over one atom per distinct inverse, and over one atom per distinct large shared value.  Equality here
    implies equality of the values (atoms are keyed by their normal form); inequality says nothing."""

    def start(self, terms, cut):
        self.cut, self.uses, self.ncut, self.cutof = cut, {}, 0, {}
        for u in subterms(terms):
            for x in u.args: self.uses[x.id] = self.uses.get(x.id, 0) + 1

    def div(self, a, b):
        if not b.n.d: raise ZeroDivisionError
        if b.n.isconst(): return self.norm(a.n.scale(1 / b.n.cval()), a.d)
        self.divs.append(b.n)
        if a.n.key() == b.n.key(): return self.C(1)
        # 1/(k*m*p) with m a monomial: the inverses multiply
        n = b.n
        lead = n.d[max(n.d)]
        n = n.scale(1 / lead)
        r = self.mul(a, self.C(1 / lead))
        ms = list(n.d)
        common = dict(ms[0])
        for m in ms[1:]:
            dm = dict(m)
            common = {v: min(e, dm[v]) for v, e in common.items() if v in dm}
        if common:
            n = Poly({tuple((v, e - common.get(v, 0)) for v, e in m if e - common.get(v, 0)): c for m, c in n.d.items()})
            for v, e in common.items():
                for _ in range(e): r = self.mul(r, self.V(self.inverse(Poly.var(v))))
        return r if n.isconst() else self.mul(r, self.V(self.inverse(n)))

    def inverse(self, n):
        v, new = self.memo(('inv', n.key()), 'inv')
        if new: self.atoms[v] = ('inv', n)
        return v

    def norm(self, n, d):
        # v * inv(v) = 1
        p = Poly.const(1)
        inv = [v for v in n.vars() if v.startswith('inv#')]
        for v in inv:
            q = self.atoms[v][1]
            if len(q.d) == 1:
                (m, c), = q.d.items()
                if len(m) == 1 and c == 1 and m[0][1] == 1: n = self.cancel(n, v, m[0][0])
            elif len(q.d) <= 3: n = self.reduce(n, v, q)
        return Real.norm(self, n, d)

    def reduce(self, n, v, q):
        """inv(q)*q = 1, used from left to right on q's leading monomial (coefficient one)"""
        lead = max(q.d)
        rest = [(m, -c) for m, c in q.d.items() if m != lead]
        if q.d[lead] != 1 or len(n.d) > 400: return n
        work, out = list(n.d.items()), {}
        for _ in range(3000):
            if not work: return Poly(out)
            m, c = work.pop()
            dm = dict(m)
            if dm.get(v, 0) and all(dm.get(x, 0) >= e for x, e in lead):
                for x, e in lead:
                    dm[x] -= e
                    if not dm[x]: del dm[x]
                # v*lead = 1 + v*(lead - q)
                for mm, cc in rest:
                    d2 = dict(dm)
                    for x, e in mm: d2[x] = d2.get(x, 0) + e
                    work.append((tuple(sorted(d2.items())), c * cc))
                dm[v] -= 1
                if not dm[v]: del dm[v]
                work.append((tuple(sorted(dm.items())), c))
                continue
            x = out.get(m, 0) + c
            if x: out[m] = x
            else: out.pop(m, None)
        return n

    def cancel(self, n, v, w):
        d = {}
        for m, c in n.d.items():
            dm = dict(m)
            k = min(dm.get(v, 0), dm.get(w, 0))
            if k:
                for x in (v, w):
                    dm[x] -= k
                    if not dm[x]: del dm[x]
                m = tuple(sorted(dm.items()))
            x = d.get(m, 0) + c
            if x: d[m] = x
            else: d.pop(m, None)
        return Poly(d)

    def rat1(self, t):
        r = Real.rat1(self, t)
        if self.cut and isinstance(t.sort, str) and len(r.n.d) > self.cut and self.uses.get(t.id, 0) > 1:
            # normalise the sign and scale so that k*x shares the atom of x
            lead = r.n.d[max(r.n.d)]
            n = r.n.scale(1 / lead)
            v, new = self.memo(('cut', n.key(), r.d.key()), 'cut')
            self.ncut += 1
            self.atoms[v] = ('cut', n)
            return self.mul(self.V(v), self.C(lead))
        if len(r.n.d) > 4000: raise Unsup('polynomial too large')
        return r


# ------------------------------------------------------------------ preprocessing: abs/min/max/copysign -> ite, then case split
def lower(t, memo):
    for u in subterms([t]):
        if u.id in memo: continue
        if not u.args:
            memo[u.id] = u
            continue
        a = tuple(memo[x.id] for x in u.args)
        z = lambda s: fconst(0.0, s)
        if u.op == 'fabs':
            r = ite(fcmp('olt', a[0], z(u.sort)), app('fneg', a, u.sort), a[0])
        elif u.op == 'fminnum': r = ite(fcmp('olt', a[1], a[0]), a[1], a[0])
        elif u.op == 'fmaxnum': r = ite(fcmp('olt', a[0], a[1]), a[1], a[0])
        elif u.op == 'copysign':
            ab = ite(fcmp('olt', a[0], z(u.sort)), app('fneg', (a[0],), u.sort), a[0])
            r = ite(fcmp('olt', a[1], z(u.sort)), app('fneg', (ab,), u.sort), ab)
        elif u.op == 'fcmp' and any(x.op == 'const' and not math.isfinite(float(tofloat(x))) for x in u.args):
            # comparison with infinity/NaN under the finiteness assumption
            r = real_const_cmp(u)
        elif u.op == 'fcmp' and u.val == 'ord': r = TRUE
        elif u.op == 'fcmp' and a[0].op == 'ite' and a[1].op == 'const':
            c, x, y = a[0].args
            r = ite(c, fcmp(u.val, x, a[1]), fcmp(u.val, y, a[1]))
        elif u.op == 'fcmp' and a[1].op == 'ite' and a[0].op == 'const':
            c, x, y = a[1].args
            r = ite(c, fcmp(u.val, a[0], x), fcmp(u.val, a[0], y))
        elif u.op == 'urem' and u.args[1].op != 'const':
            x, y = a
            d = app('sub', (x, y), u.sort)
            r = ite(icmp('ult', x, y), x, ite(icmp('ult', d, y), d, mk('urem', (x, y), u.sort)))
        elif all(x is y for x, y in zip(a, u.args)): r = u
        elif u.op in ('aconst', 'afill', 'acopy'): r = mk(u.op, a, u.sort, u.val)
        else: r = app(u.op, a, u.sort, u.val)
        memo[u.id] = r
    return memo[t.id]


def real_const_cmp(u):
    a, b = u.args
    p = u.val
    for c, left in ((a, True), (b, False)):
        if c.op == 'const':
            x = float(tofloat(c))
            if math.isnan(x): return FALSE
            if math.isinf(x):
                if p == 'oeq': return FALSE
                if p in ('one', 'ord'): return TRUE
                return TRUE if (x < 0) == left else FALSE
    raise Unsup('cmp')


def find_split(terms):
    """condition of an innermost ite over non-boolean values"""
    for u in subterms(terms):
        if u.op == 'ite' and u.sort != BOOL: return u.args[0]
    return None


class Query:
    """Decide  pc /\\ not(goal)  over the reals.  goal: ('close', a, b, scale, tol) | ('bool', term) | ('le', a, b, scale, tol)"""

    def __init__(self, pc, goal, oracle_factory, timeout_ms, depth=10, rounding=False):
        self.rounding = rounding
        self.pc, self.goal, self.of, self.timeout, self.depth = pc, goal, oracle_factory, timeout_ms, depth
        self.cases = 0
        self.candidates = []     # candidate environments (name -> Fraction/float)

    def run(self):
        memo = {}
        try:
            pc = [lower(t, memo) for t in self.pc]
            g = self.goal
            if g[0] == 'bool': goal = ('bool', lower(g[1], memo))
            else: goal = (g[0], lower(g[1], memo), lower(g[2], memo), g[3] if not any(u.op == 'ite' for u in subterms([g[3]])) else lower(g[3], memo), g[4])
            return self.rec(pc, goal, self.depth)
        except Unsup as e:
            self.why = str(e)
            return 'unknown'

    why = ''

    def rec(self, pc, goal, depth):
        pc = [t for t in pc if t is not TRUE]
        if any(t is FALSE for t in pc): return 'unsat'
        if goal[0] == 'bool' and goal[1] is TRUE: return 'unsat'
        if goal[0] == 'close' and not self.rounding and self.identity(pc, goal): return 'unsat'
        c = find_split(pc + ([goal[1]] if goal[0] == 'bool' else [goal[1], goal[2], goal[3]]))
        if c is not None:
            if depth == 0:
                self.why = 'too many case splits'
                return 'unknown'
            from symex import subst_term
            res = 'unsat'
            for side in (TRUE, FALSE):
                memo = {c.id: side}
                nc = bnot(c)
                if nc.op != 'xor': memo[nc.id] = bnot(side)
                pc2 = [subst_term(t, memo) for t in pc] + [c if side is TRUE else bnot(c)]
                if goal[0] == 'bool': g2 = ('bool', subst_term(goal[1], memo))
                else: g2 = (goal[0], subst_term(goal[1], memo), subst_term(goal[2], memo), subst_term(goal[3], memo), goal[4])
                r = self.rec(pc2, g2, depth - 1)
                if r == 'sat': return 'sat'
                if r == 'unknown': res = 'unknown'
            return res
        return self.leaf(pc, goal)

    def identity(self, pc, goal):
        """both sides are the same polynomial over the inputs, the inverses of the divisors and shared intermediate values"""
        if goal[1] is goal[2]: return True
        if find_split([goal[1], goal[2]]) is not None: return False
        for cut in (4, 12, None):
            try:
                R = Cut(self.of(pc))
                R.start([goal[1], goal[2]], cut)
                R.domains = []
                R.prepare([goal[1], goal[2]])
                d = R.sub(R.rat(goal[1]), R.rat(goal[2]))
            except (Unsup, ZeroDivisionError): continue
            if not d.n.d: break
            if not R.ncut: return False
        else: return False
        # let the solver confirm the normalised difference
        s = z3.Solver()
        t0 = time.time()
        s.add(R.zp(d.n) != 0)
        r = str(s.check())
        smt.note('real', r, time.time() - t0)
        if r != 'unsat': return False
        # the two sides agree wherever they are defined; can a divisor be zero or an operand leave its domain?
        if R.divs or R.domains:
            if (tuple(t.id for t in pc)) in self.defined: return True
            S = Real(self.of(pc))
            S.domains = []
            fs = []
            try: S.prepare(list(pc) + [goal[1], goal[2]])
            except Unsup: return True
            for t in pc:
                try: fs.append(S.boolean(t))
                except Unsup: pass
            S.divs = []
            for u in subterms([goal[1], goal[2]]):
                if u.op in ('fdiv', 'fsqrt', 'log', 'log10', 'log2'):
                    try: S.rat(u)
                    except Unsup: pass
            bad = [S.zp(p) == 0 for p in {p.key(): p for p in S.divs}.values() if len(p.d) < 60] + S.domains
            n = len(self.candidates)
            for q in bad[:12]:
                r2, m2 = self.solve(S, fs + [q], self.timeout / 8)
                if r2 == 'sat': self.candidates.append((S, m2))
            if len(self.candidates) == n: self.defined.add(tuple(t.id for t in pc))
        return True

    defined = set()

    def leaf(self, pc, goal):
        self.cases += 1
        R = Real(self.of(pc))
        R.rounding = self.rounding
        R.domains = []
        terms = list(pc) + ([goal[1]] if goal[0] == 'bool' else [goal[1], goal[2], goal[3]])
        R.prepare(terms)
        fs = []
        for t in pc:
            try: fs.append(R.boolean(t))
            except Unsup: pass            # dropping a path constraint only weakens the query
        divs0 = list(R.divs)
        sideq = []
        if goal[0] == 'bool':
            neg = z3.Not(R.boolean(goal[1]))
            a = None
        else:
            try:
                a, b = R.rat(goal[1]), R.rat(goal[2])
            except Unsup as e:
                if 'non-finite' in str(e):
                    # one side is a literal infinity or NaN in this case: is the case possible?
                    r, m = self.solve(R, fs)
                    if r == 'sat': self.candidates.append((R, m))
                    return r
                if 'division' in str(e) or 'ZeroDivision' in str(e) or not str(e):
                    # divides by a literal zero on this path
                    r, m = self.solve(R, fs)
                    if r == 'sat': self.candidates.append((R, m)); return 'sat'
                    return r
                raise
            sc = R.rat(goal[3])
            d = R.sub(a, b)
            tol = R.mul(sc, R.C(goal[4]))
            if self.rounding: tol = R.add(tol, R.C(Fr(TINY[goal[1].sort])))
            if goal[0] == 'close':
                neg = z3.Or(R.sgn(R.sub(d, tol), '>'), R.sgn(R.add(d, tol), '<')) if d.n.d else R.sgn(tol, '<')
            else:   # le: a <= b + tol*scale
                neg = R.sgn(R.sub(d, tol), '>')
        nz = [R.zp(p) != 0 for p in {p.key(): p for p in R.divs}.values()]
        self.last = R
        r, m = self.solve(R, fs + nz + [neg])
        if r == 'sat':
            self.candidates.append((R, m))
            self.why = 'sat'
            if self.rounding: return 'sat'
            # keep a stronger separation if possible, for a robust replay
            if goal[0] != 'bool' and d.n.d:
                for f in (1000, 10):
                    t2 = R.mul(tol, R.C(f))
                    n2 = z3.Or(R.sgn(R.sub(d, t2), '>'), R.sgn(R.add(d, t2), '<')) if goal[0] == 'close' else R.sgn(R.sub(d, t2), '>')
                    nice = self.nice(R)
                    for ex in (nice, []):
                        r2, m2 = self.solve(R, fs + nz + [n2] + ex, 4000)
                        if r2 == 'sat':
                            self.candidates.insert(0, (R, m2))
                            break
                    else: continue
                    break
            return 'sat'
        # divisions by zero and domain errors reachable?
        bad = [R.zp(p) == 0 for p in {p.key(): p for p in R.divs}.values()] + R.domains
        for q in bad:
            r2, m2 = self.solve(R, fs + [q], self.timeout / 4)
            if r2 == 'sat': self.candidates.append((R, m2))
        if bad and self.candidates: self.soft = True
        return r

    soft = False

    def nice(self, R):
        ex = []
        for n, v in R.zv.items():
            if n.startswith('in') and '_f' in n:
                ex.append(z3.And(v <= 100, v >= -100, z3.Or(v == 0, v >= Fr(1, 100), v <= Fr(-1, 100))))
        return ex

    def solve(self, R, fs, timeout=None):
        timeout = timeout or self.timeout
        fs = [f for f in fs] + R.side
        fs = [z3.simplify(f) for f in fs]
        if any(z3.is_false(f) for f in fs):
            smt.note('real', 'unsat', 0.0)
            return 'unsat', None
        t0 = time.time()
        res, m = 'unknown', None
        tmo = [0.35, 0.65]
        kinds = (lambda: z3.Tactic('qfnra-nlsat').solver(), lambda: z3.SolverFor('QF_NRA'))
        if self.rounding: kinds = (lambda: z3.SolverFor('QF_LRA'), lambda: z3.SolverFor('QF_NRA'))
        for k, mk_ in enumerate(kinds):
            s = mk_()
            s.set('timeout', max(200, int(timeout * tmo[k])))
            s.add(*fs)
            try: r = str(s.check())
            except z3.Z3Exception: r = 'unknown'
            if r == 'sat':
                res, m = 'sat', self.values(R, s.model())
                break
            if r == 'unsat':
                res = 'unsat'
                break
        smt.note('real', res, time.time() - t0)
        return res, m

    def values(self, R, model):
        d = {}
        for n, v in R.zv.items():
            x = model.eval(v, model_completion=True)
            try:
                if z3.is_algebraic_value(x): x = x.approx(30)
                d[n] = Fr(x.numerator_as_long(), x.denominator_as_long())
            except Exception:
                d[n] = Fr(0)
        return d

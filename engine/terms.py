"""Hash-consed term DAG for the symbolic executor.

Sorts:  ('bv', w)  machine integers (i1 included),  'f32' / 'f64'  IEEE floats,
        ('arr', elemsort)  index(bv64) -> element, for heap blocks of symbolic size.
A term is theory-neutral: smt.py decides how floats and integers are encoded.
"""
import ctypes, struct, math
import numpy as np

# absolute part of the tolerance of close/le: what a few roundings at the bottom of the format add (same in replay.rs)
TINY = {'f32': 1e-42, 'f64': 1e-320}

np.seterr(all='ignore')
_libm = ctypes.CDLL('libm.so.6')


def _lm(name, n, f32):
    f = getattr(_libm, name + ('f' if f32 else ''))
    t = ctypes.c_float if f32 else ctypes.c_double
    f.restype = t
    f.argtypes = [t] * n
    return f


LIBM1 = ('cos', 'sin', 'tan', 'exp', 'exp2', 'log', 'log10', 'log2', 'tanh', 'sinh', 'cosh', 'acos', 'asin', 'atan',
         'expm1', 'log1p', 'cbrt')
LIBM2 = ('pow', 'atan2', 'hypot', 'fmod')
_LIB = {}
for _n in LIBM1:
    _LIB[_n, 'f32'] = _lm(_n, 1, True)
    _LIB[_n, 'f64'] = _lm(_n, 1, False)
for _n in LIBM2:
    _LIB[_n, 'f32'] = _lm(_n, 2, True)
    _LIB[_n, 'f64'] = _lm(_n, 2, False)


class Term:
    __slots__ = ('op', 'args', 'sort', 'val', 'id', '__weakref__')

    def __repr__(self):
        return show(self)


_table = {}
_next = [0]


def mk(op, args, sort, val=None):
    key = (op, tuple(a.id for a in args), sort, val)
    t = _table.get(key)
    if t is None:
        t = Term()
        t.op, t.args, t.sort, t.val = op, tuple(args), sort, val
        t.id = _next[0]
        _next[0] += 1
        _table[key] = t
    return t


def show(t, d=4):
    if t.op == 'const':
        return ('%s' % tofloat(t)) if isinstance(t.sort, str) else '%d' % t.val
    if t.op == 'var':
        return str(t.val)
    if d == 0:
        return '..'
    return '%s(%s%s)' % (t.op, ','.join(show(a, d - 1) for a in t.args), '' if t.val is None else ';%s' % (t.val,))


BOOL = ('bv', 1)
I64 = ('bv', 64)


def const(v, sort):
    return mk("const", (), sort, v)


def bv(v, w):
    return mk('const', (), ('bv', w), v & ((1 << w) - 1))


TRUE = bv(1, 1)
FALSE = bv(0, 1)


def fconst(x, sort):
    if sort == 'f32':
        b = struct.unpack('<I', struct.pack('<f', np.float32(x)))[0]
    else:
        b = struct.unpack('<Q', struct.pack('<d', float(x)))[0]
    return mk('const', (), sort, b)


def fbitsconst(b, sort):
    return mk('const', (), sort, b)


def bits2f(b, sort):
    if sort == 'f32':
        return np.frombuffer(struct.pack('<I', b), dtype=np.float32)[0]
    return np.frombuffer(struct.pack('<Q', b), dtype=np.float64)[0]


def f2bits(x, sort):
    if sort == 'f32':
        return struct.unpack('<I', np.float32(x).tobytes())[0]
    return struct.unpack('<Q', np.float64(x).tobytes())[0]


def tofloat(t):
    return bits2f(t.val, t.sort)


def var(name, sort):
    return mk('var', (), sort, name)


def isconst(t):
    return t.op == 'const'


def fw(sort):
    return 32 if sort == 'f32' else 64


# ---------------------------------------------------------------- concrete semantics
def sgn(v, w):
    return v - (1 << w) if v >> (w - 1) & 1 else v


def ev(op, a, asorts, sort, val):
    """Concrete value of op applied to concrete args. bv -> int, floats -> bit patterns (int)."""
    if op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem', 'fminnum', 'fmaxnum', 'copysign') or op in LIBM2:
        x, y = bits2f(a[0], asorts[0]), bits2f(a[1], asorts[1])
        if op == 'fadd': r = x + y
        elif op == 'fsub': r = x - y
        elif op == 'fmul': r = x * y
        elif op == 'fdiv': r = np.divide(x, y)
        elif op == 'frem': r = np.fmod(x, y)
        elif op == 'fminnum': r = np.fmin(x, y)
        elif op == 'fmaxnum': r = np.fmax(x, y)
        elif op == 'copysign': r = np.copysign(x, y)
        else: r = _LIB[op, sort](x, y)
        return f2bits(r, sort)
    if op == 'fsqrt': return f2bits(np.sqrt(bits2f(a[0], sort)), sort)
    if op == 'fabs': return a[0] & ((1 << (fw(sort) - 1)) - 1)
    if op == 'fneg': return a[0] ^ (1 << (fw(sort) - 1))
    if op == 'ffloor': return f2bits(np.floor(bits2f(a[0], sort)), sort)
    if op == 'fceil': return f2bits(np.ceil(bits2f(a[0], sort)), sort)
    if op == 'ftrunc': return f2bits(np.trunc(bits2f(a[0], sort)), sort)
    if op == 'fround':
        x = float(bits2f(a[0], sort))
        if not math.isfinite(x): return a[0]
        r = math.floor(abs(x) + 0.5) if abs(x) < 2 ** 52 else abs(x)
        if abs(x) == 0.49999999999999994: r = 0.0
        return f2bits(math.copysign(r, x), sort)
    if op == 'frint': return f2bits(np.rint(bits2f(a[0], sort)), sort)
    if op == 'fma':
        from fractions import Fraction as Fr
        xs = [float(bits2f(v, sort)) for v in a]
        if all(map(math.isfinite, xs)):
            e = Fr(xs[0]) * Fr(xs[1]) + Fr(xs[2])
            if e == 0:
                return f2bits(bits2f(a[0], sort) * bits2f(a[1], sort) + bits2f(a[2], sort), sort)
            return f2bits(round_fr(e, sort), sort)
        return f2bits(bits2f(a[0], sort) * bits2f(a[1], sort) + bits2f(a[2], sort), sort)
    if op in LIBM1: return f2bits(_LIB[op, sort](bits2f(a[0], sort)), sort)
    if op == 'fptrunc' or op == 'fpext': return f2bits((np.float32 if sort == 'f32' else np.float64)(bits2f(a[0], asorts[0])), sort)
    if op == 'uitofp': return f2bits(round_int(a[0], sort), sort)
    if op == 'sitofp': return f2bits(round_int(sgn(a[0], asorts[0][1]), sort), sort)
    if op in ('fptoui', 'fptosi'):
        x = float(bits2f(a[0], asorts[0]))
        w = sort[1]
        lo, hi = (0, (1 << w) - 1) if op == 'fptoui' else (-(1 << (w - 1)), (1 << (w - 1)) - 1)
        if x != x: r = 0
        elif x == math.inf: r = hi
        elif x == -math.inf: r = lo
        else: r = max(lo, min(hi, int(x)))
        return r & ((1 << w) - 1)
    if op == 'fcmp':
        x, y = bits2f(a[0], asorts[0]), bits2f(a[1], asorts[1])
        un = bool(np.isnan(x) or np.isnan(y))
        c = {'eq': x == y, 'gt': x > y, 'ge': x >= y, 'lt': x < y, 'le': x <= y}
        if val == 'ord': return int(not un)
        if val == 'uno': return int(un)
        r = bool(c.get(val[1:], x != y))
        return int((r and not un) if val[0] == 'o' else (un or r))
    if op == 'bits' or op == 'fbits': return a[0]
    if op == 'ite': return a[1] if a[0] else a[2]
    w = asorts[0][1] if asorts and isinstance(asorts[0], tuple) and asorts[0][0] == 'bv' else None
    m = (1 << sort[1]) - 1 if isinstance(sort, tuple) and sort[0] == 'bv' else None
    if op == 'add': return (a[0] + a[1]) & m
    if op == 'sub': return (a[0] - a[1]) & m
    if op == 'mul': return (a[0] * a[1]) & m
    if op == 'udiv': return (a[0] // a[1]) if a[1] else m
    if op == 'urem': return (a[0] % a[1]) if a[1] else a[0]
    if op == 'sdiv':
        x, y = sgn(a[0], w), sgn(a[1], w)
        if y == 0: return (1 if x < 0 else -1) & m
        q = abs(x) // abs(y)
        return (q if (x < 0) == (y < 0) else -q) & m
    if op == 'srem':
        x, y = sgn(a[0], w), sgn(a[1], w)
        if y == 0: return a[0]
        r = abs(x) % abs(y)
        return (-r if x < 0 else r) & m
    if op == 'and': return a[0] & a[1]
    if op == 'or': return a[0] | a[1]
    if op == 'xor': return a[0] ^ a[1]
    if op == 'shl': return (a[0] << a[1]) & m if a[1] < w else 0
    if op == 'lshr': return a[0] >> a[1] if a[1] < w else 0
    if op == 'ashr': return (sgn(a[0], w) >> min(a[1], w - 1)) & m
    if op == 'icmp':
        x, y = a
        sx, sy = sgn(x, w), sgn(y, w)
        return int({'eq': x == y, 'ne': x != y, 'ult': x < y, 'ule': x <= y, 'ugt': x > y, 'uge': x >= y,
                    'slt': sx < sy, 'sle': sx <= sy, 'sgt': sx > sy, 'sge': sx >= sy}[val])
    if op == 'zext': return a[0]
    if op == 'sext': return sgn(a[0], w) & m
    if op == 'extract': return (a[0] >> val) & m
    if op == 'concat': return (a[0] << asorts[1][1]) | a[1]
    if op == 'ctpop': return bin(a[0]).count('1')
    if op == 'ctlz': return w - a[0].bit_length()
    if op == 'cttz': return w if a[0] == 0 else (a[0] & -a[0]).bit_length() - 1
    raise NotImplementedError(op)


def round_fr(e, sort):
    """correctly rounded Fraction -> float of sort"""
    d = e.numerator / e.denominator if sort == 'f64' else None
    if sort == 'f64': return d
    n = np.float32(float(e))
    best, bd = None, None
    for c in (n, np.nextafter(n, np.float32(np.inf)), np.nextafter(n, np.float32(-np.inf))):
        if not np.isfinite(c): continue
        from fractions import Fraction as Fr
        dd = abs(Fr(float(c)) - e)
        if bd is None or dd < bd or (dd == bd and not (f2bits(c, 'f32') & 1)):
            best, bd = c, dd
    return best if best is not None else n


def round_int(v, sort):
    if sort == 'f64': return float(v)
    if abs(v) < 1 << 53: return np.float32(float(v))
    from fractions import Fraction as Fr
    return round_fr(Fr(v), 'f32')


COMM = {'fadd', 'fmul', 'add', 'mul', 'and', 'or', 'xor', 'fminnum', 'fmaxnum'}
SWAPI = {'ugt': 'ult', 'uge': 'ule', 'sgt': 'slt', 'sge': 'sle'}
SWAPF = {'ogt': 'olt', 'oge': 'ole', 'ugt': 'ult', 'uge': 'ule'}
NEGI = {'eq': 'ne', 'ne': 'eq', 'ult': 'uge', 'uge': 'ult', 'ule': 'ugt', 'ugt': 'ule', 'slt': 'sge', 'sge': 'slt',
        'sle': 'sgt', 'sgt': 'sle'}


def app(op, args, sort, val=None):
    """Smart constructor: constant folding and light rewriting (all rewrites bit-exact)."""
    if op not in ('asel', 'astore', 'afill', 'acopy') and all(a.op == 'const' for a in args):
        r = ev(op, [a.val for a in args], [a.sort for a in args], sort, val)
        return mk('const', (), sort, r)
    if op in COMM:
        a, b = args
        if a.op == 'const' or (b.op != 'const' and a.id > b.id):
            a, b = b, a
        args = (a, b)
    if op == 'icmp':
        a, b = args
        if val in SWAPI:
            a, b, val = b, a, SWAPI[val]
        if val in ('eq', 'ne') and (a.op == 'const' or (b.op != 'const' and a.id > b.id)):
            a, b = b, a
        if a is b:
            return TRUE if val in ('eq', 'ule', 'sle') else FALSE
        if val == 'ne':
            return bnot(app('icmp', (a, b), BOOL, 'eq'))
        if val == 'ule':
            return bnot(app('icmp', (b, a), BOOL, 'ult'))
        if val == 'sle':
            return bnot(app('icmp', (b, a), BOOL, 'slt'))
        if val == 'eq' and b.op == 'const' and a.sort == BOOL:
            return a if b.val else bnot(a)
        if val == 'eq' and b.op == 'const' and a.op == 'ite':
            c, x, y = a.args
            if x.op == 'const' and y.op == 'const':
                if x.val == b.val and y.val != b.val: return c
                if x.val != b.val and y.val == b.val: return bnot(c)
                if x.val != b.val and y.val != b.val: return FALSE
        if val == 'eq' and b.op == 'const' and a.op == 'zext':
            x = a.args[0]
            if b.val >> x.sort[1]: return FALSE
            return app('icmp', (x, bv(b.val, x.sort[1])), BOOL, 'eq')
        if val == 'eq' and b.op == 'const' and a.op == 'add' and a.args[1].op == 'const':
            return app('icmp', (a.args[0], bv(b.val - a.args[1].val, a.sort[1])), BOOL, 'eq')
        if val == 'ult' and b.op == 'const':
            if b.val == 0: return FALSE
            if b.val == 1: return app('icmp', (a, bv(0, a.sort[1])), BOOL, 'eq')
        if val == 'ult' and a.op == 'const' and a.val == (1 << a.sort[1]) - 1: return FALSE
        args = (a, b)
    elif op == 'fcmp':
        a, b = args
        if val in SWAPF:
            a, b, val = b, a, SWAPF[val]
        if val in ('oeq', 'une', 'ord', 'uno', 'one', 'ueq') and a.id > b.id:
            a, b = b, a
        if val == 'une': return bnot(app('fcmp', (a, b), BOOL, 'oeq'))
        if val == 'uno': return bnot(app('fcmp', (a, b), BOOL, 'ord'))
        if val == 'ult': return bnot(app('fcmp', (b, a), BOOL, 'ole'))
        if val == 'ule': return bnot(app('fcmp', (b, a), BOOL, 'olt'))
        if val == 'ueq': return bnot(app('fcmp', (a, b), BOOL, 'one'))
        if val == 'ord':
            if a.op == 'const' and not np.isnan(tofloat(a)): a = b
            elif b.op == 'const' and not np.isnan(tofloat(b)): b = a
            if a.op in ('fabs', 'fneg') and a is b: return app('fcmp', (a.args[0], a.args[0]), BOOL, 'ord')
        else:
            # comparisons of a magnitude with zero
            if b.op == 'fabs' and a.op == 'const' and tofloat(a) == 0 and val in ('olt', 'one'): return app('fcmp', (a, b.args[0]), BOOL, 'one')
            if a.op == 'fabs' and b.op == 'const' and tofloat(b) == 0:
                if val == 'olt': return FALSE
                if val in ('ole', 'oeq'): return app('fcmp', (a.args[0], b), BOOL, 'oeq')
                if val == 'one': return app('fcmp', (a.args[0], b), BOOL, 'one')
            if b.op == 'fabs' and a.op == 'const' and tofloat(a) == 0:
                if val == 'oeq': return app('fcmp', (a, b.args[0]), BOOL, 'oeq')
                if val == 'ole': return app('fcmp', (b.args[0], b.args[0]), BOOL, 'ord')
        args = (a, b)
    elif op == 'sub':
        a, b = args
        w = sort[1]
        if b.op == 'const': return app('add', (a, bv(-b.val, w)), sort)
        if a is b: return bv(0, w)
        if a.op == 'add' and a.args[1].op == 'const':
            return app('add', (app('sub', (a.args[0], b), sort), a.args[1]), sort)
        if b.op == 'add' and b.args[1].op == 'const':
            return app('add', (app('sub', (a, b.args[0]), sort), bv(-b.args[1].val, w)), sort)
        if a.op == 'add' and b in a.args:
            return a.args[1] if a.args[0] is b else a.args[0]
    elif op == 'add':
        a, b = args
        if b.op == 'const' and b.val == 0: return a
        if b.op == 'const' and a.op == 'add' and a.args[1].op == 'const':
            return app('add', (a.args[0], bv(a.args[1].val + b.val, sort[1])), sort)
        if b.op == 'sub' and b.args[1] is a: return b.args[0]
        if a.op == 'sub' and a.args[1] is b: return a.args[0]
        if a.op == 'add' and a.args[1].op == 'const' and b.op != 'const':
            return app('add', (app('add', (a.args[0], b), sort), a.args[1]), sort)
        if b.op == 'add' and b.args[1].op == 'const':
            return app('add', (app('add', (a, b.args[0]), sort), b.args[1]), sort)
    elif op == 'mul':
        a, b = args
        if b.op == 'const':
            if b.val == 1: return a
            if b.val == 0: return b
            if a.op == 'mul' and a.args[1].op == 'const':
                return app('mul', (a.args[0], bv(a.args[1].val * b.val, sort[1])), sort)
            if a.op == 'add' and a.args[1].op == 'const':
                return app('add', (app('mul', (a.args[0], b), sort), bv(a.args[1].val * b.val, sort[1])), sort)
    elif op == 'shl' and args[1].op == 'const':
        if args[1].val < sort[1]:
            return app('mul', (args[0], bv(1 << args[1].val, sort[1])), sort)
        return bv(0, sort[1])
    elif op in ('lshr', 'ashr') and args[1].op == 'const' and args[1].val == 0:
        return args[0]
    elif op == 'and':
        a, b = args
        if a is b: return a
        if b.op == 'const':
            if b.val == 0: return b
            if b.val == (1 << sort[1]) - 1: return a
        if sort == BOOL and (a is bnot(b)): return FALSE
    elif op == 'or':
        a, b = args
        if a is b: return a
        if b.op == 'const':
            if b.val == 0: return a
            if b.val == (1 << sort[1]) - 1: return b
        if sort == BOOL and (a is bnot(b)): return TRUE
    elif op == 'xor':
        a, b = args
        if a is b: return bv(0, sort[1])
        if b.op == 'const' and b.val == 0: return a
        if b.op == 'const' and a.op == 'xor' and a.args[1].op == 'const':
            return app('xor', (a.args[0], bv(a.args[1].val ^ b.val, sort[1])), sort)
    elif op == 'ite':
        c, x, y = args
        if c is TRUE: return x
        if c is FALSE: return y
        if x is y: return x
        if c.op == 'xor' and c.sort == BOOL and c.args[1] is TRUE:
            return app('ite', (c.args[0], y, x), sort)
        if sort == BOOL:
            if x is TRUE: return app('or', (c, y), BOOL)
            if x is FALSE: return app('and', (bnot(c), y), BOOL)
            if y is FALSE: return app('and', (c, x), BOOL)
            if y is TRUE: return app('or', (bnot(c), x), BOOL)
        if x.op == 'ite' and x.args[0] is c: return app('ite', (c, x.args[1], y), sort)
        if y.op == 'ite' and y.args[0] is c: return app('ite', (c, x, y.args[2]), sort)
    elif op == 'zext':
        if args[0].sort == sort: return args[0]
        if args[0].op == 'zext': return app('zext', (args[0].args[0],), sort)
    elif op == 'sext':
        if args[0].sort == sort: return args[0]
    elif op == 'extract':
        a = args[0]
        lo, w = val, sort[1]
        if lo == 0 and a.sort[1] == w: return a
        if a.op == 'zext' or a.op == 'sext':
            iw = a.args[0].sort[1]
            if lo + w <= iw: return app('extract', (a.args[0],), sort, lo)
            if a.op == 'zext':
                if lo >= iw: return bv(0, w)
                if lo == 0: return app('zext', (a.args[0],), sort)
        if a.op == 'concat':
            lw = a.args[1].sort[1]
            if lo >= lw: return app('extract', (a.args[0],), sort, lo - lw)
            if lo + w <= lw: return app('extract', (a.args[1],), sort, lo)
        if a.op == 'extract': return app('extract', (a.args[0],), sort, a.val + lo)
        if a.op == 'lshr' and a.args[1].op == 'const' and lo + w + a.args[1].val <= a.sort[1]:
            return app('extract', (a.args[0],), sort, lo + a.args[1].val)
        if a.op == 'or' and lo == 0 or a.op in ('or', 'and', 'xor'):
            return app(a.op, tuple(app('extract', (z,), sort, lo) for z in a.args), sort)
        if a.op == 'mul' and a.args[1].op == 'const' and a.args[1].val and (a.args[1].val & (a.args[1].val - 1)) == 0:
            k = a.args[1].val.bit_length() - 1  # shl by k
            if lo >= k: return app('extract', (a.args[0],), sort, lo - k) if lo - k + w <= a.sort[1] else mk(op, args, sort, val)
            if lo + w <= k: return bv(0, w)
        if a.op == 'ite':
            return app('ite', (a.args[0], app('extract', (a.args[1],), sort, lo), app('extract', (a.args[2],), sort, lo)), sort)
    elif op == 'concat':
        a, b = args
        if a.op == 'extract' and b.op == 'extract' and a.args[0] is b.args[0] and a.val == b.val + b.sort[1]:
            return app('extract', (a.args[0],), sort, b.val)
        if a.op == 'const' and a.val == 0: return app('zext', (b,), sort)
    elif op == 'bits':
        if args[0].op == 'fbits': return args[0].args[0]
        if args[0].op == 'ite':
            c, x, y = args[0].args
            return app('ite', (c, app('bits', (x,), sort), app('bits', (y,), sort)), sort)
    elif op == 'fbits':
        if args[0].op == 'bits': return args[0].args[0]
        if args[0].op == 'ite':
            c, x, y = args[0].args
            return app('ite', (c, app('fbits', (x,), sort), app('fbits', (y,), sort)), sort)
    elif op in ('fadd', 'fsub', 'fmul', 'fdiv'):
        # identities of IEEE arithmetic (NaN payloads and signs aside)
        a, b = args
        if b.op == 'const':
            x = tofloat(b)
            if op in ('fmul', 'fdiv') and x == 1: return a
            if x == 0 and ((op == 'fsub' and not np.signbit(x)) or (op == 'fadd' and np.signbit(x))): return a
        if op == 'fadd':
            if b.op == 'fneg': return app('fsub', (a, b.args[0]), sort)
            if a.op == 'fneg' : return app('fsub', (b, a.args[0]), sort)
        elif op == 'fsub':
            if b.op == 'fneg': return app('fadd', (a, b.args[0]), sort)
        else:
            ng, n = False, []
            for u in (a, b):
                if u.op == 'fneg': ng, u = not ng, u.args[0]
                elif u.op == 'const' and np.signbit(tofloat(u)) and not np.isnan(tofloat(u)): ng, u = not ng, app('fneg', (u,), sort)
                n.append(u)
            if n[0] is not a or n[1] is not b:
                r = app(op, tuple(n), sort)
                return app('fneg', (r,), sort) if ng else r
    elif op == 'fneg':
        if args[0].op == 'fneg': return args[0].args[0]
    elif op == 'fabs':
        if args[0].op in ('fabs',): return args[0]
        if args[0].op == 'fneg': return app('fabs', (args[0].args[0],), sort)
    elif op == 'fpext' and args[0].op == 'fpext':
        return app('fpext', (args[0].args[0],), sort)
    elif op == 'asel':
        return asel(args[0], args[1], sort)
    elif op == 'astore':
        arr, i, v = args
        if arr.op == 'astore' and arr.args[1] is i:
            args = (arr.args[0], i, v)
    return mk(op, args, sort, val)


def asel(arr, i, sort):
    """element i of an array term: reads are resolved through stores, fills and copies"""
    cond = []          # (condition, value) in order
    while True:
        if arr.op == 'astore':
            c = icmp('eq', i, arr.args[1])
            v, rest = arr.args[2], arr.args[0]
        elif arr.op == 'afill':
            a, lo, n, v = arr.args
            c, rest = icmp('ult', app('sub', (i, lo), I64), n), a
        elif arr.op == 'acopy':
            a, lo, src, slo, n = arr.args
            k = app('sub', (i, lo), I64)
            c, rest = icmp('ult', k, n), a
            v = None if c is FALSE else asel(src, add(k, slo), sort)
        else:
            r = arr.args[0] if arr.op == 'aconst' else mk('asel', (arr, i), sort)
            break
        if c is TRUE:
            r = v
            break
        if c is not FALSE: cond.append((c, v))
        arr = rest
    for c, v in reversed(cond): r = ite(c, v, r)
    return r


def bnot(c):
    if c is TRUE: return FALSE
    if c is FALSE: return TRUE
    if c.op == 'xor' and c.args[1] is TRUE: return c.args[0]
    return mk('xor', (c, TRUE), BOOL)


def band(a, b): return app('and', (a, b), BOOL)
def bor(a, b): return app('or', (a, b), BOOL)
def ite(c, a, b): return app('ite', (c, a, b), a.sort)
def icmp(p, a, b): return app('icmp', (a, b), BOOL, p)
def fcmp(p, a, b): return app('fcmp', (a, b), BOOL, p)
def add(a, b): return app('add', (a, b), a.sort)
def sub(a, b): return app('sub', (a, b), a.sort)
def mul(a, b): return app('mul', (a, b), a.sort)


def tobits(t):
    if isinstance(t.sort, str):
        return app('bits', (t,), ('bv', fw(t.sort)))
    return t


def fromsort(t, sort):
    """reinterpret bits of t as sort (same width)"""
    if t.sort == sort: return t
    if isinstance(sort, str):
        return app('fbits', (tobits(t),), sort)
    return tobits(t)


def subterms(roots):
    seen, out, st = set(), [], [(r, False) for r in roots]
    while st:
        t, done = st.pop()
        if done:
            out.append(t)
            continue
        if t.id in seen: continue
        seen.add(t.id)
        st.append((t, True))
        for a in t.args:
            if a.id not in seen: st.append((a, False))
    return out


class EvalUnknown(Exception):
    pass


def evaluate(roots, env):
    """Concrete evaluation (native IEEE semantics); env maps var name -> int (bits). Returns list of values."""
    val = {}
    for t in subterms(roots):
        if t.op == 'const': val[t.id] = t.val
        elif t.op == 'var':
            val[t.id] = env.get(t.val, {} if t.sort[0] == 'arr' else 0)
        elif t.op == 'aconst': val[t.id] = ({}, val[t.args[0].id])
        elif t.op == 'avar': val[t.id] = ({}, ('v', t.val))
        elif t.op == 'astore':
            d, df = val[t.args[0].id]
            d = dict(d)
            d[val[t.args[1].id]] = val[t.args[2].id]
            val[t.id] = (d, df)
        elif t.op == 'asel':
            d, df = val[t.args[0].id]
            i = val[t.args[1].id]
            if i in d: val[t.id] = d[i]
            elif isinstance(df, tuple): val[t.id] = env.get((df[1], i), 0)
            else: val[t.id] = df
        else:
            val[t.id] = ev(t.op, [val[a.id] for a in t.args], [a.sort for a in t.args], t.sort, t.val)
    return [val[r.id] for r in roots]

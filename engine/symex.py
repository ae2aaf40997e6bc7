"""Symbolic execution of LLVM IR over terms.py."""
import time, sys, re, copy
from terms import *
import terms as T

sys.setrecursionlimit(100000)


class Inconclusive(Exception):
    pass


class TimeUp(Exception):
    pass


class Undef:
    __slots__ = ()

    def __repr__(self): return 'undef'


UNDEF = Undef()


class Ptr:
    __slots__ = ('obj', 'off')

    def __init__(self, obj, off):
        self.obj, self.off = obj, off

    def __repr__(self): return 'Ptr(%s,%s)' % (self.obj, self.off)


class Fn:
    __slots__ = ('name',)

    def __init__(self, name): self.name = name


def base_addr(obj):
    return obj << 36


class Obj:
    """size: Term(bv64).  cells: {off: (nbytes, value)}; zero: unwritten bytes read as 0.
    arr: None, or (elemsort, esize, array term) once accessed at a symbolic index in a big block."""
    __slots__ = ('id', 'size', 'cells', 'zero', 'arr', 'live', 'name', 'ro')

    def __init__(self, id, size, zero=False, name=''):
        self.id, self.size, self.cells, self.zero, self.arr, self.live, self.name, self.ro = id, size, {}, zero, None, True, name, False

    def copy(self):
        o = Obj(self.id, self.size, self.zero, self.name)
        o.cells, o.arr, o.live, o.ro = dict(self.cells), self.arr, self.live, self.ro
        return o


def sizeof(t):
    if isinstance(t, str): return {'float': 4, 'double': 8, 'ptr': 8, 'half': 2}[t]
    if t[0] == 'i': return max(1, 1 << ((t[1] + 7) // 8 - 1).bit_length()) if t[1] > 8 else 1
    if t[0] == 'arr': return t[1] * sizeof(t[2])
    if t[0] == 'vec': return t[1] * sizeof(t[2])
    if t[0] == 'st':
        o = 0
        for e in t[2]:
            if not t[1]: o = -(-o // alignof(e)) * alignof(e)
            o += sizeof(e)
        if not t[1] and t[2]:
            a = max(alignof(e) for e in t[2])
            o = -(-o // a) * a
        return o
    raise Inconclusive('sizeof %r' % (t,))


def alignof(t):
    if isinstance(t, str): return sizeof(t)
    if t[0] == 'i': return min(16, sizeof(t))
    if t[0] in ('arr',): return alignof(t[2])
    if t[0] == 'vec': return sizeof(t)
    if t[0] == 'st': return 1 if t[1] or not t[2] else max(alignof(e) for e in t[2])


def fieldoff(t, i):
    o = 0
    for k, e in enumerate(t[2]):
        if not t[1]: o = -(-o // alignof(e)) * alignof(e)
        if k == i: return o
        o += sizeof(e)


def sort_of(t):
    if t == 'float': return 'f32'
    if t == 'double': return 'f64'
    if t == 'ptr': return I64
    if t[0] == 'i': return ('bv', t[1])
    raise Inconclusive('sort %r' % (t,))


class Frame:
    __slots__ = ('f', 'blk', 'ix', 'prev', 'loc', 'ret', 'allocas')

    def copy(self):
        g = Frame()
        g.f, g.blk, g.ix, g.prev, g.ret = self.f, self.blk, self.ix, self.prev, self.ret
        g.loc = dict(self.loc)
        g.allocas = list(self.allocas)
        return g


class State:
    def __init__(self):
        self.frames = []
        self.mem = {}
        self.own = set()
        self.pc = []
        self.pcset = set()
        self.inputs = []      # (name, sort, lo, hi)
        self.obs = []         # obligations
        self.env = {}         # a concrete witness for pc (native semantics), or None
        self.steps = 0
        self.nobj = 0
        self.marks = {}
        self.notes = []
        self.globs = {}
        self.nfresh = 0
        self.havocked = False

    def fork(self):
        s = State.__new__(State)
        s.frames = [f.copy() for f in self.frames]
        s.mem = dict(self.mem)
        s.own = set()
        self.own = set()
        s.pc, s.pcset = list(self.pc), set(self.pcset)
        s.inputs, s.obs = list(self.inputs), list(self.obs)
        s.env = self.env
        s.steps, s.nobj = self.steps, self.nobj
        s.marks = dict(self.marks)
        s.notes = list(self.notes)
        s.globs = dict(self.globs)
        s.nfresh = self.nfresh
        s.havocked = self.havocked
        return s


PANIC = re.compile(r'panic|unwrap_failed|expect_failed|handle_alloc_error|capacity_overflow|handle_error|index_fail|slice_.*fail|'
                   r'len_mismatch|_fail\b|alloc_error|abort|copy_from_slice|unreachable_display|div_rem_by_zero')

LIBMX = {}
for n in LIBM1 + LIBM2:
    LIBMX[n] = (n, 'f64')
    LIBMX[n + 'f'] = (n, 'f32')


class Exec:
    """feas(pc list, extra term) -> True/False/None ; model hooks are supplied by the checker."""

    def __init__(self, mod, feas, max_steps=400000, max_paths=20000, enum_bound=64, allow_panic=False):
        self.mod, self.feas = mod, feas
        self.max_steps, self.max_paths, self.enum_bound = max_steps, max_paths, enum_bound
        self.dbg = set()
        self.fns = set()
        self.paths = 0
        self.nsteps = 0
        self.narrowed, self.lost = {}, {}
        self.forks = 0
        self.ended = 0
        self.stmts = 0

    # ------------------------------------------------------------ memory
    def new_obj(self, st, size, zero=False, name=''):
        st.nobj += 1
        o = Obj(st.nobj, size if isinstance(size, Term) else bv(size, 64), zero, name)
        st.mem[o.id] = o
        st.own.add(o.id)
        return o

    def wr(self, st, oid):
        o = st.mem[oid]
        if oid not in st.own:
            o = o.copy()
            st.mem[oid] = o
            st.own.add(oid)
        return o

    def to_int(self, v):
        if isinstance(v, Ptr):
            return add(bv(base_addr(v.obj), 64), v.off)
        if isinstance(v, Fn):
            return bv(0x7f0000000000 + (hash(v.name) & 0xffffffff) * 16, 64)
        return v

    def to_ptr(self, v):
        if isinstance(v, (Ptr, Fn)): return v
        if v is UNDEF: return Ptr(0, bv(0, 64))
        if v.op == 'const':
            return Ptr(v.val >> 36, bv(v.val & ((1 << 36) - 1), 64)) if v.val < (1 << 48) else Ptr(0, v)
        if v.op == 'add' and v.args[1].op == 'const':
            return Ptr(v.args[1].val >> 36, add(v.args[0], bv(v.args[1].val & ((1 << 36) - 1), 64)))
        raise Inconclusive('inttoptr of symbolic value')

    def fresh(self, st, sort, hint='u'):
        st.nfresh += 1
        return var('%s%d_%s' % (hint, st.nfresh, sort if isinstance(sort, str) else 'i%d' % sort[1]), sort)

    def val_sort(self, v, n):
        """coerce stored value to a Term of n bytes"""
        if isinstance(v, (Ptr, Fn)): return self.to_int(v)
        return v

    def getbytes(self, st, o, off, n):
        """term of 8n bits at concrete byte offset, or UNDEF"""
        c = o.cells.get(off)
        if c and c[0] == n: return c[1]
        if o.arr is not None:
            es, ez, a = o.arr
            if n == ez and off % ez == 0:
                return app('asel', (a, bv(off // ez, 64)), es)
            if n > ez and n % ez == 0 and off % ez == 0:
                parts = [tobits(app('asel', (a, bv(off // ez + k, 64)), es)) for k in range(n // ez)]
                r = parts[0]
                for p in parts[1:]: r = app('concat', (p, r), ('bv', r.sort[1] + p.sort[1]))
                return r
            b, k = off // ez, off % ez
            if k + n <= ez:
                return app('extract', (tobits(app('asel', (a, bv(b, 64)), es)),), ('bv', 8 * n), 8 * k)
            raise Inconclusive('odd array access')
        # overlapping cells?
        parts = []
        i = off
        undef = False
        while i < off + n:
            hit = None
            for d in range(0, 17):
                c = o.cells.get(i - d)
                if c and c[0] > d:
                    hit = (i - d, c)
                    break
            if hit:
                co, (cn, cv) = hit
                take = min(co + cn, off + n) - i
                if cv is UNDEF:
                    undef = True
                    parts.append(bv(0, 8 * take))
                else:
                    b = tobits(self.val_sort(cv, cn))
                    if b.sort[1] != 8 * cn: b = app('zext', (b,), ('bv', 8 * cn))
                    parts.append(app('extract', (b,), ('bv', 8 * take), 8 * (i - co)))
                i += take
            else:
                j = i + 1
                while j < off + n and not (j in o.cells): j += 1
                if not o.zero: undef = True
                parts.append(bv(0, 8 * (j - i)))
                i = j
        if undef: return UNDEF
        r = parts[0]
        for p in parts[1:]: r = app('concat', (p, r), ('bv', r.sort[1] + p.sort[1]))
        return r

    def carve(self, o, b, n):
        """forget bytes b..b+n, keeping what cells reaching over the edges hold outside"""
        for k in [k for k, (cn, _) in o.cells.items() if k < b + n and k + cn > b]:
            cn, cv = o.cells.pop(k)
            if k >= b and k + cn <= b + n: continue
            bits = None
            if cv is not UNDEF:
                bits = tobits(self.val_sort(cv, cn))
                if bits.sort[1] != 8 * cn: bits = app('zext', (bits,), ('bv', 8 * cn))
            i = k
            while i < k + cn:
                if b <= i < b + n: i += 1; continue
                w = 4 if cn % 4 == 0 and (i - k) % 4 == 0 and (i + 4 <= b or i >= b + n) else 1
                o.cells[i] = (w, UNDEF if bits is None else app('extract', (bits,), ('bv', 8 * w), 8 * (i - k)))
                i += w

    def putbytes(self, o, off, n, v):
        if o.arr is not None:
            es, ez, a = o.arr
            if v is UNDEF: v = fbitsconst(0, es) if isinstance(es, str) else bv(0, es[1])
            if n == ez and off % ez == 0:
                o.arr = (es, ez, app('astore', (a, bv(off // ez, 64), fromsort(self.val_sort(v, n), es)), a.sort))
                return
            if n > ez and n % ez == 0 and off % ez == 0:
                b = tobits(self.val_sort(v, n))
                for k in range(n // ez):
                    a = app('astore', (a, bv(off // ez + k, 64), fromsort(app('extract', (b,), ('bv', 8 * ez), 8 * ez * k), es)), a.sort)
                o.arr = (es, ez, a)
                return
            raise Inconclusive('odd array store')
        c = o.cells.get(off)
        if not (c and c[0] == n):
            for d in range(-(n - 1), 17):
                k = off - d
                c = o.cells.get(k)
                if c and k < off + n and k + c[0] > off:
                    # split the overlapped cell into bytes outside the written range
                    del o.cells[k]
                    if c[1] is UNDEF:
                        if o.zero:
                            for i in range(k, k + c[0]):
                                if not off <= i < off + n: o.cells[i] = (1, UNDEF)
                        continue
                    b = tobits(self.val_sort(c[1], c[0]))
                    if b.sort[1] != 8 * c[0]: b = app('zext', (b,), ('bv', 8 * c[0]))
                    for i in range(k, k + c[0]):
                        if not off <= i < off + n:
                            o.cells[i] = (1, app('extract', (b,), ('bv', 8), 8 * (i - k)))
        o.cells[off] = (n, v)

    def conv(self, v, ty):
        """value v (n bytes) as LLVM type ty"""
        if v is UNDEF: return UNDEF
        if ty == 'ptr': return self.to_ptr(v)
        s = sort_of(ty)
        if isinstance(v, (Ptr, Fn)):
            return fromsort(self.to_int(v), s)
        if isinstance(s, tuple):
            b = tobits(v)
            if b.sort[1] > s[1]: return app('extract', (b,), s, 0)
            return b
        return fromsort(v, s)

    def check_access(self, st, p, n, what):
        if not isinstance(p, Ptr) or p.obj == 0 or p.obj not in st.mem:
            self.violate(st, 'memory', 'invalid pointer %s' % what)
            return None
        o = st.mem[p.obj]
        if not o.live:
            self.violate(st, 'memory', 'use after free %s' % what)
            return None
        if p.off.op == 'const' and o.size.op == 'const':
            if p.off.val + n > o.size.val:
                self.violate(st, 'memory', 'out of bounds %s' % what)
                return None
        else:
            end = add(p.off, bv(n, 64))
            bad = bor(icmp('ugt', end, o.size), icmp('ult', end, p.off))
            if bad is not FALSE:
                st.obs.append(('assert', 'in-bounds memory %s' % what, len(st.pc), (bnot(bad),)))
                self.assume(st, bnot(bad))
        return o

    def to_array(self, st, oid, es, ez):
        o = self.wr(st, oid)
        if o.arr is None:
            z = fbitsconst(0, es) if isinstance(es, str) else bv(0, es[1])
            a = mk('aconst', (z,), ('arr', es)) if o.zero else mk('avar', (), ('arr', es), 'uninit%d' % oid)
            cells = o.cells
            o.cells = {}
            for k in sorted(cells):
                n, v = cells[k]
                if v is UNDEF: continue
                if n > ez and n % ez == 0 and k % ez == 0:
                    b = tobits(self.val_sort(v, n))
                    for q in range(n // ez):
                        a = app('astore', (a, bv(k // ez + q, 64), fromsort(app('extract', (b,), ('bv', 8 * ez), 8 * ez * q), es)), a.sort)
                    continue
                if n != ez or k % ez: raise Inconclusive('array conversion')
                a = app('astore', (a, bv(k // ez, 64), fromsort(self.val_sort(v, n), es)), a.sort)
            o.arr = (es, ez, a)
        return o

    SMALL = 40

    def load(self, st, p, ty):
        if isinstance(ty, tuple) and ty[0] in ('vec', 'arr', 'st'):
            return self.load_agg(st, p, ty)
        n = sizeof(ty)
        o = self.check_access(st, p, n, 'load')
        if o is None: return None
        if p.off.op == 'const':
            return self.conv(self.getbytes(st, o, p.off.val, n), ty)
        s = sort_of(ty)
        if o.arr is None and o.size.op == 'const' and o.size.val <= self.SMALL * n:
            r = None
            for k in range(0, o.size.val - n + 1, n):
                v = self.getbytes(st, o, k, n)
                if v is UNDEF: continue
                if isinstance(v, (Ptr, Fn)): raise Inconclusive('symbolic load of pointer')
                v = fromsort(v, s)
                c = icmp('eq', p.off, bv(k, 64))
                if c is FALSE: continue
                r = v if r is None else ite(c, v, r)
            if r is None: return UNDEF
            return r
        o = self.to_array(st, p.obj, s, n) if o.arr is None else o
        es, ez, a = o.arr
        if ez != n: raise Inconclusive('array element size')
        return self.conv(app('asel', (a, self.index(p.off, ez)), es), ty)

    def index(self, off, ez):
        if off.op == 'const':
            return bv(off.val // ez, 64)
        if off.op == 'mul' and off.args[1].op == 'const' and off.args[1].val == ez: return off.args[0]
        if off.op == 'add' and off.args[1].op == 'const' and off.args[1].val % ez == 0:
            v = off.args[1].val
            if v >> 63: v -= 1 << 64
            return add(self.index(off.args[0], ez), bv(v // ez, 64))
        if off.op == 'add':
            return add(self.index(off.args[0], ez), self.index(off.args[1], ez))
        if off.op == 'sub':
            return sub(self.index(off.args[0], ez), self.index(off.args[1], ez))
        if off.op == 'ite':
            return ite(off.args[0], self.index(off.args[1], ez), self.index(off.args[2], ez))
        if off.op == 'and' and off.args[1].op == 'const' and off.args[0].op == 'mul':
            pass
        return app('udiv', (off, bv(ez, 64)), I64)

    def store(self, st, p, ty, v):
        if isinstance(ty, tuple) and ty[0] in ('vec', 'arr', 'st'):
            return self.store_agg(st, p, ty, v)
        n = sizeof(ty)
        o = self.check_access(st, p, n, 'store')
        if o is None: return False
        if o.ro:
            self.violate(st, 'memory', 'write to constant')
            return False
        if isinstance(v, Term) and isinstance(v.sort, tuple) and v.sort[0] == 'bv' and v.sort[1] < 8 * n:
            v = app('zext', (v,), ('bv', 8 * n))
        if p.off.op == 'const':
            self.putbytes(self.wr(st, p.obj), p.off.val, n, v)
            return True
        if isinstance(v, (Ptr, Fn)): raise Inconclusive('symbolic store of pointer')
        s = sort_of(ty)
        if v is UNDEF: v = self.fresh(st, s)
        if isinstance(s, tuple) and s[1] < 8 * n: s = ('bv', 8 * n)
        if o.arr is None and o.size.op == 'const' and o.size.val <= self.SMALL * n:
            o = self.wr(st, p.obj)
            for k in range(0, o.size.val - n + 1, n):
                c = icmp('eq', p.off, bv(k, 64))
                if c is FALSE: continue
                old = self.getbytes(st, o, k, n)
                if old is UNDEF: self.putbytes(o, k, n, v)
                elif isinstance(old, (Ptr, Fn)): raise Inconclusive('symbolic store over pointer')
                else: self.putbytes(o, k, n, ite(c, fromsort(v, old.sort), old))
            return True
        o = self.to_array(st, p.obj, s, n) if o.arr is None else self.wr(st, p.obj)
        es, ez, a = o.arr
        if ez != n: raise Inconclusive('array element size')
        o.arr = (es, ez, app('astore', (a, self.index(p.off, ez), fromsort(v, es)), a.sort))
        return True

    def parts(self, ty):
        if ty[0] in ('arr', 'vec'):
            e = sizeof(ty[2])
            return [(k * e, ty[2]) for k in range(ty[1])]
        return [(fieldoff(ty, i), e) for i, e in enumerate(ty[2])]

    def load_agg(self, st, p, ty):
        r = []
        for o, e in self.parts(ty):
            v = self.load(st, Ptr(p.obj, add(p.off, bv(o, 64))), e)
            if v is None: return None
            r.append(v)
        return r

    def store_agg(self, st, p, ty, v):
        for k, (o, e) in enumerate(self.parts(ty)):
            if not self.store(st, Ptr(p.obj, add(p.off, bv(o, 64))), e, UNDEF if v is UNDEF else v[k]): return False
        return True

    def memcpy(self, st, d, s, n):
        if n.op != 'const': return self.memcpy_sym(st, d, s, n)
        n = n.val
        if n == 0: return True
        so = self.check_access(st, s, n, 'memcpy source')
        if so is None: return False
        do = self.check_access(st, d, n, 'memcpy destination')
        if do is None: return False
        if s.off.op != 'const' or d.off.op != 'const':
            # element-wise with the array's element size
            for q in (so, do):
                if q.arr is not None:
                    ez = q.arr[1]; ty = {4: 'float', 8: 'double'}.get(ez)
                    break
            else:
                cs = [c[0] for c in so.cells.values()] or [4]
                ez = max(set(cs), key=cs.count); ty = {4: ('i', 32), 8: ('i', 64), 1: ('i', 8)}[ez]
            if n % ez or n // ez > 4096: raise Inconclusive('memcpy at symbolic offset')
            if q.arr is not None and isinstance(q.arr[0], tuple): ty = ('i', 8 * ez)
            vals = []
            for k in range(0, n, ez):
                vals.append(self.load(st, Ptr(s.obj, add(s.off, bv(k, 64))), ty))
            for k, v in zip(range(0, n, ez), vals):
                if v is None: return False
                self.store(st, Ptr(d.obj, add(d.off, bv(k, 64))), ty, v)
            return True
        a, b = s.off.val, d.off.val
        if so.arr is not None or do.arr is not None:
            ez = (so.arr or do.arr)[1]
            if n % ez: raise Inconclusive('memcpy array')
            vals = [(k, self.getbytes(st, so, a + k, ez)) for k in range(0, n, ez)]
            do = self.wr(st, d.obj)
            for k, v in vals: self.putbytes(do, b + k, ez, v)
            return True
        # copy cells
        items = []
        covered = []
        for k, (cn, cv) in so.cells.items():
            if k >= a and k + cn <= a + n: items.append((k - a, cn, cv)); covered.append((k, k + cn))
            elif k < a + n and k + cn > a:
                lo, hi = max(k, a), min(k + cn, a + n)
                for i in range(lo, hi):
                    items.append((i - a, 1, self.getbytes(st, so, i, 1))); covered.append((i, i + 1))
        zero = so.zero
        do = self.wr(st, d.obj)
        # clear destination range
        self.carve(do, b, n)
        if zero != do.zero:
            # fill gaps explicitly
            cov = sorted(covered)
            pos = a
            for lo, hi in cov + [(a + n, a + n)]:
                g = pos
                while g < lo:
                    w = 8 if (g % 8 == 0 and lo - g >= 8) else 4 if (g % 4 == 0 and lo - g >= 4) else 1
                    do.cells[g - a + b] = (w, bv(0, 8 * w) if zero else UNDEF)
                    g += w
                pos = max(pos, hi)
        for k, cn, cv in items: do.cells[k + b] = (cn, cv)
        return True

    def memcpy_sym(self, st, d, s, n):
        # whole-object copy of a symbolically sized block
        if s.obj in st.mem and d.obj in st.mem:
            so, do = st.mem[s.obj], st.mem[d.obj]
            if s.off.op == 'const' and s.off.val == 0 and d.off.op == 'const' and d.off.val == 0 and so.arr is not None and \
               (n is so.size) and (do.arr is None and not do.cells):
                st.obs.append(('assert', 'in-bounds memcpy', len(st.pc), (bnot(icmp('ugt', n, do.size)),)))
                do = self.wr(st, d.obj)
                do.arr = so.arr
                return True
        r = self.rangecopy(st, d, s, n)
        if r is not None: return r
        vals = self.enum(st, n, 'memcpy length')
        return ('fork', n, vals)

    def inrange(self, st, p, n, what):
        o = st.mem.get(p.obj)
        if o is None or not o.live:
            self.violate(st, 'memory', 'invalid pointer ' + what)
            return None
        end = add(p.off, n)
        bad = bor(icmp('ugt', end, o.size), icmp('ult', end, p.off))
        if bad is not FALSE:
            st.obs.append(('assert', 'in-bounds memory ' + what, len(st.pc), (bnot(bad),)))
            self.assume(st, bnot(bad))
        return o

    def rangecopy(self, st, d, s, n):
        """copy of a symbolic number of bytes between array objects"""
        so, do = st.mem.get(s.obj), st.mem.get(d.obj)
        if so is None or do is None or (so.arr is None and do.arr is None): return None
        es, ez, _ = so.arr or do.arr
        for o in (so, do):
            if o.arr is not None and o.arr[1] != ez: return None
        if self.feas(st, bnot(icmp('eq', app('urem', (n, bv(ez, 64)), I64), bv(0, 64)))) is not False: return None
        if self.inrange(st, s, n, 'memcpy source') is None or self.inrange(st, d, n, 'memcpy destination') is None: return False
        a = self.to_array(st, s.obj, es, ez).arr[2]
        o = self.to_array(st, d.obj, es, ez)
        b = o.arr[2]
        if a.sort != b.sort: return None
        o.arr = (o.arr[0], ez, mk('acopy', (b, self.index(d.off, ez), a, self.index(s.off, ez), self.index(n, ez)), b.sort))
        return True

    def rangefill(self, st, d, v, n):
        o = st.mem.get(d.obj)
        if o is None or o.arr is None: return None
        es, ez, a = o.arr
        if self.feas(st, bnot(icmp('eq', app('urem', (n, bv(ez, 64)), I64), bv(0, 64)))) is not False: return None
        if self.inrange(st, d, n, 'memset') is None: return False
        w = v
        for _ in range(ez - 1): w = app('concat', (v, w), ('bv', w.sort[1] + 8))
        o = self.wr(st, d.obj)
        o.arr = (es, ez, mk('afill', (a, self.index(d.off, ez), self.index(n, ez), fromsort(w, es)), a.sort))
        return True

    def memset(self, st, d, v, n):
        if n.op != 'const':
            o = st.mem.get(d.obj)
            if o is not None and d.off.op == 'const' and d.off.val == 0 and v.op == 'const' and v.val == 0 and \
               (n is o.size or self.feas(st, bnot(icmp('eq', n, o.size))) is False):
                o = self.wr(st, d.obj)
                o.cells = {}
                o.zero = True
                if o.arr is not None:
                    es, ez, a = o.arr
                    z = fbitsconst(0, es) if isinstance(es, str) else bv(0, es[1])
                    o.arr = (es, ez, mk('aconst', (z,), ('arr', es)))
                return True
            r = self.rangefill(st, d, v, n)
            if r is not None: return r
            return ('fork', n, self.enum(st, n, 'memset length'))
        n = n.val
        if n == 0: return True
        o = self.check_access(st, d, n, 'memset')
        if o is None: return False
        if d.off.op != 'const': raise Inconclusive('memset symbolic offset')
        o = self.wr(st, d.obj)
        b = d.off.val
        if o.arr is not None:
            ez = o.arr[1]
            if n % ez or n // ez > 5000: raise Inconclusive('memset array')
            w = v
            for _ in range(ez - 1): w = app('concat', (v, w), ('bv', w.sort[1] + 8))
            if o.size.op == 'const' and o.size.val == n and w.op == 'const':
                es = o.arr[0]
                o.arr = (es, ez, mk('aconst', (mk('const', (), es, w.val),), ('arr', es)))
                return True
            for k in range(0, n, ez): self.putbytes(o, b + k, ez, w)
            return True
        if v.op == 'const' and v.val == 0 and b == 0 and o.size.op == 'const' and o.size.val == n:
            o.cells = {}
            o.zero = True
            return True
        self.carve(o, b, n)
        if o.zero and v.op == 'const' and v.val == 0: return True
        g = 0
        while g < n:
            w = 8 if n - g >= 8 and (b + g) % 8 == 0 else 4 if n - g >= 4 and (b + g) % 4 == 0 else 1
            x = v
            for _ in range(w - 1): x = app('concat', (v, x), ('bv', x.sort[1] + 8))
            o.cells[b + g] = (w, x)
            g += w
        return True

    # ------------------------------------------------------------ constants and globals
    def glob(self, st, name):
        name = self.mod.aliases.get(name, name)
        if name in self.mod.funcs or name in self.mod.decls and name not in self.mod.globals: return Fn(name)
        if name not in st.globs:
            txt = self.mod.globals.get(name)
            if txt is None: return Fn(name)
            from llparse import tokenize, P
            m = re.search(r'\b(constant|global)\b', txt)
            if not m or 'external' in txt[:m.start()]: raise Inconclusive('global ' + name)
            p = P(tokenize(txt[m.end():]))
            ty = p.type()
            v = p.value(ty)
            o = self.new_obj(st, sizeof(ty), name=name)
            st.globs[name] = o.id
            self.init(st, o, 0, ty, v)
            o.ro = m.group(1) == 'constant'
        return Ptr(st.globs[name], bv(0, 64))

    def init(self, st, o, off, ty, v):
        if v[0] == 'zero':
            for k in range(sizeof(ty)): o.cells[off + k] = (1, bv(0, 8))
        elif v[0] == 'str':
            for k, c in enumerate(v[1]): o.cells[off + k] = (1, bv(c, 8))
        elif v[0] == 'undef': pass
        elif isinstance(ty, tuple) and ty[0] in ('arr', 'st', 'vec'):
            for (fo, ft), (et, ev_) in zip(self.parts(ty), v[1]): self.init(st, o, off + fo, ft, ev_)
        else:
            o.cells[off] = (sizeof(ty), self.const(st, ty, v))

    def const(self, st, ty, v):
        k = v[0]
        if k == 'int': return bv(v[1], ty[1])
        if k == 'fp':
            s = sort_of(ty)
            x = v[1]
            if x.startswith('f0x'): return fbitsconst(int(x[3:], 16), s)
            if x.startswith('0x'):
                d = int(x, 16)
                return fbitsconst(d, 'f64') if s == 'f64' else fconst(bits2f(d, 'f64'), 'f32')
            y = x.lstrip('+-')
            if y.startswith('inf'): return fconst(-math.inf if x[0] == '-' else math.inf, s)
            if 'nan' in y:
                b = f2bits(np.float32(np.nan) if s == 'f32' else np.float64(np.nan), s) & ~(1 << (fw(s) - 1))
                return fbitsconst(b | ((1 << (fw(s) - 1)) if x[0] == '-' else 0), s)
            return fconst(float(x), s)
        if k == 'null': return Ptr(0, bv(0, 64))
        if k == 'undef':
            if isinstance(ty, tuple) and ty[0] in ('st', 'arr'): return [self.const(st, e, v) for _, e in self.parts(ty)]
            if isinstance(ty, tuple) and ty[0] == 'vec': return [UNDEF] * ty[1]
            return UNDEF
        if k == 'zero':
            if isinstance(ty, tuple) and ty[0] in ('st', 'arr', 'vec'): return [self.const(st, e, v) for _, e in self.parts(ty)]
            if ty == 'ptr': return Ptr(0, bv(0, 64))
            s = sort_of(ty)
            return mk('const', (), s, 0)
        if k == 'splat': return [self.const(st, v[1], v[2])] * ty[1]
        if k == 'agg': return [self.const(st, t, x) for t, x in v[1]]
        if k == 'str': return [bv(c, 8) for c in v[1]]
        if k == 'glob': return self.glob(st, v[1])
        if k == 'cexpr':
            if v[1] == 'gep':
                base = self.const(st, v[3][0][0], v[3][0][1])
                return self.gep(v[2], base, [self.const(st, t, x) for t, x in v[3][1:]])
            if v[1] in ('ptrtoint',): return self.to_int(self.const(st, v[2][0], v[2][1]))
            if v[1] == 'inttoptr': return self.to_ptr(self.const(st, v[2][0], v[2][1]))
            if v[1] in ('add', 'sub', 'mul'):
                a, b = [self.to_int(self.const(st, t, x)) for t, x in v[2]]
                return app(v[1], (a, b), a.sort)
        raise Inconclusive('const %r' % (v,))

    def v(self, st, fr, ty, v):
        if v[0] == 'loc': return fr.loc[v[1]]
        return self.const(st, ty, v)

    def gep(self, sty, base, idx):
        base = self.to_ptr(base)
        off = base.off
        ty = sty
        for k, i in enumerate(idx):
            if i.sort != I64: i = app('sext', (i,), I64) if i.sort[1] < 64 else app('extract', (i,), I64, 0)
            if k == 0:
                off = add(off, mul(i, bv(sizeof(ty), 64)))
            elif ty[0] == 'st':
                off = add(off, bv(fieldoff(ty, i.val), 64)); ty = ty[2][i.val]
            else:
                off = add(off, mul(i, bv(sizeof(ty[2]), 64))); ty = ty[2]
        return Ptr(base.obj, off)

    # ------------------------------------------------------------ path handling
    def assume(self, st, c):
        if c is TRUE or c.id in st.pcset: return
        if c.op == 'and' and c.sort == BOOL:
            self.assume(st, c.args[0]); self.assume(st, c.args[1])
            return
        st.pc.append(c)
        st.pcset.add(c.id)
        if st.env is not None:
            try:
                if not evaluate([c], st.env)[0]: st.env = None
            except Exception:
                st.env = None

    def known(self, st, c):
        if c is TRUE or c is FALSE: return c is TRUE
        if c.id in st.pcset: return True
        if bnot(c).id in st.pcset: return False
        return None

    def branch(self, st, c):
        """returns list of (state, bool); st is reused for the first"""
        k = self.known(st, c)
        if k is not None: return [(st, k)]
        self.tick()
        envside = None
        if st.env is not None:
            try: envside = bool(evaluate([c], st.env)[0])
            except Exception: envside = None
        env = st.env
        fe = {}
        for side in (True, False):
            if envside is side: fe[side] = True
            else:
                r = self.feas(st, c if side else bnot(c))
                fe[side] = r is not False
        if fe[True] and fe[False]:
            self.forks += 1
            o = st.fork()
            self.assume(st, c)
            self.assume(o, bnot(c))
            st.env = env if envside is True else None
            o.env = env if envside is False else None
            return [(st, True), (o, False)]
        if fe[True]:
            return [(st, True)]
        if fe[False]: return [(st, False)]
        self.dead += 1
        return []

    dead = 0

    def enum(self, st, t, what):
        """all feasible values of an integer term (bounded), via the solver"""
        vals, whole = self.feas.values(st, t, self.enum_bound)
        if not whole:
            if not vals: raise Inconclusive('no value for %s' % what)
            self.narrow('more than %d values of %s: these only' % (len(vals), what))
        return vals

    def narrow(self, msg):
        self.narrowed[msg] = self.narrowed.get(msg, 0) + 1

    deadline = None

    def tick(self):
        if self.deadline is not None and time.time() > self.deadline: raise TimeUp()

    def violate(self, st, kind, msg):
        st.obs.append((kind, msg, len(st.pc), ()))
        st.frames = []
        st.status = 'violate'

    # ------------------------------------------------------------ main loop
    def run(self, fname, on_path):
        st = State()
        f = self.mod.func(fname)
        if f is None: raise Inconclusive('no function ' + fname)
        self.push(st, f, [], None)
        work = [st]
        while work:
            st = work.pop()
            try: new = self.run_path(st, on_path)
            except Inconclusive as e:
                # this path only; the others are still decided
                self.lost[str(e)] = self.lost.get(str(e), 0) + 1
                continue
            work.extend(new)
            if self.paths > self.max_paths:
                self.narrow('path bound %d exceeded' % self.max_paths)
                break

    def push(self, st, f, args, ret):
        fr = Frame()
        fr.f, fr.blk, fr.ix, fr.prev, fr.ret = f, f.entry, 0, None, ret
        fr.loc = {}
        fr.allocas = []
        for (t, n), a in zip(f.params, args): fr.loc[n] = a
        if len(st.frames) > 60: raise Inconclusive('call depth')
        st.frames.append(fr)
        self.fns.add(f.name)

    def run_path(self, st, on_path):
        st.status = None
        while True:
            if not st.frames:
                self.paths += 1
                on_path(st)
                return []
            fr = st.frames[-1]
            I = fr.f.blocks[fr.blk][fr.ix]
            st.steps += 1
            self.nsteps += 1
            if not self.nsteps & 255: self.tick()
            if st.steps > self.max_steps: raise Inconclusive('step bound %d exceeded (loop not fully unrolled)' % self.max_steps)
            if I['dbg'] is not None: self.dbg.add((fr.f.path, I['dbg']))
            r = self.step(st, fr, I)
            if r is not None: return r   # list of successor states

    def goto(self, st, fr, to):
        blk = fr.f.blocks[to]
        vals = []
        k = 0
        while k < len(blk) and blk[k]['k'] == 'phi':
            I = blk[k]
            vals.append((I['dst'], self.v(st, fr, I['ty'], I['inc'][fr.blk])))
            k += 1
        for d, x in vals: fr.loc[d] = x
        fr.prev, fr.blk, fr.ix = fr.blk, to, k

    def vecop(self, ty, f, *vs):
        if isinstance(ty, tuple) and ty[0] == 'vec':
            return [f(ty[2], *[x if x is not UNDEF else UNDEF for x in xs]) for xs in zip(*[(v if v is not UNDEF else [UNDEF] * ty[1]) for v in vs])]
        return f(ty, *vs)

    def step(self, st, fr, I):
        k = I['k']
        nxt = True
        if k == 'bin':
            a, b = self.v(st, fr, I['ty'], I['a']), self.v(st, fr, I['ty'], I['b'])
            if I['op'] in ('udiv', 'urem', 'sdiv', 'srem'):
                z = icmp('eq', b, bv(0, b.sort[1])) if isinstance(b, Term) else FALSE
                if z is not FALSE and self.known(st, z) is not False:
                    rs = self.branch(st, z)
                    out = []
                    for s, side in rs:
                        if side: self.violate(s, 'memory', 'integer division by zero')
                        out.append(s)
                    return out if not (len(rs) == 1 and not rs[0][1]) else self._bin_done(st, fr, I, a, b)
            fr.loc[I['dst']] = self.vecop(I['ty'], lambda t, x, y: self.bin(st, I['op'], t, x, y), a, b)
        elif k == 'fneg':
            fr.loc[I['dst']] = self.vecop(I['ty'], lambda t, x: app('fneg', (self.nu(st, x, t),), x.sort if isinstance(x, Term) else sort_of(t)), self.v(st, fr, I['ty'], I['a']))
        elif k == 'icmp':
            a, b = self.v(st, fr, I['ty'], I['a']), self.v(st, fr, I['ty'], I['b'])
            fr.loc[I['dst']] = self.vecop(I['ty'], lambda t, x, y: self.icmp(st, I['pred'], t, x, y), a, b)
        elif k == 'fcmp':
            a, b = self.v(st, fr, I['ty'], I['a']), self.v(st, fr, I['ty'], I['b'])

            def fc(t, x, y):
                if I['pred'] == 'true': return TRUE
                if I['pred'] == 'false': return FALSE
                return fcmp(I['pred'], self.nu(st, x, t), self.nu(st, y, t))
            fr.loc[I['dst']] = self.vecop(I['ty'], fc, a, b)
        elif k == 'select':
            c = self.v(st, fr, I['ct'], I['c'])
            a, b = self.v(st, fr, I['ty'], I['a']), self.v(st, fr, I['ty'], I['b'])
            r = self.select(st, c, a, b)
            if r is None:
                out = []
                for s, side in self.branch(st, c):
                    f2 = s.frames[-1]
                    f2.loc[I['dst']] = a if side else b
                    f2.ix += 1
                    out.append(s)
                return out
            fr.loc[I['dst']] = r
        elif k == 'jmp':
            self.goto(st, fr, I['to'])
            nxt = False
        elif k == 'br':
            c = self.v(st, fr, ('i', 1), I['c'])
            if c is UNDEF: raise Inconclusive('branch on undef')
            rs = self.branch(st, c)
            if len(rs) == 1 and rs[0][0] is st:
                self.goto(st, fr, I['a'] if rs[0][1] else I['b'])
                return None
            out = []
            for s, side in rs:
                self.goto(s, s.frames[-1], I['a'] if side else I['b'])
                out.append(s)
            return out
        elif k == 'switch':
            x = self.v(st, fr, I['ty'], I['v'])
            if x.op == 'const':
                to = I['d']
                for cv, l in I['cs']:
                    if (cv[1] & ((1 << x.sort[1]) - 1)) == x.val: to = l; break
                self.goto(st, fr, to)
                return None
            out = []
            rest = st
            for cv, l in I['cs']:
                c = icmp('eq', x, bv(cv[1], x.sort[1]))
                nrest = None
                for s, side in self.branch(rest, c):
                    if side:
                        self.goto(s, s.frames[-1], l); out.append(s)
                    else: nrest = s
                if nrest is None: return out
                rest = nrest
            self.goto(rest, rest.frames[-1], I['d'])
            out.append(rest)
            return out
        elif k == 'ret':
            rv = self.v(st, fr, I['ty'], I['v']) if I['v'] is not None else None
            for oid in fr.allocas:
                o = self.wr(st, oid); o.live = False; o.cells = {}
            st.frames.pop()
            if st.frames:
                f2 = st.frames[-1]
                if fr.ret: f2.loc[fr.ret] = rv
                f2.ix += 1
            else:
                st.status = 'done'
            return None
        elif k == 'unreachable':
            self.violate(st, 'memory', 'reached unreachable')
            return None
        elif k == 'call':
            return self.call(st, fr, I)
        elif k == 'alloca':
            n = self.v(st, fr, ('i', 64), I['n'])
            o = self.new_obj(st, sizeof(I['ty']) * n.val, name='alloca')
            fr.allocas.append(o.id)
            fr.loc[I['dst']] = Ptr(o.id, bv(0, 64))
        elif k == 'load':
            r = self.load(st, self.to_ptr(self.v(st, fr, 'ptr', I['a'])), I['ty'])
            if r is None: return None
            fr.loc[I['dst']] = r
        elif k == 'store':
            if not self.store(st, self.to_ptr(self.v(st, fr, 'ptr', I['a'])), I['ty'], self.v(st, fr, I['ty'], I['v'])): return None
        elif k == 'gep':
            fr.loc[I['dst']] = self.gep(I['st'], self.v(st, fr, 'ptr', I['base']), [self.v(st, fr, t, x) for t, x in I['idx']])
        elif k == 'cast':
            a = self.v(st, fr, I['ty'], I['a'])
            if isinstance(I['ty'], tuple) and I['ty'][0] == 'vec' and I['op'] != 'bitcast':
                r = [self.cast(st, I['op'], I['ty'][2], x, I['to'][2]) for x in a]
            elif I['op'] == 'bitcast' and (isinstance(I['ty'], tuple) and I['ty'][0] == 'vec' or isinstance(I['to'], tuple) and I['to'][0] == 'vec'):
                r = self.vbitcast(st, I['ty'], a, I['to'])
            else:
                r = self.cast(st, I['op'], I['ty'], a, I['to'])
            fr.loc[I['dst']] = r
        elif k == 'freeze':
            a = self.v(st, fr, I['ty'], I['a'])
            fr.loc[I['dst']] = self.vecop(I['ty'], lambda t, x: self.nu(st, x, t) if t != 'ptr' else x, a) if not isinstance(a, list) or I['ty'][0] == 'vec' else a
        elif k == 'extractvalue':
            a = self.v(st, fr, I['ty'], I['a'])
            for i in I['ix']: a = a[i] if a is not UNDEF else UNDEF
            fr.loc[I['dst']] = a
        elif k == 'insertvalue':
            a = self.v(st, fr, I['ty'], I['a'])
            e = self.v(st, fr, I['ety'], I['e'])
            fr.loc[I['dst']] = self.ins(a, I['ty'], I['ix'], e)
        elif k == 'extractelement':
            a = self.v(st, fr, I['ty'], I['a']); i = self.v(st, fr, I['ity'], I['i'])
            if i.op != 'const': raise Inconclusive('extractelement')
            fr.loc[I['dst']] = a[i.val] if a is not UNDEF else UNDEF
        elif k == 'insertelement':
            a = self.v(st, fr, I['ty'], I['a']); i = self.v(st, fr, I['ity'], I['i'])
            if i.op != 'const': raise Inconclusive('insertelement')
            a = list(a) if a is not UNDEF else [UNDEF] * I['ty'][1]
            a[i.val] = self.v(st, fr, I['ety'], I['e'])
            fr.loc[I['dst']] = a
        elif k == 'shufflevector':
            n = I['ty'][1]
            a = self.v(st, fr, I['ty'], I['a']); b = self.v(st, fr, I['ty'], I['b'])
            a = a if a is not UNDEF else [UNDEF] * n
            b = b if b is not UNDEF else [UNDEF] * n
            m = self.v(st, fr, I['mty'], I['m'])
            fr.loc[I['dst']] = [UNDEF if x is UNDEF else (a + b)[x.val] for x in m]
        else:
            raise Inconclusive('unsupported instruction %s' % (I.get('s') or k))
        if nxt: fr.ix += 1
        return None

    def _bin_done(self, st, fr, I, a, b):
        fr.loc[I['dst']] = self.bin(st, I['op'], I['ty'], a, b)
        fr.ix += 1
        return None

    def ins(self, a, ty, ix, e):
        if a is UNDEF: a = [UNDEF] * len(self.parts(ty))
        a = list(a)
        if len(ix) == 1: a[ix[0]] = e
        else: a[ix[0]] = self.ins(a[ix[0]], self.parts(ty)[ix[0]][1], ix[1:], e)
        return a

    def nu(self, st, x, ty):
        if x is UNDEF: return self.fresh(st, sort_of(ty), 'undef')
        return x

    def bin(self, st, op, ty, a, b):
        if isinstance(a, (Ptr, Fn)): a = self.to_int(a)
        if isinstance(b, (Ptr, Fn)): b = self.to_int(b)
        a, b = self.nu(st, a, ty), self.nu(st, b, ty)
        if op == 'urem' and b.op != 'const': return self.urem(st, a, b)
        return app(op, (a, b), a.sort)

    def urem(self, st, a, b):
        """a remainder that wraps at most once, as ring positions do, without the division"""
        lt, d = icmp('ult', a, b), app('sub', (a, b), a.sort)
        once = icmp('ult', d, b)
        def never(c):
            if st.env is not None:
                try:
                    if evaluate([c], st.env)[0]: return False
                except Exception: pass
            return self.feas(st, c) is False
        if never(bnot(lt)): return a
        if never(band(bnot(lt), bnot(once))): return d if never(lt) else ite(lt, a, d)
        return app('urem', (a, b), a.sort)

    def icmp(self, st, pred, ty, a, b):
        if ty == 'ptr':
            a, b = self.to_ptr(a) if not isinstance(a, Fn) else a, self.to_ptr(b) if not isinstance(b, Fn) else b
            if isinstance(a, Ptr) and isinstance(b, Ptr):
                if pred in ('eq', 'ne') and a.obj != b.obj:
                    return FALSE if pred == 'eq' else TRUE
                if a.obj == b.obj: return icmp(pred, a.off, b.off)
            a, b = self.to_int(a), self.to_int(b)
        if isinstance(a, (Ptr, Fn)): a = self.to_int(a)
        if isinstance(b, (Ptr, Fn)): b = self.to_int(b)
        return icmp(pred, self.nu(st, a, ty), self.nu(st, b, ty))

    def select(self, st, c, a, b):
        if isinstance(c, list):
            return [self.select(st, x, y, z) for x, y, z in zip(c, a, b)]
        if c is UNDEF: raise Inconclusive('select on undef')
        if c is TRUE: return a
        if c is FALSE: return b
        kn = self.known(st, c)
        if kn is not None: return a if kn else b
        if a is UNDEF: return b
        if b is UNDEF: return a
        if isinstance(a, list):
            r = [self.select(st, c, x, y) for x, y in zip(a, b)]
            return None if any(x is None for x in r) else r
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj: return Ptr(a.obj, ite(c, a.off, b.off))
        if isinstance(a, (Ptr, Fn)) or isinstance(b, (Ptr, Fn)): return None
        return ite(c, a, b)

    def vbitcast(self, st, ty, a, to):
        xs = a if isinstance(a, list) else [a]
        if a is UNDEF or any(x is UNDEF for x in xs): raise Inconclusive('vector bitcast of undef')
        r = None
        for x in xs:
            b = tobits(self.to_int(x))
            r = b if r is None else app('concat', (b, r), ('bv', b.sort[1] + r.sort[1]))
        if isinstance(to, tuple) and to[0] == 'vec':
            n = sizeof(to[2]) * 8
            return [self.conv(app('extract', (r,), ('bv', n), n * k), to[2]) for k in range(to[1])]
        return self.conv(r, to)

    def cast(self, st, op, ty, a, to):
        if a is UNDEF and op != 'bitcast': a = self.nu(st, a, ty)
        if a is UNDEF: return UNDEF
        if op in ('ptrtoint', 'ptrtoaddr'):
            v = self.to_int(a)
            return v if to == ('i', 64) else app('extract', (v,), sort_of(to), 0)
        if op == 'inttoptr': return self.to_ptr(a)
        if op == 'trunc': return app('extract', (self.to_int(a),), sort_of(to), 0)
        if op == 'zext': return app('zext', (a,), sort_of(to))
        if op == 'sext': return app('sext', (a,), sort_of(to))
        if op == 'bitcast': return self.conv(a, to)
        if op in ('fptrunc', 'fpext', 'uitofp', 'sitofp', 'fptoui', 'fptosi'): return app(op, (a,), sort_of(to))
        if op == 'addrspacecast': return a
        raise Inconclusive('cast ' + op)

    # ------------------------------------------------------------ calls
    def call(self, st, fr, I):
        f = I['f']
        fv = self.v(st, fr, 'ptr', f)
        if not isinstance(fv, Fn):
            raise Inconclusive('indirect call')
        name = self.mod.aliases.get(fv.name, fv.name)
        if name.startswith('llvm.'):
            if name.startswith(('llvm.dbg', 'llvm.lifetime', 'llvm.experimental.noalias', 'llvm.invariant', 'llvm.prefetch')):
                fr.ix += 1
                return None
        args = [self.v(st, fr, t, x) if t != 'metadata' else None for t, x in I['args']]
        h = self.ext(st, fr, I, name, args)
        if h is not NotImplemented: return h
        fn = self.mod.func(name)
        if fn is not None:
            if PANIC.search(name) and self.is_panic(fn, name):
                self.violate(st, 'panic', self.panic_msg(st, name, args))
                return None
            self.push(st, fn, args, I['dst'])
            return None
        # external, not modelled
        b = fr.f.blocks[fr.blk]
        if fr.ix + 1 < len(b) and b[fr.ix + 1]['k'] == 'unreachable':
            self.violate(st, 'panic', self.panic_msg(st, name, args))
            return None
        raise Inconclusive('external function ' + name)

    def is_panic(self, fn, name):
        # a function all of whose terminators are unreachable
        return all(bl[-1]['k'] == 'unreachable' for bl in fn.blocks.values() if bl) or 'panicking' in name

    def panic_msg(self, st, name, args):
        m = re.findall(r'\d+([A-Za-z_]{4,}?)(?=\d|$|E)', name)
        loc = ''
        for a in reversed(args):
            try:
                if isinstance(a, Ptr) and a.obj in st.mem:
                    o = st.mem[a.obj]
                    q = self.load(st, a, 'ptr')
                    if isinstance(q, Ptr) and q.obj in st.mem:
                        n = self.load(st, Ptr(a.obj, add(a.off, bv(8, 64))), ('i', 64)).val
                        ln = self.load(st, Ptr(a.obj, add(a.off, bv(16, 64))), ('i', 32)).val
                        loc = self.rdstr(st, q, n) + ':%d' % ln
                        break
            except Exception:
                pass
        return 'panic %s %s' % (name[-60:], loc)

    def rdstr(self, st, p, n):
        o = st.mem[p.obj]
        return bytes(self.getbytes(st, o, p.off.val + k, 1).val for k in range(n)).decode('utf8', 'replace')

    def finish(self, st, fr, I, v):
        if I['dst']: fr.loc[I['dst']] = v
        if I['op'] == 'invoke': self.goto(st, fr, I['to'])
        else: fr.ix += 1
        return None

    def inp(self, st, sort, lo=None, hi=None):
        n = 'in%d_%s' % (len(st.inputs), sort if isinstance(sort, str) else 'i%d' % sort[1])
        st.inputs.append((n, sort, lo, hi))
        return var(n, sort)

    def ext(self, st, fr, I, name, args):
        fin = lambda v=None: self.finish(st, fr, I, v)
        if name.startswith('vp_'): return self.vp(st, fr, I, name, args, fin)
        if name.startswith('llvm.'): return self.intrinsic(st, fr, I, name, args, fin)
        if name in LIBMX:
            op, s = LIBMX[name]
            return fin(app(op, tuple(args), s))
        if name == 'fmodf': return fin(app('frem', tuple(args), 'f32'))
        if name == 'fmod': return fin(app('frem', tuple(args), 'f64'))
        if name in ('fma', 'fmaf'): return fin(app('fma', tuple(args), args[0].sort))
        if name in ('memcmp', 'bcmp'):
            raise Inconclusive('memcmp')
        if '__rust_alloc_zeroed' in name or '___rust_alloc_zeroed' in name:
            o = self.new_obj(st, args[0], zero=True, name='heap')
            return fin(Ptr(o.id, bv(0, 64)))
        if '__rust_realloc' in name:
            p, old, al, new = args
            o = self.new_obj(st, new, name='heap')
            if new.op == 'const' and old.op == 'const':
                n = bv(min(new.val, old.val), 64)
                if not self.memcpy(st, Ptr(o.id, bv(0, 64)), p, n): return None
            else:
                so = st.mem[p.obj]
                # growing a symbolic block: keep contents
                lt = icmp('ult', new, old)
                if self.feas(st, lt) is not False: raise Inconclusive('symbolic shrinking realloc')
                if so.arr is None:
                    raise Inconclusive('symbolic realloc')
                o.arr = so.arr
            self.wr(st, p.obj).live = False
            return fin(Ptr(o.id, bv(0, 64)))
        if '__rust_dealloc' in name:
            p = self.to_ptr(args[0])
            if p.obj and p.obj in st.mem:
                self.wr(st, p.obj).live = False
            return fin()
        if '__rust_alloc' in name and 'error' not in name:
            if '__rust_no_alloc_shim' in name: return fin()
            o = self.new_obj(st, args[0], name='heap')
            return fin(Ptr(o.id, bv(0, 64)))
        if '__rust_no_alloc_shim' in name: return fin()
        return NotImplemented

    def vp(self, st, fr, I, name, a, fin):
        if name == 'vp_f32': return fin(self.inp(st, 'f32'))
        if name == 'vp_f64': return fin(self.inp(st, 'f64'))
        if name == 'vp_usize':
            lo, hi = a
            if lo is hi: return fin(lo)
            x = self.inp(st, I64, lo.val if lo.op == 'const' else None, hi.val if hi.op == 'const' else None)
            env = st.env
            if env is not None and lo.op == 'const':
                st.env = dict(env)
                st.env[x.val] = lo.val
            self.assume(st, bnot(icmp('ult', x, lo)))
            self.assume(st, bnot(icmp('ult', hi, x)))
            return fin(x)
        if name == 'vp_pick':
            # finite choice, explored by forking: value in [0, n)
            n = a[0].val
            x = self.inp(st, I64, 0, n - 1)
            out = []
            for k in range(n):
                s = st if k == n - 1 else st.fork()
                if s.env is not None:
                    s.env = dict(s.env)
                    s.env[x.val] = k
                self.assume(s, icmp('eq', x, bv(k, 64)))
                f2 = s.frames[-1]
                f2.loc[I['dst']] = bv(k, 64)
                f2.ix += 1
                out.append(s)
            return out
        if name == 'vp_assume':
            c = a[0]
            if c.sort != BOOL: c = app('extract', (c,), BOOL, 0)
            if c is FALSE or self.known(st, c) is False:
                st.frames = []; st.status = 'assumed'
                return None
            self.assume(st, c)
            if st.env is None and self.feas(st, TRUE) is False:
                st.frames = []; st.status = 'assumed'
                return None
            return fin()
        if name in ('vp_assert', 'vp_eq_f32', 'vp_eq_f64', 'vp_close_f32', 'vp_close_f64', 'vp_le_f32', 'vp_le_f64'):
            msg = self.rdstr(st, a[0], a[1].val)
            if name == 'vp_assert':
                c = a[2]
                if c.sort != BOOL: c = app('extract', (c,), BOOL, 0)
                st.obs.append(('assert', msg, len(st.pc), (c,)))
                if c is FALSE:
                    st.frames = []; st.status = 'violate'
                    return None
                self.assume(st, c)
            else:
                st.obs.append((name[3:-4].rstrip('_'), msg, len(st.pc), tuple(a[2:])))
            return fin()
        if name == 'vp_symbolic': return fin(bv(1, 8) if I['ty'] == ('i', 8) else bv(1, I['ty'][1]))
        if name == 'vp_tier': return fin(bv(self.tier, 64))
        if name == 'vp_mark':
            p = a[1]
            st.marks[a[0].val] = self.snapshot(st, p, a[2].val)
            return fin()
        if name == 'vp_havoc':
            # cells of [p, p+n) that differ from mark become arbitrary
            self.havoc(st, a[0].val, a[1], a[2].val)
            return fin()
        if name == 'vp_extrapolate':
            self.extrapolate(st, a[0].val, a[1], a[2].val, a[3])
            return fin()
        if name == 'vp_same':
            c = self.same(st, a[0].val, a[1], a[2].val)
            return fin(app('zext', (c,), ('bv', I['ty'][1])) if I['ty'] != ('i', 1) else c)
        if name == 'vp_opaque_f32' or name == 'vp_opaque_f64': return fin(a[0])
        raise Inconclusive(name)

    tier = 0
    split_fptoui = False

    def snapshot(self, st, p, n):
        o = st.mem[p.obj]
        b = p.off.val
        return {k - b: c for k, c in o.cells.items() if b <= k < b + n}

    def norm_cells(self, st, c0, c1):
        """pair up cells of two snapshots; yields (off, n, v0, v1)"""
        ks = sorted(set(c0) | set(c1))
        out = []
        for k in ks:
            a, b = c0.get(k), c1.get(k)
            if a is None or b is None or a[0] != b[0]: raise Inconclusive('snapshot layout')
            out.append((k, a[0], a[1], b[1]))
        return out

    def veq(self, x, y):
        if x is y: return TRUE
        if x is UNDEF or y is UNDEF: return TRUE if x is y else FALSE
        if isinstance(x, (Ptr, Fn)) or isinstance(y, (Ptr, Fn)):
            x, y = self.to_int(x), self.to_int(y)
        x, y = tobits(x), tobits(y)
        return icmp('eq', x, y)

    def same(self, st, mid, p, n):
        c1 = self.snapshot(st, p, n)
        r = TRUE
        for k, w, a, b in self.norm_cells(st, st.marks[mid], c1): r = band(r, self.veq(a, b))
        return r

    def havoc(self, st, mid, p, n):
        c1 = self.snapshot(st, p, n)
        o = self.wr(st, p.obj)
        st.havocked = True
        for k, w, a, b in self.norm_cells(st, st.marks[mid], c1):
            if self.veq(a, b) is TRUE: continue
            if isinstance(b, (Ptr, Fn)): raise Inconclusive('havoc of pointer')
            s = b.sort if b is not UNDEF else a.sort
            x = self.fresh(st, s, 'havoc')
            o.cells[p.off.val + k] = (w, x)
            if isinstance(s, tuple) and w == 1 and (b.op == 'const' and b.val <= 1):
                self.assume(st, icmp('ule', x, bv(1, s[1])))
            st.notes.append('havoc +%d' % k)

    def extrapolate(self, st, mid, p, n, cnt):
        c1 = self.snapshot(st, p, n)
        o = self.wr(st, p.obj)
        st.havocked = True
        for k, w, a, b in self.norm_cells(st, st.marks[mid], c1):
            if self.veq(a, b) is TRUE: continue
            if a is UNDEF or b is UNDEF or isinstance(a, (Ptr, Fn)) or isinstance(b, (Ptr, Fn)): raise Inconclusive('extrapolate')
            s = b.sort
            if isinstance(s, str):
                x = app('fadd', (a, app('fmul', (app('uitofp', (cnt,), s), app('fsub', (b, a), s)), s)), s)
            else:
                c = cnt if s == I64 else app('extract', (cnt,), s, 0)
                x = add(a, mul(c, sub(b, a)))
            o.cells[p.off.val + k] = (w, x)
            st.notes.append('extrapolate +%d' % k)

    def split_round(self, st, I, base, x):
        """floor, ceil, trunc by case split on the result"""
        out = []
        fc = lambda k: fconst(float(k), x.sort)
        lt = lambda p, q: fcmp('olt', p, q)
        le = lambda p, q: fcmp('ole', p, q)

        def case(c, r):
            if c is not FALSE and self.feas(st, c) is not False:
                s = st.fork()
                self.assume(s, c)
                self.finish(s, s.frames[-1], I, r)
                out.append(s)
        case(bnot(fcmp('ord', x, x)), x)
        case(fcmp('oeq', x, fc(0)), x)
        k = 0
        while True:
            # results k+1 (ceil) or k for k < x < k+1 or at an end of it
            more = le(fc(k), x) if base != 'ceil' else lt(fc(k), x)
            if k == 0: more = lt(fc(0), x)
            if more is FALSE or self.feas(st, more) is False: break
            if k > self.enum_bound:
                self.narrow('%s: values up to %d only' % (base, self.enum_bound))
                break
            if base == 'ceil': case(band(more, le(x, fc(k + 1))), fc(k + 1))
            else: case(band(more, lt(x, fc(k + 1))), fc(k))
            k += 1
        k = 0
        while True:
            more = le(x, fc(-k)) if base != 'floor' else lt(x, fc(-k))
            if k == 0: more = lt(x, fc(0))
            if more is FALSE or self.feas(st, more) is False: break
            if k > self.enum_bound:
                self.narrow('%s: values down to %d only' % (base, -self.enum_bound))
                break
            if base == 'floor': case(band(more, le(fc(-k - 1), x)), fc(-k - 1))
            else: case(band(more, lt(fc(-k - 1), x)), fconst(-0.0, x.sort) if k == 0 else fc(-k))
            k += 1
        return out

    def intrinsic(self, st, fr, I, name, a, fin):
        n = name[5:]
        base = n.split('.')[0]
        ty = I['ty']
        vec = isinstance(ty, tuple) and ty[0] == 'vec'

        def el(f):
            if vec: return [f(*xs) for xs in zip(*[x if isinstance(x, list) else [x] * ty[1] for x in a])]
            return f(*a)
        U = lambda op: fin(el(lambda x: app(op, (x,), x.sort)))
        if base in ('fabs',): return U('fabs')
        if base == 'sqrt': return U('fsqrt')
        if base in ('cos', 'sin', 'tan', 'exp', 'exp2', 'log', 'log10', 'log2', 'tanh', 'sinh', 'cosh', 'acos', 'asin', 'atan'): return U(base)
        if base in ('floor', 'ceil', 'trunc') and self.split_fptoui and not vec and a[0].op != 'const': return self.split_round(st, I, base, a[0])
        if base == 'floor': return U('ffloor')
        if base == 'ceil': return U('fceil')
        if base == 'trunc': return U('ftrunc')
        if base == 'round': return U('fround')
        if base in ('rint', 'nearbyint', 'roundeven'): return U('frint')
        if base == 'pow': return fin(el(lambda x, y: app('pow', (x, y), x.sort)))
        if base == 'powi':
            x, e = a
            if e.op != 'const': raise Inconclusive('powi')
            k = sgn(e.val, 32)
            r = None
            # llvm powi: repeated multiplication
            b, m = x, abs(k)
            while m:
                if m & 1: r = b if r is None else app('fmul', (r, b), x.sort)
                m >>= 1
                if m: b = app('fmul', (b, b), x.sort)
            if r is None: r = fconst(1.0, x.sort)
            if k < 0: r = app('fdiv', (fconst(1.0, x.sort), r), x.sort)
            return fin(r)
        if base in ('fma', 'fmuladd'): return fin(el(lambda x, y, z: app('fma', (x, y, z), x.sort)))
        if base in ('minnum', 'minimumnum', 'minimum'): return fin(el(lambda x, y: app('fminnum', (x, y), x.sort)))
        if base in ('maxnum', 'maximumnum', 'maximum'): return fin(el(lambda x, y: app('fmaxnum', (x, y), x.sort)))
        if base == 'copysign': return fin(el(lambda x, y: app('copysign', (x, y), x.sort)))
        if base in ('umin', 'umax', 'smin', 'smax'):
            p = {'umin': 'ult', 'umax': 'ugt', 'smin': 'slt', 'smax': 'sgt'}[base]
            return fin(el(lambda x, y: ite(icmp(p, x, y), x, y)))
        if base == 'abs':
            return fin(el(lambda x, *_: ite(icmp('slt', x, bv(0, x.sort[1])), sub(bv(0, x.sort[1]), x), x)))
        m = re.match(r'([us])(add|sub|mul)\.with\.overflow\.i(\d+)', n)
        if m:
            w = int(m.group(3))
            x, y = a
            op = m.group(2)
            r = app(op, (x, y), ('bv', w))
            if m.group(1) == 'u':
                if op == 'add': ov = icmp('ult', r, x)
                elif op == 'sub': ov = icmp('ult', x, y)
                else:
                    W = ('bv', 2 * w)
                    e = app('mul', (app('zext', (x,), W), app('zext', (y,), W)), W)
                    if y.op == 'const' and y.val: ov = icmp('ugt', x, bv(((1 << w) - 1) // y.val, w))
                    elif x.op == 'const' and x.val: ov = icmp('ugt', y, bv(((1 << w) - 1) // x.val, w))
                    else: ov = bnot(icmp('eq', app('extract', (e,), ('bv', w), w), bv(0, w)))
            else:
                W = ('bv', w + 1) if op != 'mul' else ('bv', 2 * w)
                e = app(op, (app('sext', (x,), W), app('sext', (y,), W)), W)
                ov = bnot(icmp('eq', e, app('sext', (r,), W)))
            return fin([r, ov])
        m = re.match(r'([us])(add|sub)\.sat\.i(\d+)', n)
        if m:
            w = int(m.group(3))
            x, y = a
            r = app(m.group(2), (x, y), ('bv', w))
            if m.group(1) == 'u':
                if m.group(2) == 'add': return fin(ite(icmp('ult', r, x), bv(-1, w), r))
                return fin(ite(icmp('ult', x, y), bv(0, w), r))
            raise Inconclusive(name)
        if base in ('fptoui', 'fptosi'):
            t = app(base, (a[0],), sort_of(ty))
            if self.split_fptoui and t.op != 'const':
                if base == 'fptoui':
                    # case split on the integer part, by float comparisons
                    x, out, k = a[0], [], 0
                    while True:
                        if k > self.enum_bound:
                            self.narrow('float to integer conversion: values up to %d only' % self.enum_bound)
                            break
                        lo = fcmp('ole', fconst(float(k), x.sort), x) if k else TRUE
                        up = fcmp('ole', fconst(float(k + 1), x.sort), x)
                        c = band(lo, bnot(up))
                        if c is not FALSE and self.feas(st, c) is not False:
                            s = st.fork()
                            self.assume(s, c)
                            self.finish(s, s.frames[-1], I, bv(k, t.sort[1]))
                            out.append(s)
                        if up is FALSE or self.feas(st, up) is False: break
                        k += 1
                    return out
                vals = self.enum(st, t, 'float to integer conversion')
                out = []
                for i, v in enumerate(vals):
                    s = st if i == len(vals) - 1 else st.fork()
                    self.assume(s, icmp('eq', t, bv(v, t.sort[1])))
                    self.finish(s, s.frames[-1], I, bv(v, t.sort[1]))
                    out.append(s)
                return out
            return fin(t)
        if base == 'is': # is.fpclass
            return fin(self.fpclass(a[0], a[1].val))
        if base == 'assume':
            return fin()
        if base in ('expect',): return fin(a[0])
        if base in ('memcpy', 'memmove'):
            r = self.memcpy(st, self.to_ptr(a[0]), self.to_ptr(a[1]), a[2])
            if r is True: return fin()
            if isinstance(r, tuple): return self.forkval(st, r)
            return None
        if base == 'memset':
            r = self.memset(st, self.to_ptr(a[0]), a[1], a[2])
            if r is True: return fin()
            if isinstance(r, tuple): return self.forkval(st, r)
            return None
        if base == 'ctpop': return U('ctpop')
        if base == 'ctlz': return fin(app('ctlz', (a[0],), a[0].sort))
        if base == 'cttz': return fin(app('cttz', (a[0],), a[0].sort))
        if base in ('fshl', 'fshr'):
            x, y, z = a
            w = x.sort[1]
            if z.op != 'const': raise Inconclusive('fsh')
            k = z.val % w
            if base == 'fshr': k = (w - k) % w if k else 0
            if base == 'fshr' and z.val % w == 0: return fin(y)
            if k == 0: return fin(x)
            return fin(app('or', (app('shl', (x, bv(k, w)), x.sort), app('lshr', (y, bv(w - k, w)), x.sort)), x.sort))
        if base in ('ucmp', 'scmp'):
            p = 'ult' if base == 'ucmp' else 'slt'
            w = ty[1]
            return fin(ite(icmp(p, a[0], a[1]), bv(-1, w), ite(icmp('eq', a[0], a[1]), bv(0, w), bv(1, w))))
        if base == 'trap':
            self.violate(st, 'panic', 'trap')
            return None
        if base == 'bswap' or base == 'bitreverse': raise Inconclusive(name)
        if base == 'vector' and n.startswith('vector.reduce.fadd'):
            r = a[0]
            for x in a[1]: r = app('fadd', (r, x), x.sort)
            return fin(r)
        if base == 'threadlocal' or True:
            raise Inconclusive('intrinsic ' + name)

    def forkval(self, st, r):
        """re-execute the instruction with the term fixed to each feasible value: substitute through path condition"""
        _, t, vals = r
        out = []
        for i, v in enumerate(vals):
            s = st if i == len(vals) - 1 else st.fork()
            self.assume(s, icmp('eq', t, bv(v, t.sort[1])))
            self.subst(s, t, bv(v, t.sort[1]))
            out.append(s)
        return out

    def subst(self, st, t, c):
        """replace term t by constant c in the current frame's locals"""
        fr = st.frames[-1]
        memo = {t.id: c}
        for k, v in list(fr.loc.items()):
            if isinstance(v, Term): fr.loc[k] = subst_term(v, memo)
            elif isinstance(v, Ptr): fr.loc[k] = Ptr(v.obj, subst_term(v.off, memo))

    def fpclass(self, x, mask):
        s = x.sort
        w = fw(s)
        b = tobits(x)
        mb = 23 if s == 'f32' else 52
        mag = app('and', (b, bv((1 << (w - 1)) - 1, w)), ('bv', w))
        neg = icmp('slt', b, bv(0, w))
        inf = bv(((1 << (w - 1 - mb)) - 1) << mb, w)
        isnan = icmp('ugt', mag, inf)
        isinf = icmp('eq', mag, inf)
        iszero = icmp('eq', mag, bv(0, w))
        issub = band(icmp('ult', mag, bv(1 << mb, w)), bnot(iszero))
        isnorm = band(icmp('uge', mag, bv(1 << mb, w)), icmp('ult', mag, inf))
        r = FALSE
        nan = mask & 3
        if nan == 3: r = bor(r, fcmp('uno', x, x))
        elif nan: raise Inconclusive('fpclass nan kinds')
        m = mask & 0x3fc
        if ((m >> 5) & 1) == ((m >> 6) & 1):
            # a union of intervals: expressed through float comparisons
            zero, pinf, ninf = fconst(0.0, s), fconst(math.inf, s), fconst(-math.inf, s)
            minn = fbitsconst(1 << mb, s)
            nminn = fbitsconst((1 << mb) | (1 << (w - 1)), s)
            seq = [(m & 4, None, ('ole', ninf)), (m & 8, ('ogt', ninf), ('ole', nminn)), (m & 16, ('ogt', nminn), ('olt', zero)), (m & 32, ('oge', zero), ('ole', zero)),
                   (m & 128, ('ogt', zero), ('olt', minn)), (m & 256, ('oge', minn), ('olt', pinf)), (m & 512, ('oge', pinf), None)]
            k = 0
            while k < 7:
                if not seq[k][0]:
                    k += 1
                    continue
                e = k
                while e + 1 < 7 and seq[e + 1][0]: e += 1
                lo, hi = seq[k][1], seq[e][2]
                if lo is None and hi is None: c = fcmp('ord', x, x)
                elif k == 1 and e == 5: c = fcmp('olt', app('fabs', (x,), s), pinf)
                else:
                    c = TRUE
                    if lo: c = band(c, fcmp(lo[0], x, lo[1]))
                    if hi: c = band(c, fcmp(hi[0], x, hi[1]))
                r = bor(r, c)
                k = e + 1
            return r
        cl = [(4, neg, isinf), (8, neg, isnorm), (16, neg, issub), (32, neg, iszero), (64, bnot(neg), iszero), (128, bnot(neg), issub),
              (256, bnot(neg), isnorm), (512, bnot(neg), isinf)]
        for k, sg, c in cl:
            if m & k: r = bor(r, band(sg, c))
        return r


def subst_term(t, memo):
    r = memo.get(t.id)
    if r is not None: return r
    for u in subterms([t]):
        if u.id in memo: continue
        if not u.args:
            memo[u.id] = u
            continue
        na = tuple(memo[x.id] for x in u.args)
        memo[u.id] = u if all(x is y for x, y in zip(na, u.args)) else (app(u.op, na, u.sort, u.val) if u.op not in ('aconst', 'afill', 'acopy') else mk(u.op, na, u.sort, u.val))
    return memo[t.id]

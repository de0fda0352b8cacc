"""Symbolic executor for LLVM IR (see ir.py) over z3.

Integers are bit-vectors of their exact width; doubles are finite sets of IEEE doubles guarded by z3 conditions
(class FSet - arithmetic on them is done by the host's IEEE doubles, so rounding is the implementation's own), or
z3 Reals for inputs declared with vp_real (idealised arithmetic, stated by the checks that use them).
Pointers are 64-bit integers (object id << 32 | offset).  Paths are merged at immediate post-dominators.
"""
import time, struct, math, sys
from fractions import Fraction
import z3
from .ir import Module, IRError

sys.setrecursionlimit(100000)
ctx_main = z3.main_ctx()


class Unsupported(Exception):
    pass


class Inconclusive(Exception):
    pass


T, F = z3.BoolVal(True), z3.BoolVal(False)


def fkey(x):
    return struct.pack('<d', 0.0 if x == 0.0 and math.copysign(1, x) > 0 else x) if x == x else b'nan'


def z_and(a, b):
    if z3.is_true(a): return b
    if z3.is_true(b): return a
    if z3.is_false(a) or z3.is_false(b): return F
    if a.eq(b): return a
    return z3.And(a, b)


def z_or(a, b):
    if z3.is_false(a): return b
    if z3.is_false(b): return a
    if z3.is_true(a) or z3.is_true(b): return T
    return z3.Or(a, b)


def z_not(a):
    if z3.is_true(a): return F
    if z3.is_false(a): return T
    if z3.is_not(a): return a.arg(0)
    return z3.Not(a)


class Pack:
    """several floating-point cells read as one wide integer (a struct of two floats moved as an i64)"""
    def __init__(self, parts): self.parts = parts

    def low(self, nb):
        out = []; t = 0
        for b, v in self.parts:
            if t == nb: break
            out.append((b, v)); t += b
        if t != nb: raise Unsupported('pack split')
        return out[0][1] if len(out) == 1 else Pack(out)

    def high(self, nb):
        t = 0
        for k, (b, v) in enumerate(self.parts):
            if t == nb: return self.parts[k:]
            t += b
        raise Unsupported('pack split')


class FSet:
    __slots__ = ('v',)
    MAX = 4096

    def __init__(self, v):
        self.v = v

    @staticmethod
    def make(pairs):
        d = {}
        for x, g in pairs:
            k = fkey(x)
            if k in d: d[k] = (x, z_or(d[k][1], g))
            else: d[k] = (x, g)
        l = [p for p in d.values() if not z3.is_false(p[1])]
        if len(l) == 1: return l[0][0]
        if len(l) > FSet.MAX: raise Unsupported('FSet too large: %d' % len(l))
        return FSet(l)


def fpairs(x):
    return x.v if isinstance(x, FSet) else [(x, T)]


def to_real(x):
    if isinstance(x, float):
        if x != x or math.isinf(x): raise Unsupported('nan/inf mixed with symbolic real')
        return z3.RealVal(Fraction(x))
    if isinstance(x, FSet):
        r = None
        for v, g in reversed(x.v):
            e = to_real(v)
            r = e if r is None else z3.If(g, e, r)
        return r
    return x


def ffun(x, f):
    if isinstance(x, float): return f(x)
    if isinstance(x, FSet): return FSet.make([(f(v), g) for v, g in x.v])
    raise Unsupported('libm function of symbolic real')


def f32(x):
    try:
        return struct.unpack('<f', struct.pack('<f', x))[0]
    except OverflowError:
        return math.copysign(math.inf, x)


def _div(a, b):
    try:
        return a / b
    except ZeroDivisionError:
        if a != a or a == 0: return math.nan
        return math.copysign(math.inf, a) * math.copysign(1, b)


FOPS = {'fadd': lambda a, b: a + b, 'fsub': lambda a, b: a - b, 'fmul': lambda a, b: a * b, 'fdiv': _div,
        'frem': lambda a, b: math.fmod(a, b)}


def fbin(op, a, b, single=False):
    if isinstance(a, float) and isinstance(b, float):
        r = FOPS[op](a, b)
        return f32(r) if single else r
    if isinstance(a, z3.ArithRef) or isinstance(b, z3.ArithRef):
        # keep exact zeros and ones out of the reals
        if op == 'fmul':
            for p, q in ((a, b), (b, a)):
                if isinstance(p, float):
                    if p == 0.0: return 0.0
                    if p == 1.0: return q
        if op in ('fadd', 'fsub') and isinstance(b, float) and b == 0.0: return a
        if op == 'fadd' and isinstance(a, float) and a == 0.0: return b
        ra, rb = to_real(a), to_real(b)
        return {'fadd': lambda: ra + rb, 'fsub': lambda: ra - rb, 'fmul': lambda: ra * rb, 'fdiv': lambda: ra / rb}[op]()
    f = FOPS[op]
    out = []
    for x, g in fpairs(a):
        for y, h in fpairs(b):
            r = f(x, y)
            out.append((f32(r) if single else r, z_and(g, h)))
    return FSet.make(out)


def fcmp_py(p, x, y):
    un = (x != x) or (y != y)
    if p == 'true': return True
    if p == 'false': return False
    if p == 'ord': return not un
    if p == 'uno': return un
    if un: return p[0] == 'u'
    return {'eq': x == y, 'ne': x != y, 'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[p[1:]]


class State:
    __slots__ = ('regs', 'mem', 'pc', 'model', 'cnt', 'steps', 'dead', 'tok')

    def clone(self):
        s = State.__new__(State)
        s.regs = dict(self.regs); s.mem = dict(self.mem); s.pc = self.pc; s.model = self.model
        s.cnt = dict(self.cnt); s.dead = self.dead; s.tok = object(); self.tok = object()   # objects become shared: copy on write
        return s


class Obj:
    __slots__ = ('size', 'cells', 'name', 'ro', 'owner', 'tok')

    def __init__(self, size, name, cells=None, owner=0):
        self.size, self.name, self.cells, self.owner = size, name, cells if cells is not None else {}, owner; self.tok = None


BASE = 32
MASK = (1 << 32) - 1


def bv(x, w):
    if isinstance(x, int): return z3.BitVecVal(x, w)
    if isinstance(x, z3.BoolRef): return z3.If(x, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
    return x


def bl(x):
    if isinstance(x, int): return T if x & 1 else F
    if isinstance(x, z3.BitVecRef): return x == 1
    return x


def norm(e):
    """concrete python value if e simplifies to a constant"""
    if isinstance(e, (int, float)): return e
    if isinstance(e, z3.BoolRef):
        if z3.is_true(e): return 1
        if z3.is_false(e): return 0
        return e
    if z3.is_bv_value(e): return e.as_long()
    return e


def simp(e):
    if isinstance(e, (int, float, FSet, list)): return e
    e = z3.simplify(e)
    if z3.is_bv_value(e): return e.as_long()
    if z3.is_true(e): return 1
    if z3.is_false(e): return 0
    return e


def sgn(x, w):
    return x - (1 << w) if x >> (w - 1) & 1 else x


def ite(c, a, b, w=None):
    """c BoolRef"""
    if isinstance(a, list):
        return [ite(c, x, y) for x, y in zip(a, b)]
    fa = isinstance(a, (float, FSet, z3.ArithRef)); fb = isinstance(b, (float, FSet, z3.ArithRef))
    if fa or fb:
        if not (fa and fb): raise Unsupported('merge fp/int')
        if isinstance(a, z3.ArithRef) or isinstance(b, z3.ArithRef):
            if a is b: return a
            return z3.If(c, to_real(a), to_real(b))
        if a is b: return a
        if isinstance(a, float) and isinstance(b, float) and fkey(a) == fkey(b): return a
        nc = z_not(c)
        return FSet.make([(v, z_and(c, g)) for v, g in fpairs(a)] + [(v, z_and(nc, g)) for v, g in fpairs(b)])
    if isinstance(a, int) and isinstance(b, int):
        if a == b: return a
        if w is None: raise Unsupported('width')
    elif a is b: return a
    if w is None:
        w = a.size() if isinstance(a, z3.BitVecRef) else b.size() if isinstance(b, z3.BitVecRef) else 1
    if w == 1:
        return norm(z3.If(c, bl(a), bl(b)))
    a, b = bv(a, w), bv(b, w)
    if a.eq(b): return a
    return z3.If(c, a, b)


class WInt(int):
    """python int carrying no width; plain ints are used"""


def f2i(v, w):
    """x86-64 conversion: NaN and out-of-range give the 'indefinite' integer"""
    W = 64 if w == 64 else 32
    if w < 32: W = 32
    if v != v or math.isinf(v) or not (-2.0 ** (W - 1) <= v < 2.0 ** W): return (1 << (W - 1)) & ((1 << w) - 1)
    return int(v) & ((1 << w) - 1)


class Exec:
    def __init__(self, mod, timeout_ms=60000, max_steps=20_000_000, deadline=None, qfbv=True):
        self.M = mod
        self.S = z3.Solver(); self.S.set('timeout', timeout_ms)
        self.stack = []
        self.nq = 0; self.tq = 0.0
        self.timeout = timeout_ms
        self.deadline = deadline
        self.steps = 0; self.max_steps = max_steps
        self.nobj = 1; self.frame = 0; self.nframe = 0
        self.gaddr = {}; self.gname = {}; self.pristine = {}
        self.asserts = {}      # id -> [n, queries]
        self.reached = {}
        self.cex = []          # (id, model inputs dict)
        self.inputs = {}       # name -> z3 var
        self.paths = 0; self.merges = 0; self.forks = 0
        self.fnused = set()
        self.stop_on_cex = True
        self.fresh = 0
        self.qfbv = qfbv
        self.ext = dict(EXT)
        self.overrides = {}
        self.merging = True
        self.prune_at = 16
        self.lastmodel = None

    # ------------------------------------------------------------ solver
    def _sync(self, pc):
        st = self.stack; k = 0
        n = min(len(st), len(pc))
        while k < n and st[k] is pc[k]: k += 1
        if k < len(st):
            self.S.pop(len(st) - k); del st[k:]
        for c in pc[k:]:
            self.S.push(); self.S.add(c); st.append(c)

    def check(self, st, cond):
        """feasible(pc & cond) -> model or None"""
        if self.deadline and time.time() > self.deadline: raise Inconclusive('deadline')
        t0 = time.time(); self.nq += 1
        self._sync(st.pc)
        r = self.S.check(cond)
        self.tq += time.time() - t0
        if r == z3.sat:
            return self.S.model()
        if r == z3.unsat: return None
        # retry with a fresh solver
        return self.check_fresh(st, cond)

    def check_fresh(self, st, cond):
        t0 = time.time(); self.nq += 1
        s = z3.SolverFor('QF_BV') if self.qfbv else z3.Solver()
        s.set('timeout', self.timeout * 4)
        s.add(*st.pc); s.add(cond)
        r = s.check()
        self.tq += time.time() - t0
        if r == z3.sat: return s.model()
        if r == z3.unsat: return None
        raise Inconclusive('solver returned unknown: %s' % s.reason_unknown())

    def assume(self, st, c):
        c = simp(c)
        if isinstance(c, int) and c: return True
        if isinstance(c, int): return False
        m = st.model
        if m is not None and z3.is_true(m.eval(c, model_completion=True)): pass
        else:
            m = self.check(st, c)
            if m is None: return False
        st.pc = st.pc + (c,); st.model = m
        return True

    # ------------------------------------------------------------ memory
    def alloc(self, st, size, name, cells=None):
        i = self.nobj; self.nobj += 1
        o = Obj(size, name, cells); o.tok = st.tok
        st.mem[i] = o
        return i << BASE

    def gptr(self, st, g):
        if g in self.gaddr:
            a = self.gaddr[g]
            if (a >> BASE) in st.mem or a in self.gname: 
                if (a >> BASE) not in st.mem and g in self.M.globals: self._ginit(st, g, a)
                return a
        M = self.M
        if g in M.globals and M.globals[g][0] == 'alias':
            return self.val(st, M.globals[g][1], 'ptr')
        if g not in self.gaddr:
            i = self.nobj; self.nobj += 1
            self.gaddr[g] = i << BASE; self.gname[i << BASE] = g
        a = self.gaddr[g]
        if g in M.globals: self._ginit(st, g, a)
        return a

    def _ginit(self, st, g, a):
        M = self.M; ty, init, const = M.globals[g]
        o = self.pristine.get(g)      # initial contents are built once and shared (copy on write)
        if o is not None: st.mem[a >> BASE] = o; return
        o = Obj(M.size(ty) if ty != 'opaque' else 0, g)
        self.pristine[g] = o; st.mem[a >> BASE] = o
        if init is not None:
            v = M.ginit(g)
            self._init(st, o, 0, ty, v)
        else:
            o.size = max(o.size, 64)

    def _init(self, st, o, off, ty, v):
        M = self.M; t = M.res(ty)
        if v[0] == 'zero':
            self._zero(o, off, t); return
        if v[0] == 'undef': return
        if v[0] == 'bytes':
            for k, b in enumerate(v[1]): o.cells[off + k] = (1, b)
            return
        if v[0] == 'agg':
            if t[0] == 'st': offs = M.layout(t)[0]
            else:
                es = M.size(t[2]); offs = [k * es for k in range(len(v[1]))]
            for (ety, e), eo in zip(v[1], offs): self._init(st, o, off + eo, ety, e)
            return
        o.cells[off] = (M.size(t), self.val(st, v, ty))

    def _zero(self, o, off, t):
        M = self.M; t = M.res(t)
        if t == 'ptr' or (t[0] == 'i' and t not in ('double', 'float')): o.cells[off] = (M.size(t), 0)
        elif t in ('double', 'float'): o.cells[off] = (M.size(t), 0.0)
        elif t[0] in ('arr', 'vec'):
            es = M.size(t[2])
            for k in range(t[1]): self._zero(o, off + k * es, t[2])
        elif t[0] == 'st':
            for e, eo in zip(t[1], M.layout(t)[0]): self._zero(o, off + eo, e)

    def late(self, st, i):
        g = self.gname.get(i << BASE)
        if g is None or g not in self.M.globals or self.M.globals[g][0] == 'alias': return None
        self._ginit(st, g, i << BASE); return st.mem[i]

    def wobj(self, st, i):
        o = st.mem[i]
        if o.tok is st.tok: return o
        n = Obj(o.size, o.name, dict(o.cells), o.owner); n.tok = st.tok; st.mem[i] = n
        return n

    def new_sym(self, w, name=None):
        self.fresh += 1
        return z3.BitVec('%s!%d' % (name or 'u', self.fresh), w)

    def resolve(self, st, p, n, what):
        """-> list of (state, objid, offset int or BV) ; checks bounds"""
        if not isinstance(p, int):
            p = simp(p)
        if isinstance(p, int):
            i, off = p >> BASE, p & MASK
            o = st.mem.get(i) or self.late(st, i)
            if o is None or off + n > o.size or (off >> 31):
                self.fail(st, 'mem', T, '%s %s+%d size %s' % (what, o.name if o else ('null' if i == 0 else 'freed/invalid'), off, o.size if o else None))
                return []
            return [(st, i, off)]
        # symbolic
        res = []
        m = st.model or self.check(st, T)
        if m is None: return []
        rest = st
        while True:
            a = m.eval(p, model_completion=True).as_long(); i = a >> BASE
            o = rest.mem.get(i) or self.late(rest, i)
            if o is None or (a & MASK) + n > o.size:
                # violation: concrete witness
                self.fail(rest, 'mem', p == a, '%s symbolic address obj %s off %d' % (what, o.name if o else None, a & MASK))
                c = z3.Or(p != a)
                m = self.check(rest, c)
                if m is None: return res
                rest = rest.clone(); rest.pc = rest.pc + (c,); rest.model = m
                continue
            base = i << BASE
            inb = z3.And(z3.UGE(p, base), z3.ULE(p, base + o.size - n))
            m2 = self.check(rest, z3.Not(inb))
            off = simp(z3.Extract(31, 0, p))
            if m2 is None:
                res.append((rest, i, off)); return res
            s1 = rest.clone(); s1.pc = s1.pc + (inb,); s1.model = m
            res.append((s1, i, off))
            rest = rest.clone(); rest.pc = rest.pc + (z3.Not(inb),); rest.model = m2; m = m2

    def offs(self, st, o, off, n):
        """candidate concrete offsets of symbolic off"""
        al = n if n in (1, 2, 4, 8, 16, 32) else 1
        # stride guess: the alignment must be provable
        while al > 1:
            if self.check(st, z3.URem(off, al) != 0) is None: break
            al //= 2
        c = list(range(0, o.size - n + 1, al))
        if len(c) > 64:
            # enumerate by model
            out = []; s = st.clone()
            cond = []
            while True:
                m = self.check(s, z3.And(*[off != k for k in out]) if out else T)
                if m is None: return out
                out.append(m.eval(off, model_completion=True).as_long())
                if len(out) > 4096: raise Unsupported('too many offsets')
        return c

    def rd(self, st, o, off, n, kind):
        c = o.cells.get(off)
        if c is not None and c[0] == n:
            return c[1]
        # try covering cell(s)
        parts = []
        k = off
        # find a containing cell
        while k < off + n:
            c = o.cells.get(k)
            if c is not None and k + c[0] <= off + n:
                parts.append((c[0], c[1])); k += c[0]; continue
            f = None
            for b in range(1, 64):
                c = o.cells.get(k - b)
                if c is not None:
                    if c[0] > b: f = (k - b, c)
                    break
            if f is not None:
                b0, c = f
                take = min(b0 + c[0], off + n) - k
                v = self.asint(c[1], c[0] * 8)
                lo = (k - b0) * 8
                e = v >> lo & ((1 << take * 8) - 1) if isinstance(v, int) else z3.Extract(lo + take * 8 - 1, lo, v)
                parts.append((take, e)); k += take; continue
            if c is not None and k + c[0] > off + n and o.cells.get(k) is not None:
                c = o.cells[k]; take = off + n - k
                v = self.asint(c[1], c[0] * 8)
                e = v & ((1 << take * 8) - 1) if isinstance(v, int) else z3.Extract(take * 8 - 1, 0, v)
                parts.append((take, e)); k += take; continue
            c = o.cells.get(k)
            if c is not None:
                take = off + n - k
                v = self.asint(c[1], c[0] * 8)
                e = v & ((1 << take * 8) - 1) if isinstance(v, int) else z3.Extract(take * 8 - 1, 0, v)
                parts.append((take, e)); k += take; continue
            # uninitialised byte run
            run = 1
            while k + run < off + n and (k + run) not in o.cells: run += 1
            # fixed garbage: replayed natively with MALLOC_PERTURB_ / pattern initialisation
            v = int.from_bytes(b'\x55' * run, 'little')
            if kind == 'f' and run == n: v = struct.unpack('<d' if n == 8 else '<f', b'\x55' * run)[0]
            o.cells[k] = (run, v)
            parts.append((run, v)); k += run
        if len(parts) == 1: return parts[0][1]
        if all(isinstance(v, int) for _, v in parts):
            r = 0; sh = 0
            for b, v in parts: r |= v << sh; sh += 8 * b
            return r
        if any(isinstance(v, z3.ArithRef) for _, v in parts):
            if kind == 'f': raise Unsupported('fp split')
            return Pack(parts)
        return z3.Concat(*[bv(self.asint(v, b * 8), b * 8) for b, v in reversed(parts)])

    def asint(self, v, w):
        if isinstance(v, float):
            return struct.unpack('<Q', struct.pack('<d', v))[0] if w == 64 else struct.unpack('<I', struct.pack('<f', v))[0]
        if isinstance(v, FSet):
            r = None
            for x, g in v.v:
                e = z3.BitVecVal(self.asint(x, w), w)
                r = e if r is None else z3.If(g, e, r)
            return r
        if isinstance(v, z3.ArithRef): raise Unsupported('real as int')
        return v

    def asfp(self, v, w):
        if isinstance(v, int):
            return struct.unpack('<d', struct.pack('<Q', v))[0] if w == 64 else struct.unpack('<f', struct.pack('<I', v))[0]
        if isinstance(v, z3.BitVecRef):
            vs = leaves(v)
            if vs is not None: return FSet.make([(self.asfp(x, w), v == x) for x in vs])
            if z3.is_const(v) and v.decl().name().startswith('uninit'):
                return z3.Real('r_' + v.decl().name())
            raise Unsupported('bits as fp: %s' % str(v)[:200])
        return v

    def wr(self, o, off, n, v):
        if isinstance(v, Pack):
            for b, x in v.parts: self.wr(o, off, b, x); off += b
            return
        cells = o.cells
        c = cells.get(off)
        if c is None or c[0] != n:
            # clear overlaps
            for b in range(1, 64):
                k = off - b
                c = cells.get(k)
                if c is not None:
                    if c[0] > b:
                        self._split(o, k, c)
                    break
            for k in range(off, off + n):
                c = cells.get(k)
                if c is not None:
                    if k + c[0] > off + n: self._split(o, k, c)
                    if k in cells: del cells[k]
        cells[off] = (n, v)

    def _split(self, o, k, c):
        v = self.asint(c[1], c[0] * 8)
        del o.cells[k]
        for b in range(c[0]):
            o.cells[k + b] = (1, (v >> 8 * b) & 255 if isinstance(v, int) else z3.Extract(8 * b + 7, 8 * b, v))

    def load(self, st, p, ty):
        M = self.M; t = M.res(ty)
        if not isinstance(t, str) and t[0] in ('st', 'arr', 'vec'):
            if t[0] == 'st': el = list(zip(t[1], M.layout(t)[0]))
            else: el = [(t[2], k * M.size(t[2])) for k in range(t[1])]
            assert isinstance(p, int), 'symbolic aggregate load'
            out = [(st, [])]
            for e, o in el:
                nout = []
                for s, l in out:
                    for s2, v in self.load(s, p + o, e): nout.append((s2, l + [v]))
                out = nout
            return out
        n = M.size(t); kind = 'f' if t in ('double', 'float') else 'i'
        if kind == 'i' and t != 'ptr': n = (t[1] + 7) // 8
        out = []
        for s, i, off in self.resolve(st, p, n, 'load'):
            o = s.mem[i]
            if isinstance(off, int): v = self.rd(s, o, off, n, kind)
            else:
                v = None
                cand = self.offs(s, o, off, n)
                w = 8 * n
                for k in reversed(cand):
                    x = self.rd(s, o, k, n, kind)
                    if kind == 'f': x = self.asfp(x, w)
                    else: x = self.asint(x, w) if not isinstance(x, (FSet, float, z3.ArithRef)) else x
                    v = x if v is None else ite(off == k, x, v, w)
            if kind == 'f': v = self.asfp(v, 8 * n)
            elif t == ('i', 1): v = simp(z3.Extract(0, 0, bv(v, 8)) == 1) if not isinstance(v, int) else v & 1
            elif t != 'ptr' and t[1] % 8: v = v & ((1 << t[1]) - 1) if isinstance(v, int) else z3.Extract(t[1] - 1, 0, v)
            out.append((s, v))
        return out

    def store(self, st, p, ty, v):
        M = self.M; t = M.res(ty)
        if not isinstance(t, str) and t[0] in ('st', 'arr', 'vec'):
            if t[0] == 'st': el = list(zip(t[1], M.layout(t)[0]))
            else: el = [(t[2], k * M.size(t[2])) for k in range(t[1])]
            out = [st]
            for (e, o), x in zip(el, v):
                nout = []
                for s in out: nout += self.store(s, p + o, e, x)
                out = nout
            return out
        n = M.size(t)
        if t != 'ptr' and t not in ('double', 'float'):
            n = (t[1] + 7) // 8
            if t[1] % 8 and not isinstance(v, int):
                v = bv(v, 8) if t[1] == 1 else z3.ZeroExt(8 * n - t[1], v)
        out = []
        for s, i, off in self.resolve(st, p, n, 'store'):
            o = self.wobj(s, i)
            if isinstance(off, int): self.wr(o, off, n, v)
            else:
                fp = isinstance(v, (float, FSet, z3.ArithRef))
                for k in self.offs(s, o, off, n):
                    old = self.rd(s, o, k, n, 'f' if fp else 'i')
                    old = self.asfp(old, 8 * n) if fp else self.asint(old, 8 * n)
                    self.wr(o, k, n, ite(off == k, v, old, 8 * n))
            out.append(s)
        return out

    # ------------------------------------------------------------ failures
    def fail(self, st, id, cond, msg=''):
        """record a counterexample: pc & cond is satisfiable"""
        m = self.check_fresh(st, cond) if cond is not T else (st.model or self.check_fresh(st, T))
        if m is None: return
        self.cex.append((id, self.model_inputs(m), msg))
        if self.stop_on_cex: raise Stop()

    def model_inputs(self, m):
        d = {}
        for n, v in self.inputs.items():
            e = m.eval(v, model_completion=True)
            if z3.is_bv_value(e): d[n] = e.as_long()
            elif z3.is_true(e): d[n] = 1
            elif z3.is_false(e): d[n] = 0
            elif z3.is_rational_value(e): d[n] = float(e.as_fraction())
            elif z3.is_algebraic_value(e): d[n] = float(e.approx(20).as_fraction())
            else: d[n] = str(e)
        return d

    def do_assert(self, st, c, id):
        a = self.asserts.setdefault(id, [0, 0]); a[0] += 1
        c = simp(c)
        if isinstance(c, int) and c:
            return True
        c = bl(c)
        a[1] += 1
        nc = z_not(c)
        if st.model is not None and z3.is_true(st.model.eval(nc, model_completion=True)): m = st.model
        else: m = self.check_fresh(st, nc)
        if m is not None:
            self.cex.append((id, self.model_inputs(m), ''))
            if self.stop_on_cex: raise Stop()
            if self.check(st, c) is None: return False
        st.pc = st.pc + (c,)
        if st.model is not None and not z3.is_true(st.model.eval(c, model_completion=True)): st.model = None
        return True

    # ------------------------------------------------------------ values
    def val(self, st, o, ty):
        k = o[0]
        if k == 'r': return st.regs[o[1]]
        if k == 'c': return o[1]
        if k == 'g': return self.gptr(st, o[1])
        if k == 'undef': return self.undef(ty)
        if k == 'zero': return self.zero(ty)
        if k == 'agg': return [self.val(st, v, t) for t, v in o[1]]
        if k == 'cx':
            if o[1] == 'gep': return self.gep(st, o[2], o[3])
            if o[1] in ('ptrtoint', 'inttoptr', 'bitcast'): return self.val(st, o[3], o[2])
            if o[1] == 'icmp':
                (t1, a), (t2, b) = o[3]
                return self.icmp(o[2], self.val(st, a, t1), self.val(st, b, t2), 64 if t1 == 'ptr' else t1[1])
            if o[1] in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr'):
                (t1, a), (t2, b) = o[3]
                return self.ibin(o[1], self.val(st, a, t1), self.val(st, b, t2), t1[1])
        if k == 'bytes': return list(o[1])
        raise Unsupported('operand %r' % (o,))

    def undef(self, ty):
        t = self.M.res(ty)
        if t in ('double', 'float'): return 0.0
        if t == 'ptr': return 0
        if t[0] == 'i': return 0
        if t[0] in ('arr', 'vec'): return [self.undef(t[2]) for _ in range(t[1])]
        return [self.undef(e) for e in t[1]]

    zero = undef

    def gep(self, st, bt, args):
        M = self.M
        p = self.val(st, args[0][1], 'ptr'); off = 0; sym = None; ty = bt
        for n, (aty, v) in enumerate(args[1:]):
            x = self.val(st, v, aty); w = aty[1]
            if n == 0: es = M.size(ty)
            else:
                t = M.res(ty)
                if t[0] == 'st':
                    off += M.layout(t)[0][x]; ty = t[1][x]; continue
                ty = t[2]; es = M.size(ty)
            if isinstance(x, int): off += sgn(x, w) * es
            else:
                x = z3.SignExt(64 - w, x) if w < 64 else x
                e = x * es if es != 1 else x
                sym = e if sym is None else sym + e
        if sym is None and isinstance(p, int): return (p + off) & 0xffffffffffffffff
        r = bv(p, 64) + off if off or isinstance(p, int) else p
        if sym is not None: r = r + sym
        return r

    def ibin(self, op, a, b, w):
        if isinstance(a, Pack) or isinstance(b, Pack):
            if isinstance(a, Pack) and isinstance(b, int) and op in ('lshr', 'shl') and b % 8 == 0:
                nb = b // 8
                return Pack(a.high(nb) + [(nb, 0)]) if op == 'lshr' else Pack([(nb, 0)] + (lambda l: l.parts if isinstance(l, Pack) else [(w // 8 - nb, l)])(a.low(w // 8 - nb)))
            if op in ('or', 'add', 'xor') and isinstance(a, Pack) and isinstance(b, Pack) and [n for n, _ in a.parts] == [n for n, _ in b.parts]:
                r = []
                for (n, p), (_, q) in zip(a.parts, b.parts):
                    if isinstance(q, int) and q == 0: r.append((n, p))
                    elif isinstance(p, int) and p == 0: r.append((n, q))
                    else: raise Unsupported('pack or')
                return Pack(r)
            raise Unsupported('pack ' + op)
        if isinstance(a, (float, FSet, z3.ArithRef)): a = self.asint(a, w)
        if isinstance(b, (float, FSet, z3.ArithRef)): b = self.asint(b, w)
        m = (1 << w) - 1
        if isinstance(a, int) and isinstance(b, int):
            if op == 'add': return (a + b) & m
            if op == 'sub': return (a - b) & m
            if op == 'mul': return (a * b) & m
            if op == 'and': return a & b
            if op == 'or': return a | b
            if op == 'xor': return a ^ b
            if op == 'shl': return (a << b) & m if b < w else 0
            if op == 'lshr': return a >> b if b < w else 0
            if op == 'ashr': return (sgn(a, w) >> min(b, w - 1)) & m
            if op == 'udiv':
                if b == 0: raise DivZero()
                return a // b
            if op == 'urem':
                if b == 0: raise DivZero()
                return a % b
            sa, sb = sgn(a, w), sgn(b, w)
            if sb == 0: raise DivZero()
            q = abs(sa) // abs(sb)
            if (sa < 0) != (sb < 0): q = -q
            if op == 'sdiv': return q & m
            if op == 'srem': return (sa - q * sb) & m
        if w == 1:
            a, b = bl(a), bl(b)
            if op == 'and': return norm(z_and(a, b))
            if op == 'or': return norm(z_or(a, b))
            if op in ('xor', 'add', 'sub'):
                if z3.is_true(a): return norm(z_not(b))
                if z3.is_true(b): return norm(z_not(a))
                if z3.is_false(a): return b
                if z3.is_false(b): return a
                return z3.Xor(a, b)
            if op in ('mul',): return norm(z_and(a, b))
            raise Unsupported('i1 ' + op)
        # identities
        if isinstance(b, int):
            if b == 0:
                if op in ('add', 'sub', 'or', 'xor', 'shl', 'lshr', 'ashr'): return a
                if op in ('and', 'mul'): return 0
                if op in ('udiv', 'urem', 'sdiv', 'srem'): raise DivZero()
            if b == m:
                if op == 'and': return a
                if op == 'xor': return ~a
                if op == 'or': return m
            if b == 1 and op in ('mul', 'udiv', 'sdiv'): return a
            if b == 1 and op in ('urem', 'srem'): return 0
            if op in ('shl', 'lshr') and b >= w: return 0
            if op == 'urem' and b & (b - 1) == 0: return a & (b - 1)
            if op == 'udiv' and b & (b - 1) == 0: return z3.LShR(a, b.bit_length() - 1)
        if isinstance(a, int):
            if a == 0:
                if op in ('add', 'or', 'xor'): return b
                if op in ('and', 'mul', 'shl', 'lshr', 'ashr', 'udiv', 'urem', 'sdiv', 'srem'): return 0
            if a == m and op == 'and': return b
            if a == 1 and op == 'mul': return b
        a, b = bv(a, w), bv(b, w)
        if op == 'add': return a + b
        if op == 'sub': return a - b
        if op == 'mul': return a * b
        if op == 'and': return a & b
        if op == 'or': return a | b
        if op == 'xor': return a ^ b
        if op == 'shl': return a << b
        if op == 'lshr': return z3.LShR(a, b)
        if op == 'ashr': return a >> b
        if op == 'udiv': return z3.UDiv(a, b)
        if op == 'urem': return z3.URem(a, b)
        if op == 'sdiv': return a / b
        if op == 'srem': return z3.SRem(a, b)
        raise Unsupported(op)

    def icmp(self, p, a, b, w):
        if isinstance(a, (float, FSet, z3.ArithRef)): a = self.asint(a, w)
        if isinstance(b, (float, FSet, z3.ArithRef)): b = self.asint(b, w)
        if isinstance(a, int) and isinstance(b, int):
            if p == 'eq': return int(a == b)
            if p == 'ne': return int(a != b)
            if p[0] == 's': a, b = sgn(a, w), sgn(b, w)
            q = p[1:]
            return int({'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[q])
        if w == 1:
            a, b = bl(a), bl(b)
            if p == 'eq': return norm(z3.simplify(a == b))
            if p == 'ne': return norm(z3.simplify(z3.Xor(a, b)))
            a, b = bv(a, 1), bv(b, 1)
        a, b = bv(a, w), bv(b, w)
        if p == 'eq': e = a == b
        elif p == 'ne': e = a != b
        elif p == 'ult': e = z3.ULT(a, b)
        elif p == 'ule': e = z3.ULE(a, b)
        elif p == 'ugt': e = z3.UGT(a, b)
        elif p == 'uge': e = z3.UGE(a, b)
        elif p == 'slt': e = a < b
        elif p == 'sle': e = a <= b
        elif p == 'sgt': e = a > b
        else: e = a >= b
        return simp(e)

    def fcmp(self, p, a, b):
        if isinstance(a, float) and isinstance(b, float): return int(fcmp_py(p, a, b))
        if isinstance(a, z3.ArithRef) or isinstance(b, z3.ArithRef):
            if p in ('ord', 'true'): return 1
            if p in ('uno', 'false'): return 0
            a, b = to_real(a), to_real(b); q = p[1:]
            e = {'eq': lambda: a == b, 'ne': lambda: a != b, 'lt': lambda: a < b, 'le': lambda: a <= b,
                 'gt': lambda: a > b, 'ge': lambda: a >= b}[q]()
            return simp(e)
        r = F
        for x, g in fpairs(a):
            for y, h in fpairs(b):
                if fcmp_py(p, x, y): r = z_or(r, z_and(g, h))
        return simp(r)

    def i2f(self, st, x, w, signed, single=False):
        cv = (lambda k: float(sgn(k, w))) if signed else float
        if isinstance(x, int): r = cv(x); return f32(r) if single else r
        if isinstance(x, z3.BoolRef):
            return FSet.make([(-1.0 if signed else 1.0, x), (0.0, z_not(x))])
        vs = leaves(x)
        if vs is None:
            x = z3.simplify(x); vs = leaves(x)
        if vs is None: vs = self.allvals(st, x, 2048)
        return FSet.make([(f32(cv(v)) if single else cv(v), T if len(vs) == 1 else x == v) for v in vs])

    def allvals(self, st, x, cap):
        out = []; cond = T
        while True:
            m = self.check(st, cond)
            if m is None: return out
            v = m.eval(x, model_completion=True).as_long(); out.append(v)
            if len(out) > cap: raise Unsupported('too many values (>%d) of %s' % (cap, str(x)[:100]))
            cond = z_and(cond, x != v)

    def cast(self, st, op, x, t1, t2):
        M = self.M; a, b = M.res(t1), M.res(t2)
        if not isinstance(a, str) and a[0] == 'vec':
            if op == 'bitcast': raise Unsupported('vec bitcast')
            return [self.cast(st, op, e, a[2], b[2]) for e in x]
        if op == 'ptrtoint':
            return x if b[1] == 64 else self.cast(st, 'trunc', x, ('i', 64), b)
        if op in ('inttoptr',):
            return x
        if op == 'bitcast':
            if a == b or (a == 'ptr' and b == 'ptr'): return x
            if b in ('double', 'float'): return self.asfp(x, a[1])
            if a in ('double', 'float'): return self.asint(x, b[1])
            return x
        if op == 'trunc':
            w = b[1]
            if isinstance(x, Pack): return x.low(w // 8)
            if isinstance(x, (float, FSet, z3.ArithRef)): x = self.asint(x, a[1])
            if isinstance(x, int): return x & ((1 << w) - 1)
            if isinstance(x, z3.BoolRef): return x
            if w == 1: return simp(z3.Extract(0, 0, x) == 1)
            return z3.Extract(w - 1, 0, x)
        if op == 'zext':
            if isinstance(x, z3.ArithRef): return Pack([(a[1] // 8, x), ((b[1] - a[1]) // 8, 0)])
            if isinstance(x, int): return x
            if isinstance(x, z3.BoolRef): return bv(x, b[1])
            return z3.ZeroExt(b[1] - a[1], x)
        if op == 'sext':
            if isinstance(x, int): return sgn(x, a[1]) & ((1 << b[1]) - 1)
            if isinstance(x, z3.BoolRef): return z3.If(x, z3.BitVecVal(-1, b[1]), z3.BitVecVal(0, b[1]))
            return z3.SignExt(b[1] - a[1], x)
        if op == 'fpext': return x
        if op == 'fptrunc':
            if isinstance(x, z3.ArithRef): return x
            return ffun(x, f32)
        if op in ('uitofp', 'sitofp'):
            return self.i2f(st, x, a[1], op == 'sitofp', b == 'float')
        if op in ('fptosi', 'fptoui'):
            w = b[1]
            if isinstance(x, float): return f2i(x, w)
            if isinstance(x, FSet):
                r = None
                for v, g in x.v:
                    e = z3.BitVecVal(f2i(v, w), w)
                    r = e if r is None else z3.If(g, e, r)
                return r
        raise Unsupported('cast %s %s %s' % (op, a, b))

    # ------------------------------------------------------------ execution
    def call(self, st, fn, args):
        """-> list of (state, ret)"""
        if fn in self.overrides: return self.overrides[fn](self, st, args)
        f = self.M.funcs.get(fn)
        if f is None or fn in FORCE_EXT:
            g = self.ext.get(fn)
            if g is None:
                if fn.startswith('@llvm.lifetime') or fn.startswith('@llvm.dbg') or fn.startswith('@llvm.experimental.noalias') or fn.startswith('@llvm.invariant'): return [(st, None)]
                g = self.ext_prefix(fn)
                if g is None: raise Unsupported('external %s' % fn)
            r = g(self, st, args)
            if isinstance(r, list) and r and isinstance(r[0], tuple) and isinstance(r[0][0], State): return r
            if r is DEAD: return []
            return [(st, r)]
        self.fnused.add(fn)
        blocks = f.blocks
        saved = st.regs
        frame = self.frame; self.nframe += 1; self.frame = self.nframe
        my = self.frame
        st.regs = {p[0] if p[0] else '%' + str(k): a for k, (p, a) in enumerate(zip(f.params, args))}
        outs = self.run(f, f.entry, None, st, ())
        for k, s, v in outs:
            dead = [i for i, o in s.mem.items() if o.owner == my]
            for i in dead: del s.mem[i]
        res = self.merge_list(f, None, [(s, v) for k, s, v in outs], True)
        self.frame = frame
        for s, v in res: s.regs = saved if len(res) == 1 else dict(saved)
        return res

    def ext_prefix(self, fn):
        for p, g in EXTP:
            if fn.startswith(p): return g
        return None

    def phis(self, f, b, pred, st):
        ins = f.blocks[b]
        upd = []
        for x in ins:
            if x[0] != 'phi': break
            upd.append((x[1], self.val(st, x[3][pred], x[2])))
        for k, v in upd: st.regs[k] = v

    def run(self, f, b, pred, st, stops):
        """execute from block b; outcomes ('stop:'+blk, st, None) | ('ret', st, val)"""
        while True:
            if pred is not None: self.phis(f, b, pred, st)
            if b in stops: return [(b, st, None)]
            return self.run_from(f, b, 0, st, stops)

    def run_from(self, f, b, idx, st, stops):
        M = self.M
        while True:
            ins = f.blocks[b]
            n = len(ins)
            nxt = None
            while idx < n:
                x = ins[idx]; op = x[0]; idx += 1
                self.steps += 1
                if op == 'phi': continue
                if op in INTB:
                    ty = x[2]; rt = M.res(ty)
                    A = self.val(st, x[3], ty); B = self.val(st, x[4], ty)
                    try:
                        if rt[0] == 'vec':
                            st.regs[x[1]] = [self.ibin(op, p, q, rt[2][1]) for p, q in zip(A, B)]
                        else:
                            if op in ('udiv', 'urem', 'sdiv', 'srem') and not isinstance(B, int):
                                if not self.nonzero(st, B, rt[1]): return []
                            st.regs[x[1]] = self.ibin(op, A, B, rt[1])
                    except DivZero:
                        self.fail(st, 'divzero', T, f.name); return []
                    continue
                if op == 'icmp':
                    ty = x[2]; rt = M.res(ty)
                    A = self.val(st, x[4], ty); B = self.val(st, x[5], ty)
                    if rt != 'ptr' and rt[0] == 'vec': st.regs[x[1]] = [self.icmp(x[3], p, q, rt[2][1]) for p, q in zip(A, B)]
                    else: st.regs[x[1]] = self.icmp(x[3], A, B, 64 if rt == 'ptr' else rt[1])
                    continue
                if op == 'gep':
                    st.regs[x[1]] = self.gep(st, x[2], x[3]); continue
                if op == 'load':
                    p = self.val(st, x[3], 'ptr')
                    r = self.load(st, p, x[2])
                    if len(r) == 1: st, v = r[0]; st.regs[x[1]] = v; continue
                    return self.multi(f, b, idx, [(s, v) for s, v in r], x[1], stops)
                if op == 'store':
                    v = self.val(st, x[3], x[2]); p = self.val(st, x[4], 'ptr')
                    r = self.store(st, p, x[2], v)
                    if len(r) == 1: st = r[0]; continue
                    return self.multi(f, b, idx, [(s, None) for s in r], None, stops)
                if op == 'br':
                    nxt = x[2]; break
                if op == 'cbr':
                    c = self.val(st, x[2], ('i', 1))
                    if not isinstance(c, int): c = simp(c)
                    if isinstance(c, int):
                        nxt = x[3] if c & 1 else x[4]; break
                    if x[3] == x[4]: nxt = x[3]; break
                    return self.branch(f, b, st, [(c, x[3]), (z_not(c), x[4])], stops)
                if op == 'switch':
                    c = self.val(st, x[3], x[2]); w = x[2][1]
                    if not isinstance(c, int): c = simp(c)
                    if isinstance(c, int):
                        nxt = x[4]
                        for v, d in x[5]:
                            if v == c: nxt = d
                        break
                    arms = {}; dn = T
                    for v, d in x[5]:
                        e = c == v; dn = z_and(dn, z_not(e)); arms[d] = z_or(arms[d], e) if d in arms else e
                    arms[x[4]] = z_or(arms[x[4]], dn) if x[4] in arms else dn
                    return self.branch(f, b, st, [(e, d) for d, e in arms.items()], stops)
                if op == 'ret':
                    return [('ret', st, self.val(st, x[3], x[2]) if x[3] is not None else None)]
                if op == 'call' or op == 'invoke':
                    fn = x[3]
                    args = [self.val(st, v, t) if v is not None else None for t, v in x[4]]
                    if fn[0] == 'g':
                        nm = fn[1]
                        if nm in M.globals and M.globals[nm][0] == 'alias': nm = self.gname[self.gptr(st, nm)]
                    else:
                        a = self.val(st, fn, 'ptr')
                        if not isinstance(a, int): a = simp(a)
                        if not isinstance(a, int): raise Unsupported('symbolic function pointer in %s' % f.name)
                        nm = self.gname.get(a)
                        if nm is None:
                            self.fail(st, 'badcall', T, f.name); return []
                    r = self.call(st, nm, args)
                    if not r: return []
                    if op == 'invoke':
                        if len(r) == 1:
                            st, v = r[0]
                            if x[1]: st.regs[x[1]] = v
                            nxt = x[7]; break
                        outs = []
                        for s, v in r:
                            if x[1]: s.regs[x[1]] = v
                            outs += self.run(f, x[7], b, s, stops)
                        return outs
                    if len(r) == 1:
                        st, v = r[0]
                        if x[1]: st.regs[x[1]] = v
                        continue
                    return self.multi(f, b, idx, r, x[1], stops)
                if op in FPB:
                    ty = x[2]; rt = M.res(ty)
                    A = self.val(st, x[3], ty); B = self.val(st, x[4], ty)
                    if rt[0] == 'vec': st.regs[x[1]] = [fbin(op, p, q, rt[2] == 'float') for p, q in zip(A, B)]
                    else: st.regs[x[1]] = self.fprune(st, fbin(op, A, B, rt == 'float'))
                    continue
                if op == 'fneg':
                    v = self.val(st, x[3], x[2])
                    g = lambda v: -v if isinstance(v, (float, z3.ArithRef)) else ffun(v, lambda q: -q)
                    st.regs[x[1]] = [g(q) for q in v] if isinstance(v, list) else g(v)
                    continue
                if op == 'fcmp':
                    A = self.val(st, x[4], x[2]); B = self.val(st, x[5], x[2])
                    st.regs[x[1]] = [self.fcmp(x[3], p, q) for p, q in zip(A, B)] if isinstance(A, list) else self.fcmp(x[3], A, B)
                    continue
                if op in CASTS:
                    st.regs[x[1]] = self.cast(st, op, self.val(st, x[3], x[2]), x[2], x[4]); continue
                if op == 'select':
                    c = self.val(st, x[3], x[6]); A = self.val(st, x[4], x[2]); B = self.val(st, x[5], x[2])
                    rt = M.res(x[2])
                    if isinstance(c, list):
                        w = rt[2][1] if rt[2] not in ('double', 'float', 'ptr') else 64
                        st.regs[x[1]] = [ (p if q & 1 else r) if isinstance(q, int) else ite(q, p, r, w) for q, p, r in zip(c, A, B)]
                        continue
                    if isinstance(c, int): st.regs[x[1]] = A if c & 1 else B
                    else:
                        w = 64 if rt in ('ptr', 'double', 'float') else rt[1] if rt[0] == 'i' else None
                        st.regs[x[1]] = ite(c, A, B, w)
                    continue
                if op == 'alloca':
                    k = self.val(st, x[3], ('i', 64))
                    st.regs[x[1]] = a = self.alloc(st, M.size(x[2]) * k, f.name + x[1]); st.mem[a >> BASE].owner = self.frame; continue
                if op == 'extractvalue':
                    v = self.val(st, x[3], x[2])
                    for k in x[4]: v = v[k]
                    st.regs[x[1]] = v; continue
                if op == 'insertvalue':
                    v = self.val(st, x[3], x[2]); e = self.val(st, x[5], x[4])
                    st.regs[x[1]] = ins_val(v, e, x[6]); continue
                if op == 'freeze':
                    st.regs[x[1]] = self.val(st, x[3], x[2]); continue
                if op == 'extractelement':
                    v = self.val(st, x[3], x[2]); k = self.val(st, x[4], ('i', 64))
                    st.regs[x[1]] = v[k]; continue
                if op == 'insertelement':
                    v = list(self.val(st, x[3], x[2])); k = self.val(st, x[5], ('i', 64)); v[k] = self.val(st, x[4], M.res(x[2])[2])
                    st.regs[x[1]] = v; continue
                if op == 'shufflevector':
                    A = self.val(st, x[3], x[2]); B = self.val(st, x[4], x[2]); k = self.val(st, x[6], x[5])
                    ab = A + B; st.regs[x[1]] = [ab[q] for q in k]; continue
                if op == 'unreachable':
                    return []
                if op == 'landingpad': return []
                raise Unsupported('%s in %s' % (x, f.name))
            if nxt is None: raise IRError('fell through')
            if self.steps > self.max_steps: raise Inconclusive('step limit')
            self.phis(f, nxt, b, st)
            if nxt in stops: return [(nxt, st, None)]
            b, idx = nxt, 0

    def fprune(self, st, v):
        """drop infeasible alternatives (they are mutually exclusive: every model witnesses exactly one)"""
        if isinstance(v, FSet) and len(v.v) > self.prune_at:
            rest = list(v.v); live = []; m = st.model
            while rest:
                if m is None:
                    m = self.check(st, z3.Or([g for _, g in rest]) if len(rest) > 1 else rest[0][1])
                    if m is None: break
                k = next((i for i, (_, g) in enumerate(rest) if z3.is_true(m.eval(g, model_completion=True))), None)
                m = None
                if k is not None: live.append(rest.pop(k))
            if len(live) == 1: return live[0][0]
            return FSet(live)
        return v

    def nonzero(self, st, B, w):
        z = simp(B == 0)
        if isinstance(z, int) and z == 0: return True
        m = self.check(st, bl(z))
        if m is None: return True
        self.fail(st, 'divzero', bl(z), '')
        nz = z_not(bl(z))
        m = self.check(st, nz)
        if m is None: return False
        st.pc = st.pc + (nz,); st.model = m
        return True

    def multi(self, f, b, idx, r, dst, stops):
        outs = []
        for s, v in r:
            if dst:
                s.regs = dict(s.regs); s.regs[dst] = v
        ip = f.ipdom.get(b) if self.merging else None
        if ip is None or ip in stops:
            for s, v in r: outs += self.run_from(f, b, idx, s, stops)
            return self.merge_out(outs)
        for s, v in r: outs += self.run_from(f, b, idx, s, stops + (ip,))
        return self.after_join(f, ip, outs, stops)

    def branch(self, f, b, st, arms, stops):
        """arms: (cond, block)"""
        feas = []
        for c, d in arms:
            c = bl(simp(c))
            if z3.is_false(c): continue
            if st.model is not None and z3.is_true(st.model.eval(c, model_completion=True)): m = st.model
            else: m = self.check(st, c)
            if m is not None: feas.append((c, d, m))
        if not feas: return []
        if len(feas) == 1:
            c, d, m = feas[0]
            st.model = m
            return self.run(f, d, b, st, stops)
        self.forks += 1
        ip = f.ipdom.get(b) if self.merging else None
        ss = stops if ip is None or ip in stops else stops + (ip,)
        outs = []
        for k, (c, d, m) in enumerate(feas):
            s = st if k == len(feas) - 1 else st.clone()
            s.pc = s.pc + (c,); s.model = m
            outs += self.run(f, d, b, s, ss)
        if ss is stops: return self.merge_out(outs)
        return self.after_join(f, ip, outs, stops)

    def after_join(self, f, ip, outs, stops):
        here = [(s, None) for k, s, v in outs if k == ip]
        rest = [o for o in outs if o[0] != ip]
        if not here: return rest
        res = self.merge_list(f, ip, here, False)
        for s, _ in res: rest += self.run_from(f, ip, 0, s, stops)
        return rest

    def merge_out(self, outs):
        return outs

    def merge_list(self, f, b, l, isret):
        if len(l) == 1 or not self.merging: return l
        acc = [l[0]]
        for s, v in l[1:]:
            for k in range(len(acc)):
                m = self.merge2(f, b, acc[k], (s, v), isret)
                if m is not None: acc[k] = m; break
            else: acc.append((s, v))
        return acc

    def merge2(self, f, blk, A, B, isret):
        (a, va), (b, vb) = A, B
        k = 0; n = min(len(a.pc), len(b.pc))
        while k < n and a.pc[k] is b.pc[k]: k += 1
        ca = z3.And(*a.pc[k:]) if len(a.pc) > k else T
        cb = z3.And(*b.pc[k:]) if len(b.pc) > k else T
        # choose the simplest exact discriminator: the first differing conditions are exclusive by construction
        c = ca
        if a.cnt != b.cnt:
            cnt = dict(a.cnt)
            for q, x in b.cnt.items():
                cnt[q] = max(cnt.get(q, 0), x)
        else: cnt = a.cnt
        try:
            s = State.__new__(State); s.tok = object()
            s.cnt = cnt; s.dead = None
            if isret:
                s.regs = {}
                rv = None
                if va is not None: rv = self.mval(c, va, vb, f.rty)
            else:
                rv = None; ra, rb = a.regs, b.regs; regs = {}
                live = f.livein(blk)
                for q, x in ra.items():
                    if q in rb and q in live:
                        y = rb[q]
                        regs[q] = x if x is y else self.mval(c, x, y, f.rtype(q))
                s.regs = regs
            mem = {}
            for i, o in a.mem.items():
                p = b.mem.get(i)
                if p is None or p is o: mem[i] = o; continue
                mem[i] = self.mobj(c, o, p)
            for i, o in b.mem.items():
                if i not in mem: mem[i] = o
            s.mem = mem
        except Unsupported:
            return None
        self.merges += 1
        d = z_or(ca, cb)
        d = z3.simplify(d)
        s.pc = a.pc[:k] + (() if z3.is_true(d) else (d,))
        s.model = a.model or b.model
        return (s, rv)

    def mval(self, c, x, y, ty):
        if x is y: return x
        t = self.M.res(ty)
        if isinstance(x, list):
            if t[0] == 'st': return [self.mval(c, p, q, e) for p, q, e in zip(x, y, t[1])]
            return [self.mval(c, p, q, t[2]) for p, q in zip(x, y)]
        if x is None or y is None: return None
        w = 64 if t in ('ptr', 'double') else 32 if t == 'float' else t[1]
        return ite(c, x, y, w)

    def mobj(self, c, o, p):
        if o.size != p.size: raise Unsupported('size')
        n = Obj(o.size, o.name, None, o.owner)
        A, B = o.cells, p.cells; R = n.cells
        if A.keys() == B.keys() and all(A[k][0] == B[k][0] for k in A):
            for k in A:
                x, y = A[k][1], B[k][1]
                if x is y or (isinstance(x, (int, float)) and type(x) == type(y) and x == y and x == x): R[k] = A[k]
                else: R[k] = (A[k][0], ite(c, x, y, 8 * A[k][0]))
            return n
        # different layout
        A, B = dict(A), dict(B)
        for k in sorted(set(A) | set(B)):
            if k in A and k in B and A[k][0] == B[k][0]: continue
            if k in A and k in B: raise Unsupported('layout')
            X, Y = (A, B) if k in A else (B, A)
            sz = X[k][0]
            if any(q in Y for q in range(k, k + sz)): raise Unsupported('layout')
            for q in range(1, 32):
                if k - q in Y and Y[k - q][0] > q: raise Unsupported('layout')
            v = X[k][1]
            if isinstance(v, (float, FSet, z3.ArithRef)):
                self.fresh += 1
                Y[k] = (sz, z3.Real('uf!%d' % self.fresh)) if False else (sz, v)  # other path: uninitialised -> never read before written
            else: Y[k] = (sz, int.from_bytes(b'\x55' * sz, 'little'))
        for k in A:
            x, y = A[k][1], B[k][1]
            R[k] = A[k] if x is y else (A[k][0], ite(c, x, y, 8 * A[k][0]))
        return n

    # ------------------------------------------------------------ driver
    def explore(self, fn, args=()):
        st = State(); st.regs = {}; st.mem = {}; st.pc = (); st.cnt = {}; st.dead = None; st.tok = object()
        st.model = None
        self.S.reset() if False else None
        m = self.check(st, T); st.model = m
        try:
            res = self.call(st, fn, list(args))
            self.paths = len(res)
        except Stop:
            pass
        return self.cex


class Stop(Exception):
    pass


class DivZero(Exception):
    pass


def ins_val(v, e, idx):
    v = list(v)
    if len(idx) == 1: v[idx[0]] = e
    else: v[idx[0]] = ins_val(v[idx[0]], e, idx[1:])
    return v


def leaves(e, cap=512):
    """constant leaves of an if-then-else tree, or None"""
    out = set(); seen = set(); st = [e]
    while st:
        x = st.pop()
        k = x.get_id()
        if k in seen: continue
        seen.add(k)
        if z3.is_bv_value(x): out.add(x.as_long())
        elif z3.is_app_of(x, z3.Z3_OP_ITE): st.append(x.arg(1)); st.append(x.arg(2))
        elif z3.is_app_of(x, z3.Z3_OP_ZERO_EXT) or z3.is_app_of(x, z3.Z3_OP_CONCAT):
            if z3.is_app_of(x, z3.Z3_OP_CONCAT):
                if not (x.num_args() == 2 and z3.is_bv_value(x.arg(0)) and x.arg(0).as_long() == 0): return None
                sub = leaves(x.arg(1), cap)
                if sub is None and x.arg(1).size() <= 4: sub = range(1 << x.arg(1).size())
            else:
                sub = leaves(x.arg(0), cap)
                if sub is None and x.arg(0).size() <= 4: sub = range(1 << x.arg(0).size())
            if sub is None: return None
            out.update(sub)
        elif x.size() <= 2:
            out.update(range(1 << x.size()))
        else: return None
        if len(out) > cap: return None
    return sorted(out)


INTB = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor'}
FPB = {'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
CASTS = {'trunc', 'zext', 'sext', 'fptrunc', 'fpext', 'fptoui', 'fptosi', 'uitofp', 'sitofp', 'ptrtoint', 'inttoptr', 'bitcast', 'addrspacecast'}
DEAD = object()
FORCE_EXT = set()


from .ext import EXT, EXTP  # noqa

"""Externals known to the executor: harness primitives, libc/libm, LLVM intrinsics.  Everything else is Unsupported."""
import math, cmath
import z3

EXT = {}; EXTP = []


def ext(*names):
    def d(f):
        for n in names: EXT['@' + n] = f
        return f
    return d


def extp(*names):
    def d(f):
        for n in names: EXTP.append(('@' + n, f))
        return f
    return d


def _sx():
    from . import sx
    return sx


def cstr(ex, st, p):
    o = st.mem[p >> 32]; k = p & 0xffffffff; s = ''
    while True:
        c = ex.rd(st, o, k, 1, 'i')
        if c == 0: return s
        s += chr(c); k += 1


def inp(ex, st, name, w):
    k = st.cnt.get(name, 0); st.cnt = dict(st.cnt); st.cnt[name] = k + 1
    nm = '%s#%d' % (name, k)
    v = ex.inputs.get(nm)
    if v is None:
        v = z3.Real(nm) if w == 'r' else z3.BitVec(nm, w)
        ex.inputs[nm] = v
    return v


for w in (8, 16, 32, 64):
    EXT['@vp_u%d' % w] = (lambda w: lambda ex, st, a: inp(ex, st, cstr(ex, st, a[0]), w))(w)
EXT['@vp_real'] = lambda ex, st, a: inp(ex, st, cstr(ex, st, a[0]), 'r')


@ext('vp_assume')
def _(ex, st, a):
    sx = _sx()
    return None if ex.assume(st, sx.bl(a[0])) else sx.DEAD


@ext('vp_assert')
def _(ex, st, a):
    sx = _sx()
    c = a[0]
    if not isinstance(c, int): c = sx.bl(c)
    return None if ex.do_assert(st, sx.bl(c), a[1]) else sx.DEAD


@ext('vp_reach')
def _(ex, st, a):
    k = a[0]
    if not ex.reached.get(k):
        ex.reached[k] = ex.check(st, _sx().T) is not None
    return None


@ext('vp_trap')
def _(ex, st, a):
    return _sx().DEAD


def split(ex, st, x, cap=512):
    sx = _sx()
    if not isinstance(x, int): x = sx.simp(sx.bv(x, 1) if isinstance(x, z3.BoolRef) else x)
    if isinstance(x, int): return [(st, x)]
    vs = ex.allvals(st, x, cap); out = []
    for i, v in enumerate(vs):
        s = st if len(vs) == 1 else st.clone()
        s.pc = st.pc + (x == v,); s.model = None
        out.append((s, v))
    return out


@ext('vp_split')
def _(ex, st, a):
    """fork over all feasible values of the argument; no re-merge until the harness returns"""
    return split(ex, st, a[0])


def _sub(e, sub):
    sx = _sx()
    if isinstance(e, (int, float)) or e is None: return e
    if isinstance(e, list): return [_sub(x, sub) for x in e]
    if isinstance(e, sx.FSet):
        l = []
        for v, g in e.v:
            g = z3.simplify(z3.substitute(g, sub))
            if z3.is_true(g): return v
            if not z3.is_false(g): l.append((v, g))
        return sx.FSet.make(l)
    return sx.simp(z3.substitute(e, sub))


def _vars(e, acc, seen):
    if e.get_id() in seen: return
    seen.add(e.get_id())
    if z3.is_const(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED: acc.append(e)
    for c in e.children(): _vars(c, acc, seen)


@ext('vp_pin')
def _(ex, st, a):
    """case split over an input, and propagation of its value through everything computed from it so far"""
    sx = _sx(); x = a[0]
    if isinstance(x, int): return [(st, x)]
    out = []
    for s, v in split(ex, st, x):
        vs = []; _vars(x, vs, set())
        if len(vs) == 1:
            m = ex.check(s, sx.T); s.model = m; k = m.eval(vs[0], model_completion=True)
            if ex.check(s, vs[0] != k) is None:
                sub = (vs[0], k)
                s.regs = {q: _sub(e, sub) for q, e in s.regs.items()}
                for i in list(s.mem):
                    ch = {q: (n, _sub(e, sub)) for q, (n, e) in s.mem[i].cells.items() if not isinstance(e, (int, float))}
                    if ch: ex.wobj(s, i).cells.update(ch)
        out.append((s, v))
    return out


@ext('malloc', '_Znwm', '_Znam', 'PyMem_Malloc')
def _(ex, st, a):
    n = a[0]
    if not isinstance(n, int): n = _sx().simp(n)
    if not isinstance(n, int):
        return [(s, ex.alloc(s, v, 'heap')) for s, v in split(ex, st, n)]
    if n > (1 << 24): raise _sx().Unsupported('huge allocation')
    return ex.alloc(st, n, 'heap')


@ext('calloc')
def _(ex, st, a):
    n = a[0] * a[1]; p = ex.alloc(st, n, 'heap')
    o = st.mem[p >> 32]
    for k in range(n): o.cells[k] = (1, 0)
    return p


@ext('free', '_ZdlPv', '_ZdlPvm', '_ZdaPv', '_ZdaPvm')
def _(ex, st, a):
    p = a[0]
    if p == 0: return None
    if not isinstance(p, int): p = _sx().simp(p)
    if not isinstance(p, int): return None
    if (p >> 32) not in st.mem or p & 0xffffffff: ex.fail(st, 'mem', _sx().T, 'invalid free'); return _sx().DEAD
    del st.mem[p >> 32]
    return None


@extp('llvm.memcpy', 'llvm.memmove')
def _mcpy(ex, st, a):
    sx = _sx()
    d, s, n = a[0], a[1], a[2]
    if not isinstance(n, int): n = sx.simp(n)
    if not isinstance(n, int):
        out = []
        for q, v in split(ex, st, n): out += _mcpy1(ex, q, d, s, v)
        return out
    return _mcpy1(ex, st, d, s, n)


def _mcpy1(ex, st, d, s, n):
    sx = _sx()
    if n == 0: return [(st, None)]
    out = []
    for st, i, off in ex.resolve(st, s, n, 'memcpy-src'):
        o = st.mem[i]
        if not isinstance(off, int):
            offs = split(ex, st, off)
        else: offs = [(st, off)]
        for st, off in offs:
            o = st.mem[i]
            # cells fully covering [off, off+n)
            ch = []; k = off
            while k < off + n:
                c = o.cells.get(k)
                if c is not None and k + c[0] <= off + n: ch.append((k - off, c)); k += c[0]; continue
                if c is None and not any((q in o.cells and o.cells[q][0] > k - q) for q in range(max(0, k - 32), k)):
                    k += 1; continue   # uninitialised byte: leave uninitialised
                ch.append((k - off, (1, ex.rd(st, o, k, 1, 'i')))); k += 1
            for st2, j, doff in ex.resolve(st, d, n, 'memcpy-dst'):
                for st3, do in (split(ex, st2, doff) if not isinstance(doff, int) else [(st2, doff)]):
                    p = ex.wobj(st3, j)
                    for k, c in ch: ex.wr(p, do + k, c[0], c[1])
                    out.append((st3, None))
    return out


@ext('memcpy', 'memmove')
def _(ex, st, a): return [(s, a[0]) for s, _ in _mcpy(ex, st, a)]


@extp('llvm.memset')
def _mset(ex, st, a):
    sx = _sx()
    d, v, n = a[0], a[1], a[2]
    if not isinstance(n, int): n = sx.simp(n)
    out = []
    for st, n in (split(ex, st, n) if not isinstance(n, int) else [(st, n)]):
        if n == 0: out.append((st, None)); continue
        for st, i, off in [(s3, i, o3) for s2, i, o2 in ex.resolve(st, d, n, 'memset') for s3, o3 in split(ex, s2, o2)]:
            o = ex.wobj(st, i)
            k = 0
            while k < n:
                sz = 8 if (off + k) % 8 == 0 and n - k >= 8 and isinstance(v, int) else 4 if (off + k) % 4 == 0 and n - k >= 4 and isinstance(v, int) else 1
                ex.wr(o, off + k, sz, v if sz == 1 else int.from_bytes(bytes([v]) * sz, 'little')); k += sz
            out.append((st, None))
    return out


@ext('memset')
def _(ex, st, a): return [(s, a[0]) for s, _ in _mset(ex, st, a)]


def lib1(name, f):
    def g(ex, st, a):
        def h(v):
            try: return f(v)
            except (ValueError, OverflowError): return math.nan
        return ex.fprune(st, _sx().ffun(a[0], h))
    EXT['@' + name] = g
    EXTP.append(('@llvm.' + name + '.', g))


for nm, f in dict(sqrt=math.sqrt, cos=math.cos, sin=math.sin, exp=math.exp, log=math.log, floor=lambda v: float(math.floor(v)), ceil=lambda v: float(math.ceil(v)),
                  round=lambda v: math.copysign(math.floor(abs(v) + 0.5), v), trunc=lambda v: float(math.trunc(v)), tan=math.tan, atan=math.atan).items():
    lib1(nm, f)


def _sqrtf(ex, st, a):
    from .sx import f32
    return _sx().ffun(a[0], lambda v: f32(math.sqrt(v)) if v >= 0 else math.nan)
EXT['@sqrtf'] = _sqrtf
EXTP.insert(0, ('@llvm.sqrt.f32', _sqrtf))


@ext('fabs', 'fabsf')
@extp('llvm.fabs.')
def _(ex, st, a):
    x = a[0]
    if isinstance(x, z3.ArithRef): return z3.If(x >= 0, x, -x)
    return _sx().ffun(x, abs)


@extp('llvm.fmuladd.', 'llvm.fma.')
def _(ex, st, a):
    sx = _sx()
    return sx.fbin('fadd', sx.fbin('fmul', a[0], a[1]), a[2])


@ext('pow')
@extp('llvm.pow.')
def _(ex, st, a):
    sx = _sx()
    out = []
    for x, g in sx.fpairs(a[0]):
        for y, h in sx.fpairs(a[1]):
            try: r = math.pow(x, y)
            except (ValueError, OverflowError): r = math.nan
            out.append((r, sx.z_and(g, h)))
    return sx.FSet.make(out)


@ext('__muldc3', '__mulsc3')
def _(ex, st, a):
    sx = _sx()
    A, B, C, D = a
    return [sx.fbin('fsub', sx.fbin('fmul', A, C), sx.fbin('fmul', B, D)), sx.fbin('fadd', sx.fbin('fmul', A, D), sx.fbin('fmul', B, C))]


@ext('__divdc3')
def _(ex, st, a):
    sx = _sx()
    A, B, C, D = a
    f = sx.fbin
    d = f('fadd', f('fmul', C, C), f('fmul', D, D))
    return [f('fdiv', f('fadd', f('fmul', A, C), f('fmul', B, D)), d), f('fdiv', f('fsub', f('fmul', B, C), f('fmul', A, D)), d)]


@ext('cexp')
def _(ex, st, a):
    sx = _sx()
    re, im = a
    m = sx.ffun(re, math.exp)
    return [sx.fbin('fmul', m, sx.ffun(im, math.cos)), sx.fbin('fmul', m, sx.ffun(im, math.sin))]


def bits(e, w): return [z3.Extract(i, i, e) for i in range(w)]


def popcount(e, w):
    """parallel sum"""
    if w == 1: return e
    t = [z3.ZeroExt(w - 1, z3.Extract(i, i, e)) for i in range(w)]
    # narrow adder tree
    k = 1; cur = [z3.Extract(i, i, e) for i in range(w)]
    while len(cur) > 1:
        nxt = []
        for i in range(0, len(cur) - 1, 2): nxt.append(z3.ZeroExt(1, cur[i]) + z3.ZeroExt(1, cur[i + 1]))
        if len(cur) % 2: nxt.append(z3.ZeroExt(1, cur[-1]))
        cur = nxt
    r = cur[0]
    return z3.ZeroExt(w - r.size(), r) if r.size() < w else z3.Extract(w - 1, 0, r)


@extp('llvm.ctpop.')
def _(ex, st, a):
    x = a[0]
    if isinstance(x, int): return bin(x).count('1')
    return _sx().simp(popcount(x, x.size())) if x.size() <= 8 else popcount(x, x.size())


def _w(fn):
    return int(fn.rsplit('.i', 1)[1])


def mm(op):
    def g(ex, st, a):
        sx = _sx(); x, y = a[0], a[1]
        w = (x.size() if isinstance(x, z3.BitVecRef) else y.size() if isinstance(y, z3.BitVecRef) else None)
        if w is None:
            w = 64 if (x >> 32 or y >> 32) else 32
            c = sx.Exec.icmp(ex, op, x, y, g.w or w)
        else: c = ex.icmp(op, x, y, w)
        if isinstance(c, int): return x if c else y
        return sx.ite(c, x, y, w)
    return g


class _MM:
    pass


for nm, op in dict(umin='ult', umax='ugt', smin='slt', smax='sgt').items():
    for w in (8, 16, 32, 64, 128):
        def mk(op, w):
            def g(ex, st, a):
                sx = _sx(); x, y = a[0], a[1]
                c = ex.icmp(op, x, y, w)
                if isinstance(c, int): return x if c else y
                return sx.ite(c, x, y, w)
            return g
        EXT['@llvm.%s.i%d' % (nm, w)] = mk(op, w)

for w in (8, 16, 32, 64):
    def mk(w):
        def ab(ex, st, a):
            sx = _sx(); x = a[0]
            if isinstance(x, int): return abs(sx.sgn(x, w)) & ((1 << w) - 1)
            return z3.If(x < 0, -x, x)
        def bswap(ex, st, a):
            x = a[0]
            if isinstance(x, int): return int.from_bytes(x.to_bytes(w // 8, 'little'), 'big')
            return z3.Concat(*[z3.Extract(8 * i + 7, 8 * i, x) for i in range(w // 8)])
        def ctz(ex, st, a):
            x = a[0]
            if isinstance(x, int): return (x & -x).bit_length() - 1 if x else w
            r = z3.BitVecVal(w, w)
            for i in reversed(range(w)): r = z3.If(z3.Extract(i, i, x) == 1, z3.BitVecVal(i, w), r)
            return r
        def clz(ex, st, a):
            x = a[0]
            if isinstance(x, int): return w - x.bit_length()
            r = z3.BitVecVal(w, w)
            for i in range(w): r = z3.If(z3.Extract(i, i, x) == 1, z3.BitVecVal(w - 1 - i, w), r)
            return r
        def fsh(left):
            def g(ex, st, a):
                sx = _sx(); x, y, s = a
                if isinstance(s, int):
                    s %= w
                    if all(isinstance(q, int) for q in (x, y)):
                        c = (x << w) | y
                        return (c << s >> w) & ((1 << w) - 1) if left else (c >> s) & ((1 << w) - 1)
                c = z3.Concat(sx.bv(x, w), sx.bv(y, w)); s2 = z3.ZeroExt(w, z3.URem(sx.bv(s, w), w))
                return z3.Extract(2 * w - 1, w, c << s2) if left else z3.Extract(w - 1, 0, z3.LShR(c, s2))
            return g
        def usubsat(ex, st, a):
            sx = _sx(); x, y = a
            if isinstance(x, int) and isinstance(y, int): return max(0, x - y)
            x, y = sx.bv(x, w), sx.bv(y, w)
            return z3.If(z3.UGE(x, y), x - y, z3.BitVecVal(0, w))
        def ovf(op, sg):
            def g(ex, st, a):
                sx = _sx(); x, y = a
                if isinstance(x, int) and isinstance(y, int):
                    p, q = (sx.sgn(x, w), sx.sgn(y, w)) if sg else (x, y)
                    r = {'add': p + q, 'sub': p - q, 'mul': p * q}[op]
                    lo, hi = (-(1 << w - 1), (1 << w - 1) - 1) if sg else (0, (1 << w) - 1)
                    return [r & ((1 << w) - 1), int(not lo <= r <= hi)]
                x, y = sx.bv(x, w), sx.bv(y, w)
                ext = z3.SignExt if sg else z3.ZeroExt
                k = w if op == 'mul' else 2
                X, Y = ext(k, x), ext(k, y)
                R = {'add': X + Y, 'sub': X - Y, 'mul': X * Y}[op]
                r = z3.Extract(w - 1, 0, R)
                return [r, sx.simp(ext(k, r) != R)]
            return g
        EXT['@llvm.abs.i%d' % w] = ab; EXT['@llvm.bswap.i%d' % w] = bswap
        EXT['@llvm.cttz.i%d' % w] = ctz; EXT['@llvm.ctlz.i%d' % w] = clz
        EXT['@llvm.fshl.i%d' % w] = fsh(True); EXT['@llvm.fshr.i%d' % w] = fsh(False)
        EXT['@llvm.usub.sat.i%d' % w] = usubsat
        for op in ('add', 'sub', 'mul'):
            EXT['@llvm.s%s.with.overflow.i%d' % (op, w)] = ovf(op, True)
            EXT['@llvm.u%s.with.overflow.i%d' % (op, w)] = ovf(op, False)
    mk(w)


@ext('llvm.assume', 'llvm.prefetch.p0', 'llvm.stackrestore.p0', 'llvm.stackrestore', '__cxa_end_catch', 'llvm.donothing')
def _(ex, st, a): return None


@ext('llvm.stacksave.p0', 'llvm.stacksave')
def _(ex, st, a): return 0


@extp('llvm.expect', 'llvm.launder', 'llvm.strip')
def _(ex, st, a): return a[0]


@extp('llvm.is.constant', 'llvm.objectsize')
def _(ex, st, a): return 0


@ext('_ZSt20__throw_length_errorPKc', '_ZSt17__throw_bad_allocv', '__cxa_throw', '_ZSt24__throw_out_of_range_fmtPKcz', '_ZSt28__throw_bad_array_new_lengthv',
     '_ZSt9terminatev', '__cxa_rethrow', 'abort', '__cxa_pure_virtual', '_ZSt19__throw_logic_errorPKc')
def _(ex, st, a):
    ex.fail(st, 'throw', _sx().T, 'exception/abort reached')
    return _sx().DEAD


@ext('__cxa_allocate_exception')
def _(ex, st, a): return ex.alloc(st, a[0] + 64, 'exc')


@ext('strlen')
def _(ex, st, a): return len(cstr(ex, st, a[0]))


@ext('memcmp', 'bcmp')
def _(ex, st, a):
    sx = _sx(); p, q, n = a
    if not isinstance(n, int): raise sx.Unsupported('memcmp len')
    r = 0; 
    for k in reversed(range(n)):
        (s1, x), = ex.load(st, p + k, ('i', 8)); (s2, y), = ex.load(st, q + k, ('i', 8))
        if isinstance(x, int) and isinstance(y, int):
            if x != y: r = 1 if x > y else 0xffffffff
            continue
        x, y = sx.bv(x, 8), sx.bv(y, 8)
        r = z3.If(x == y, sx.bv(r, 32), z3.If(z3.UGT(x, y), z3.BitVecVal(1, 32), z3.BitVecVal(-1, 32)))
    return r


def _carry(sub):
    def g(ex, st, a):
        sx = _sx(); c, x, y = a
        if all(isinstance(v, int) for v in a):
            r = x - y - (1 if c else 0) if sub else x + y + (1 if c else 0)
            return [int(r < 0 or r >> 64 != 0), r & ((1 << 64) - 1)]
        c = z3.If(sx.bv(c, 8) != 0, z3.BitVecVal(1, 65), z3.BitVecVal(0, 65))
        X, Y = z3.ZeroExt(1, sx.bv(x, 64)), z3.ZeroExt(1, sx.bv(y, 64))
        r = X - Y - c if sub else X + Y + c
        return [sx.simp(z3.ZeroExt(7, z3.Extract(64, 64, r))), sx.simp(z3.Extract(63, 0, r))]
    return g


EXT['@llvm.x86.subborrow.64'] = _carry(True)
EXT['@llvm.x86.addcarry.64'] = _carry(False)

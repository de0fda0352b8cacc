"""Symbolic execution of QuSpin's Python layer (run with the repository's own interpreter).

A harness is a function t_*(V).  It builds inputs with V (V.cmat, V.vec, V.real, V.choice ...), calls the real code and compares with V.eq.
Symbolic mode: numbers are Sym objects (polynomials with exact rational complex coefficients over real variables) held in numpy object
arrays; every Python branch on a symbolic value forks (feasibility decided by z3); each V.eq becomes an obligation decided by z3 for all
values of the variables in [-1,1] (or under the constraints of auxiliary variables).  Modules under test see thin proxies of numpy /
scipy.sparse that accept object arrays (listed in vp/pymodel.py).
Concrete mode (fresh process, nothing patched): the same harness with numbers; used to replay counterexamples and to cross-check the model.
"""
import sys, os, json, time, subprocess, traceback, numbers, inspect, itertools, math, random
from fractions import Fraction as F
import numpy as np

ZP = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
MODE = 'sym'
NPTS = 65
CTX = None


class Unsupported(Exception): pass
class Infeasible(BaseException): pass
class Late(BaseException): pass


def _i(f): return f.numerator if f.denominator == 1 else f


def _c(x):
    """exact complex constant -> pair of rationals (plain integers where possible)"""
    if isinstance(x, (bool, np.bool_, int, np.integer)): return (int(x), 0)
    if isinstance(x, F): return (_i(x), 0)
    if isinstance(x, (float, np.floating)):
        if not math.isfinite(x): raise Unsupported('non-finite constant')
        return (_i(F(float(x))), 0)
    if isinstance(x, (complex, np.complexfloating)): x = complex(x); return (_i(F(x.real)), _i(F(x.imag)))
    return None


def _mul(a, b):
    r = {}
    for m1, (x1, y1) in a.items():
        for m2, (x2, y2) in b.items():
            m = m1 if not m2 else m2 if not m1 else tuple(sorted(m1 + m2))
            x, y = x1 * x2 - y1 * y2, x1 * y2 + y1 * x2
            if m in r: p, q = r[m]; x += p; y += q
            r[m] = (x, y)
    return {m: c for m, c in r.items() if c[0] or c[1]}


def quo(m, d):
    l = list(m)
    for i in d:
        if i not in l: return None
        l.remove(i)
    return tuple(l)


class Sym:
    __slots__ = ('p',)

    def __init__(self, p): self.p = p

    # ---- arithmetic
    @staticmethod
    def of(x):
        if isinstance(x, Sym): return x
        c = _c(x)
        if c is None: return None
        return Sym({(): c} if c != (0, 0) else {})

    def __add__(self, o):
        o = Sym.of(o)
        if o is None: return NotImplemented
        r = dict(self.p)
        for m, (x, y) in o.p.items():
            if m in r: x += r[m][0]; y += r[m][1]
            r[m] = (x, y)
        return Sym({m: c for m, c in r.items() if c[0] or c[1]})
    __radd__ = __add__

    def __neg__(self): return Sym({m: (-x, -y) for m, (x, y) in self.p.items()})
    def __pos__(self): return self

    def __sub__(self, o):
        o = Sym.of(o)
        return NotImplemented if o is None else self + (-o)

    def __rsub__(self, o):
        o = Sym.of(o)
        return NotImplemented if o is None else o + (-self)

    def __mul__(self, o):
        o = Sym.of(o)
        if o is None: return NotImplemented
        return CTX.reduce(Sym(_mul(self.p, o.p)))
    __rmul__ = __mul__

    def __pow__(self, n):
        if isinstance(n, (float, np.floating)) and float(n).is_integer(): n = int(n)
        if isinstance(n, (int, np.integer)):
            if n < 0: return Sym.of(1) / self ** (-int(n))
            r = Sym.of(1)
            for _ in range(int(n)): r = r * self
            return r
        if n == 0.5: return self.sqrt()
        return NotImplemented

    def __truediv__(self, o):
        o = Sym.of(o)
        if o is None: return NotImplemented
        c = o.const()
        if c is not None:
            if c == (0, 0): raise ZeroDivisionError('symbolic / 0')
            d = c[0] ** 2 + c[1] ** 2
            return self * Sym({(): (_i(F(c[0]) / d), _i(F(-c[1]) / d))})
        return self * CTX.inverse(o)

    def __rtruediv__(self, o):
        o = Sym.of(o)
        return NotImplemented if o is None else o / self

    # ---- complex structure
    def conjugate(self): return Sym({m: (x, -y) for m, (x, y) in self.p.items()})
    conj = conjugate
    @property
    def real(self): return Sym({m: (x, 0) for m, (x, y) in self.p.items() if x})
    @property
    def imag(self): return Sym({m: (y, 0) for m, (x, y) in self.p.items() if y})
    def isreal(self): return all(not y for x, y in self.p.values())
    def const(self):
        if not self.p: return (0, 0)
        if len(self.p) == 1 and () in self.p: return self.p[()]
        return None

    def __abs__(self):
        if self.isreal():
            c = self.const()
            if c is not None: return Sym.of(abs(c[0]))
            return self if bool(self >= 0) else -self
        return CTX.sqrt(self.real * self.real + self.imag * self.imag)

    def sqrt(self): return CTX.sqrt(self)
    def exp(self): return CTX.fun('exp', self)
    def cos(self): return CTX.fun('cos', self)
    def sin(self): return CTX.fun('sin', self)
    def log(self): return CTX.fun('log', self)
    def __complex__(self):
        c = self.const()
        if c is None: raise Unsupported('symbolic value converted to a machine complex')
        return complex(float(c[0]), float(c[1]))
    def __float__(self):
        c = self.const()
        if c is None or c[1]: raise Unsupported('symbolic value converted to a machine float')
        return float(c[0])
    def __int__(self):
        c = self.const()
        if c is None or c[1]: raise Unsupported('symbolic value converted to a machine integer')
        return int(c[0])
    def __index__(self):
        c = self.const()
        if c is None or c[1] or c[0].denominator != 1: raise Unsupported('symbolic index')
        return int(c[0])
    def item(self): return self
    def squeeze(self): return self

    # ---- comparisons (fork)
    def __bool__(self): return CTX.branch('ne', self)
    def __eq__(self, o):
        o = Sym.of(o)
        if o is None: return NotImplemented
        return not CTX.branch('ne', self - o)
    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r
    def __hash__(self): return hash(tuple(sorted((m, c) for m, c in self.p.items())))
    def __lt__(self, o): return CTX.branch('lt', self - Sym.of(o))
    def __le__(self, o): return CTX.branch('le', self - Sym.of(o))
    def __gt__(self, o): return CTX.branch('lt', Sym.of(o) - self)
    def __ge__(self, o): return CTX.branch('le', Sym.of(o) - self)
    def __repr__(self): return 'Sym(%s)' % ' + '.join('(%s%s)%s' % (float(x), '%+gj' % float(y) if y else '', '*'.join(CTX.names[i] if CTX else str(i) for i in m)) for m, (x, y) in list(self.p.items())[:6])


numbers.Complex.register(Sym)


class Ctx:
    """one exploration (all paths of one harness)"""
    def __init__(self, tol=1e-7, timeout_ms=20000):
        import z3
        self.z3 = z3; self.tol = F(tol).limit_denominator(10 ** 12); self.ms = timeout_ms
        self.nq = 0; self.tq = 0.0; self.paths = 0; self.forks = 0; self.asserts = {}; self.cex = []; self.fix = {}

    def begin(self, prefix):
        self.names = []; self.zv = []; self.inputs = []; self.cons = []; self.prefix = list(prefix); self.dec = []; self.memo = {}; self.todo = []; self.choices = {}; self.redmap = {}; self.cache = {}
        self.eqs = []          # polynomials known to vanish on this path
        self.generic = False; self.eqk = set(); self.nz = []; self.zvars = set(); self.groups = {}; self.vals = {}
        self.pts = np.ones(NPTS, dtype=bool)   # sample points that satisfy every constraint of this path so far; they only save feasibility queries
        # reachability of each path is checked with self.cons (constraints of auxiliary variables + branch decisions)

    # ---- variables
    def var(self, name, lo=-1, hi=1):
        k = len(self.names); n = name; c = 1
        while n in self.names: c += 1; n = '%s_%d' % (name, c)
        self.names.append(n); v = self.z3.Real(n); self.zv.append(v)
        if lo != -1 or hi != 1: self.pts = np.zeros(NPTS, dtype=bool)
        if lo is not None: self.cons.append(v >= lo)
        if hi is not None: self.cons.append(v <= hi)
        return Sym({(k,): (1, 0)})

    def coords(self, i):
        """values of variable i at the sample points: point k is pseudo-random, with the k-th subset of the first input groups set to zero"""
        c = self.cache.get(i)
        if c is None:
            n = self.names[i]; g = self.groups.setdefault(n.split('.')[0].split('_')[0].split('@')[0], len(self.groups))
            r = random.Random(n)
            c = self.cache[i] = np.array([0.0 if k and (g < 6 and k >> g & 1 or k == NPTS - 1) else r.choice([-7, -5, -3, -1, 2, 4, 6, 8]) / 8 for k in range(NPTS)])
        return c

    def at(self, s):
        "value of a polynomial at the sample points"
        key = id(s); hit = self.vals.get(key)
        if hit is not None and hit[0] is s: return hit[1]
        v = np.zeros(NPTS, dtype=complex)
        for m, (x, y) in s.p.items():
            t = complex(float(x), float(y))
            for i in m: t = t * self.coords(i)
            v = v + t
        v[np.abs(v) < 1e-9] = 0
        self.vals[key] = (s, v)
        return v

    def norm(self, s):
        "drop the monomials that vanish on this path"
        if not self.zvars: return s
        return Sym({m: c for m, c in s.p.items() if not any(i in self.zvars for i in m)})

    def known(self, d):
        "record that d vanishes"
        self.eqs.append(d); self.eqk.add(self.key(d))
        for part in (0, 1):
            l = [m for m, c in d.p.items() if c[part]]
            if len(l) == 1 and len(set(l[0])) == 1: self.zvars.add(l[0][0])

    def inp(self, name, lo=-1, hi=1):
        s = self.var(name, lo, hi); self.inputs.append(self.names[-1]); return s

    def term(self, m):
        r = None
        for i in m: r = self.zv[i] if r is None else r * self.zv[i]
        return r

    def q(self, c): return self.z3.Q(c.numerator, c.denominator)

    def zre(self, s, part=0):
        t = []
        for m, c in s.p.items():
            if not c[part]: continue
            t.append(self.q(c[part]) if not m else self.term(m) if c[part] == 1 else self.q(c[part]) * self.term(m))
        return self.z3.Sum(t) if t else self.z3.RealVal(0)

    def solve(self, fs, ms=None, text=None):
        z3 = self.z3; s = z3.Solver(); s.set('timeout', ms or self.ms)
        if text: s.from_string(text)
        else: s.add(*fs)
        t = time.time(); r = s.check(); self.tq += time.time() - t; self.nq += 1
        if os.environ.get('VP_LOG'): k = sys._getframe(1).f_code.co_name + ':%d' % sys._getframe(1).f_lineno + ':' + str(r); L = self.log = getattr(self, 'log', {}); L.setdefault(k, [0, 0]); L[k][0] += 1; L[k][1] += time.time() - t
        if r == z3.unknown: return None
        return s.model() if r == z3.sat else False

    # ---- auxiliary functions
    def reduce(self, s):
        """apply recorded rewrites y*y -> polynomial (square roots) and x*inv(x) -> 1"""
        if not self.redmap: return s
        ch = True
        while ch:
            ch = False; r = {}
            for m, (x, y) in s.p.items():
                hit = None
                for a, b in zip(m, m[1:]):
                    if a == b and a in self.redmap: hit = a; break
                if hit is None:
                    if m in r: p, q = r[m]; r[m] = (x + p, y + q)
                    else: r[m] = (x, y)
                    continue
                ch = True; l = list(m); l.remove(hit); l.remove(hit)
                for m2, c2 in _mul({tuple(l): (x, y)}, self.redmap[hit]).items():
                    if m2 in r: p, q = r[m2]; r[m2] = (c2[0] + p, c2[1] + q)
                    else: r[m2] = c2
            s = Sym({m: c for m, c in r.items() if c[0] or c[1]})
        return s

    def key(self, s): return tuple(sorted(s.p.items()))

    def sqrt(self, s):
        if not s.isreal(): raise Unsupported('sqrt of a complex symbol')
        if s.const() is None: self.pts = np.zeros(NPTS, dtype=bool)
        c = s.const()
        if c is not None:
            if c[0] < 0: raise Unsupported('sqrt of a negative constant')
            r = math.isqrt(c[0].numerator), math.isqrt(c[0].denominator)
            if r[0] ** 2 == c[0].numerator and r[1] ** 2 == c[0].denominator: return Sym.of(F(r[0], r[1]))
            return Sym.of(math.sqrt(c[0]))
        k = ('sqrt', self.key(s))
        if k not in self.memo:
            y = self.var('sqrt%d' % len(self.memo), 0, None); i = len(self.names) - 1
            self.cons.append(self.zv[i] * self.zv[i] == self.zre(s)); self.redmap[i] = dict(s.p); self.memo[k] = y
        return self.memo[k]

    def inverse(self, s):
        self.pts = np.zeros(NPTS, dtype=bool)
        k = ('inv', self.key(s))
        if k not in self.memo:
            if not self.branch('ne', s): raise ZeroDivisionError('symbolic division by zero')
            z3 = self.z3
            if s.isreal():
                y = self.var('inv%d' % len(self.memo), None, None); self.cons.append(self.zre(s) * self.zre(y) == 1)
            else:
                n = s.real * s.real + s.imag * s.imag
                a = self.inverse(n); y = s.conjugate() * a
            self.memo[k] = y
        return self.memo[k]

    def fun(self, f, s):
        """uninterpreted function of a symbolic value; exp of a purely imaginary value has modulus 1, exp of a real one is positive"""
        if s.const() is None: self.pts = np.zeros(NPTS, dtype=bool)
        c = s.const()
        if c is not None:
            import cmath
            z = complex(float(c[0]), float(c[1]))
            return Sym.of(getattr(cmath, f)(z))
        k = (f, self.key(s))
        if k not in self.memo:
            n = len(self.memo)
            if f == 'exp':
                ko = ('exp', self.key(-s))
                if not s.real.p:                      # purely imaginary
                    if ko in self.memo: self.memo[k] = self.memo[ko].conjugate(); return self.memo[k]
                    a = self.var('cos%d' % n); b = self.var('sin%d' % n)
                    i, j = len(self.names) - 2, len(self.names) - 1
                    self.cons.append(self.zv[i] * self.zv[i] + self.zv[j] * self.zv[j] == 1)
                    self.redmap[j] = {(): (1, 0), (i, i): (-1, 0)}
                    self.memo[k] = a + b * 1j
                elif s.isreal(): self.memo[k] = self.var('exp%d' % n, 0, None); self.cons.append(self.zv[-1] > 0)
                else: self.memo[k] = self.fun('exp', s.real) * self.fun('exp', s.imag * 1j)
            else:
                if not s.isreal(): raise Unsupported(f + ' of complex')
                self.memo[k] = self.var('%s%d' % (f, n))
        return self.memo[k]

    # ---- branching
    def cond(self, op, s):
        z3 = self.z3
        if op == 'ne':
            l = [self.zre(s, k) != 0 for k in (0, 1) if any(c[k] for c in s.p.values())]
            return z3.Or(*l) if l else z3.BoolVal(False)
        if not s.isreal(): raise TypeError('complex comparison')
        return self.zre(s) < 0 if op == 'lt' else self.zre(s) <= 0

    def branch(self, op, s):
        c = s.const()
        if c is not None:
            if op == 'ne': return c != (0, 0)
            return c[0] < 0 if op == 'lt' else c[0] <= 0
        if op == 'ne': return not self.allzero([s])
        if not s.isreal(): raise TypeError('complex comparison')
        v = self.at(s).real
        return self.decide(self.cond(op, s), v < 0 if op == 'lt' else v <= 0)

    def allzero(self, l):
        """do all these polynomials vanish?"""
        l = [self.norm(d) for d in l]
        if any(d.const() not in (None, (0, 0)) for d in l): return False
        l = [d for d in l if d.p and self.key(d) not in self.eqk]
        if not l: return True
        ks = set(self.key(d) for d in l)
        if any(n <= ks for n in self.nz): return False
        ev = np.ones(NPTS, dtype=bool)
        for d in l: ev &= self.at(d) == 0
        if self.generic: self.cons.append(self.z3.Or(*[self.cond('ne', d) for d in l])); self.pts = self.pts & ~ev; self.nz.append(ks); return False
        r = self.decide(self.z3.And(*[self.z3.Not(self.cond('ne', d)) for d in l]), ev, all(len(m) < 2 for d in l for m in d.p))
        if r:
            for d in l: self.known(d)
        else: self.nz.append(ks)
        return r

    def decide(self, cond, ev, lin=True):
        z3 = self.z3; i = len(self.dec)
        if i < len(self.prefix): d = self.prefix[i]
        else:
            # sample points settle most branches; otherwise z3 decides linear conditions, and nonlinear ones are explored both ways
            # (a path that turns out to be infeasible only adds obligations that hold vacuously)
            can = [bool((self.pts & ev).any()), bool((self.pts & ~ev).any())]
            if lin:
                can = [can[0] or self.solve(self.cons + [cond], 250) is not False, can[1] or self.solve(self.cons + [z3.Not(cond)], 250) is not False]
            else: can = [True, True]
            if not any(can): raise Infeasible()
            d = can[0]
            if all(can): self.todo.append(self.dec + [False]); self.forks += 1
        self.pts = self.pts & (ev if d else ~ev)
        self.dec.append(d); self.cons.append(cond if d else z3.Not(cond))
        return d

    def choice(self, name, n):
        i = len(self.dec)
        if name in self.fix: d = self.fix[name]; self.choices[name] = d; return d
        if i < len(self.prefix): d = self.prefix[i]
        else:
            d = 0
            for k in range(n - 1, 0, -1): self.todo.append(self.dec + [k])
            self.forks += n - 1
        self.dec.append(d); self.choices[name] = d
        return d

    # ---- obligations
    def oblige(self, id, pairs):
        """pairs of (Sym, Sym): all equal"""
        st = self.asserts.setdefault(str(id), [0, 0]); st[0] += len(pairs)
        bad = []
        for a, b in pairs:
            d = self.norm(a - b)
            if d.p: bad.append(d)
        if not bad:
            # polynomial normal forms coincide: z3 confirms the (trivial) residual
            self.solve([self.z3.Or(*[self.zre(a - b) != 0 for a, b in pairs[:1]])] if pairs else [self.z3.BoolVal(False)]); return
        st[1] += len(bad)
        z3 = self.z3
        fast = [d for d in bad if self.key(d) not in self.eqk and self.key(-d) not in self.eqk]      # residuals that are literally facts of this path
        if not fast: return
        facts = [self.facts(d) for d in fast]
        hard = [] if self.linear(fast, sum(facts, [])) else [d for d, l in zip(fast, facts) if len(fast) == 1 or not self.linear([d], l)]
        for d in hard:
            viol = []
            for part in (0, 1):
                if any(c[part] for c in d.p.values()): viol += [self.zre(d, part) > self.q(self.tol), self.zre(d, part) < -self.q(self.tol)]
            m = self.guess(d)
            if m is None: m = self.solve(self.cons + [z3.Or(*viol)])
            if m is False: continue
            if m is None:
                self.undec = 'solver gave up on assertion %s' % id; continue
            self.fail(id, m, 'values differ'); return

    def facts(self, d):
        "facts known on this path, times monomials that bring them to the degree of d"
        lins = []
        for p in self.eqs:
            us = set()
            for m in d.p:
                for m2 in p.p:
                    u = quo(m, m2)
                    if u is not None: us.add(u)
                if len(us) > 60: break
            for u in us: lins.append(Sym(_mul(p.p, {u: (1, 0)})))
        return lins

    def linear(self, ds, lins):
        """is |d| <= tol for all d implied by the path facts, with monomials as independent variables in [-1,1]?  (linear real arithmetic; False = not shown)"""
        mons = {}
        for e in ds + lins:
            for m in e.p:
                if m and m not in mons:
                    if any(self.names[i] not in self.bounded for i in m): return False
                    mons[m] = 'm%d' % len(mons)
        def num(c):
            a = '%d.0' % abs(c) if c.denominator == 1 else '(/ %d.0 %d.0)' % (abs(c.numerator), c.denominator)
            return a if c >= 0 else '(- %s)' % a
        def lin(e, part): return '(+ 0.0 0.0 %s)' % ' '.join('(* %s %s)' % (num(c[part]), mons[m]) if m else num(c[part]) for m, c in e.p.items() if c[part])
        l = ['(declare-const %s Real)(assert (<= (- 1.0) %s 1.0))' % (v, v) for v in mons.values()]
        l += ['(assert (= %s 0.0))' % lin(e, k) for e in lins for k in (0, 1) if any(c[k] for c in e.p.values())]
        t = num(self.tol)
        l.append('(assert (or %s))' % ' '.join('(> %s %s) (< %s (- %s))' % (lin(d, k), t, lin(d, k), t) for d in ds for k in (0, 1)))
        return self.solve(None, text='\n'.join(l)) is False

    def guess(self, d):
        """search for a concrete counterexample by evaluating at a few points before asking nlsat (a found point is a genuine witness)"""
        for k in np.nonzero(self.pts & (np.abs(self.at(d)) > 1e-3))[0]: return self.point(k)
        return None

    def point(self, k): return {n: F(float(self.coords(i)[k])) for i, n in enumerate(self.names)}

    @property
    def bounded(self): return self._b

    def fail(self, id, m, msg):
        vals = {}
        for n in self.inputs:
            if isinstance(m, dict): vals[n] = str(m.get(n, F(0)))
            else:
                v = m.eval(self.zv[self.names.index(n)], model_completion=True)
                if self.z3.is_algebraic_value(v): v = v.approx(30)
                vals[n] = '%d/%d' % (v.numerator_as_long(), v.denominator_as_long())
        if len(self.cex) < 4: self.cex.append([str(id), dict(vals=vals, choices=dict(self.choices)), msg])

    def witness(self):
        """some point of the current path"""
        for k in np.nonzero(self.pts)[0]: return self.point(k)
        return self.solve(self.cons) or None


class V:
    """harness context (symbolic)"""
    sym = True

    def __init__(self, ctx): self.c = ctx; self.ck = {}

    def real(self, n, lo=-1, hi=1): s = self.c.inp(n, lo, hi); self.c._b.add(self.c.names[-1]) if lo is not None and lo >= -1 and hi <= 1 else None; return s
    def cplx(self, n):
        a = self.real(n + '.re'); b = self.real(n + '.im'); return a + b * 1j
    def arr(self, n, shape, cx=True, order='C'):
        a = np.empty(shape, dtype=object, order=order)
        for k in np.ndindex(*a.shape): a[k] = (self.cplx if cx else self.real)(n + ''.join('_%d' % i for i in k))
        return a
    def herm(self, n, d):
        a = np.empty((d, d), dtype=object)
        for i in range(d):
            a[i, i] = self.real('%s_%d_%d' % (n, i, i))
            for j in range(i): a[i, j] = self.cplx('%s_%d_%d' % (n, i, j)); a[j, i] = a[i, j].conjugate()
        return a
    def sp(self, a, fmt='csr'):
        from .pymodel import SymSp
        return SymSp(a, fmt)
    def generic(self):
        "assume from here on that no intermediate matrix vanishes exactly"
        self.c.generic = True
    def unsupported(self, what): raise Unsupported(what)
    def num(self, a):
        """a constant array in the number representation of this mode"""
        a = np.asarray(a)
        return a.astype(object) if a.dtype != object else a
    def dtype(self, x=complex): return np.object_
    def choice(self, n, l): l = list(l); return l[self.c.choice(n, len(l))]
    def assume(self, cond_sym_bool): 
        if not cond_sym_bool: raise Infeasible()
    def eq(self, id, got, want):
        got, want = dense(got), dense(want)
        if got.shape != want.shape:
            st = self.c.asserts.setdefault(str(id), [0, 0]); st[0] += 1
            m = self.c.witness()
            if m is not None: self.c.fail(id, m, 'shape %s, expected %s' % (got.shape, want.shape))
            return
        pairs = []
        for k in np.ndindex(*got.shape):
            a, b = Sym.of(got[k]), Sym.of(want[k])
            if a is None or b is None: raise Unsupported('value %r / %r' % (type(got[k]), type(want[k])))
            pairs.append((a, b))
        self.c.oblige(id, pairs)
    def true(self, id, cond, msg=''):
        st = self.c.asserts.setdefault(str(id), [0, 0]); st[0] += 1
        if not cond:
            st[1] += 1; m = self.c.witness()
            if m is not None: self.c.fail(id, m, msg or 'condition false')
    def raises(self, id, fn, exc=Exception):
        try: fn()
        except (Unsupported, Infeasible): raise
        except exc: self.true(id, True); return
        self.true(id, False, 'no error raised')


def dense(x):
    if hasattr(x, 'toarray') and not isinstance(x, np.ndarray): x = x.toarray()
    x = np.asarray(x)
    return np.array(x, copy=True, subok=False)


class VC:
    """harness context (concrete replay on the unpatched code)"""
    sym = False

    def __init__(self, vals, choices): self.vals, self.choices = vals, choices; self.names = set(); self.bad = []; self.n = 0
    def _v(self, name, lo, hi):
        n = name; c = 1
        while n in self.names: c += 1; n = '%s_%d' % (name, c)
        self.names.add(n)
        if n not in self.vals:
            r = random.Random(n); lo_, hi_ = (-1 if lo is None else lo), (1 if hi is None else hi)
            self.vals[n] = str(F(lo_) + (F(hi_) - F(lo_)) * F(r.randint(1, 31), 32))
        return float(F(self.vals[n]))
    def real(self, n, lo=-1, hi=1): return self._v(n, lo, hi)
    def cplx(self, n): a = self.real(n + '.re'); b = self.real(n + '.im'); return complex(a, b)
    def arr(self, n, shape, cx=True, order='C'):
        a = np.empty(shape, dtype=np.complex128 if cx else np.float64, order=order)
        for k in np.ndindex(*a.shape): a[k] = (self.cplx if cx else self.real)(n + ''.join('_%d' % i for i in k))
        return a
    def herm(self, n, d):
        a = np.empty((d, d), dtype=np.complex128)
        for i in range(d):
            a[i, i] = self.real('%s_%d_%d' % (n, i, i))
            for j in range(i): a[i, j] = self.cplx('%s_%d_%d' % (n, i, j)); a[j, i] = a[i, j].conjugate()
        return a
    def sp(self, a, fmt='csr'):
        import scipy.sparse as sp
        return getattr(sp, fmt + '_matrix')(a)
    def num(self, a): return np.asarray(a)
    def generic(self): pass
    def unsupported(self, what): raise Unsupported(what)
    def dtype(self, x=complex): return np.dtype(x).type
    def choice(self, n, l): l = list(l); self.choices.setdefault(n, random.Random(n + str(self.choices.get('__seed', 0))).randrange(len(l))); return l[self.choices[n]]
    def assume(self, c):
        if not c: raise Infeasible()
    def eq(self, id, got, want):
        self.n += 1
        got, want = dense(got), dense(want)
        if got.shape != want.shape: self.bad.append((str(id), 'shape %s expected %s' % (got.shape, want.shape))); return
        if got.size and not np.all(np.abs(got.astype(complex) - want.astype(complex)) <= 1e-6 * (1 + np.abs(want.astype(complex)))): self.bad.append((str(id), 'got %s expected %s' % (got.tolist(), want.tolist())))
    def true(self, id, c, msg=''):
        self.n += 1
        if not c: self.bad.append((str(id), msg or 'condition false'))
    def raises(self, id, fn, exc=Exception):
        self.n += 1
        try: fn()
        except exc: return
        self.bad.append((str(id), 'no error raised'))


def load(script):
    import importlib.util
    p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'checks', 'py', script)
    spec = importlib.util.spec_from_file_location('harness', p); m = importlib.util.module_from_spec(spec); sys.modules['harness'] = m; spec.loader.exec_module(m)
    return m


def concrete(script, fn, arg):
    """entry of the replay process; prints FAIL lines / OK"""
    global MODE
    MODE = 'conc'
    import warnings; warnings.simplefilter('ignore')
    a = json.load(open(arg)); rc = 0
    h = load(script)
    for case in a:
        v = VC(dict(case['vals']), dict(case['choices']))
        try: getattr(h, fn)(v)
        except (Infeasible, Unsupported): print('SKIP'); continue
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            own = [f for f in tb if '/quspin/' in f.filename]
            print('FAIL raised %s: %s (%s)' % (type(e).__name__, str(e)[:200], '%s:%s' % (os.path.basename(own[-1].filename), own[-1].name) if own else 'harness')); continue
        print('FAIL %s' % json.dumps(v.bad)[:1500] if v.bad else 'OK %d' % v.n)


def run_concrete(script, fn, cases, work, tag, tmo=120):
    arg = os.path.join(work, 'c_%s_%d.json' % (tag, os.getpid())); json.dump(cases, open(arg, 'w'))
    r = subprocess.run([sys.executable, '-W', 'ignore', '-c', 'from vp import pysym; pysym.concrete(%r,%r,%r)' % (script, fn, arg)], capture_output=True, text=True, timeout=tmo)
    l = [x for x in r.stdout.splitlines() if x.startswith(('FAIL', 'OK', 'SKIP'))]
    if len(l) != len(cases): l += ['FAIL process: rc=%s %s' % (r.returncode, r.stderr[-800:])] * (len(cases) - len(l))
    return l


def main(script, fn):
    global CTX
    if ZP not in sys.path: sys.path.append(ZP)
    import warnings; warnings.simplefilter('ignore')
    out, work = os.environ['VP_OUT'], os.environ.get('VP_WORK', '/tmp')
    kw = json.loads(os.environ.get('VP_KW', '{}'))
    tmo = kw.get('tmo', 200)
    t0 = time.time(); res = dict(name='%s:%s' % (script, fn), bounds=kw.get('bounds', ''), status='ok', cex=[], t=0)
    fns = set()
    h = load(script); f = getattr(h, fn)
    if not res['bounds']: res['bounds'] = (f.__doc__ or '').strip()
    # concrete cross-check of harness and model on the real code, nothing patched
    try: conc = run_concrete(script, fn, [dict(vals={}, choices=dict(kw.get('fix', {}), __seed=k)) for k in range(kw.get('nconc', 4))], work, fn + '_0')
    except subprocess.TimeoutExpired: conc = ['FAIL timeout']
    ctx = CTX = Ctx(tol=kw.get('tol', 1e-7)); ctx.fix = kw.get('fix', {})
    from . import pymodel
    pymodel.install(h)
    mods = {}
    def prof(frame, ev, arg):
        if ev == 'call':
            co = frame.f_code
            if '/quspin/' in co.co_filename: fns.add('%s:%s' % (co.co_filename.split('/quspin/')[-1], co.co_name))
    work_l = [[]]; ctx.undec = None; unsup = None
    try:
        while work_l:
            if time.time() - t0 > tmo: raise Late()
            ctx.begin(work_l.pop()); ctx._b = set()
            v = V(ctx)
            if ctx.paths < 3: sys.setprofile(prof)
            try: f(v); ctx.paths += 1
            except Infeasible: pass
            except Unsupported as e: unsup = str(e) + ' ' + where(e)
            except Exception as e:
                # the code raised on this path: replayed concretely below
                m = ctx.witness()
                if m is not None: ctx.asserts.setdefault('raise', [0, 0])[1] += 1; ctx.fail('raise', m, '%s: %s %s' % (type(e).__name__, str(e)[:300], where(e)))
            finally: sys.setprofile(None)
            work_l += ctx.todo
            if len(ctx.cex) >= 3: break
    except Late:
        res['status'] = 'inconclusive'; res['err'] = 'time limit'
    if ctx.undec and res['status'] == 'ok': res['status'] = 'inconclusive'; res['err'] = ctx.undec
    if unsup and res['status'] == 'ok': res['status'] = 'unsupported'; res['err'] = unsup
    cex = []
    spurious = []
    if ctx.cex:
        l = run_concrete(script, fn, [c[1] for c in ctx.cex], work, fn + '_1')
        for c, t in zip(ctx.cex, l):
            (cex if t.startswith('FAIL') else spurious).append(c[:3] + [t.startswith('FAIL'), t])
    for k, t in enumerate(conc):
        if t.startswith('FAIL') and not cex: cex.append(['concrete', dict(choices={'__seed': k}), 'real code disagrees at the cross-check point', True, t])
    if cex: res['status'] = 'cex'; res['cex'] = cex; res['err'] = ''
    elif spurious:
        # the model, not the code: a Python exception or a difference that the real code does not show
        res['status'] = 'unsupported'; res['err'] = 'counterexample of the model not confirmed by the real code: %s' % spurious[0][:3]
    elif ctx.paths == 0 and res['status'] == 'ok': res['status'] = 'error'; res['err'] = 'vacuous: no path completed'
    elif not ctx.asserts and res['status'] == 'ok': res['status'] = 'error'; res['err'] = 'vacuous: no assertion reached'
    res.update(paths=ctx.paths, forks=ctx.forks, merges=0, steps=0, queries=ctx.nq, solver_s=round(ctx.tq, 3), asserts=ctx.asserts, fns=sorted(fns), t=round(time.time() - t0, 2))
    if os.environ.get('VP_LOG'): print(json.dumps(ctx.log, indent=1))
    json.dump([res], open(out, 'w'), default=str)


def where(e):
    tb = traceback.extract_tb(e.__traceback__)
    return ' < '.join('%s:%s:%s' % (os.path.basename(f.filename), f.lineno, f.name) for f in reversed(tb[-6:]))

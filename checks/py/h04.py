"""exp_op: exp(a O t) applied from the left, from the right and from both sides.  Generators are nilpotent, so that their exponentials are exact polynomials
of the (symbolic) entries: strictly upper triangular 3x3 matrices O with arbitrary entries, plus an arbitrary multiple of the identity through `shift`."""
import sys, os; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import numpy as np
from h_common import *
from quspin.operators import exp_op, hamiltonian, quantum_operator
PATCH = ['quspin.operators.exp_op_core', 'quspin.operators.quantum_operator_core', 'quspin.operators.hamiltonian_core', 'quspin.operators._make_hamiltonian', 'quspin.operators._functions']
SYM = [False]


def expn(V, A):
    "exponential of a matrix s + N with N nilpotent"
    A = np.asarray(A); n = A.shape[0]
    if not SYM[0]:
        import scipy.linalg; return scipy.linalg.expm(A.astype(complex))
    from vp.pysym import Sym
    s = A[0, 0]; e = np.eye(n, dtype=object)
    if any((Sym.of(A[i, i]) - Sym.of(s)).const() != (0, 0) for i in range(n)): raise RuntimeError('diagonal')
    N = A - e * s; r, t = e, e
    for k in range(1, n): t = t.dot(N) / k; r = r + t
    z = Sym.of(s).const()
    return r if z == (0, 0) else r * Sym.of(s).exp()


def patch(np_, sp_):
    """scipy's exponential on symbolic nilpotent matrices"""
    import quspin.operators.exp_op_core as m, types
    from vp.pymodel import SymSp
    from vp.pysym import Unsupported
    SYM[0] = True

    def D(x): return x.A_ if isinstance(x, SymSp) else np.asarray(x)
    def E(x):
        try: return expn(None, x)
        except RuntimeError: raise Unsupported('exponential of a matrix that is not nilpotent')
    def em(A, B, start=None, stop=None, num=None, endpoint=None, traceA=None):
        if isinstance(A, np.matrix) and B.ndim == 1: raise ValueError('numpy.matrix times vector')
        if isinstance(B, SymSp) and not isinstance(A, SymSp): raise ValueError('dense @ sparse')
        if not all(x is None for x in (start, stop, num, endpoint)):
            if isinstance(B, SymSp): raise ValueError('sparse B on a grid')
            g = np.linspace(start, stop, **{k: v for k, v in (('num', num), ('endpoint', endpoint)) if v is not None})
            return np.array([E(D(A) * x).dot(D(B)) for x in g])
        r = E(D(A)).dot(D(B))
        return SymSp(r, 'csr') if isinstance(B, SymSp) else np.asmatrix(r) if isinstance(B, np.matrix) else r
    m._expm_multiply = em
    def dense_expm(x):
        if isinstance(x, SymSp): raise TypeError('scipy.linalg.expm of a sparse matrix')
        return E(np.asarray(x))
    m._la = types.SimpleNamespace(expm=dense_expm)
    if hasattr(m, '_sla'): m._sla = types.SimpleNamespace(expm=lambda x: SymSp(E(D(x)), 'csc') if isinstance(x, SymSp) else E(np.asarray(x)), expm_multiply=em)


def gen(V, n='O'):
    "strictly upper triangular"
    O = V.num(np.zeros((3, 3), dtype=complex))
    for i, j in ((0, 1), (0, 2), (1, 2)): O[i, j] = V.cplx('%s%d%d' % (n, i, j))
    return O


A = [2.0, -1.5j]          # prefactors
def mk(V, kinds=('dense', 'csr', 'ham', 'qop')):
    """(generator as exp_op takes it, keyword arguments, its matrix)"""
    V.generic(); k = V.choice('kind', kinds); O = gen(V)
    if k in ('dense', 'csr'): return store(V, O, k), {}, O
    P = gen(V, 'P')
    if k == 'ham': f = drive(V, 'f'); return hamiltonian([store(V, O, 'csr')], [[store(V, P, 'csr'), f, ()]], dtype=V.dtype()), {'time': 0.5}, O + P * f(0.5)
    J = V.real('J'); fq = V.choice('fq', ['csr', 'dense']); return quantum_operator({'x': [store(V, O, fq)], 'y': [store(V, P, fq)]}, dtype=V.dtype()), {'pars': {'y': J}}, O + P * J


def call(O, kw): return kw if not isinstance(O, quantum_operator) else kw['pars']


def t_dot(V):
    "dot, rdot, sandwich without a grid; the exp_op and its argument stay what they were"
    O, kw, M = mk(V); a = V.choice('a', A); U = exp_op(O, a=a); E = expn(V, M * a); X = V.arr('X', (3, 3)); kw = call(O, kw); v = V.arr('v', (3,))
    V.eq(1, U.dot(v, **kw), E.dot(v)); V.eq(2, U.rdot(v, **kw), v.dot(E)); V.eq(3, U.dot(X, **kw), E.dot(X)); V.eq(4, U.rdot(X, **kw), X.dot(E)); x = X.copy()
    V.eq(5, U.sandwich(x, **kw), E.conj().T.dot(X).dot(E)); V.eq(6, x, X); V.eq(7, U.dot(v, **kw), E.dot(v)); V.eq(8, U.dot([v[0], v[1], v[2]], **kw), E.dot(v))


def t_rect(V):
    "dot and rdot of rectangular collections"
    O, kw, M = mk(V, ('dense', 'csr')); U = exp_op(O, a=-1.5j); E = expn(V, M * -1.5j); X = V.arr('X', (3, 2)); V.eq(1, U.dot(X), E.dot(X)); V.eq(2, U.rdot(X.T.copy()), X.T.dot(E)); V.raises(3, lambda: U.rdot(X)); V.raises(4, lambda: U.sandwich(X))


def t_shift(V):
    "shift adds a multiple of the identity to the generator"
    O, kw, M = mk(V, ('dense', 'csr')); a = V.choice('a', A); U = exp_op(O, a=a); s = V.real('s'); E = expn(V, (M + V.num(np.eye(3)) * s) * a); v = V.arr('v', (3,)); V.eq(1, U.dot(v, shift=s), E.dot(v)); V.eq(2, U.rdot(v, shift=s), v.dot(E))
    if a == 2.0: X = V.arr('X', (3, 3)); V.eq(3, U.sandwich(X, shift=s), E.conj().T.dot(X).dot(E))


def t_mat(V):
    "get_mat"
    O, kw, M = mk(V); a = V.choice('a', A); U = exp_op(O, a=a); kw = call(O, kw); V.eq(1, U.get_mat(**({'pars': kw} if isinstance(O, quantum_operator) else kw)), expn(V, M * a)); V.eq(2, U.get_mat(dense=True, **({'pars': kw} if isinstance(O, quantum_operator) else kw)), expn(V, M * a))
    U.set_a(0.5j); V.eq(3, U.get_mat(dense=True, **({'pars': kw} if isinstance(O, quantum_operator) else kw)), expn(V, M * 0.5j))


def t_conj(V):
    "adjoint, transpose, conjugate give the adjoint, ... exponential and leave the original alone"
    O, kw, M = mk(V, ('dense', 'csr', 'ham')); a = V.choice('a', A); U = exp_op(O, a=a); E = expn(V, M * a); v = V.arr('v', (3,))
    V.eq(1, U.H.dot(v, **kw), E.conj().T.dot(v)); V.eq(2, U.dot(v, **kw), E.dot(v)); V.eq(3, U.T.dot(v, **kw), E.T.dot(v)); V.eq(4, U.dot(v, **kw), E.dot(v)); V.eq(5, U.conj().dot(v, **kw), E.conj().dot(v)); V.eq(6, U.dot(v, **kw), E.dot(v))
    V.eq(7, U.H.rdot(v, **kw), v.dot(E.conj().T)); V.eq(8, U.H.H.dot(v, **kw), E.dot(v)); V.eq(9, U.getH(copy=True).dot(v, **kw), E.conj().T.dot(v)); V.eq(10, U.copy().dot(v, **kw), E.dot(v)); V.eq(11, U.T.sandwich(np.outer(v, v), **kw), E.conj().dot(np.outer(v, v)).dot(E.T))


GRIDS = [(0.0, 1.0, 3, True), (0.5, 1.5, 3, False), (-1.0, 1.0, 2, True)]
def t_grid(V):
    "a grid of times, as an array and as an iterator, from zero, from a later time, without the end point"
    O, kw, M = mk(V, ('dense', 'csr')); a = V.choice('a', A); st, sp, n, ep = V.choice('grid', GRIDS); it = V.choice('iterate', [False, True]); U = exp_op(O, a=a, start=st, stop=sp, num=n, endpoint=ep, iterate=it); v = V.arr('v', (3,)); X = V.arr('X', (3, 3))
    g = np.linspace(st, sp, n, endpoint=ep); E = [expn(V, M * (a * x)) for x in g]; V.eq('g', U.grid, g); x = v.copy(); d, r, s = U.dot(x), U.rdot(x), U.sandwich(X.copy())
    if it: d, r, s = list(d), list(r), list(s); d = np.array(d).T; s = np.array(s).transpose(1, 2, 0)
    V.eq('n', [len(r), d.shape[-1], s.shape[-1]], [n] * 3)
    for i in range(n): V.eq('d%d' % i, d[:, i], E[i].dot(v)); V.eq('r%d' % i, r[i], v.dot(E[i])); V.eq('s%d' % i, s[:, :, i], E[i].conj().T.dot(X).dot(E[i]))
    V.eq('x', x, v)


def t_grid_mat(V):
    "a grid of times acting on a matrix, row vectors and sparse matrices"
    O, kw, M = mk(V, ('dense', 'csr')); st, sp, n, ep = V.choice('grid', GRIDS[:2]); X = V.arr('X', (3, 3)); E = [expn(V, M * (-1.5j * x)) for x in np.linspace(st, sp, n, endpoint=ep)]; U = exp_op(O, a=-1.5j, start=st, stop=sp, num=n, endpoint=ep, iterate=True)
    for i, r in enumerate(U.dot(X)): V.eq('d%d' % i, r, E[i].dot(X))
    for i, r in enumerate(U.rdot(X)): V.eq('r%d' % i, r, X.dot(E[i]))
    U.set_iterate(False); r = U.rdot(X)
    for i in range(n): V.eq('m%d' % i, r[i], X.dot(E[i]))
    if not isinstance(O, np.ndarray):
        for i, r in enumerate(U.dot(V.sp(X))): V.eq('S%d' % i, r, E[i].dot(X))
        for i, r in enumerate(U.rdot(V.sp(X))): V.eq('T%d' % i, r, X.dot(E[i]))


def t_set(V):
    "grid, step, iterate and a can be changed"
    O, kw, M = mk(V, ('csr',)); U = exp_op(O); v = V.arr('v', (3,)); V.raises(0, lambda: U.set_iterate(True)); U.set_grid(0.5, 1.0, num=2, endpoint=True); d = U.dot(v); V.eq(1, d[:, 1], expn(V, M).dot(v)); V.eq(2, d[:, 0], expn(V, M * 0.5).dot(v)); U.set_a(2.0)
    V.eq(3, U.dot(v)[:, 0], expn(V, M).dot(v)); U.set_iterate(True); V.eq(4, list(U.dot(v))[1], expn(V, M * 2).dot(v)); U.unset_grid(); V.eq(5, U.dot(v), expn(V, M * 2).dot(v)); U.set_grid(0.0, 1.0); V.eq(6, U.grid, np.linspace(0, 1, 50))


def t_ham(V):
    "exponentials acting on driven hamiltonians"
    V.generic(); O = gen(V); U = exp_op(V.sp(O), a=-1.5j); S, D = V.arr('S', (3, 3)), V.arr('D', (3, 3)); f = drive(V, 'f'); kind = V.choice('kind', ['static', 'dynamic', 'both']); fm = V.choice('fmt', ['dense', 'csr', 'dia'])
    H = hamiltonian([store(V, S, fm)] if kind != 'dynamic' else [], [[store(V, D, fm), f, ()]] if kind != 'static' else [], shape=(3, 3), dtype=V.dtype()); t = 0.5; h = H.toarray(t); v = V.arr('v', (3,)); E = expn(V, O * -1.5j)
    for i, (m, W) in enumerate([('dot', E.dot(h)), ('rdot', h.dot(E)), ('sandwich', E.conj().T.dot(h).dot(E))]):
        R = getattr(U, m)(H); V.eq('%sa' % m, R.toarray(t), W); V.eq('%sb' % m, R.dot(v, time=t), W.dot(v))
    V.eq('z', H.toarray(t), h); V.eq('y', H.rotate_by(V.sp(O), generator=True, a=-1.5j).toarray(t), E.conj().T.dot(h).dot(E))


def t_ham_grid(V):
    "exponentials on a grid acting on driven hamiltonians"
    V.generic(); O = gen(V); S, D = V.arr('S', (3, 3)), V.arr('D', (3, 3)); f = drive(V, 'f'); fm = V.choice('fmt', ['dense', 'csr']); st, sp, n, ep = V.choice('grid', GRIDS[:2]); it = V.choice('iterate', [True, False])
    H = hamiltonian([store(V, S, fm)], [[store(V, D, fm), f, ()]], dtype=V.dtype()); t = 0.5; h = H.toarray(t); U = exp_op(V.sp(O), a=-1.5j, start=st, stop=sp, num=n, endpoint=ep, iterate=it); E = [expn(V, O * (-1.5j * x)) for x in np.linspace(st, sp, n, endpoint=ep)]
    for m in ('dot', 'rdot', 'sandwich'):
        l = list(getattr(U, m)(H)); V.eq(m + 'n', [len(l)], [n])
        for i, R in enumerate(l): e = E[i]; V.eq('%s%d' % (m, i), R.toarray(t), e.dot(h) if m == 'dot' else h.dot(e) if m == 'rdot' else e.conj().T.dot(h).dot(e))

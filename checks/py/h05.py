"""quantum_LinearOperator: applies sum_k J_k O_k without storing it.  The basis is a stand-in whose operators 'x' (full) and 'z' (diagonal) have arbitrary matrix elements;
the default action basis._inplace_Op that it inherits is the real one."""
import sys, os; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import numpy as np, scipy.sparse as sp
from h_common import *
from quspin.operators import quantum_LinearOperator, hamiltonian
from quspin.basis.base import basis
PATCH = ['quspin.operators.quantum_LinearOperator_core', 'quspin.operators.hamiltonian_core', 'quspin.operators._make_hamiltonian', 'quspin.operators._functions', 'quspin.basis.base']


def patch(np_, sp_):
    import quspin.basis.base as b, quspin.operators.quantum_LinearOperator_core as m
    for f in ('_coo_dot', '_is_diagonal', '_update_diag'):
        g = getattr(b, f); g = getattr(g, 'py_func', g); setattr(b, f, g)
        if hasattr(m, f): setattr(m, f, g)


class stub(basis):
    def __init__(self, V, n=2):
        basis.__init__(self); self._Ns = n; self._blocks = {}; self._operators = 'x z'; self.n = n; self._check_herm = self._check_symm = self._check_pcon = None
        self.X = V.arr('X', (n, n)); self.U = V.arr('U', (n, n)); self.Z = V.arr('Z', (n,)); self.obj = self.X.dtype == object
    def _Op(self, opstr, indx, J, dtype):
        n = self.n; d = dtype if not self.obj else object
        if opstr == 'z': r = c = np.arange(n); m = self.Z
        elif opstr == 'x': r, c = (a.ravel() for a in np.indices((n, n))); m = self.X.ravel()
        else: r, c = (a.ravel()[::-1] for a in np.indices((n, n))); m = self.U.ravel()[::-1]
        return np.array([e * J for e in m], dtype=d), r.copy(), c.copy()
    def mat(self, l): return sum([(np.diag(self.Z) if o == 'z' else self.X if o == 'x' else self.U) * J for o, b in l for J, *i in b])


W0 = dict(x=0.75 - 0.5j, u=-0.25 + 1j, z=1.5 + 0.5j)
K = dict(check_herm=False, check_symm=False, check_pcon=False)
def build(V, kinds=('xz', 'x', 'z', 'xuz')):
    B = stub(V); w = {k: W0[k] for k in 'xuz'}; l = [[k, [[w[k], 0]]] for k in V.choice('ops', kinds)]
    return quantum_LinearOperator(l, basis=B, dtype=V.dtype(), **K), B.mat(l), B, l


def t_dot(V):
    "dot, matvec, matmat, rmatvec, *: one or several vectors, prefactor"
    V.generic()
    A, M, B, l = build(V); v = V.arr('v', (2,)); W = V.arr('W', (2, 3)); c = V.cplx('c'); v0 = v.copy()
    V.eq(1, A.dot(v), M.dot(v)); V.eq(2, A.dot(W), M.dot(W)); V.eq(3, A.dot(v, a=c), M.dot(v) * c); V.eq(4, A * v, M.dot(v)); V.eq(5, A.matvec(v), M.dot(v)); V.eq(6, A.rmatvec(v), M.conj().T.dot(v))
    V.eq(7, A.matmat(W), M.dot(W)); V.eq(8, A.dot(v), M.dot(v)); V.eq(9, A._mul_scalar(c).dot(v), M.dot(v) * c); V.eq(10, v, v0)


def t_out(V):
    "dot writes to out"
    V.generic()
    A, M, B, l = build(V); m = V.choice('m', [0, 3]); v = V.arr('v', (2, m) if m else (2,)); o = V.arr('O', v.shape); c = V.cplx('c'); r = A.dot(v, out=o, a=c)
    V.eq(1, o, M.dot(v) * c); V.eq(2, r, M.dot(v) * c)


def t_views(V):
    "T, conj, H and their combinations; the operator itself is unchanged"
    V.generic()
    A, M, B, l = build(V); v = V.arr('v', (2,)); W = V.arr('W', (2, 3)); c = V.cplx('c'); v0 = v.copy()
    if V.choice('scaled', [0, 1]): A, M = A._mul_scalar(c), M * c
    fs = {'T': lambda m: m.T, 'conj': lambda m: m.conj(), 'H': lambda m: m.conj().T, 'N': lambda m: -m}
    op = {'T': lambda a: a.T, 'conj': lambda a: a.conj(), 'H': lambda a: a.H, 'N': lambda a: -a}
    f, g = V.choice('f', list(fs)), V.choice('g', list(fs)); X = op[f](A); V.eq(1, X.dot(v), fs[f](M).dot(v)); V.eq(2, op[g](X).dot(W), fs[g](fs[f](M)).dot(W)); V.eq(3, A.dot(v), M.dot(v)); V.eq(4, X.dot(v), fs[f](M).dot(v))
    Y = A.getH(copy=True); V.eq(5, Y.dot(v), M.conj().T.dot(v)); Y = A.transpose(copy=True); V.eq(6, Y.dot(v), M.T.dot(v)); V.eq(7, A.copy().dot(v), M.dot(v)); V.eq(8, A.dot(v), M.dot(v))


def t_left(V):
    "vectors from the left"
    V.generic()
    A, M, B, l = build(V); v = V.arr('v', (2,)); W = V.arr('W', (3, 2)); V.eq(1, A.__rmul__(v), v.dot(M)); V.eq(2, A.__rmul__(W), W.dot(M)); V.eq(3, A.dot(v), M.dot(v)); V.eq(4, A.__rmul__(V.sp(W)), W.dot(M))


def t_sparse(V):
    "sparse operands"
    V.generic()
    A, M, B, l = build(V); W = V.arr('W', (2, 3)); f = V.choice('fmt', ['csr', 'csc']); g = V.choice('view', ['', 'T', 'conj', 'H']); X, R = {'': (A, M), 'T': (A.T, M.T), 'conj': (A.conj(), M.conj()), 'H': (A.H, M.conj().T)}[g]
    V.eq(1, X.dot(V.sp(W, f)), R.dot(W)); V.eq(2, X._mul_scalar(2.5).dot(V.sp(W, f)), R.dot(W) * 2.5)


def t_ham(V):
    "products with a hamiltonian"
    V.generic()
    A, M, B, l = build(V, ('xz', 'z')); S, D = V.arr('S', (2, 2)), V.arr('D', (2, 2)); f = drive(V, 'f'); k = V.choice('fmt', ['csr', 'dense'])
    H = hamiltonian([store(V, S, k)], [[store(V, D, k), f, ()]], dtype=V.dtype()); t = 0.5; h = S + D * f(t); P = A * H; V.eq(1, P.toarray(t), M.dot(h)); Q = A.__rmul__(H); V.eq(2, Q.toarray(t), h.dot(M)); V.eq(3, H.toarray(t), h)


def t_algebra(V):
    "sums, differences, products and powers of two operators"
    V.generic()
    B = stub(V); a, b = 0.75-0.5j, -0.25+1j; la = [['x', [[a, 0]]], ['z', [[b, 1]]]]; lb = [['u', [[b, 0]]]]; k = dict(basis=B, dtype=V.dtype(), **K); A, C = quantum_LinearOperator(la, **k), quantum_LinearOperator(lb, **k); M, N = B.mat(la), B.mat(lb); v = V.arr('v', (2,))
    V.eq(1, (A + C).dot(v), (M + N).dot(v)); V.eq(2, (A - C).dot(v), (M - N).dot(v)); V.eq(3, A.dot(C).dot(v), M.dot(N).dot(v)); V.eq(4, (A * C).dot(v), M.dot(N).dot(v)); V.eq(5, A.dot(v), M.dot(v)); V.eq(6, C.dot(v), N.dot(v))
    A *= 2.0; V.eq(7, A.dot(v), M.dot(v) * 2); V.eq(8, (A * 0.5).dot(v), M.dot(v)); V.eq(9, (0.5j * A).dot(v), M.dot(v) * 1j)


def t_expt(V):
    "expectation values, matrix elements, fluctuations"
    V.generic()
    A, M, B, l = build(V, ('xz', 'z')); v, u = V.arr('v', (2,)), V.arr('u', (2,)); k = V.choice('state', ['pure', 'pures', 'square', 'mixed', 'sparse'])
    if k == 'pure':
        V.eq(1, A.expt_value(v), v.conj().dot(M.dot(v))); V.eq(2, A.matrix_ele(u, v), u.conj().dot(M.dot(v)))
    elif k == 'pures':
        P, U = V.arr('P', (2, 3)), V.arr('U', (2, 3)); V.eq(3, A.expt_value(P), P.conj().T.dot(M.dot(P)).diagonal()); V.eq(4, A.matrix_ele(U, P), U.conj().T.dot(M.dot(P))); V.eq(5, A.matrix_ele(U, P, diagonal=True), U.conj().T.dot(M.dot(P)).diagonal())
    elif k == 'square': S = V.arr('S', (2, 2)); V.eq(6, A.expt_value(S, enforce_pure=True), S.conj().T.dot(M.dot(S)).diagonal())
    elif k == 'mixed': D = V.herm('D', 2); V.eq(7, A.expt_value(D), M.dot(D).trace())
    else: X = V.arr('X0', (2, 1)); V.eq(8, A.expt_value(V.sp(X)), X.conj().T.dot(M.dot(X))[0, 0])


def t_fluct(V):
    "quantum fluctuations of a hermitian operator"
    V.generic()
    B = stub(V); H = V.herm('H', 2); B.X = H; J = -0.75; A = quantum_LinearOperator([['x', [[J, 0]]]], basis=B, dtype=V.dtype(), **K); a = H * J; k = V.choice('state', ['pure', 'pures', 'mixed'])
    if k == 'pure': v = V.arr('v', (2,)); e = v.conj().dot(a.dot(v)); V.eq(1, A.quant_fluct(v), v.conj().dot(a.dot(a.dot(v))) - e * e)
    elif k == 'pures': v = V.arr('v', (2, 3)); e = v.conj().T.dot(a.dot(v)).diagonal(); V.eq(2, A.quant_fluct(v), v.conj().T.dot(a.dot(a.dot(v))).diagonal() - e * e)
    else: D = V.herm('D', 2); e = a.dot(D).trace(); V.eq(3, A.quant_fluct(D), a.dot(a.dot(D)).trace() - e * e)


def t_diag(V):
    "a given diagonal is added, whatever the diagonal operators"
    V.generic()
    B = stub(V); w = {k: W0[k] for k in 'xz'}; l = [[k, [[w[k], 0]]] for k in V.choice('ops', ['x', 'z', 'xz'])]; D = V.arr('D', (2,)); D0 = D.copy(); v = V.arr('v', (2,)); k = V.choice('how', ['init', 'copy', 'set']); M = B.mat(l)
    if k != 'set': A = quantum_LinearOperator(l, basis=B, diagonal=D.copy(), copy=k == 'copy', dtype=V.dtype(), **K); M = M + np.diag(D)
    else:
        A = quantum_LinearOperator(l, basis=B, dtype=V.dtype(), **K); A.set_diagonal(D); M = B.mat([x for x in l if x[0] == 'x']) + np.diag(D)
    V.eq(1, A.dot(v), M.dot(v)); V.eq(2, A.H.dot(v), M.conj().T.dot(v)); V.eq(3, D, D0)


def t_bonds(V):
    "repeated operator strings and sites add up"
    V.generic()
    B = stub(V); a, b, c = 0.75-0.5j, -0.25+1j, 1.5; l = [['x', [[a, 0], [b, 1]]], ['z', [[c, 0], [a, 0]]], ['x', [[c, 0]]]]; A = quantum_LinearOperator(l, basis=B, dtype=V.dtype(), **K); v = V.arr('v', (2,)); V.eq(1, A.dot(v), B.mat(l).dot(v)); V.true(2, A.static_list == l, 'static_list')

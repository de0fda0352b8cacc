"""hamiltonian: algebra — every operation returns the operator it names and leaves its other operands unchanged"""
import sys, os; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import numpy as np
from h_common import *
import quspin.operators.hamiltonian_core as hc
from quspin.operators import hamiltonian, commutator, anti_commutator
PATCH = ['quspin.operators.hamiltonian_core', 'quspin.operators._make_hamiltonian', 'quspin.operators._functions']
T = 0.5
KIND = ['static', 'dynamic', 'both', 'shared']   # which parts an operator has; 'shared': same drive function as its partner


def build(V, n, kind, fmt, d=2, fs=None, both=None):
    """operator n: (hamiltonian, reference matrix as a function of time)"""
    S = V.arr('S' + n, (d, d)); M = V.arr('M' + n, (d, d)); f = (fs or {}).get('f') if kind == 'shared' else drive(V, 'f' + n)
    st = [] if kind == 'dynamic' else [store(V, S, fmt)]
    dy = [] if kind == 'static' else [[store(V, M, fmt), f, ()]]
    H = hamiltonian(st, dy, shape=(d, d), dtype=V.dtype())
    def ref(t):
        r = V.num(np.zeros((d, d)))
        if st: r = r + S
        if dy: r = r + M * f(t)
        return r
    if fs is not None: fs.setdefault('f', f)
    return H, ref


def two(V, fmts=('dense', 'csr', 'dia')):
    fs = {}; ka = V.choice('A', KIND[:3]); kb = V.choice('B', KIND[:3] + (['shared'] if ka != 'static' else []))
    fa = V.choice('fmtA', fmts); fb = V.choice('fmtB', fmts)
    if ka == 'static': fs['f'] = drive(V, 'fx')
    A, ra = build(V, 'A', ka, fa, fs=fs); B, rb = build(V, 'B', kb, fb, fs=fs)
    return A, ra, B, rb


def same(V, k, H, R): V.eq(k, H.toarray(T), R)


def usable(V, k, H, R):
    "the result acts like R: matrix, action on a vector"
    V.eq(k, H.toarray(T), R); v = V.arr('v%s' % k, (R.shape[1],)); V.eq(k + .5, H.dot(v, time=T), R.dot(v))


def unharmed(V, k, A, ra, B, rb):
    V.eq(k, A.toarray(T), ra(T)); V.eq(k + .5, B.toarray(T), rb(T))


def t_add(V):
    "A + B of two operators with static/dynamic/shared drive parts in dense, csr, dia storage; operands unchanged, also by later in-place changes of the result"
    A, ra, B, rb = two(V); C = A + B; usable(V, 1, C, ra(T) + rb(T)); C *= 2.0; V.eq(2, C.toarray(T), (ra(T) + rb(T)) * 2); unharmed(V, 3, A, ra, B, rb)


def t_sub(V):
    "A - B"
    A, ra, B, rb = two(V); C = A - B; usable(V, 1, C, ra(T) - rb(T)); C *= 2.0; unharmed(V, 3, A, ra, B, rb)


def t_mul(V):
    "A * B and A.dot(B)"
    A, ra, B, rb = two(V, ('dense', 'csr')); usable(V, 1, A * B, ra(T).dot(rb(T))); V.eq(2, A.dot(B, a=3.0).toarray(T), 3 * ra(T).dot(rb(T))); unharmed(V, 3, A, ra, B, rb)


def t_rmul(V):
    "A.__rmul__(B) = B * A"
    A, ra, B, rb = two(V, ('dense', 'csr')); usable(V, 1, A.__rmul__(B), rb(T).dot(ra(T))); unharmed(V, 3, A, ra, B, rb)


def t_iadd(V):
    "A += B leaves B unchanged, also by later in-place changes of A"
    A, ra, B, rb = two(V); A += B; usable(V, 1, A, ra(T) + rb(T)); A *= 2.0; V.eq(2, A.toarray(T), 2 * (ra(T) + rb(T))); V.eq(3, B.toarray(T), rb(T))


def t_isub(V):
    "A -= B"
    A, ra, B, rb = two(V); A -= B; usable(V, 1, A, ra(T) - rb(T)); A *= 2.0; V.eq(3, B.toarray(T), rb(T))


def t_imul(V):
    "A *= B"
    A, ra, B, rb = two(V, ('dense', 'csr')); A *= B; usable(V, 1, A, ra(T).dot(rb(T))); V.eq(3, B.toarray(T), rb(T))


def t_comm(V):
    "commutator and anticommutator (no intermediate product vanishes exactly)"
    V.generic()
    A, ra, B, rb = two(V, ('csr',)); a, b = ra(T), rb(T)
    V.eq(1, commutator(A, B).toarray(T), a.dot(b) - b.dot(a)); V.eq(2, anti_commutator(A, B).toarray(T), a.dot(b) + b.dot(a))
    D = V.arr('D', (2, 2)); V.eq(3, commutator(A, D).toarray(T), a.dot(D) - D.dot(a)); V.eq(4, anti_commutator(V.sp(D), A).toarray(T), D.dot(a) + a.dot(D))


def t_square(V):
    "A*A, powers, conjugates of products (no intermediate product vanishes exactly)"
    V.generic()
    A, ra = build(V, 'A', V.choice('A', KIND[:3]), V.choice('fmt', ['dense', 'csr'])); a = ra(T)
    V.eq(1, (A * A).toarray(T), a.dot(a)); V.eq(2, (A ** 3).toarray(T), a.dot(a).dot(a)); V.eq(3, (A * A).getH().toarray(T), a.dot(a).conj().T)
    V.eq(4, (A * A.H * A).toarray(T), a.dot(a.conj().T).dot(a)); V.eq(5, ((A * A.H).conj() * A.conj()).toarray(T), a.conj().dot(a.T).dot(a.conj()))
    V.eq(6, (A * (A * A)).toarray(T), ((A * A) * A).toarray(T)); V.eq(7, (A * A + A * A - A * A).toarray(T), a.dot(a))


def other(V, d=2, kinds=('dense', 'csr', 'csc', 'dia', 'matrix', 'list')):
    k = V.choice('other', kinds); X = V.arr('X', (d, d))
    return X, X.copy() if k == 'dense' else np.asmatrix(X.copy()) if k == 'matrix' else [list(r) for r in X] if k == 'list' else V.sp(X, k)


def one(V, fmts=('dense', 'csr', 'csc', 'dia')): return build(V, 'A', V.choice('A', KIND[:3]), V.choice('fmt', fmts))


def t_mat_add(V):
    "A + X, X + A, A - X, X - A with dense, matrix, list and sparse X"
    A, ra = one(V); X, x = other(V); a = ra(T)
    usable(V, 1, A + x, a + X); V.eq(2, (x + A).toarray(T), X + a); V.eq(3, (A - x).toarray(T), a - X); V.eq(4, (x - A).toarray(T), X - a)
    V.eq(5, A.toarray(T), a); V.eq(6, x if not isinstance(x, list) else np.array(x), X)


def t_mat_mul(V):
    "A * X and X * A"
    A, ra = one(V); X, x = other(V); a = ra(T)
    usable(V, 1, A * x, a.dot(X)); usable(V, 2, x * A if not isinstance(x, list) else A.__rmul__(x), X.dot(a)); V.eq(5, A.toarray(T), a)


def t_mat_inplace(V):
    "A += X, A -= X, A *= X"
    op = V.choice('op', ['+', '-', '*']); A, ra = one(V); X, x = other(V, kinds=('dense', 'csr', 'matrix')); a = ra(T); B = A
    if op == '+': A += x; R = a + X
    elif op == '-': A -= x; R = a - X
    else: A *= x; R = a.dot(X)
    usable(V, 1, A, R); V.eq(2, x, X); V.true(3, A is B, 'in-place operation made a new object')


def t_scalar(V):
    "scalar multiples, division, negation, adding zero, sum()"
    A, ra = one(V); a = ra(T); c = 2.5 - 1.25j; s = V.real('s')
    usable(V, 1, A * c, a * c); V.eq(2, (c * A).toarray(T), a * c); V.eq(3, (A / c).toarray(T) * c, a); V.eq(4, (-A).toarray(T), -a); V.eq(5, (A + 0).toarray(T), a)
    V.eq(6, sum([A, A]).toarray(T), 2 * a); V.eq(7, (A - 0).toarray(T), a); V.eq(8, (0 - A).toarray(T), -a); V.eq(9, A.toarray(T), a)
    V.raises(10, lambda: A + 1.0); A *= 2.0; usable(V, 11, A, 2 * a); A /= 4.0; V.eq(12, A.toarray(T), a / 2)


def t_trans(V):
    "transpose, conjugate, adjoint, copy, astype"
    A, ra = one(V); a = ra(T)
    usable(V, 1, A.T, a.T); usable(V, 2, A.conj(), a.conj()); usable(V, 3, A.H, a.conj().T); V.eq(4, A.getH(copy=True).toarray(T), a.conj().T); V.eq(5, A.H.H.toarray(T), a)
    B = A.copy(); B *= 3.0; V.eq(6, A.toarray(T), a); C = A.transpose(copy=True); C *= 3.0; V.eq(7, A.toarray(T), a); V.eq(8, C.toarray(T), 3 * a.T)
    D = A.astype(V.dtype(), copy=True); D *= 2.0; V.eq(9, A.toarray(T), a)
    D = A.conj(); D *= 2.0; V.eq(10, A.toarray(T), a); D = -A; D *= 2.0; V.eq(11, A.toarray(T), a)


def t_project(V):
    "project_to / rotate_by with rectangular and square projectors"
    A, ra = one(V, ('dense', 'csr', 'dia')); k = V.choice('P', ['dense', 'csr', 'csc', 'list']); m = V.choice('m', [1, 2, 3]); P = V.arr('P', (2, m)); a = ra(T)
    p = P.copy() if k == 'dense' else [list(r) for r in P] if k == 'list' else V.sp(P, k)
    if k == 'list' : p = np.array(p)
    R = P.conj().T.dot(a).dot(P); C = A.project_to(p); V.eq(1, C.toarray(T), R); V.eq(2, C.get_shape, (m, m)); V.eq(3, A.rotate_by(p).toarray(T), R); V.eq(4, A.toarray(T), a)
    V.eq(6, [C.Ns], [m])
    v = V.arr('v', (m,)); V.eq(5, C.dot(v, time=T), R.dot(v))


def t_project_h(V):
    "project_to an operator (no intermediate product vanishes exactly)"
    V.generic()
    A, ra, B, rb = two(V, ('csr', 'dense')); V.eq(1, A.project_to(B).toarray(T), rb(T).conj().T.dot(ra(T)).dot(rb(T))); unharmed(V, 3, A, ra, B, rb)


def t_cancel(V):
    "terms that cancel exactly leave a working operator"
    A, ra = one(V); a = ra(T); Z = A - A; v = V.arr('v', (2,))
    V.eq(1, Z.toarray(T), a * 0); V.eq(2, Z.dot(v, time=T), v * 0); V.eq(3, (Z + A).toarray(T), a); V.eq(4, (A * 0.0).toarray(T), a * 0); V.eq(5, (A * 0.0 + A).dot(v, time=T), a.dot(v))

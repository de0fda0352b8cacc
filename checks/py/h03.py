"""quantum_operator: the operator is the parameter-weighted sum of its stored matrices, in every form it is asked for"""
import sys, os; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import numpy as np
from h_common import *
from quspin.operators import quantum_operator
PATCH = ['quspin.operators.quantum_operator_core', 'quspin.operators.hamiltonian_core', 'quspin.operators._make_hamiltonian', 'quspin.operators._functions']
F3 = ('dense', 'csr', 'dia')


def build(V, n, keys='xy', fmts=F3, d=2, name=None):
    """(operator, {key: matrix}); every key in an arbitrary storage format"""
    R = {k: V.arr('M' + n + k, (d, d)) for k in keys}
    Q = quantum_operator({k: [store(V, R[k], V.choice('fmt' + n + k, fmts))] for k in keys}, dtype=V.dtype())
    return Q, R


def weights(V, Q=None, keys='xy'):
    """the parameters a caller passes, and the value each key then has"""
    g = V.choice('given', ['none', 'first', 'all']); w = {k: V.cplx('J' + k) for k in keys}; ks = {'none': '', 'first': keys[:1], 'all': keys}[g]
    return {k: w[k] for k in ks}, {k: w[k] if k in ks else 1.0 for k in keys}


def ref(R, w): return sum([R[k] * w[k] for k in R])


def t_dense(V):
    "toarray, todense, tocsr, tocsc, call, diagonal, trace for any parameters, any storage"
    V.generic()
    Q, R = build(V, 'A'); p, w = weights(V); a = ref(R, w); q = dict(p)
    V.eq(1, Q.toarray(p), a); V.eq(2, Q.todense(p), a); V.eq(3, Q.tocsr(p), a); V.eq(4, Q.tocsc(p), a); V.eq(5, Q(**p), a)
    V.eq(6, Q.diagonal(p), a.diagonal()); V.eq(7, Q.trace(p), a.trace()); V.true(8, p == q and set(p) == set(q), 'parameters of the caller changed')
    V.true(9, isinstance(Q.toarray(p), np.ndarray) and not isinstance(Q.toarray(p), np.matrix), 'toarray did not return an ndarray')


def t_dense_out(V):
    "toarray / todense write the result to out"
    V.generic()
    Q, R = build(V, 'A', fmts=('dense', 'csr')); p, w = weights(V); a = ref(R, w); o = V.arr('O', (2, 2)); r = Q.toarray(p, out=o)
    V.eq(1, r, a); V.eq(2, o, a); o = V.arr('O', (2, 2)); r = Q.todense(p, out=o); V.eq(3, r, a); V.eq(4, o, a)


def t_dot(V):
    "dot for any parameters, prefactor, vector or several vectors"
    V.generic()
    Q, R = build(V, 'A'); p, w = weights(V); a = ref(R, w); m = V.choice('m', [0, 3]); v = V.arr('v', (2, m) if m else (2,))
    V.eq(1, Q.dot(v, pars=p), a.dot(v)); V.eq(2, Q.matvec(v), (R['x'] + R['y']).dot(v)); V.eq(3, Q.rmatvec(v), (R['x'] + R['y']).conj().T.dot(v)); V.eq(4, Q.matmat(v), (R['x'] + R['y']).dot(v))
    V.eq(5, Q.dot(v, pars=p, check=False), a.dot(v)); V.eq(6, Q.dot([list(r) for r in v] if m else list(v), pars=p), a.dot(v))


def t_dot_out(V):
    "dot with out, overwrite_out and prefactor"
    V.generic()
    Q, R = build(V, 'A', fmts=('dense', 'csr')); p, w = weights(V); a = ref(R, w); v = V.arr('v', (2,)); o = V.arr('O', (2,)); c = V.cplx('c'); o0 = o.copy()
    ov = V.choice('overwrite', [True, False]); r = Q.dot(v, pars=p, out=o, overwrite_out=ov, a=c); E = a.dot(v) * c + (0 if ov else o0); V.eq(1, r, E); V.eq(2, o, E)


def t_dot_small(V):
    "a small coupling is not dropped"
    V.generic()
    Q, R = build(V, 'A', fmts=('dense', 'csr')); J = V.real('J'); v = V.arr('v', (2,)); p = {'x': J * 2.0 ** -60, 'y': J * 2.0 ** -62}
    V.eq(1, Q.dot(v, pars=p) * 2.0 ** 60, (R['x'] * J + R['y'] * J / 4).dot(v))


def t_dot_sp(V):
    "dot with a sparse operand"
    V.generic()
    Q, R = build(V, 'A'); p, w = weights(V); a = ref(R, w); X = V.arr('X', (2, 3)); V.eq(1, Q.dot(V.sp(X, V.choice('fx', ['csr', 'csc'])), pars=p, a=2.5), a.dot(X) * 2.5)


def t_rdot(V):
    "rdot: row vectors from the left"
    V.generic()
    Q, R = build(V, 'A', fmts=('dense', 'csr')); p, w = weights(V); a = ref(R, w); m = V.choice('m', [0, 3]); v = V.arr('v', (m, 2) if m else (2,))
    V.eq(1, Q.rdot(v, pars=p), v.dot(a)); V.eq(2, Q.rdot(v, pars=p, a=2.5), v.dot(a) * 2.5)
    o = V.arr('O', (2,) if not m else (m, 2)); r = Q.rdot(v, pars=p, out=o); V.eq(3, o, v.dot(a)); V.eq(4, r, v.dot(a))


def t_expt(V):
    "expectation values, matrix elements, fluctuations"
    V.generic()
    Q, R = build(V, 'A', fmts=('dense', 'csr')); p, w = weights(V); a = ref(R, w); v, u = V.arr('v', (2,)), V.arr('u', (2,)); k = V.choice('state', ['pure', 'pures', 'mixed', 'sparse'])
    if k == 'pure':
        V.eq(1, Q.expt_value(v, pars=p), v.conj().dot(a.dot(v))); V.eq(2, Q.matrix_ele(u, v, pars=p), u.conj().dot(a.dot(v)))
    elif k == 'pures':
        P = V.arr('P', (2, 3)); U = V.arr('U', (2, 3)); S = V.arr('S', (2, 2)); V.eq(3, Q.expt_value(P, pars=p), P.conj().T.dot(a.dot(P)).diagonal()); V.eq(4, Q.matrix_ele(U, P, pars=p), U.conj().T.dot(a.dot(P)))
        V.eq(5, Q.matrix_ele(U, P, pars=p, diagonal=True), U.conj().T.dot(a.dot(P)).diagonal()); V.eq(6, Q.expt_value(S, pars=p, enforce_pure=True), S.conj().T.dot(a.dot(S)).diagonal())
    elif k == 'mixed':
        D = V.herm('D', 2); V.eq(7, Q.expt_value(D, pars=p), a.dot(D).trace())
    else:
        X = V.arr('X', (2, 1)); U = V.arr('U', (2, 3)); V.eq(8, Q.expt_value(V.sp(X), pars=p), X.conj().T.dot(a.dot(X))[0, 0]); V.eq(9, Q.matrix_ele(V.sp(U), V.sp(X), pars=p), U.conj().T.dot(a.dot(X)))


def t_fluct(V):
    "quantum fluctuations of a hermitian operator in pure and mixed states"
    V.generic()
    H = V.herm('H', 2); Q = quantum_operator({'x': [store(V, H, V.choice('fmt', ['dense', 'csr']))]}, dtype=V.dtype()); J = V.real('J'); k = V.choice('state', ['pure', 'pures', 'mixed']); a = H * J
    if k == 'pure': v = V.arr('v', (2,)); e = v.conj().dot(a.dot(v)); V.eq(1, Q.quant_fluct(v, pars={'x': J}), v.conj().dot(a.dot(a.dot(v))) - e * e)
    elif k == 'pures': v = V.arr('v', (2, 3)); e = v.conj().T.dot(a.dot(v)).diagonal(); V.eq(2, Q.quant_fluct(v, pars={'x': J}), v.conj().T.dot(a.dot(a.dot(v))).diagonal() - e * e)
    else: D = V.herm('D', 2); e = a.dot(D).trace(); V.eq(3, Q.quant_fluct(D, pars={'x': J}), a.dot(a.dot(D)).trace() - e * e)


def t_linop(V):
    "aslinearoperator keeps the parameters it was made with"
    V.generic()
    Q, R = build(V, 'A', fmts=('dense', 'csr')); p, w = weights(V); a = ref(R, w); v = V.arr('v', (2,)); L = Q.aslinearoperator(p); p.clear()
    V.eq(1, L._matvec_impl(v) if hasattr(L, '_matvec_impl') else L.matvec(v), a.dot(v))


def t_calls(V):
    "one call's parameters do not influence other calls or other objects"
    V.generic()
    A, RA = build(V, 'A', 'xy', ('csr', 'dense')); B, RB = build(V, 'B', 'xz', ('csr', 'dense')); v = V.arr('v', (2,)); J = V.cplx('J')
    V.eq(1, A.dot(v), (RA['x'] + RA['y']).dot(v)); V.eq(2, B.dot(v), (RB['x'] + RB['z']).dot(v)); p = {'x': J}
    V.eq(3, A.dot(v, pars=p), (RA['x'] * J + RA['y']).dot(v)); V.eq(4, B.dot(v, pars=p), (RB['x'] * J + RB['z']).dot(v)); V.eq(5, A.toarray(), RA['x'] + RA['y']); V.eq(6, B.toarray(), RB['x'] + RB['z'])
    V.eq(7, A.trace(), (RA['x'] + RA['y']).trace()); V.eq(8, B.tohamiltonian().toarray(), RB['x'] + RB['z']); V.eq(9, A.tohamiltonian().toarray(), RA['x'] + RA['y']); V.eq(10, A.diagonal(), (RA['x'] + RA['y']).diagonal())
    V.raises(11, lambda: A.dot(v, pars={'q': 1.0})); V.raises(12, lambda: A.tocsr({'q': 1.0}))


def t_ham(V):
    "tohamiltonian: constant parameters, drive functions, defaults"
    V.generic()
    Q, R = build(V, 'A', 'xyz', ('dense', 'csr')); J = V.cplx('J'); f = drive(V, 'f'); p = {'x': J, 'y': (f, ())}; H = Q.tohamiltonian(p); t = 0.5
    V.eq(1, H.toarray(t), R['x'] * J + R['y'] * f(t) + R['z']); V.true(2, set(p) == {'x', 'y'}, 'parameters of the caller changed'); H *= 2.0; V.eq(3, Q.toarray(), R['x'] + R['y'] + R['z'])


def pair(V, fmts=('dense', 'csr')):
    A, RA = build(V, 'A', 'xy', fmts); B, RB = build(V, 'B', 'xz', fmts); J = {k: V.cplx('J' + k) for k in 'xyz'}
    return A, RA, B, RB, J


def val(Q, J): return Q.toarray({k: J[k] for k in Q._quantum_operator})
def unharmed(V, k, A, RA, B, RB):
    for q in 'xy': V.eq('%s%s' % (k, q), A.get_operators(q), RA[q])
    for q in 'xz': V.eq('%s%s.5' % (k, q), B.get_operators(q), RB[q])


def t_add(V):
    "A + B, A - B: keys merge; operands unchanged, also by later in-place changes of the result"
    V.generic()
    A, RA, B, RB, J = pair(V); a, b = ref(RA, J), ref(RB, J); s = V.choice('op', ['+', '-']); C = A + B if s == '+' else A - B; R = a + b if s == '+' else a - b
    v = V.arr('v', (2,)); V.eq(1, val(C, J), R); V.eq(2, C.dot(v, pars={k: J[k] for k in C._quantum_operator}), R.dot(v)); C *= 2.0; V.eq(3, val(C, J), R * 2); unharmed(V, 4, A, RA, B, RB)


def t_iadd(V):
    "A += B, A -= B in place"
    V.generic()
    A, RA, B, RB, J = pair(V); a, b = ref(RA, J), ref(RB, J); s = V.choice('op', ['+', '-']); C = A
    if s == '+': A += B
    else: A -= B
    R = a + b if s == '+' else a - b; v = V.arr('v', (2,)); V.true(1, C is A, 'new object'); V.eq(2, val(A, J), R); V.eq(3, A.dot(v, pars={k: J[k] for k in A._quantum_operator}), R.dot(v))
    A *= 2.0; V.eq(4, val(A, J), R * 2)
    for q in 'xz': V.eq('5' + q, B.get_operators(q), RB[q])


def t_scalar(V):
    "negation, scalar multiples, division, adding zero"
    V.generic()
    A, RA = build(V, 'A', 'xy'); J = {k: V.cplx('J' + k) for k in 'xy'}; a = ref(RA, J); c = V.choice('c', [2.0, -0.5, 1.5 - 0.25j]); v = V.arr('v', (2,)); N = -A
    V.eq(1, val(N, J), -a); V.eq(2, N.dot(v, pars=dict(J)), -a.dot(v)); V.eq(3, val(A, J), a); V.eq(4, val(A * c, J), a * c); V.eq(5, (A * c).dot(v, pars=dict(J)), a.dot(v) * c)
    V.eq(7, val(A / c, J) * c, a); V.eq(8, val(A, J), a); B = A; B *= c; V.true(9, B is A, 'new object'); V.eq(10, val(A, J), a * c); A /= c; V.eq(11, val(A, J), a)
    V.eq(12, val(A + 0, J), a); V.eq(13, val(A - 0, J), a)


def t_own(V):
    "in-place changes of the operator leave the arrays it was made from unchanged (copy=True)"
    V.generic()
    f = V.choice('fmt', F3); M = V.arr('M', (2, 2)); x = store(V, M, f); n = V.choice('pieces', [1, 2]); N = V.arr('N', (2, 2)); y = store(V, N, f)
    Q = quantum_operator({'x': [x] if n == 1 else [x, y]}, dtype=V.dtype()); V.eq(1, Q.toarray(), M if n == 1 else M + N); V.eq(2, x, M); Q *= 3.0; V.eq(3, x, M); V.eq(4, y, N)


def t_trans(V):
    "transpose, conjugate, adjoint, copy, astype; results usable; copies independent"
    V.generic()
    A, RA = build(V, 'A', 'xy'); p, w = weights(V); v = V.arr('v', (2,)); M = lambda f: sum(f(RA[k]) * w[k] for k in RA)
    for i, (Q, f) in enumerate([(A.T, lambda m: m.T), (A.conj(), lambda m: m.conj()), (A.H, lambda m: m.conj().T), (A.getH(copy=True), lambda m: m.conj().T), (A.copy(), lambda m: m), (A.astype(V.dtype(), copy=True), lambda m: m)]):
        V.eq(i + 1, Q.toarray(p), M(f)); V.eq(i + 1.5, Q.dot(v, pars=p), M(f).dot(v))
    for i, g in enumerate([lambda: A.copy(), lambda: A.transpose(copy=True), lambda: A.getH(copy=True), lambda: A.conj(), lambda: A.astype(V.dtype(), copy=True)]):
        B = g(); B *= 2.0; V.eq(i + 11, A.toarray(p), M(lambda m: m))


def t_formats(V):
    "changing storage formats does not change the operator"
    V.generic()
    A, RA = build(V, 'A', 'xy', ('dense', 'csr', 'csc', 'dia')); p, w = weights(V); a = ref(RA, w); v = V.arr('v', (2,)); f = V.choice('new', ['dense', 'csr', 'csc', 'dia']); A.update_matrix_formats({'x': f})
    V.eq(1, A.toarray(p), a); V.eq(2, A.dot(v, pars=p), a.dot(v)); V.eq(3, A(**p), a); V.eq(4, A.rdot(v, pars=p), v.dot(a))



def t_pieces(V):
    "several matrices under one key add up"
    V.generic()
    k = V.choice('kinds', ['dd', 'dc', 'cd', 'cc', 'md', 'cm']); S, N = V.arr('S', (2, 2)), V.arr('N', (2, 2))
    mk = lambda X, c: X.copy() if c == 'd' else V.sp(X) if c == 'c' else np.asmatrix(X.copy()) if c == 'm' else [list(r) for r in X]
    Q = quantum_operator({'x': [mk(S, k[0]), mk(N, k[1])], 'y': [S.copy()]}, shape=(2, 2), dtype=V.dtype()); J = V.cplx('J'); v = V.arr('v', (2,))
    V.eq(1, Q.toarray({'x': J}), (S + N) * J + S); V.eq(2, Q.dot(v, pars={'x': J}), ((S + N) * J + S).dot(v)); V.eq(3, Q(x=J), (S + N) * J + S)

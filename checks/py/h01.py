"""hamiltonian: representation, action on states, expectation values, equations of motion"""
import sys, os; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import numpy as np
from h_common import *
import quspin.operators.hamiltonian_core as hc
from quspin.operators import hamiltonian
PATCH = ['quspin.operators.hamiltonian_core', 'quspin.operators._make_hamiltonian', 'quspin.operators._functions']


def mk(V, d=2, nd=2, sf=None, df=None, herm=False, cx=True, static=True):
    sf = sf or V.choice('static_fmt', FMT); df = df or V.choice('dynamic_fmt', FMT)
    m = (lambda n: V.herm(n, d)) if herm else (lambda n: V.arr(n, (d, d)))
    S = m('S') if static else V.num(np.zeros((d, d)))
    fs = [drive(V, 'f%d' % k, cx and not herm) for k in range(nd)]; Ms = [m('M%d' % k) for k in range(nd)]
    H = hamiltonian([store(V, S, sf)], [[store(V, M, df), f, ()] for M, f in zip(Ms, fs)], dtype=V.dtype())
    def ref(t):
        r = S.copy()
        for M, f in zip(Ms, fs): r = r + M * f(t)
        return r
    return H, ref


def t_matrix(V):
    "2x2, two drive terms, all storage formats: toarray, todense, tocsr, tocsc, diagonal, trace, call, indexing"
    H, ref = mk(V); t = 0.5; R = ref(t)
    V.eq(1, H.toarray(t), R); V.eq(2, H.todense(time=t), R); V.eq(3, H.tocsr(time=t), R); V.eq(4, H.tocsc(time=t), R)
    V.eq(5, H.diagonal(time=t), R.diagonal()); V.eq(6, [H.trace(time=t)], [R.trace()]); V.eq(7, H(t), R)
    V.eq(8, [H[t, 0, 1]], [R[0, 1]]); V.eq(9, [x for x in H[[0.25, t], 1, 0]], [ref(0.25)[1, 0], R[1, 0]])
    V.eq(10, H.toarray(t), R)


def t_diag_twice(V):
    "asking for the diagonal or the trace leaves the operator unchanged"
    H, ref = mk(V, nd=1); H.diagonal(time=0.5); H.trace(time=0.5); H.diagonal(time=1.5)
    V.eq(1, H.toarray(2.0), ref(2.0))


def t_dot(V):
    "action on a vector, on several vectors, prefactor, out, accumulation"
    H, ref = mk(V, nd=1); t = 0.5; R = ref(t); a = V.real('a')
    v = V.arr('v', (2,)); W = V.arr('w', (2, 3))
    V.eq(1, H.dot(v, time=t), R.dot(v)); V.eq(2, H.dot(W, time=t, a=a), a * R.dot(W))
    o = V.arr('o', (2,)); o0 = o.copy(); H.dot(v, time=t, out=o, overwrite_out=False, a=a); V.eq(3, o, o0 + a * R.dot(v))
    o = V.arr('p', (2, 3)); H.dot(W, time=t, out=o); V.eq(4, o, R.dot(W))
    V.eq(5, v, v)


def t_dot_f(V):
    "column-major input vectors, real-input times"
    H, ref = mk(V, nd=1); t = 1.5; W = V.arr('w', (2, 3), order='F')
    V.eq(1, H.dot(W, time=t), ref(t).dot(W)); V.eq(2, H.dot(W.T[:2].T, time=t), ref(t).dot(W[:, :2]))


def t_dot_times(V):
    "one state per time, density matrix per time"
    H, ref = mk(V, nd=2); ts = [0.25, 1.5, 0.5]; a = V.real('a')
    W = V.arr('w', (2, 3)); want = np.stack([a * ref(t).dot(W[:, k]) for k, t in enumerate(ts)], axis=1)
    V.eq(1, H.dot(W, time=ts, a=a), want)
    W = V.arr('u', (2, 2, 3)); want = np.stack([ref(t).dot(W[:, :, k]) for k, t in enumerate(ts)], axis=2)
    V.eq(2, H.dot(W, time=np.array(ts)), want)


def t_rdot(V):
    "action to the left"
    H, ref = mk(V, nd=1); t = 0.5; R = ref(t); a = V.real('a')
    v = V.arr('v', (2,)); W = V.arr('w', (3, 2))
    V.eq(1, H.rdot(v, time=t), v.dot(R)); V.eq(2, H.rdot(W, time=t, a=a), a * W.dot(R))
    o = V.arr('o', (2,)); o0 = o.copy(); H.rdot(v, time=t, out=o, overwrite_out=False); V.eq(3, o, o0 + v.dot(R))
    o = V.arr('p', (3, 2)); H.rdot(W, time=t, out=o, overwrite_out=True); V.eq(4, o, W.dot(R))


def t_expt(V):
    "expectation values: pure state, several pure states, density matrix, matrix of pure states with enforce_pure"
    H, ref = mk(V, nd=1); t = 0.5; R = ref(t)
    v = V.arr('v', (2,)); W = V.arr('w', (2, 3)); rho = V.arr('r', (2, 2))
    V.eq(1, [H.expt_value(v, time=t)], [v.conj().dot(R.dot(v))])
    V.eq(2, H.expt_value(W, time=t), [W[:, k].conj().dot(R.dot(W[:, k])) for k in range(3)])
    V.eq(3, [H.expt_value(rho, time=t)], [R.dot(rho).trace()])
    V.eq(4, H.expt_value(rho, time=t, enforce_pure=True), [rho[:, k].conj().dot(R.dot(rho[:, k])) for k in range(2)])
    V.eq(5, [np.squeeze(H.expt_value(v.reshape(2, 1), time=t))], [v.conj().dot(R.dot(v))])


def t_expt_times(V):
    "expectation values at several times"
    H, ref = mk(V, nd=1); ts = [0.25, 1.5, 0.5]
    W = V.arr('w', (2, 3)); V.eq(1, H.expt_value(W, time=ts), [W[:, k].conj().dot(ref(t).dot(W[:, k])) for k, t in enumerate(ts)])
    X = V.arr('x', (2, 2)); V.eq(2, H.expt_value(X, time=ts[:2]), [X[:, k].conj().dot(ref(t).dot(X[:, k])) for k, t in enumerate(ts[:2])])
    rho = V.arr('r', (2, 2, 3)); V.eq(3, H.expt_value(rho, time=ts), [ref(t).dot(rho[:, :, k]).trace() for k, t in enumerate(ts)])


def t_fluct(V):
    "quantum fluctuations <H^2>-<H>^2 of a hermitian operator"
    H, ref = mk(V, nd=1, herm=True); t = 0.5; R = ref(t); R2 = R.dot(R)
    v = V.arr('v', (2,)); W = V.arr('w', (2, 3)); rho = V.herm('r', 2)
    ex = lambda A, x: x.conj().dot(A.dot(x))
    V.eq(1, [H.quant_fluct(v, time=t)], [ex(R2, v) - ex(R, v) ** 2])
    V.eq(2, H.quant_fluct(W, time=t), [ex(R2, W[:, k]) - ex(R, W[:, k]) ** 2 for k in range(3)])
    V.eq(3, [H.quant_fluct(rho, time=t)], [R2.dot(rho).trace() - R.dot(rho).trace() ** 2])


def t_fluct_times(V):
    "quantum fluctuations at several times"
    H, ref = mk(V, nd=1, herm=True, sf='csr', df='csr'); ts = [0.25, 1.5, 0.5]; ex = lambda A, x: x.conj().dot(A.dot(x))
    W = V.arr('w', (2, 3)); rho = V.arr('r', (2, 2, 3))
    V.eq(1, H.quant_fluct(W, time=ts), [ex(ref(t).dot(ref(t)), W[:, k]) - ex(ref(t), W[:, k]) ** 2 for k, t in enumerate(ts)])
    V.eq(2, H.quant_fluct(rho, time=ts), [ref(t).dot(ref(t)).dot(rho[:, :, k]).trace() - ref(t).dot(rho[:, :, k]).trace() ** 2 for k, t in enumerate(ts)])


def t_ele(V):
    "matrix elements"
    H, ref = mk(V, nd=1); t = 0.5; R = ref(t)
    l, r = V.arr('l', (2,)), V.arr('r', (2,)); L, S = V.arr('L', (2, 3)), V.arr('R', (2, 3))
    V.eq(1, [H.matrix_ele(l, r, time=t)], [l.conj().dot(R.dot(r))]); V.eq(2, H.matrix_ele(L, S, time=t), L.conj().T.dot(R.dot(S)))
    V.eq(3, H.matrix_ele(L, S, time=t, diagonal=True), [L[:, k].conj().dot(R.dot(S[:, k])) for k in range(3)])


def t_ele_times(V):
    "matrix elements at several times"
    H, ref = mk(V, nd=1, sf='csr', df='csr'); ts = [0.25, 1.5, 0.5]; L, S = V.arr('L', (2, 3)), V.arr('R', (2, 3))
    V.eq(1, H.matrix_ele(L, S, time=ts, diagonal=True), [L[:, k].conj().dot(ref(t).dot(S[:, k])) for k, t in enumerate(ts)])


def t_sparse_states(V):
    "sparse state vectors and density matrices"
    H, ref = mk(V, nd=1, sf=V.choice('sf', ['csr', 'dia']), df='csr'); t = 0.5; R = ref(t); a = V.real('a')
    W = V.arr('w', (2, 3)); rho = V.arr('r', (2, 2)); sW, sr = V.sp(W, 'csc'), V.sp(rho, 'csr')
    V.eq(1, H.dot(sW, time=t, a=a), a * R.dot(W))
    V.eq(2, [H.expt_value(sr, time=t)], [R.dot(rho).trace()])
    V.eq(3, H.matrix_ele(sW, V.sp(V.arr('x', (2, 3)), 'csc'), time=t).shape, (3, 3))


def t_sparse_pure(V):
    "expectation value of a sparse pure state"
    H, ref = mk(V, nd=1, sf='csr', df='csr'); t = 0.5; w = V.arr('w', (2, 1))
    V.eq(1, [H.expt_value(V.sp(w, 'csc'), time=t)], [w[:, 0].conj().dot(ref(t).dot(w[:, 0]))])


def rhs(V, H, v, **kw):
    """the right-hand side (function and parameters) evolve() hands to the integrator"""
    cap = {}
    if not hasattr(hc, 'evolve'): V.unsupported('hamiltonian_core.evolve')
    old = hc.evolve; hc.evolve = lambda *a, **k: cap.update(a=a, k=k)
    try: H.evolve(v, 0.0, 1.0, **kw)
    finally: hc.evolve = old
    if len(cap.get('a', ())) < 4: V.unsupported('evolve called differently')
    return lambda t, x: cap['a'][3](t, x, *cap['k']['f_params'])


def t_eom(V):
    "right-hand sides handed to the integrator: Schroedinger (real and imaginary time), one or several states, evaluated at two times"
    H, ref = mk(V, nd=1); n = V.choice('n', [1, 3]); v = V.arr('v', (2,) if n == 1 else (2, n))
    f = rhs(V, H, v)
    for k, t in enumerate([0.5, 1.5]): V.eq(k, np.array(f(t, v.ravel())).ravel(), (-1j * ref(t).dot(v)).ravel())
    f = rhs(V, H, v, imag_time=True)
    for k, t in enumerate([0.5, 1.5]): V.eq(k + 2, np.array(f(t, v.ravel())).ravel(), (-ref(t).dot(v)).ravel())


def t_lvne(V):
    "Liouville-von Neumann right-hand side -i[H,rho], evaluated at two times"
    H, ref = mk(V, nd=1, herm=True); rho = V.arr('r', (2, 2)); f = rhs(V, H, rho, eom='LvNE')
    for k, t in enumerate([0.5, 1.5]): R = ref(t); V.eq(k, np.array(f(t, rho.ravel())).ravel(), (-1j * (R.dot(rho) - rho.dot(R))).ravel())


def t_stack(V):
    "Schroedinger right-hand side with stacked real and imaginary parts (real operators)"
    sf, df = V.choice('sf', FMT), V.choice('df', FMT); S = V.arr('S', (2, 2), cx=False); M = V.arr('M', (2, 2), cx=False); f = drive(V, 'f', False)
    H = hamiltonian([store(V, S, sf)], [[store(V, M, df), f, ()]], dtype=V.dtype(float)); t = 0.5; R = S + M * f(t)
    v = V.arr('v', (4,), cx=False); r = rhs(V, H, v[:2], stack_state=True)(t, v.copy())
    V.eq(1, r[:2], R.dot(v[2:])); V.eq(2, r[2:], -R.dot(v[:2]))


def t_drives(V):
    "terms with the same function and arguments add up; different arguments stay different"
    d = {}
    def f(t, w, p):
        k = 'f@%s,%s,%s' % (float(t), w, p)
        if k not in d: d[k] = V.cplx(k)
        return d[k]
    args = [(-1, 2), (-2, 2), (1, 2), (1, 2), (0, 2)]; Ms = [V.arr('M%d' % k, (2, 2)) for k in range(5)]
    H = hamiltonian([], [[V.sp(M), f, a] for M, a in zip(Ms, args)], shape=(2, 2), dtype=V.dtype()); t = 0.5
    V.eq(1, H.toarray(t), sum(M * f(t, *a) for M, a in zip(Ms, args)))


def t_formats(V):
    "changing the storage format does not change the operator"
    H, ref = mk(V, nd=1); k = V.choice('k', range(6))
    if k == 0: H2 = H.as_dense_format()
    elif k == 1: H2 = H.as_dense_format(copy=True)
    elif k == 2: H2 = H.as_sparse_format()
    elif k == 3: H2 = H.as_sparse_format('csc')
    elif k == 4: H2 = H; H2.update_matrix_formats(V.choice('n', FMT), None)
    else: H2 = H; H2.update_matrix_formats(None, V.choice('n', FMT))
    v = V.arr('v', (2,)); V.eq(1, H2.toarray(0.5), ref(0.5)); V.eq(2, H2.dot(v, time=0.5), ref(0.5).dot(v)); V.eq(3, H.toarray(0.5), ref(0.5))

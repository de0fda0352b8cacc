"""Stand-ins for numpy / scipy.sparse / the compiled mat-vec inside the modules under test, so that their real Python code runs on symbolic numbers.

SymSp models scipy.sparse matrices (csr, csc, dia, coo) at the level of their documented behaviour: matrix product for *, in-place scalar
multiplication, new objects for + and -, numpy.matrix results when mixed with dense arrays.  The compiled mat-vec is modelled by the
specification that check M01 decides for the C++ code (including which storage format each routine assumes).
"""
import sys, numpy as np, scipy.sparse as _rsp
from .pysym import Sym, Unsupported
from . import pysym

OBJ = np.dtype(object)


def obj(a):
    a = np.asarray(a)
    return a if a.dtype == OBJ else a.astype(object)


class SymSp:
    __array_priority__ = 10.1
    ndim = 2
    dtype = OBJ

    def __init__(self, a, fmt='csr'):
        if isinstance(a, SymSp): a = a.A_
        if _rsp.issparse(a): a = a.toarray()
        a = np.array(a, dtype=object, copy=True)
        if a.ndim == 1: a = a.reshape(1, -1)
        self.A_ = a; self.fmt = fmt

    # structure
    @property
    def shape(self): return self.A_.shape
    get_shape = lambda self: self.A_.shape
    @property
    def format(self): return self.fmt
    @property
    def data(self): return self.A_.reshape(-1)
    @property
    def nnz(self): return self.A_.size
    def getformat(self): return self.fmt
    def sum_duplicates(self):
        if self.fmt == 'dia': raise AttributeError('sum_duplicates')
    def eliminate_zeros(self):
        if self.fmt == 'dia': raise AttributeError('eliminate_zeros')
    def sort_indices(self): pass
    def copy(self): return SymSp(self.A_, self.fmt)
    def astype(self, dtype, casting='unsafe', copy=True): return self.copy() if copy else self
    def asfptype(self): return self
    def asformat(self, f, copy=False): return SymSp(self.A_, f or self.fmt)
    def tocsr(self, copy=False): return SymSp(self.A_, 'csr') if copy or self.fmt != 'csr' else self
    def tocsc(self, copy=False): return SymSp(self.A_, 'csc') if copy or self.fmt != 'csc' else self
    def todia(self, copy=False): return SymSp(self.A_, 'dia') if copy or self.fmt != 'dia' else self
    def tocoo(self, copy=False): return SymSp(self.A_, 'coo')
    def toarray(self, order=None, out=None):
        if out is not None and order is not None: raise ValueError('order cannot be specified if out is not None')
        if out is not None: out[...] = self.A_; return out
        return np.array(self.A_, copy=True, order=order or 'C')
    def todense(self, order=None, out=None):
        if out is not None and order is not None: raise ValueError('order cannot be specified if out is not None')
        if out is not None: out[...] = self.A_; return np.asmatrix(out)
        return np.asmatrix(self.toarray(order=order))
    @property
    def A(self): return self.toarray()
    def _tf(self): return {'csr': 'csc', 'csc': 'csr'}.get(self.fmt, self.fmt)
    def transpose(self, axes=None, copy=False):
        r = SymSp.__new__(SymSp); r.A_ = self.A_.T if not copy and self.fmt != 'dia' else self.A_.T.copy(); r.fmt = self._tf(); return r
    @property
    def T(self): return self.transpose()
    def conjugate(self, copy=True): return SymSp(np.conj(self.A_), self.fmt)
    conj = conjugate
    def getH(self): return self.conj().transpose()
    @property
    def H(self): return self.getH()
    def diagonal(self, k=0): return self.A_.diagonal(k).copy()
    def trace(self, offset=0): return self.diagonal(offset).sum()
    def sum(self, axis=None, dtype=None, out=None):
        if axis is None: return self.A_.sum()
        return np.asmatrix(self.A_).sum(axis)
    def getcol(self, i): return SymSp(self.A_[:, i:i + 1], self.fmt)
    def getrow(self, i): return SymSp(self.A_[i:i + 1, :], self.fmt)
    def max(self, *a, **k): raise Unsupported('max of a symbolic matrix')
    def __getitem__(self, k):
        r = self.A_[k]
        if isinstance(r, np.ndarray): return SymSp(r if r.ndim == 2 else r.reshape(1, -1) if not (isinstance(k, tuple) and len(k) == 2 and isinstance(k[1], (int, np.integer))) else r.reshape(-1, 1), self.fmt)
        return r
    def __len__(self): raise TypeError('sparse matrix length is ambiguous; use getnnz()')
    def __bool__(self): raise ValueError('The truth value of an array with more than one element is ambiguous.')
    def __iter__(self):
        for r in range(self.shape[0]): yield self.getrow(r)

    # arithmetic
    def _new(self, a): return SymSp(a, self.fmt if self.fmt != 'coo' else 'csr')
    def __neg__(self): return self._new(-self.A_)
    def __add__(self, o):
        if isinstance(o, SymSp):
            self._same(o); return self._new(self.A_ + o.A_)
        if _rsp.issparse(o): return self._new(self.A_ + o.toarray())
        if np.isscalar(o) or isinstance(o, Sym):
            if o == 0: return self.copy()
            raise NotImplementedError('adding a nonzero scalar to a sparse matrix is not supported')
        if isinstance(o, np.ndarray): return np.asmatrix(self.A_ + o) if o.ndim == 2 else NotImplemented
        return NotImplemented
    def _same(self, o):
        if o.shape != self.shape: raise ValueError('inconsistent shapes')
    def __radd__(self, o): return self.__add__(o)
    def __sub__(self, o):
        if isinstance(o, SymSp):
            self._same(o); return self._new(self.A_ - o.A_)
        if _rsp.issparse(o): return self._new(self.A_ - o.toarray())
        if np.isscalar(o) or isinstance(o, Sym):
            if o == 0: return self.copy()
            raise NotImplementedError('subtracting a nonzero scalar from a sparse matrix is not supported')
        if isinstance(o, np.ndarray): return np.asmatrix(self.A_ - o)
        return NotImplemented
    def __rsub__(self, o):
        if isinstance(o, np.ndarray): return np.asmatrix(o - self.A_)
        if _rsp.issparse(o): return self._new(o.toarray() - self.A_)
        if np.isscalar(o) and o == 0: return -self
        return NotImplemented
    def __mul__(self, o):
        if isinstance(o, Sym) or np.isscalar(o): return self._new(self.A_ * o)
        if isinstance(o, SymSp):
            if self.shape[1] != o.shape[0]: raise ValueError('dimension mismatch')
            return SymSp(self.A_.dot(o.A_), {'csc': 'csc'}.get(self.fmt, 'csr'))
        if _rsp.issparse(o): return SymSp(self.A_.dot(o.toarray()), 'csr')
        if isinstance(o, np.ndarray):
            if o.ndim == 0: return self._new(self.A_ * o[()])
            if o.shape[0] != self.shape[1]: raise ValueError('dimension mismatch')
            r = self.A_.dot(np.asarray(o))
            return np.asmatrix(r) if isinstance(o, np.matrix) else r
        return NotImplemented
    dot = __matmul__ = __mul__
    _mul_vector = __mul__
    def __rmul__(self, o):
        if isinstance(o, Sym) or np.isscalar(o): return self._new(self.A_ * o)
        if isinstance(o, np.ndarray):
            if o.ndim == 0: return self._new(self.A_ * o[()])
            r = np.asarray(o).dot(self.A_)
            return np.asmatrix(r) if isinstance(o, np.matrix) else r
        if _rsp.issparse(o): return SymSp(o.toarray().dot(self.A_), 'csr')
        return NotImplemented
    __rmatmul__ = __rmul__
    def __imul__(self, o):
        if isinstance(o, Sym) or np.isscalar(o): self.A_[...] = self.A_ * o; return self
        return NotImplemented
    def __itruediv__(self, o):
        if isinstance(o, Sym) or np.isscalar(o): self.A_[...] = self.A_ / o; return self
        return NotImplemented
    def __truediv__(self, o):
        if isinstance(o, Sym) or np.isscalar(o): return self._new(self.A_ / o)
        return NotImplemented
    def __pow__(self, n):
        r = SymSp(np.eye(self.shape[0], dtype=object), self.fmt)
        for _ in range(n): r = r * self
        return r
    def multiply(self, o):
        return self._new(self.A_ * (o.A_ if isinstance(o, SymSp) else o.toarray() if _rsp.issparse(o) else o))
    @property
    def real(self): return self._new(vec(lambda x: x.real, self.A_))
    @property
    def imag(self): return self._new(vec(lambda x: x.imag, self.A_))


def vec(f, a):
    a = np.asarray(a); r = np.empty(a.shape, dtype=object)
    for k in np.ndindex(*a.shape): r[k] = f(a[k] if isinstance(a[k], Sym) else a[k])
    return r


def issym(x):
    if isinstance(x, (Sym, SymSp)): return True
    if isinstance(x, np.ndarray): return x.dtype == OBJ
    if isinstance(x, (list, tuple)): return any(issym(y) for y in x)
    return False


def isnumdt(d):
    if d is None: return True
    try: return np.issubdtype(np.dtype(d), np.inexact) or np.dtype(d) == OBJ
    except TypeError: return False


class NP:
    """numpy, accepting symbolic entries"""
    def __init__(self): self._over = {}
    def __getattr__(self, n): return getattr(np, n)

    # constructors: floating-point arrays become object arrays
    def _mk(f):
        def g(self, shape, dtype=None, *a, **k):
            if isnumdt(dtype): dtype = object
            return getattr(np, f)(shape, dtype, *a, **k)
        return g
    zeros, ones, empty = _mk('zeros'), _mk('ones'), _mk('empty')
    def eye(self, n, *a, **k): k['dtype'] = object; return np.eye(n, *a, **k)
    def identity(self, n, dtype=None): return np.eye(n, dtype=object)
    def full(self, shape, v, dtype=None, **k): return np.full(shape, v, dtype=object if issym(v) or isnumdt(dtype) else dtype, **k)
    def _like(f):
        def g(self, a, dtype=None, *r, **k): return getattr(np, f)(a, object if (dtype is None and issym(a)) or (dtype is not None and isnumdt(dtype)) else dtype, *r, **k)
        return g
    zeros_like, ones_like, empty_like = _like('zeros_like'), _like('ones_like'), _like('empty_like')
    def _conv(f):
        def g(self, x, dtype=None, *a, **k):
            if isinstance(x, SymSp): raise Unsupported('sparse matrix to array')
            if dtype is not None and isnumdt(dtype): dtype = object
            elif dtype is None and isinstance(x, Sym): dtype = object
            elif dtype is not None and issym(x): dtype = object
            r = getattr(np, f)(x, dtype, *a, **k)
            return np.array(Sym.of(r.item()), dtype=object) if dtype == object and r.ndim == 0 and isinstance(r.item(), (int, float, complex)) else r
        return g
    array, asarray, asanyarray, ascontiguousarray, asfortranarray = _conv('array'), _conv('asarray'), _conv('asanyarray'), _conv('ascontiguousarray'), _conv('asfortranarray')

    def result_type(self, *a):
        for x in a:
            if issym(x): return OBJ
            try:
                if np.dtype(x) == OBJ: return OBJ
            except TypeError: pass
        return np.result_type(*a)
    def can_cast(self, a, b, casting='safe'):
        if issym(a): return True
        try:
            if np.dtype(a) == OBJ or np.dtype(b) == OBJ: return True
        except TypeError: pass
        return np.can_cast(a, b, casting=casting)
    def iscomplexobj(self, x):
        if isinstance(x, Sym): return not x.isreal()
        if issym(x): return any(isinstance(v, Sym) and not v.isreal() or isinstance(v, complex) for v in np.asarray(x.A_ if isinstance(x, SymSp) else x, dtype=object).ravel())
        return np.iscomplexobj(x)
    def isrealobj(self, x): return not self.iscomplexobj(x)
    def isscalar(self, x): return isinstance(x, Sym) or np.isscalar(x)
    def finfo(self, d):
        try:
            if np.dtype(d) == OBJ: return np.finfo(np.float64)
        except TypeError: pass
        return np.finfo(np.float64) if isinstance(d, Sym) else np.finfo(d)
    def real(self, x): return vec(lambda v: v.real, x) if issym(x) and not isinstance(x, Sym) else (x.real if isinstance(x, Sym) else np.real(x))
    def imag(self, x): return vec(lambda v: v.imag, x) if issym(x) and not isinstance(x, Sym) else (x.imag if isinstance(x, Sym) else np.imag(x))
    def _un(f):
        def g(self, x, *a, **k):
            if isinstance(x, Sym): return getattr(x, f)()
            if issym(x):
                r = vec(lambda v: getattr(Sym.of(v), f)(), x)
                o = k.get('out')
                if o is None and a: o = a[0]
                if isinstance(o, tuple): o = o[0]
                if o is not None: o[...] = r; return o
                return r
            return getattr(np, f)(x, *a, **k)
        return g
    exp, sqrt, cos, sin, log = _un('exp'), _un('sqrt'), _un('cos'), _un('sin'), _un('log')
    def abs(self, x, *a, **k): return abs(x) if isinstance(x, Sym) else vec(abs, x) if issym(x) else np.abs(x, *a, **k)
    absolute = abs
    def asscalar(self, x): raise AttributeError("module 'numpy' has no attribute 'asscalar'")
    def angle(self, x): raise Unsupported('angle')

    def isnan(self, x): return vec(lambda v: False, x).astype(bool) if issym(x) and not isinstance(x, Sym) else False if isinstance(x, Sym) else np.isnan(x)

    def _close(self, a, b, rtol, atol):
        """list of differences that have to vanish; None when a constant entry differs"""
        A, B = np.broadcast_arrays(obj(a.A_ if isinstance(a, SymSp) else a), obj(b.A_ if isinstance(b, SymSp) else b)); C = pysym.CTX; l = []
        for x, y in zip(A.ravel(), B.ravel()):
            x, y = Sym.of(x), Sym.of(y); d = x - y; c = d.const()
            if c is not None:
                yc = y.const(); m = abs(complex(*map(float, yc))) if yc else 0
                if abs(complex(*map(float, c))) > atol + rtol * m: return None
            else: l.append(d)
        return l
    def allclose(self, a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
        if not (issym(a) or issym(b)): return np.allclose(a, b, rtol, atol, equal_nan)
        l = self._close(a, b, rtol, atol)
        if l is None: return False
        return True if not l else pysym.CTX.allzero(l)
    def isclose(self, a, b, rtol=1e-5, atol=1e-8, **k):
        if not (issym(a) or issym(b)): return np.isclose(a, b, rtol, atol, **k)
        A, B = np.broadcast_arrays(obj(a), obj(b)); r = np.empty(A.shape, dtype=bool)
        for k in np.ndindex(*A.shape): r[k] = self.allclose(A[k], B[k], rtol, atol)
        return r if r.ndim else bool(r)
    def array_equal(self, a, b):
        if not (issym(a) or issym(b)): return np.array_equal(a, b)
        if np.shape(a) != np.shape(b): return False
        return self.allclose(a, b, 0, 0)
    def any(self, x, *a, **k):
        if issym(x) and not a and not k: return any(bool(v) for v in np.asarray(x).ravel())
        return np.any(x, *a, **k)


class SP:
    """scipy.sparse, with SymSp for symbolic matrices"""
    def __getattr__(self, n): return getattr(_rsp, n)
    def issparse(self, x): return isinstance(x, SymSp) or _rsp.issparse(x)
    isspmatrix = issparse
    def isspmatrix_csr(self, x): return x.fmt == 'csr' if isinstance(x, SymSp) else _rsp.isspmatrix_csr(x)
    def isspmatrix_csc(self, x): return x.fmt == 'csc' if isinstance(x, SymSp) else _rsp.isspmatrix_csc(x)
    def isspmatrix_dia(self, x): return x.fmt == 'dia' if isinstance(x, SymSp) else _rsp.isspmatrix_dia(x)
    def _mk(fmt):
        def g(self, x, shape=None, dtype=None, copy=False, **k):
            if isinstance(x, SymSp): return x if x.fmt == fmt and not copy else SymSp(x.A_, fmt)
            if isinstance(x, np.ndarray) and x.dtype == OBJ: return SymSp(x, fmt)
            if isinstance(x, tuple) and len(x) == 2 and all(isinstance(v, (int, np.integer)) for v in x) and isnumdt(dtype): return SymSp(np.zeros(x, dtype=object), fmt)
            if isinstance(x, tuple) and issym(x[0]):
                v, ij = x[0], x[1]
                if fmt == 'dia':
                    A = np.zeros(shape, dtype=object); offs = np.atleast_1d(ij); D = np.atleast_2d(v)
                    for d, o in zip(D, offs):
                        for c in range(min(len(d), shape[1])):
                            if 0 <= c - o < shape[0]: A[c - o, c] = A[c - o, c] + d[c]
                    return SymSp(A, fmt)
                if isinstance(ij, tuple) or len(x) == 2:
                    A = np.zeros(shape, dtype=object)
                    for a, i, j in zip(v, ij[0], ij[1]): A[i, j] = A[i, j] + a
                    return SymSp(A, fmt)
                ind, ptr = x[1], x[2]; n = len(ptr) - 1
                A = np.zeros(shape, dtype=object)
                for r in range(n):
                    for q in range(ptr[r], ptr[r + 1]):
                        if fmt == 'csr': A[r, ind[q]] = A[r, ind[q]] + v[q]
                        else: A[ind[q], r] = A[ind[q], r] + v[q]
                return SymSp(A, fmt)
            return getattr(_rsp, fmt + '_matrix')(x, shape=shape, dtype=dtype, copy=copy, **k)
        return g
    csr_matrix, csc_matrix, dia_matrix, coo_matrix, bsr_matrix, lil_matrix = _mk('csr'), _mk('csc'), _mk('dia'), _mk('coo'), _mk('bsr'), _mk('lil')
    def eye(self, n, m=None, k=0, dtype=None, format=None):
        return SymSp(np.eye(n, m, k, dtype=object), format or 'dia')
    def identity(self, n, dtype=None, format=None): return SymSp(np.eye(n, dtype=object), format or 'dia')
    def _d(self, x): return x.A_ if isinstance(x, SymSp) else x.toarray() if _rsp.issparse(x) else obj(x)
    def kron(self, a, b, format=None):
        if not (issym(a) or issym(b)): return _rsp.kron(a, b, format=format)
        return SymSp(np.kron(self._d(a), self._d(b)), format or 'csr')
    def vstack(self, bl, format=None, dtype=None):
        if not any(issym(b) for b in bl): return _rsp.vstack(bl, format, dtype)
        return SymSp(np.vstack([self._d(b) for b in bl]), format or 'csr')
    def hstack(self, bl, format=None, dtype=None):
        if not any(issym(b) for b in bl): return _rsp.hstack(bl, format, dtype)
        return SymSp(np.hstack([self._d(b) for b in bl]), format or 'csr')
    def block_diag(self, bl, format=None, dtype=None):
        if not any(issym(b) for b in bl): return _rsp.block_diag(bl, format, dtype)
        n = sum(self._d(b).shape[0] for b in bl); m = sum(self._d(b).shape[1] for b in bl); A = np.zeros((n, m), dtype=object); r = c = 0
        for b in bl:
            d = self._d(b); A[r:r + d.shape[0], c:c + d.shape[1]] = d; r += d.shape[0]; c += d.shape[1]
        return SymSp(A, format or 'coo')
    def diags(self, d, offsets=0, shape=None, format=None, dtype=None):
        if not issym(d): return _rsp.diags(d, offsets, shape, format, dtype)
        if np.ndim(offsets) == 0 and np.ndim(d) == 1: return SymSp(np.diag(obj(d), offsets), format or 'dia')
        raise Unsupported('diags')


# the compiled mat-vec: each routine reads the arrays of one storage format
def _apply(eff, other, overwrite_out, out, a):
    r = np.asarray(eff.dot(np.asarray(other)))
    if out is None: return a * r if not isinstance(a, np.ndarray) else a[()] * r
    if isinstance(a, np.ndarray): a = a[()]
    if out.shape != r.shape: raise ValueError('shape of out')
    if overwrite_out: out[...] = a * r
    else: out[...] = out + a * r
    return out


def _csr_dot(M, other, overwrite_out=False, out=None, a=1.0):
    if not isinstance(M, SymSp) or M.fmt not in ('csr', 'csc'): raise AttributeError('indptr')
    return _apply(M.A_ if M.fmt == 'csr' else M.A_.T, other, overwrite_out, out, a)


def _csc_dot(M, other, overwrite_out=False, out=None, a=1.0):
    if not isinstance(M, SymSp) or M.fmt not in ('csr', 'csc'): raise AttributeError('indptr')
    return _apply(M.A_ if M.fmt == 'csc' else M.A_.T, other, overwrite_out, out, a)


def _dia_dot(M, other, overwrite_out=False, out=None, a=1.0):
    if not isinstance(M, SymSp) or M.fmt != 'dia': raise AttributeError('offsets')
    return _apply(M.A_, other, overwrite_out, out, a)


def _other_dot(M, other, overwrite_out=False, out=None, a=1.0):
    return _apply(M if not isinstance(M, SymSp) else M.A_, other, overwrite_out, out, a)


def get_matvec_function(M):
    if isinstance(M, SymSp): return {'csr': _csr_dot, 'csc': _csc_dot, 'dia': _dia_dot}.get(M.fmt, _other_dot)
    return _other_dot


def matvec(M, other, overwrite_out=False, out=None, a=1.0): return get_matvec_function(M)(M, other, overwrite_out, out, a)


class SuppDt(tuple):
    def __contains__(self, d):
        try:
            if np.dtype(d) == OBJ: return True
        except TypeError: return False
        return tuple.__contains__(self, d)


np_, sp_ = NP(), SP()


def install(h):
    """patch the modules a harness names in PATCH"""
    import importlib
    for name in getattr(h, 'PATCH', []):
        m = importlib.import_module(name)
        for k, v in list(vars(m).items()):
            if v is np: setattr(m, k, np_)
            elif v is _rsp: setattr(m, k, sp_)
            elif k == 'supported_dtypes': setattr(m, k, SuppDt(v))
            elif k in ('_get_matvec_function', 'get_matvec_function') and callable(v): setattr(m, k, get_matvec_function)
            elif k in ('_matvec', 'matvec') and callable(v): setattr(m, k, matvec)
    if hasattr(h, 'patch'): h.patch(np_, sp_)

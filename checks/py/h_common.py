"""shared by the operator harnesses"""
import numpy as np

FMT = ['dense', 'csr', 'csc', 'dia']


def drive(V, name, cx=True):
    """a drive function with an arbitrary value at every time"""
    d = {}
    def f(t, *args):
        k = '%s@%s%s' % (name, complex(t) if np.iscomplexobj(t) else float(t), list(args) or '')
        if k not in d: d[k] = V.cplx(k) if cx else V.real(k)
        return d[k]
    f.__name__ = name
    return f


def store(V, A, fmt): return A.copy() if fmt == 'dense' else V.sp(A, fmt)

import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vp.run import *
C = Check('M01'); S = VERIF + '/checks/cpp/m01_mv.cpp'; THO = TIER != 'quick'
CD, CF = 'npy_cdouble_wrapper', 'npy_cfloat_wrapper'
TY = dict(d=('double', 'NPY_FLOAT64'), f=('float', 'NPY_FLOAT32'), z=(CD, 'NPY_COMPLEX128'), c=(CF, 'NPY_COMPLEX64'))
PAIRS = ['dd', 'dz', 'zz', 'ff', 'fd', 'fc', 'fz', 'cc', 'cz']
F1 = ['h_csr', 'h_csr_p', 'h_csc', 'h_csc_p']; F2 = ['h_dia', 'h_dia_p']


def J(fns, p, nr, nc, nv, it='npy_int32', nnz=2, nd=1, dl=None, lx=-1, ly=-1, **kw):
    d = ['IT=' + it, 'VA=' + TY[p[0]][0], 'VX=' + TY[p[1]][0], 'TNA=' + TY[p[0]][1], 'TNX=' + TY[p[1]][1], 'NR=%d' % nr, 'NC=%d' % nc, 'NV=%d' % nv, 'NNZ=%d' % max(nnz, nd * (dl or nc)) if 'dia' in fns[0] else 'NNZ=%d' % nnz,
         'ND=%d' % nd, 'DL=%d' % (dl or nc), 'LX=%d' % lx, 'LY=%d' % ly] + (['MULTI'] if nv > 1 else [])
    for f in fns: C.job(S, f, d, merging=False, qfbv=False, bounds='%dx%d matrix, %d vectors, types %s, index %s' % (nr, nc, nv, p, it), native=['-Wl,--unresolved-symbols=ignore-all', '-lpython3.12'], **kw)


ITS = ('npy_int32', 'npy_int64')
for i, p in enumerate(PAIRS):
    for j, it in enumerate(ITS if THO else ITS[i % 2:i % 2 + 1]):
        J(F1, p, 2, 2, 1, it); J(F2, p, 2, 2, 1, it)
        it = ITS[1 - (i + j) % 2]
        J(F1, p, 2, 2, 2, it, nnz=1, lx=(i + j) % 5); J(F2, p, 2, 2, 2, it, lx=(i + j + 2) % 5)
J(F1, 'dd', 3, 2, 1, nnz=2); J(F1, 'dd', 2, 3, 1, nnz=2); J(F2, 'dd', 3, 2, 1, nd=2); J(F2, 'dd', 2, 3, 1, nd=2, dl=2)
for lx in range(5): J(F1, 'dd', 3, 2, 2, nnz=1 + (lx == 0), lx=lx); J(F2, 'dd', 3, 2, 2, lx=lx); J(F2, 'dd', 2, 3, 2, lx=lx)
if THO:
    for p in PAIRS:
        for it in ('npy_int32', 'npy_int64'): J(F1, p, 3, 3, 1, it, nnz=3, tmo=3000); J(F2, p, 3, 3, 1, it, nd=2, tmo=3000); J(F1, p, 3, 2, 2, it, nnz=3, tmo=3000); J(F2, p, 3, 2, 2, it, nd=2, tmo=3000)
sys.exit(C.finish())

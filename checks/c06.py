import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vp.run import *
from vp.lat import *
C = Check('C06')
S = VERIF + '/checks/cpp/c06_vec.cpp'
def k(kind, n, sps, maps, full, extra=(), fns=('h_from', 'h_to', 'h_round'), **kw):
    for f in fns: C.job(S, f, ['KIND=' + kind, 'NS=%d' % n, 'SPS=%d' % sps, 'FULL=%d' % full] + mdef(maps) + list(extra), merging=False, **kw)
k('KHCB', 4, 2, [sh(4)], 16)
k('KHCB', 4, 2, [sq_x(2, 2), sq_y(2, 2)], 16)
k('KHCB', 4, 2, [sh(4)], 16, ['VT=double'])
k('KHCB', 4, 2, [sh(4), fl(4)], 16, ['NP=2'])
k('KHCB', 3, 2, [sh(3)], 8, ['NV=2', 'NEGQ=1'])
k('KHCB', 5, 2, [sh(5)], 32, ['NP=2', 'NEGQ=1'])
k('KSPF', 4, 2, [sh(4)], 16)
k('KSPINFUL', 4, 2, [spinful(sh(2)), spin_swap(2)], 16)
k('KBOSON', 3, 3, [sh(3)], 27)
k('KBOSON', 3, 3, [sh(3)], 27, ['NP=3'])
k('KHCB', 6, 2, [sh(6), fl(6)], 64)
k('KHCB', 6, 2, [sq_x(3, 2), sq_y(3, 2)], 64)
k('KHCB', 6, 2, [rf(6), fl(6)], 64, ['VT=double'])
k('KHCB', 6, 2, [sh(6)], 64, ['NP=2', 'IT=npy_uint64'])
k('KSPF', 6, 2, [sh(6)], 64, ['NP=3'])
k('KHSPIN', 3, 4, [sh(3), fl(3)], 64)
k('KHCB', 6, 2, [sh(6), rf(6), fl(6)], 64, ['NT_=npy_uint8', 'QREAL'])
k('KHCB', 6, 2, [sh(6), rf(6), fl(6)], 64, ['NT_=npy_uint8', 'QREAL', 'NP=3'])
k('KHCB', 6, 2, [sh(6)], 64, ['NT_=npy_uint8', 'NP=2'])
SW = lambda n, i: [j ^ 1 if j // 2 == i else j for j in range(n)]
# groups of 256 elements with 8-bit norms
k('KHCB', 16, 2, [SW(16, i) for i in range(8)], 16, ['NT_=npy_uint8', 'ONEP', 'QS=0,0,0,0,0,0,0,0'])
k('KHCB', 8, 2, [fl(8, [i]) for i in range(8)], 256, ['NT_=npy_uint8', 'QS=0,1,0,0,1,1,0,1'], fns=('h_from', 'h_to'))
sys.exit(C.finish())

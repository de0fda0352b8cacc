import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vp.run import *
from vp.lat import *
C = Check('C09')
S = VERIF + '/checks/cpp/c09_amp.cpp'
def k(kind, n, sps, maps, extra=(), fns=('h_rep', 'h_full'), **kw):
    for f in fns: C.job(S, f, ['KIND=' + kind, 'NS=%d' % n, 'SPS=%d' % sps] + mdef(maps) + list(extra), **kw)
k('KHCB', 6, 2, [sh(6)])
k('KHCB', 5, 2, [sh(5)], ['NEGQ=1'])
k('KHCB', 4, 2, [sh(4), fl(4)])
k('KHCB', 4, 2, [sq_x(2, 2), sq_y(2, 2)])
k('KHCB', 6, 2, [[1, 2, 0, 3, 4, 5], [0, 1, 2, 4, 5, 3]], ['NEGQ=1'])
k('KHCB', 4, 2, [sh(4)], ['VT=double'])
k('KSPF', 4, 2, [sh(4)], merging=False)
k('KSPINFUL', 4, 2, [spinful(sh(2)), spin_swap(2)], merging=False)
k('KBOSON', 3, 3, [rf(3)])
k('KBOSON', 2, 3, [sh(2), fl(2)])
sys.exit(C.finish())

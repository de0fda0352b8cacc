import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vp.run import *
from vp.lat import *
C = Check('C03')
S = VERIF + '/checks/cpp/c03_rep.cpp'
q = TIER == 'quick'
def fam(kind, n, sps, maps, real=False, fns=('h_rep', 'h_norm'), it=None, neg=False, **kw):
    d = ['KIND=' + kind, 'NS=%d' % n, 'SPS=%d' % sps] + mdef(maps) + (['QREAL'] if real else []) + (['IT=' + it] if it else []) + (['NEGQ=1'] if neg else [])
    for f in fns:
        C.job(S, f, d, merging=False if f != 'h_rep' or kind.startswith('KSP') else True, bounds='%s, %d sites, sps %d, all states; maps %s%s' % (kind, n, sps, maps, '' if f == 'h_rep' else '; all sectors'), **kw)
fam('KHCB', 6, 2, [sh(6), rf(6), fl(6)], real=True)
fam('KHCB', 8, 2, [sh(8)], neg=True)
fam('KHCB', 9, 2, [sq_x(3, 3), sq_y(3, 3)])
fam('KHCB', 10, 2, [rf(10), fl(10), sh(10, 5)])
fam('KHCB', 40, 2, [rf(40), fl(40)], it='npy_uint64')
fam('KHCB', 64, 2, [rf(64), fl(64)], it='npy_uint64')
fam('KHCB', 32, 2, [sh(32, 8), fl(32)], neg=True)
fam('KSPF', 5, 2, [sh(5)])
fam('KSPF', 6, 2, [sh(6, 3)], neg=True)
fam('KSPINFUL', 6, 2, [spinful(sh(3)), spin_swap(3)])
fam('KBOSON', 3, 3, [sh(3), fl(3)])
fam('KBOSON', 3, 4, [rf(3), fl(3)])
if not q: fam('KBOSON', 4, 3, [rf(4), fl(4)]); fam('KBOSON', 4, 3, [sh(4), fl(4)])
fam('KHSPIN', 4, 4, [sh(4), fl(4)])
fam('KHSPIN', 3, 3, [sh(3), fl(3)])
fam('KHCB', 6, 2, [sh(6, 2), fl(6)], fns=('h_rep_array', 'h_normalization'))
C.job(S, 'h_overflow', ['KIND=KHCB', 'NS=16'] + mdef([sh(16)], [0]), merging=False, bounds='16 sites, translation group of 16 elements, 8-bit norms')
sys.exit(C.finish())

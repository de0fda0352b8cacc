import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vp.run import *
from vp.lat import *
C = Check('C04')
S = VERIF + '/checks/cpp/c04_enum.cpp'
def k(fn, kind, n, sps=2, extra=(), **kw): C.job(S, fn, ['KIND=' + kind, 'NS=%d' % n, 'SPS=%d' % sps] + list(extra), **kw)
for kind, n, sps in [('KHCB', 32, 2), ('KHCB', 31, 2), ('KSPF', 20, 2), ('KSPINFUL', 20, 2), ('KBOSON', 5, 3), ('KHSPIN', 4, 4)]: k('h_count', kind, n, sps)
for n in (40, 64): k('h_count', 'KHCB', n, 2, ['IT=npy_uint64'])
for kind, n, sps in [('KHCB', 10, 2), ('KSPF', 9, 2), ('KSPINFUL', 8, 2), ('KBOSON', 4, 3), ('KHSPIN', 4, 4)]: k('h_next', kind, n, sps)
k('h_make_full', 'KHCB', 3, 2, ['NC_=4'])
k('h_make_pcon', 'KHCB', 3, 2, ['NC_=3'])
k('h_sector', 'KHCB', 6, 2, mdef([sh(6), fl(6)]) + ['FULL=70'])
k('h_sector', 'KHCB', 6, 2, mdef([sh(6)]) + ['FULL=70', 'NP=3', 'S0=7', 'CNT=20'])
k('h_sector', 'KSPF', 4, 2, mdef([sh(4)]) + ['FULL=20'], merging=False)
k('h_sector', 'KBOSON', 3, 3, mdef([rf(3)]) + ['FULL=30'])
for kind in ('KBOSON', 'KHSPIN'): k('h_count', kind, 40, 3, ['IT=npy_uint64', 'SYMD=0,1,20,39'])
sys.exit(C.finish())

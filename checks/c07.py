import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vp.run import *
C = Check('C07')
S = VERIF + '/checks/cpp/c07_lookup.cpp'
for kind, n, sps, it, pres, x in [('KHCB', 32, 2, 'npy_uint32', (1, 4, 12, 20, 31), ()), ('KHCB', 64, 2, 'npy_uint64', (1, 17, 20, 40, 62), ()), ('KSPF', 64, 2, 'npy_uint64', (18, 33), ()), ('KSPINFUL', 64, 2, 'npy_uint64', (18, 33), ()),
                               ('KBOSON', 30, 3, 'npy_uint64', (3, 11, 18), ('SYMD=0,1,12,29',)), ('KHSPIN', 30, 3, 'npy_uint64', (3, 11, 18), ('SYMD=0,1,12,29',)), ('KBOSON', 30, 4, 'npy_uint64', (9, 15), ('SYMD=0,15,29',))]:
    for p in pres: C.job(S, 'h_prefix', ['KIND=' + kind, 'NS=%d' % n, 'SPS=%d' % sps, 'IT=' + it, 'NPRE=%d' % p] + list(x))
for kind, n, sps, nb, npre in [('KHCB', 32, 2, 4, 2), ('KHCB', 8, 2, 5, 2), ('KSPF', 32, 2, 2, 3), ('KSPINFUL', 8, 2, 4, 2), ('KBOSON', 6, 3, 4, 1), ('KBOSON', 4, 4, 3, 1), ('KHSPIN', 6, 3, 4, 1)]:
    d = ['KIND=' + kind, 'NS=%d' % n, 'SPS=%d' % sps, 'NB=%d' % nb, 'NPRE=%d' % npre]
    C.job(S, 'h_blocks', d); C.job(S, 'h_plain', d)
    C.job(S, 'h_index', d[:3] + ['NB=%d' % min(3, nb), 'NPRE=%d' % npre])
sys.exit(C.finish())

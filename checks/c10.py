import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vp.run import *
C = Check('C10')
S = VERIF + '/checks/cpp/c10_wide.cpp'
C.job(S, 'h_bits', merging=False)
C.job(S, 'h_cmp')
C.job(S, 'h_shift', merging=False)
C.job(S, 'h_count', ['LCNT=100','BG=0xfedcba9876543210ULL'], merging=False)
C.job(S, 'h_count', ['LCNT=256','BG=~0ULL'], merging=False)
for l in (2, 3):
    for f in ('h_op', 'h_bits', 'h_cmp'): C.job(S, f, ['LIMBS=%d' % l], merging=False)
C.job(S, 'h_map', ['MAPF=-i-1'], merging=False)
for m in ('(i+1)%NW', 'NW-1-i', '(i%2)?-((i+2)%NW)-1:(i+2)%NW'):
    for sp in (0, 58): C.job(S, 'h_map', ['MAPF=' + m, 'SPARSE=10', 'SPOS=%d' % sp, 'BG=0x9e3779b97f4a7c15ULL'], merging=False)
for sp in (0, 58): C.job(S, 'h_fop', ['SPARSE=7', 'SPOS=%d' % sp, 'BG=0x9e3779b97f4a7c15ULL'], merging=False)
sys.exit(C.finish())

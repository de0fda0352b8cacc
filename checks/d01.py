import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vp.run import *
from vp.lat1d import *
C = Check('D01'); W = GenWide(C, VERIF + '/checks/cpp/d_wide.cpp'); THO = TIER != 'quick'
for L, b in ((32, 32), (64, 64), (10, 32)) + (((31, 32), (33, 64), (63, 64)) if THO else ()):
    for k in ('ferm', 'hcp'): W.job(['h_op'], k, L, b, op=True)
    if L % 2 == 0: W.job(['h_op'], 'spf', L // 2, b, op=True)
for sp in (0, 1):
    W.job(['h_bop'], 'boson', 3, 32, op=True, defs=['SPS=3', 'SPINME=%d' % sp])
    W.job(['h_bop'], 'boson', 3, 32, op=True, defs=['SPS=4', 'SPINME=%d' % sp])
    W.job(['h_bop'], 'boson', 24, 64, op=True, defs=['SPS=3', 'NOP=1', 'SYMD=0,23', 'IXS', 'SPINME=%d' % sp])
    W.job(['h_bop'], 'boson', 20, 32, op=True, defs=['SPS=3', 'NOP=1', 'SYMD=0,19', 'IXS', 'SPINME=%d' % sp])
    if THO:
        W.job(['h_bop'], 'boson', 40, 64, op=True, defs=['SPS=3', 'NOP=1', 'SYMD=0,39', 'SPINME=%d' % sp], tmo=3000)
        W.job(['h_bop'], 'boson', 3, 32, op=True, defs=['SPS=3', 'NOP=3', 'SPINME=%d' % sp], tmo=3000)
for k in ('hcp', 'spf', 'boson'): W.job(['h_opchar'], k, 4, op=True, defs=['NOP=1'] + (['SPS=3'] if k == 'boson' else []))
if THO: W.job(['h_op'], 'ferm', 10, 32, op=True, defs=['NOP=3'], tmo=3000); W.job(['h_op'], 'spf', 4, 32, op=True, defs=['NOP=4'], tmo=3000)
sys.exit(C.finish())

import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vp.run import *
from vp.lat1d import *
C = Check('D02'); W = GenWide(C, VERIF + '/checks/cpp/d_wide.cpp'); THO = TIER != 'quick'
SP = lambda n: ['SPARSE=0,1,2,%d,%d,%d,%d' % (n // 2, n // 2 - 1, n - 2, n - 1)]
SP2 = lambda n: ['SPARSE=0,1,2,%d,%d,%d,%d' % (n // 2 + 1, n // 2, n - 2, n - 1), 'BG=0']
for L, b in ((64, 64), (63, 64), (33, 64), (32, 32), (31, 32), (10, 32)):
    for k in ('hcp', 'ferm'):
        W.job(['h_wmap'], k, L, b); W.job(['h_wmap'], k, L, b, defs=['SHIFT=3']); W.job(['h_wflip'], k, L, b, defs=SP(L))
    W.job(['h_wnext'], 'hcp', L, b, defs=SP(L)); W.job(['h_wnext'], 'hcp', L, b, defs=SP(L) + ['BG=0'])
    if L % 2 == 0:
        W.job(['h_wmap', 'h_wflip'], 'spf', L // 2, b, defs=SP(L)); W.job(['h_wmap'], 'spf', L // 2, b); W.job(['h_wnext'], 'spf', L // 2, b, defs=SP2(L)); W.job(['h_wnext'], 'spf', L // 2, b, defs=SP2(L) + ['NUP=1', 'NDN=3'])
W.job(['h_bmap'], 'boson', 4, 32, defs=['SPS=3']); W.job(['h_bmap'], 'boson', 3, 32, defs=['SPS=4']); W.job(['h_bmap'], 'boson', 5, 32, defs=['SPS=2', 'SHIFT=2'])
W.job(['h_bmap'], 'boson', 20, 32, defs=['SPS=3', 'SYMD=0,19', 'SHIFT=3']); W.job(['h_bmap'], 'boson', 24, 64, defs=['SPS=3', 'SYMD=0,23'])
W.job(['h_bnext'], 'boson', 4, 32, defs=['SPS=3']); W.job(['h_bnext'], 'boson', 3, 32, defs=['SPS=4'])
if THO:
    W.job(['h_bmap'], 'boson', 40, 64, defs=['SPS=3', 'SYMD=0,39'], tmo=3000); W.job(['h_bnext'], 'boson', 5, 32, defs=['SPS=3'], tmo=3000); W.job(['h_bnext'], 'boson', 4, 32, defs=['SPS=5'], tmo=3000)
    for L, b in ((64, 64), (32, 32)):
        for n in range(0, L - 9, 9):
            for k in ('hcp', 'ferm', 'spf'): W.job(['h_wflip'] + (['h_wnext'] if k == 'hcp' else []), k, L // 2 if k == 'spf' else L, b, defs=['SPARSE=' + ','.join(str(n + i) for i in range(9))], tmo=1500)
sys.exit(C.finish())

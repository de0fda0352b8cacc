import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vp.run import *
from vp.lat import *
C = Check('C08')
S = VERIF + '/checks/cpp/c08_bk.cpp'
def fam(fn, kind, n, maps, cols=(0, 1), extra=(), merging=True, **kw):
    for c in cols:
        C.job(S, fn, ['KIND=' + kind, 'NS=%d' % n, 'ONECOL=%d' % c, 'COL=%d' % c] + list(extra) + mdef(maps), merging=merging, **kw)
for f, x in (('h_braket', ()), ('h_braket_pcon', ('NP=2',))):
    fam(f, 'KHCB', 4, [sh(4)], extra=x)
    fam(f, 'KHCB', 3 if not x else 5, [sh(3 if not x else 5)], extra=('NEGQ=1',) + x)
    fam(f, 'KHCB', 6, [sh(6)], cols=(0,), extra=x)
    fam(f, 'KHCB', 4, [sh(4), fl(4)] if not x else [sh(4)], extra=x, cols=(1,))
    fam(f, 'KSPF', 3, [sh(3)], extra=x, merging=False, cols=(0,)) if not x else fam(f, 'KSPF', 4, [sh(4)], extra=x, merging=False, cols=(0,))
fam('h_braket_pcon', 'KSPINFUL', 4, [spinful(sh(2))], extra=('NP=2', 'NP2=1'), merging=False, cols=(0, 1))
fam('h_braket_pcon', 'KSPINFUL', 4, [idn(4)], extra=('NP=2', 'NP2=1', 'NPONE=1'), merging=False, cols=(0,))
fam('h_shift', 'KHCB', 4, [sh(4)], cols=(1,))
fam('h_shift', 'KHCB', 3, [sh(3)], extra=('NEGQ=1',))
fam('h_shift', 'KHCB', 4, [rf(4), fl(4)])
fam('h_shift', 'KSPF', 3, [rf(3)], merging=False)
sys.exit(C.finish())

import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vp.run import *
from vp.lat import *
C = Check('C05')
S = VERIF + '/checks/cpp/c05_me.cpp'
def any_(fn, kind, n, sps, maps, extra=(), cols=(0, 1), A=(0.75, 0), real=False, merging=True, qs=None, mt=None, **kw):
    for c in cols:
        C.job(S, fn, ['KIND=' + kind, 'NS=%d' % n, 'SPS=%d' % sps, 'AR=%r' % A[0], 'AI=%r' % A[1], 'ANYOP', 'OPS="z"', 'SITES=0'] + list(extra) + (['ONECOL=%d' % c] if c is not None else [])
              + (['QREAL'] if real else []) + (['MT=' + mt] if mt else []) + mdef(maps, qs), merging=merging, **kw)
any_('h_op', 'KHCB', 5, 2, [sh(5)])
any_('h_op', 'KHCB', 3, 2, [sh(3)], ['NEGQ=1'])
any_('h_op', 'KHCB', 6, 2, [sh(6)], A=(0.5, -1.25))
any_('h_op', 'KHCB', 4, 2, [sh(4), fl(4)])
any_('h_op', 'KHCB', 6, 2, [rf(6), fl(6)])
any_('h_op', 'KHCB', 4, 2, [sh(4)], cols=(None,))
any_('h_op', 'KHCB', 6, 2, [rf(6), fl(6)], mt='double', A=(2.0, 0))
any_('h_op', 'KHCB', 4, 2, [sh(4)], mt='double', A=(2.0, 0))
any_('h_op', 'KSPF', 4, 2, [sh(4)], merging=False)
any_('h_op', 'KSPINFUL', 4, 2, [spinful(sh(2)), spin_swap(2)], merging=False)
any_('h_op', 'KBOSON', 3, 3, [sh(3)])
for tr in (0, 1):
    for cj in (0, 1):
        any_('h_inplace', 'KHCB', 4, 2, [sh(4)], ['TR=%d' % tr, 'CJ=%d' % cj])
any_('h_inplace', 'KHCB', 4, 2, [sh(4)], ['TR=1', 'CJ=0', 'NV=2'], cols=(0,))
any_('h_inplace', 'KHCB', 3, 2, [sh(3)], ['TR=0', 'CJ=0', 'NEGQ=1'], cols=(0,))
any_('h_inplace', 'KHCB', 5, 2, [sh(5)], ['TR=1', 'CJ=0', 'NEGQ=1'], cols=(0,))
for mode in (0, 1, 2):
    C.job(S, 'h_plain', ['KIND=KHCB', 'NS=4', 'NBASIS=2', 'MODE=%d' % mode, 'NPRE=2'])
for ops, sites in [('+-', '0,1'), ('-+', '2,0'), ('xy', '1,3'), ('zz', '0,2'), ('n', '3')]:
    C.job(S, 'h_op', ['KIND=KHCB', 'NS=4', 'AR=0.75', 'AI=0', 'OPS="%s"' % ops, 'SITES=' + sites] + mdef([sh(4)]))
sys.exit(C.finish())

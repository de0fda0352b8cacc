import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vp.run import *
C = Check('C01')
S = VERIF + '/checks/cpp/c01_op.cpp'
C.job(S, 'h_hcb', ['NS=32', 'NOP=3'])
C.job(S, 'h_spf', ['NS=32', 'NOP=2'])
C.job(S, 'h_spf', ['NS=7', 'NOP=3'])
C.job(S, 'h_hcb', ['NS=64', 'NOP=2', 'IT=npy_uint64'])
C.job(S, 'h_spf', ['NS=64', 'NOP=2', 'IT=npy_uint64'])
C.job(S, 'h_spinful', ['NS=64', 'NOP=2', 'IT=npy_uint64'])
C.job(S, 'h_boson', ['NS=3', 'NOP=2' if TIER == 'quick' else 'NOP=3', 'SPS=3'], tmo=300 if TIER == 'quick' else 3000)
C.job(S, 'h_boson', ['NS=3', 'NOP=2', 'SPS=4'])
C.job(S, 'h_hspin', ['NS=3', 'NOP=2' if TIER == 'quick' else 'NOP=3', 'SPS=3'], tmo=300 if TIER == 'quick' else 3000)
C.job(S, 'h_hspin', ['NS=3', 'NOP=2', 'SPS=4'])
for fn in ('h_boson', 'h_hspin'):
    C.job(S, fn, ['NS=24', 'NOP=1', 'SPS=3', 'IT=npy_uint64', 'SYMD=0,20'])
    C.job(S, fn, ['NS=40', 'NOP=1', 'SPS=3', 'IT=npy_uint64', 'SYMD=0,39'])
    C.job(S, fn, ['NS=20', 'NOP=1', 'SPS=3', 'SYMD=0,19'])
C.job(S, 'h_badchar', ['NS=32'])
sys.exit(C.finish())

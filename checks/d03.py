import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vp.run import *
from vp.lat1d import *
C = Check('D03'); G = Gen1d(C, VERIF + '/checks/cpp/d_1d.cpp'); THO = TIER != 'quick'; A = dict(merging=False)
SUB = [s for s in SECS if s[-1] in 'AB']; GEN = [s for s in SECS if s not in SUB]; NZ = [s for s in GEN if 'z' not in s]
B = ['h_member', 'h_basis']
for sec in GEN:
    big = sec in ('t_p_z', 't_p', 't_pz')
    G.job(B, 'hcp', 6, sec, **A); G.job(B, 'hcp', 5, sec, **A)
    if 't' in sec.split('_'): G.job(B, 'hcp', 6, sec, a=2, **A); G.job(B, 'hcp', 6, sec, a=3, **A); G.job(B, 'hcp', 8, sec, a=2, **dict(A, ks=[1, 2]) if big and not THO else A)
    G.job(['h_basis'], 'hcp', 6, sec, Np=3, **A); G.job(['h_basis'], 'boson', 4, sec, sps=3, Np=4, **A); G.job(['h_basis'], 'spf', 4, sec, Np=(2, 2), **A)
    G.job(B, 'boson', 3, sec, sps=3, **A); G.job(B, 'spf', 3, sec, **A); G.job(B, 'spf', 2, sec, **A); G.job(B, 'spf', 3, sec, dbl=False, **A)
for sec in NZ: G.job(B, 'ferm', 6, sec, **A); G.job(B, 'ferm', 5, sec, **A); G.job(['h_basis'], 'ferm', 6, sec, Np=3, **A); G.job(['h_basis'], 'ferm', 6, sec, Np=2, **A)
for sec in SUB: G.job(B, 'hcp', 6, sec, a=2, **A); G.job(B, 'boson', 4, sec, a=2, sps=3, **A); G.job(['h_basis'], 'hcp', 6, sec, a=2, Np=3, **A) if 'zA_zB' in sec and False else None
if THO:
    for sec in GEN: G.job(B, 'hcp', 8, sec, tmo=3000, **A); G.job(B, 'spf', 4, sec, tmo=3000, **A); G.job(B, 'boson', 5, sec, sps=3, tmo=3000, **A)
    for sec in NZ: G.job(B, 'ferm', 8, sec, tmo=3000, **A); G.job(B, 'ferm', 8, sec, a=2, tmo=3000, **A)
sys.exit(C.finish())

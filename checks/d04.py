import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vp.run import *
from vp.lat1d import *
C = Check('D04'); G = Gen1d(C, VERIF + '/checks/cpp/d_1d.cpp'); THO = TIER != 'quick'; A = dict(merging=False); F = ['h_me']
SUB = [s for s in SECS if s[-1] in 'AB']; GEN = [s for s in SECS if s not in SUB]; NZ = [s for s in GEN if 'z' not in s]
for sec in ('t_p_z', 't_p', 't_pz'):                      # most expensive first
    G.job(F, 'spf', 3, sec, cols=1, ks=[1], **A); G.job(F, 'boson', 3, sec, sps=3, cols=1, ks=[1], **A)
    G.job(F, 'hcp', 6, sec, cols=1, ks=[1], **A); G.job(F, 'hcp', 6, sec, cols=1, ks=[3], **A); G.job(F, 'hcp', 6, sec, a=2, cols=1, ks=[1], **A)
    G.job(F, 'spf', 2, sec, cols=2, **A)
for sec in ('t', 't_z'): G.job(F, 'spf', 3, sec, cols=1, ks=[1], **A); G.job(F, 'boson', 3, sec, sps=3, cols=1, ks=[1], **A); G.job(F, 'hcp', 6, sec, cols=1, ks=[1, 3], **A); G.job(F, 'hcp', 6, sec, a=2, cols=1, ks=[1], **A)
for sec in GEN:
    G.job(F, 'hcp', 4, sec, cols=2, **A)
    if sec in NZ: G.job(F, 'ferm', 4, sec, cols=2, **A); G.job(F, 'ferm', 5, sec, cols=1, ks=[1], **A)
    G.job(F, 'spf', 2, sec, dbl=False, cols=2, **A)
    if 't' not in sec.split('_'): G.job(F, 'spf', 3, sec, cols=1, **A); G.job(F, 'boson', 3, sec, sps=3, cols=2, **A)
    if sec in ('p', 'z', 'pz', 't'): G.job(F, 'spf', 4, sec, Np=(2, 2), cols=1, ks=[1], **A)
    G.job(F, 'hcp', 4, sec, Np=2, cols=2, **A)
for sec in SUB: G.job(F, 'hcp', 4, sec, a=2, cols=2, **A)
if THO:
    T = dict(merging=False, tmo=3000)
    for sec in GEN:
        for k in (range(6) if 't' in sec.split('_') else [0]):
            G.job(F, 'hcp', 6, sec, cols=3, ks=[k], **T); G.job(F, 'hcp', 6, sec, a=2, cols=3, ks=[k % 3], **T); G.job(F, 'spf', 3, sec, cols=3, ks=[k % 3], **T); G.job(F, 'boson', 3, sec, sps=3, cols=3, ks=[k % 3], **T); G.job(F, 'spf', 4, sec, Np=(2, 2), cols=2, ks=[k % 4], **T)
    for sec in SUB: G.job(F, 'hcp', 6, sec, a=2, cols=2, **T); G.job(F, 'boson', 4, sec, a=2, sps=3, cols=1, **T)
sys.exit(C.finish())

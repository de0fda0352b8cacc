import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vp.run import *
import random
C = Check('C02')
S = VERIF + '/checks/cpp/c02_map.cpp'
def M(*maps): return 'MAPS=' + ','.join('{' + ','.join(map(str, m)) + '}' for m in maps)
def flip(m, sites=None): return [-x - 1 if sites is None or i in sites else x for i, x in enumerate(m)]
rnd = random.Random(1000 + SEED)
def std(n, flips=True):
    sh = [(i + 1) % n for i in range(n)]; rf = [n - 1 - i for i in range(n)]; idn = list(range(n))
    pr = idn[:]; rnd.shuffle(pr)
    p2 = idn[:]; p2[0], p2[n // 2] = p2[n // 2], p2[0]
    l = [sh, rf, p2, pr]
    if flips: l += [flip(idn), flip(rf), flip(sh), flip(pr), flip(idn, range(0, n, 2)), flip(pr, range(1, n, 2))]
    return l
def std_f(n):
    l = std(n, False); idn = list(range(n)); sh = [(i + 1) % n for i in range(n)]
    return l + [flip(idn), flip(sh)]
C.job(S, 'h_hcb', ['NS=6', M(*std(6))])
C.job(S, 'h_hcb', ['NS=32', M(*std(32))])
C.job(S, 'h_hcb', ['NS=64', 'IT=npy_uint64', M(*std(64))])
C.job(S, 'h_hcb', ['NS=37', 'IT=npy_uint64', M(*std(37))])
C.job(S, 'h_hcb', ['NS=3','FLIPS'])
C.job(S, 'h_spf', ['NS=4', 'COV'], merging=False)
for m in std_f(6): C.job(S, 'h_spf', ['NS=6', 'COV', M(m)], merging=False)
for m in std_f(6): C.job(S, 'h_spinful', ['NS=6', 'COV', M(m)], merging=False)
C.job(S, 'h_spf', ['NS=9', M(std_f(9)[3])], merging=False)
C.job(S, 'h_boson', ['NS=4', 'SPS=3', M(*std(4))])
C.job(S, 'h_boson', ['NS=3', 'SPS=3', 'FLIPS'])
C.job(S, 'h_boson', ['NS=4', 'SPS=4', M(*std(4))])
C.job(S, 'h_hspin', ['NS=4', 'SPS=3', M(*std(4))])
C.job(S, 'h_hspin', ['NS=4', 'SPS=5', M(*std(4))])
for fn in ('h_boson', 'h_hspin'):
    C.job(S, fn, ['NS=24', 'SPS=3', 'IT=npy_uint64', 'SYMD=0,20', M(*std(24))])
    C.job(S, fn, ['NS=40', 'SPS=3', 'IT=npy_uint64', 'SYMD=0,39', M(*std(40))])
    C.job(S, fn, ['NS=20', 'SPS=3', 'SYMD=0,1,19', M(*std(20))])
    C.job(S, fn, ['NS=30', 'SPS=4', 'IT=npy_uint64', 'SYMD=0,29', M(*std(30))])
sys.exit(C.finish())

"""Job construction for the 1D harnesses."""
import itertools, os
from . import cyth, oracle1d

SECS = dict(none='', p='p', pz='p', z='z', p_z='pz', t='k', t_p='kp', t_pz='kp', t_z='kz', t_p_z='kpz', zA='z', zB='Z', zA_zB='zZ', t_zA='kz', t_zB='kZ', t_zA_zB='kzZ')


def pars(kind, L, sps=2, dbl=True, Np=None):
    if kind == 'boson': return [L] + [sps ** i for i in range(L + 1)] + [0]
    full = (1 << L) - 1
    if kind == 'spf':
        lo, hi = 0, 0
        if Np is not None: lo = (1 << Np[1]) - 1; hi = lo << (L - Np[1])
        return [L, full, hi, lo, int(dbl)]
    return [1 if kind == 'ferm' else 0, L, full, sum(1 << i for i in range(0, L, 2)), sum(1 << i for i in range(1, L, 2))]


class Gen1d:
    def __init__(self, C, src): self.C, self.src, self.cpp = C, src, {}; self.n = 0
    def src_of(self, kind):
        k = 'hcp' if kind == 'ferm' else kind
        if k not in self.cpp: self.cpp[k] = cyth.build_sector(self.C.work + '/cy_' + k, k)
        return self.cpp[k]
    def job(self, fns, kind, L, sec, a=1, sps=2, dbl=True, Np=None, cols=4, ks=None, **kw):
        need = SECS[sec]
        qs = list(itertools.product(ks if ks is not None and 'k' in need else range(L // a) if 'k' in need else [0], [1, -1] if 'p' in need else [0], [1, -1] if 'z' in need else [0], [1, -1] if 'Z' in need else [0]))
        ch = oracle1d.Chain(kind, L, sps, dbl, Np); self.n += 1
        h = '%s/tab%d.h' % (self.C.work, self.n); open(h, 'w').write(oracle1d.header(ch, sec, a, qs))
        cpp = self.src_of(kind); mod = os.path.basename(cpp)[:-4]
        p = pars(kind, L, ch.sps, dbl, Np); st = [s for s in range(ch.D) if ch.inside[s]]
        if Np is None: s0, mx, suf = 0, ch.D, ''
        else:
            s0, suf = st[0], '_n'; mx = len([s for s in range(ch.D) if oracle1d.Chain.__dict__ and ok_np(ch, s)])
        d = ['CYCPP="%s"' % cpp, 'TABLES="%s"' % h, 'PFX=__pyx_f_%d%s_' % (len(mod), mod), 'VM=vpm_%s%s' % (sec, suf), 'VO=vpo_%s' % ('n' if sec == 'none' else sec), 'PARS=' + ','.join(map(str, p)), 'LL=%d' % L, 'AA=%d' % a,
             'MAXS=%d' % mx, 'S0_=%d' % s0, 'COLS=%d' % cols, 'NORMED=%d' % int(sec not in ('none',)), 'SEMI2=%d' % int(sec in ('t_p', 't_pz', 't_p_z')), 'FERM=%d' % int(kind == 'ferm'), 'SUBL=%d' % int(kind in ('hcp', 'boson')), 'DBL=%d' % int(dbl)]
        lab = '%s L=%d%s%s%s a=%d sector %s' % (kind, L, ' sps=%d' % sps if kind == 'boson' else '', '' if dbl else ' no double occupancy', '' if Np is None else ' N=%s' % (Np,), a, sec)
        for f in fns:
            self.C.job(self.src, f, d, bounds=lab, native=['-Wl,--unresolved-symbols=ignore-all', '-lpython3.12'], extra=['-I' + os.path.dirname(cpp), '-I' + os.path.dirname(cpp) + '/sources', '-I' + os.path.dirname(self.src)], **kw)


def ok_np(ch, s):
    d = ch.occ[s]
    return (sum(d[:ch.L]), sum(d[ch.L:])) == tuple(ch.Np) if ch.kind == 'spf' else sum(d) == ch.Np


class GenWide:
    """harnesses of d_wide.cpp: kind 0 hard-core, 1 spinless fermion, 2 two species, 3 bosons / higher spins"""
    K = {'hcp': 0, 'ferm': 1, 'spf': 2, 'boson': 3}
    def __init__(self, C, src): self.C, self.src, self.cpp = C, src, {}
    def job(self, fns, kind, L, bits=32, op=False, defs=(), **kw):
        k = ('hcp' if kind == 'ferm' else kind, bits, op)
        if k not in self.cpp:
            f = cyth.build_op if op else cyth.build_sector
            self.cpp[k] = f('%s/cyw_%s%d%d' % (self.C.work, k[0], bits, op), k[0], dict(basis_type='NP_UINT%d_t' % bits))
        cpp = self.cpp[k]; mod = os.path.basename(cpp)[:-4]
        d = ['CYCPP="%s"' % cpp, 'PFX=__pyx_f_%d%s_' % (len(mod), mod), 'IT=npy_uint%d' % bits, 'KIND=%d' % self.K[kind], 'LL=%d' % L] + (['OPSRC'] if op else [])
        have = ''.join(defs)
        for n, v in (('NUP', 2), ('NDN', 2), ('DBL', 1), ('SPINME', 0), ('SHIFT', 1), ('JR', '1.5'), ('JI', '-0.25')):
            if n + '=' not in have: d.append('%s=%s' % (n, v))
        for f in fns:
            self.C.job(self.src, f, d + list(defs), native=['-Wl,--unresolved-symbols=ignore-all', '-lpython3.12'], bounds='%s L=%d, %d-bit states %s' % (kind, L, bits, ' '.join(defs)),
                       extra=['-I' + os.path.dirname(cpp), '-I' + os.path.dirname(cpp) + '/sources', '-I' + os.path.dirname(self.src)], **kw)

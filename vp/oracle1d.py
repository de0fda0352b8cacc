"""Independent description of the symmetry sectors of one-dimensional chains: group elements acting on occupation lists, basis
vectors written out as sums over the group.  Produces the tables the 1D harnesses compare the implementation with."""
import cmath, math
import numpy as np


class Chain:
    """kind: hcp (spin-1/2 / hard-core boson), ferm (spinless fermion), spf (two fermion species), boson (sps levels)"""
    def __init__(self, kind, L, sps=2, dbl=True, Np=None):
        self.kind, self.L, self.sps = kind, L, sps if kind == 'boson' else 2
        self.n = 2 * L if kind == 'spf' else L
        self.D = self.sps ** self.n; self.fermi = kind in ('ferm', 'spf')
        self.occ = [self.digits(s) for s in range(self.D)]
        def ok(d):
            if kind == 'spf' and not dbl and any(d[i] and d[i + L] for i in range(L)): return False
            if Np is None: return True
            if kind == 'spf': return (sum(d[:L]), sum(d[L:])) == tuple(Np)
            return sum(d) == Np
        self.inside = [ok(d) for d in self.occ]
        self.dbl, self.Np = dbl, Np

    def digits(self, s): return [(s // self.sps ** (self.n - 1 - i)) % self.sps for i in range(self.n)]
    def num(self, d):
        s = 0
        for x in d: s = s * self.sps + x
        return s

    def apply(self, sitemap, flip, s):
        """move occupation of site i to sitemap[i]; flip: invert the occupation of these sites"""
        d = self.occ[s]; r = [0] * self.n; sg = 1
        for i in range(self.n): r[sitemap[i]] = self.sps - 1 - d[i] if i in flip else d[i]
        if self.fermi:
            o = [sitemap[i] for i in range(self.n) if d[i]]
            sg = (-1) ** sum(o[i] > o[j] for i in range(len(o)) for j in range(i + 1, len(o)))
        return self.num(r), sg

    def gens(self, a):
        L, n = self.L, self.n; sp = range(0, n, L)
        T = [o + (i + a) % L for o in sp for i in range(L)]; P = [o + L - 1 - i for o in sp for i in range(L)]; I = list(range(n))
        # bit position L-1-i: sublattice A are the even positions
        A = [i for i in range(n) if (L - 1 - i) % 2 == 0]; B = [i for i in range(n) if (L - 1 - i) % 2]
        Z = ([L + i for i in range(L)] + list(range(L)), []) if self.kind == 'spf' else (I, I)
        f = lambda m, fl: [self.apply(m, set(fl), s) for s in range(self.D)]
        return dict(T=f(T, []), P=f(P, []), Z=f(*Z), A=f(I, A), B=f(I, B), I=f(I, []))


def mul(g, h):
    """g after h"""
    return [(g[t][0], g[t][1] * s) for t, s in h]


class Sector:
    """sec: name of the sector type, q = dict(k,p,z,z2); vectors[(s,sigma)] = normalised sum over the group"""
    def __init__(self, ch, sec, a, k, p, z, z2):
        G = ch.gens(a); self.ch = ch; L = ch.L; nT = L // a
        parts = sec.split('_') if sec != 'none' else []
        self.real = True; self.semi = False
        els = [(1.0, G['I'])]
        def ext(x, g): return els + [(c * x, mul(g, e)) for c, e in els]
        if 'p' in parts: els = ext(p, G['P'])
        if 'z' in parts: els = ext(z, G['Z'])
        if 'pz' in parts: els = ext(p, mul(G['P'], G['Z']))
        if 'zA' in parts: els = ext(z, G['A'])
        if 'zB' in parts: els = ext(z2, G['B'])
        th = 2 * math.pi * k * a / L
        if 't' in parts:
            self.semi = ('p' in parts or 'pz' in parts) and (2 * k * a) % L != 0
            if self.semi: C = {1: [math.cos(th * j) for j in range(nT)], -1: [math.sin(th * j) for j in range(nT)]}
            elif (2 * k * a) % L == 0: C = {1: [round(math.cos(th * j)) for j in range(nT)]}
            else: C = {1: [cmath.exp(-1j * th * j) for j in range(nT)]}
            Tj = [G['I']]
            for j in range(nT - 1): Tj.append(mul(G['T'], Tj[-1]))
            self.els = {sg: [(c[j] * x, mul(e, Tj[j])) for j in range(nT) for x, e in els] for sg, c in C.items()}
        else: self.els = {1: els}
        self.nel = len(self.els[1])
        self.basis = []
        for s in range(ch.D - 1, -1, -1):
            if not ch.inside[s]: continue
            if max(e[s][0] for _, e in self.els[1]) != s: continue
            vs = []
            for sg in ((1, -1) if self.semi else (1,)):
                v = self.vec(sg, s); n = np.linalg.norm(v)
                if n < 1e-9: continue
                if vs and abs(abs(np.vdot(vs[0][1], v)) / n - 1) < 1e-9: continue
                vs.append((sg, v / n, 1 / n))
            for sg, v, A in vs: self.basis.append((s, sg, v, A))
        self.V = np.array([b[2] for b in self.basis]).reshape(len(self.basis), ch.D).T
        if len(self.basis): assert abs(self.V.conj().T @ self.V - np.eye(len(self.basis))).max() < 1e-9, (sec, k, p, z)

    def vec(self, sg, s):
        v = np.zeros(self.ch.D, complex)
        for c, e in self.els[sg]: v[e[s][0]] += c * e[s][1]
        return v

    def U(self, sg):
        """U[t][r] = <r| Pi_sg |t>"""
        if not self.basis: return np.zeros((self.ch.D, 0))
        M = np.zeros((self.ch.D, self.ch.D), complex)      # M[:,t] = Pi_sg |t>
        for c, e in self.els[sg]:
            for t in range(self.ch.D): M[e[t][0], t] += c * e[t][1]
        return (self.V.conj().T @ M).T


def header(ch, sec, a, qs):
    """C tables for the sectors of one type; qs: list of (k,p,z,z2)"""
    S = [Sector(ch, sec, a, *q) for q in qs]
    keep = [(q, s) for q, s in zip(qs, S)]
    NR = max(1, max(len(s.basis) for _, s in keep)); D = ch.D; N = len(keep)
    semi = any(s.semi for _, s in keep)
    f = lambda x: repr(float(x) if abs(x) > 1e-13 else 0.0)
    o = ['#define NSEC %d' % N, '#define NR %d' % NR, '#define DIM %d' % D, '#define NSG %d' % (2 if semi else 1)]
    o.append('static const int QK[]={%s},QP[]={%s},QZ[]={%s},QZ2[]={%s};' % tuple(','.join(str(q[i]) for q, _ in keep) for i in range(4)))
    o.append('static const int NB_[]={%s};' % ','.join(str(len(s.basis)) for _, s in keep))
    o.append('static const int SEMI[]={%s};' % ','.join(str(int(s.semi)) for _, s in keep))
    pad = lambda l, z: list(l) + [z] * (NR - len(l))
    o.append('static const unsigned BAS[][NR]={%s};' % ','.join('{%s}' % ','.join(map(str, pad([b[0] for b in s.basis], 0))) for _, s in keep))
    o.append('static const int SG[][NR]={%s};' % ','.join('{%s}' % ','.join(map(str, pad([b[1] for b in s.basis], 0))) for _, s in keep))
    o.append('static const double AN[][NR]={%s};' % ','.join('{%s}' % ','.join(map(f, pad([b[3] for b in s.basis], 0))) for _, s in keep))
    cnt = []
    for _, s in keep:
        c = [0] * D; m = [0] * D
        for b in s.basis: c[b[0]] += 1; m[b[0]] |= 1 if b[1] > 0 else 2
        cnt.append('{%s}' % ','.join(map(str, m)))
    o.append('static const unsigned char CNT[][DIM]={%s};' % ','.join(cnt))
    for nm, part in (('UR', np.real), ('UI', np.imag)):
        rows = []
        for _, s in keep:
            sg = []
            for x in ((1, -1) if semi else (1,)):
                if x not in s.els: u = np.zeros((D, NR))
                else: u = np.zeros((D, NR)); v = part(s.U(x)); u[:, :v.shape[1]] = v
                # per row: table over the target state
                sg.append('{%s}' % ','.join('{%s}' % ','.join(f(u[t, r]) for t in range(D)) for r in range(NR)))
            rows.append('{%s}' % ','.join(sg))
        o.append('static const double %s[NSEC][NSG][NR][DIM]={%s};' % (nm, ','.join(rows)))
    o.append('static const unsigned char INS[]={%s};' % ','.join(str(int(x)) for x in ch.inside))
    for g, nm in (('T', 'GT'), ('P', 'GP'), ('Z', 'GZ'), ('A', 'GA'), ('B', 'GB')):
        e = ch.gens(a)[g]
        o.append('static const unsigned %s[]={%s}; static const signed char %sS[]={%s};' % (nm, ','.join(str(t) for t, _ in e), nm, ','.join(str(s) for _, s in e)))
    return '\n'.join(o) + '\n'

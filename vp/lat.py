"""Lattice maps used by the harnesses (site i -> m[i]; negative entries -(m+1) also invert the site)."""
def sh(n, k=1): return [(i + k) % n for i in range(n)]
def rf(n): return [n - 1 - i for i in range(n)]
def idn(n): return list(range(n))
def fl(n, sites=None): return flip(idn(n), sites)
def flip(m, sites=None): return [-x - 1 if sites is None or i in sites else x for i, x in enumerate(m)]
def sq_x(lx, ly): return [(i % lx + 1) % lx + lx * (i // lx) for i in range(lx * ly)]
def sq_y(lx, ly): return [i % lx + lx * ((i // lx + 1) % ly) for i in range(lx * ly)]
def spinful(m): return list(m) + [x + len(m) if x >= 0 else x - len(m) for x in m]
def spin_swap(n): return [i + n for i in range(n)] + list(range(n))
def per(m):
    n = len(m); s = [(i, 0) for i in range(n)]; c = 0
    while True:
        s = [((m[i] if m[i] >= 0 else -m[i] - 1), f ^ (m[i] < 0)) for i, f in s]; c += 1
        if s == [(i, 0) for i in range(n)]: return c
def mdef(maps, qs=None):
    d = ['MAPS=' + ','.join('{' + ','.join(map(str, m)) + '}' for m in maps), 'PERS=' + ','.join(str(per(m)) for m in maps)]
    if qs is not None: d.append('QS=' + ','.join(map(str, qs)))
    return d

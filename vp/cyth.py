"""Turns the Cython sources of the 1D bases into C++ for the symbolic build: fused types reduced to one type each, numpy
constants replaced by C constants, the multi-state operator action replaced by a harness function, and one plain wrapper per
template appended.  Everything else is the source text of /repo as it is now."""
import os, re, shutil, subprocess
REPO = os.environ.get('VP_REPO', '/repo')
D = REPO + '/quspin/basis/basis_1d/_basis_1d_core'
PY = '/opt/venv/bin/python'
TYPES = dict(basis_type='NP_UINT32_t', N_type='NP_INT8_t', M1_type='NP_UINT8_t', M2_type='NP_UINT16_t', matrix_type='double complex')
HEAD = '''# cython: boundscheck=False
# cython: wraparound=False
# cython: cdivision=True
# cython: language_level=2
# cython: infer_types=True
cimport numpy as _np
from libc.math cimport sin,cos,sqrt,M_PI,NAN
from types cimport *
import numpy as _np
from scipy.special import comb
cdef extern from "glibc_fix.h":
    pass
'''
STUB = '''
cdef extern from "vp1d.h":
    int vp_op1d(npy_intp Ns, NP_UINT32_t *basis, NP_UINT32_t *row, double complex *ME)
cdef int op_func(npy_intp Ns, basis_type[:] basis, str opstr,NP_INT32_t *indx,scalar_type J, basis_type[:] row, matrix_type *ME,basis_type[:] op_pars):
    return vp_op1d(Ns,&basis[0],&row[0],ME)
'''


def strip_defs(t):
    """drop Python-level functions (not part of the symbolic build)"""
    out = []; skip = False
    for ln in t.split('\n'):
        if ln.strip() and not ln[0].isspace() and not ln.startswith('#'): skip = bool(re.match(r'(def|@|class)\b', ln))
        if not skip: out.append(ln)
    return '\n'.join(out)


def prep(work, types=None):
    os.makedirs(work + '/sources', exist_ok=True)
    T = dict(TYPES, **(types or {}))
    for f in os.listdir(D + '/sources'):
        t = open(D + '/sources/' + f, errors='replace').read()
        if f.endswith('.pyx'):
            t = strip_defs(t)
            t = re.sub(r'\b_np\.pi\b', 'M_PI', t); t = re.sub(r'\b_np\.nan\b', 'NAN', t)
            t = re.sub(r'(?m)^cdef (inline )?(fliplr|flip_all|flip_sublat_A|flip_sublat_B|shift)\(basis_type', r'cdef basis_type \2(basis_type', t)
        open(work + '/sources/' + f, 'w').write(t)
    for f in ('glibc_fix.h',): shutil.copy(D + '/' + f, work)
    t = open(D + '/types.pxd').read()
    for k, v in T.items():
        t, n = re.subn(r'(?m)^ctypedef fused %s:\n(?:[ \t]+\S.*\n)+' % k, 'ctypedef fused %s:\n    %s\n\n' % (k, v), t)
        assert n == 1, k
    open(work + '/types.pxd', 'w').write(t)


def sigs(path):
    """cdef functions of a pyx file: name -> [parameter (type, name)]"""
    t = open(path).read(); r = {}
    for m in re.finditer(r'(?ms)^cdef\s+(?:inline\s+)?([\w ]+?)\s+(\w+)\s*\((.*?)\)\s*:', t):
        ps = []
        for p in m.group(3).split(','):
            p = p.strip()
            q = re.match(r'(.*?)(\w+)$', p, re.S); ps.append((q.group(1).strip(), q.group(2)))
        r[m.group(2)] = (m.group(1), ps)
    return r


OPV = dict(op_pars='pars', ref_pars='pars', L='L', pblock='p', zblock='z', pzblock='p', zAblock='z', zBblock='z2', kblock='k', a='a', Ns='Ns', N='N', basis='basis', opstr='"z"', indx='indx', J='1.0', row='row', col='col', ME='ME',
           next_state='NEXT', ns_pars='pars', MAX='MAX', s='s')


def wrappers(work, kind):
    """uniform wrappers vpm_<sector>[_n] (basis construction) and vpo_<sector> (operator matrix)"""
    out = ''; mk = sigs(work + '/sources/basis_templates.pyx'); op = sigs(work + '/sources/op_templates.pyx')
    nxt = {'hcp': 'next_state_pcon_hcp', 'boson': 'next_state_pcon_boson', 'spf': 'next_state_pcon_spf'}[kind]
    def call(f, ps, n):
        a = []
        for t, p in ps:
            if p == 'm': a.append('m2' if 'M2' in t else 'm1')
            elif p == 'next_state': a.append(n)
            elif p == 's' : a.append('s')
            else: a.append(OPV[p])
        # a one-sublattice-B sector has its quantum number in z2
        return '%s(%s)' % (f, ','.join(a))
    common = 'NP_UINT32_t[:] pars,int L,int k,int p,int z,int z2,int a,NP_INT8_t *N,NP_UINT8_t *m1,NP_UINT16_t *m2,NP_UINT32_t[:] basis'
    for f, (ret, ps) in mk.items():
        q = re.match(r'make_(\w+_)?basis_template$', f)
        if not q: continue
        sec = (q.group(1) or 'none_')[:-1]
        for suf, n in (('', 'next_state_inc_1'), ('_n', nxt)):
            out += 'cdef npy_intp vpm_%s%s(%s,npy_intp MAX,NP_UINT32_t s):\n    return %s\n' % (sec, suf, common, call(f, ps, n))
    for f, (ret, ps) in op.items():
        q = re.match(r'(\w+_)?op_template$', f)
        if not q: continue
        sec = (q.group(1) or 'none_')[:-1]
        out += 'cdef int vpo_%s(%s,npy_intp Ns,NP_INT32_t *indx,NP_UINT32_t[:] row,NP_UINT32_t[:] col,double complex *ME):\n    return %s\n' % (sec, common, call(f, ps, ''))
    return out


BIT = '''
cdef NP_UINT32_t vpb_shift(NP_UINT32_t s,int d,int L,NP_INT8_t *sign,NP_UINT32_t[:] pars):
    return shift(s,d,L,sign,pars)
cdef NP_UINT32_t vpb_fliplr(NP_UINT32_t s,int L,NP_INT8_t *sign,NP_UINT32_t[:] pars):
    return fliplr(s,L,sign,pars)
cdef NP_UINT32_t vpb_flip_all(NP_UINT32_t s,int L,NP_INT8_t *sign,NP_UINT32_t[:] pars):
    return flip_all(s,L,sign,pars)
cdef NP_UINT32_t vpb_flip_A(NP_UINT32_t s,int L,NP_INT8_t *sign,NP_UINT32_t[:] pars):
    return flip_sublat_A(s,L,sign,pars)
cdef NP_UINT32_t vpb_flip_B(NP_UINT32_t s,int L,NP_INT8_t *sign,NP_UINT32_t[:] pars):
    return flip_sublat_B(s,L,sign,pars)
cdef NP_UINT32_t vpb_next(NP_UINT32_t s,NP_UINT32_t[:] pars):
    return NEXTP(s,pars)
'''


def build_sector(work, kind, types=None):
    """vp1d_<kind>.cpp: symmetry machinery with an arbitrary operator action"""
    prep(work, types)
    t = HEAD + 'include "sources/%s_bitops.pyx"\n' % kind + STUB + ''.join('include "sources/%s.pyx"\n' % f for f in
         ('refstate', 'op_templates', kind + '_next_state', 'checkstate', 'basis_templates', kind + '_basis')) + wrappers(work, kind) + \
        BIT.replace('NEXTP', {'hcp': 'next_state_pcon_hcp', 'boson': 'next_state_pcon_boson', 'spf': 'next_state_pcon_spf'}[kind])
    for k, v in (types or {}).items():
        if k == 'basis_type': t = t.replace('NP_UINT32_t', v)
    return cython(work, 'vp1d_' + kind, t)


OPW = '''
cdef int vpo_op(npy_intp Ns, NP_UINT32_t[:] basis, NP_INT32_t *indx, double complex J, NP_UINT32_t[:] row, double complex *ME, NP_UINT32_t[:] pars):
    return op_func(Ns,basis,"z",indx,J,row,ME,pars)
'''


def build_op(work, kind, types=None):
    """vp1o_<kind>.cpp: the multi-state operator action itself; the operator string is provided by the harness"""
    prep(work, types)
    p = work + '/sources/%s_ops.pyx' % kind; t = open(p).read()
    t = re.sub(r'cdef unsigned char\[:\]\s*(\w+)\s*=\s*bytearray\(.*?\)\n', r'cdef unsigned char *\1 = vp_opchars()\n', t); t = t.replace('len(opstr)', 'vp_oplen()')
    open(p, 'w').write(t)
    t = HEAD + 'cdef extern from "vp1d.h":\n    int vp_oplen()\n    unsigned char *vp_opchars()\n' + \
        ''.join('include "sources/%s.pyx"\n' % f for f in (kind + '_bitops', 'refstate', 'op_templates', kind + '_ops')) + OPW
    for k, v in (types or {}).items():
        if k == 'basis_type': t = t.replace('NP_UINT32_t', v)
    return cython(work, 'vp1o_' + kind, t)


def cython(work, name, text):
    open('%s/%s.pyx' % (work, name), 'w').write(text)
    r = subprocess.run([PY, '-m', 'cython', '--cplus', '-2', name + '.pyx'], cwd=work, capture_output=True, text=True)
    if r.returncode: raise RuntimeError('cython failed: ' + (r.stdout + r.stderr)[-3000:])
    return '%s/%s.cpp' % (work, name)

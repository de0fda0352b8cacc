#!/usr/bin/env python3
"""Writes known_findings.json (commit hashes looked up by subject in /repo's log)."""
import json, subprocess
log = [l.split(' ', 1) for l in subprocess.run(['git', '-C', '/repo', 'log', '--format=%h %s'], capture_output=True, text=True).stdout.splitlines()]
FIXED = [('C01', "'z' operator fell through", "boson_basis_general 'z' operator multiplied the matrix element by the occupation as well (fall-through into 'n')"),
 ('C08', 'ref_state left', 'group element left unset for a state that is its own representative: shift/bra-ket phases read stale values'),
 ('C08', 'multiplied diagonal', 'bra-ket action in a particle sector multiplied diagonal elements by a stale symmetry phase'),
 ('C08', 'op_shift_sector dropped', 'sector-shifting operator lost the symmetry phase when it maps a state into its own orbit'),
 ('C06', 'conjugate phase and recursed', 'project_to with pcon=True used the conjugate phase and recursed into project_from'),
 ('C06', 'transpose of the projector', 'project_to(sparse=True) applied the transpose of the projector instead of its adjoint'),
 ('C10', 'shifted by -1', 'bit count over all bits of the integer type (N=32, 64, ...) shifted by -1: bra-ket actions returned nothing'),
 ('D04', '1D pzblock sectors dropped', 'RefState_PZ never set the fermion sign: spinful_fermion_basis_1d(L, psblock=...) Hamiltonians were wrong'),
 ('D02', 'bit_count returned 0', 'bit count over all 32 (64) bits returned 0: wrong fermion signs, basis and spectra for chains of exactly 32 (64) sites'),
 ('D03', 'dropped states invariant', '(kblock,zAblock,zBblock) sectors of chains with odd local dimension dropped the states invariant under both sublattice inversions'),
 ('D03', 'at k=pi for unit cells', 'get_vec/get_proj normalisation of (kblock,pblock) sectors at k=pi with a>1'),
 ('D03', '8-bit overflow', 'get_vec/get_proj normalisation of (kblock,pblock,zblock) sectors for L>=11'),
 ('M01', 'csr multi-vector product', 'csr_matvecs wrote to the wrong columns of column-major outputs that are strided'),
 ('M01', 'ignored its out', 'tools.matvec.matvec() silently ignored its out, overwrite_out and a arguments'),
 ('C10', 'overflowed its 8-bit', 'bit count wrong for more than 255 set bits'),
 ('H01', 'compared by their factors', 'drive terms whose arguments have the same hash, e.g. (-1,) and (-2,), were merged into one; conjugates of products of drive functions raised AttributeError'),
 ('H01', 'hamiltonian.diagonal()', 'diagonal(time) of a dense static part with dynamic terms raised "output array is read-only"'),
 ('H01', 'hamiltonian.rdot() without', 'rdot() raised AttributeError unless an output array was given'),
 ('H01', 'Liouville-von Neumann equation', 'evolve(eom="LvNE") integrated H rho - rho H^T for csr/csc storage: wrong for complex Hamiltonians'),
 ('H01', 'toarray()/todense()', 'toarray() with sparse dynamic parts returned numpy.matrix and left out= without the dynamic part; order= raised'),
 ('H01', 'dot() of sparse states', 'dot() of sparse states with several times raised (get_col), with dense dynamic parts gave garbage'),
 ('H01', 'numpy.asscalar', 'expt_value of a sparse pure state raised AttributeError'),
 ('H01', 'as_dense_format() of a dense', 'as_dense_format() of a dense hamiltonian raised TypeError'),
 ('H01', 'update_matrix_formats() for', 'update_matrix_formats/static_fmt/dynamic_fmt: dynamic formats raised NameError, the dict form was ignored, is_dense went stale'),
 ('H02', 'left numpy.matrix objects', 'operators from dense+sparse arithmetic held numpy.matrix parts; dot() of a vector raised'),
 ('H02', 'multiplied element by element', 'H1*H2 of two dense static hamiltonians was the element-wise product'),
 ('H02', 'multiplied the dynamic parts from the left', 'H *= sparse and project_to(sparse) multiplied dynamic parts from the left'),
 ('H02', 'reflected product', '__rmul__ of two driven hamiltonians returned self*other and cast to the dtype of self'),
 ('H02', 'used an undefined name', 'in-place -= of hamiltonians and +=/-= of dense matrices raised NameError'),
 ('H02', 'shared dynamic matrices', 'A+B shared the dynamic matrices of B: C=A+B; C*=2 changed B'),
 ('H02', 'marked the sparse operand', 'A + dense marked A itself as dense'),
 ('H02', 'kept the number of states', 'project_to(P) of rectangular P kept Ns: evolve and expt_value of the result misbehaved'),
 ('H02', 'hamiltonian returned None', 'numpy.ndarray + hamiltonian returned None')]
L3 = '''default parameters of one quantum_operator call|dot(v, pars) added the defaults to a shared dictionary: later calls on other objects raised or used stale parameters
quantum_operator.dot failed for sparse|dot of a sparse matrix raised
dropped couplings below machine|terms with |J| below 2.2e-16 were dropped
quantum_operator.rdot failed|rdot raised unless an output array was given
quantum_operator.quant_fluct failed for density|quant_fluct of a density matrix raised
todense did not fill the output|toarray(out=)/todense(out=) added to the old content or returned another array
quantum_operator modified the matrices|constructor wrote into the user's matrices and dropped operator strings given with matrices under the same key
negating a quantum_operator|-Q changed Q itself
quantum_operator arithmetic with python|Q*2 etc. raised, in-place sums shared matrices
quantum_operator sums mixing|numpy.matrix parts after dense+sparse sums: dot raised
quantum_operator.quant_fluct failed for a single|quant_fluct(v) raised for a vector
quantum_operator.dot of a sparse matrix failed for operators stored dense|dot(sparse) with dense storage raised'''
L4 = '''exp_op.H, exp_op.T|exp_op.H/T/conj()/sandwich() modified the object
exp_op.sandwich without a grid|sandwich conjugated the wrong factor and ignored shift
swapped the grid and its step|dot/rdot of a hamiltonian on a grid used step as grid
left it with routines|dot of a hamiltonian produced an operator whose dot used the old format
set_iterate accepted|set_iterate(True) without a grid was accepted
set_grid rejected|set_grid(start, stop) raised
exp_op.get_mat failed|get_mat of sparse generators raised
exp_op.dot with shift|dot(v, shift=) of dense generators raised'''
L5 = '''left multiplication of a quantum_LinearOperator|T/conj/H/rmatvec/left products modified the operator
swapped transposition and conj|transposed and conjugated flags were swapped, diagonal not conjugated
scalar multiples of a quantum_Linear|2*A was None, the scale was never applied
quantum_LinearOperator.dot failed with an|dot(out=) raised or was wrong
quantum_LinearOperator.dot failed for sparse|dot(sparse) raised
quantum_LinearOperator.quant_fluct used|quant_fluct raised NameError
quantum_LinearOperator.copy failed|copy() raised
used an undefined attribute|products with a hamiltonian raised AttributeError
added its diagonal operators|diagonal operator strings were added into the user's diagonal array'''
FIXED += [(q,) + tuple(x.split('|', 1)) for q, l in (('H03', L3), ('H04', L4), ('H05', L5)) for x in l.split('\n')]
KNOWN = []
try:
    from known import KNOWN, FIXED2
    FIXED += FIXED2
except ImportError: pass
out = []
for p, key, what in FIXED:
    h = [a for a, b in log if key in b]
    if len(h) > 1: h = [a for a, b in log if key in b and (b.endswith(key) or len(b) == min(len(c) for _, c in log if key in c))]
    assert len(h) == 1, (key, h)
    out.append(dict(status='fixed', property=p, commit=h[0], what=what, line='fixed: property=%s %s %s' % (p, h[0], what)))
out += [dict(status='known', **k) for k in KNOWN]
json.dump(out, open('/verif/known_findings.json', 'w'), indent=1)
print(len(out))

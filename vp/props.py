"""Single source of the property texts: properties.jsonl, MANIFEST.json and the evidence explanations are generated from here (python3 gen.py)."""
P = {}
GBS = 'quspin/basis/basis_general/_basis_general_core/source/'
LLVM = ('The C++ the library is built from is compiled this run to LLVM IR and executed symbolically (vp/sx.py): inputs are bit-vector or real '
        'variables, every branch/assertion is decided by z3; a counterexample is replayed in a native build of the same sources before it is reported. ')
A_LLVM = ['clang-18 -O1 IR has the same meaning as the code the extension modules are built from (same headers, same templates)',
          'vp/sx.py interprets the IR correctly (checked against native replays; every counterexample is replayed before it is reported)',
          'single-threaded build (the extension is built without OpenMP)']
A_REAL = ['floating-point additions/multiplications on symbolic matrix elements or amplitudes are treated as exact real arithmetic; concrete constants use IEEE doubles; comparisons use tolerance 1e-9 or wider']


def prop(id, title, statement, over, text, why, files, mech, expl='', assume=(), bounds='', technique='', observe=(), note=''):
    P[id] = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                 anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=list(observe)),
                 expl=expl, assume=list(assume), bounds=bounds, technique=technique or 'symbolic execution of LLVM IR compiled from the C++ sources, z3 decides each assertion', note=note)


prop('C01', 'General bases: local operators act with the textbook matrix elements',
     'For every basis state, site list and operator string, the single-state operator action of the general bases (hard-core boson/spin-1/2, spinless and spinful fermion, boson, higher spin) yields exactly the state and matrix element of the ordered product of single-site operators, including fermion exchange signs, bosonic square roots, spin ladder factors and truncation at the local Hilbert-space edge. '
     'An annihilated state gives a zero matrix element and an unknown operator character is reported as an error.',
     ['inputs'], 'every state of the lattice, every choice of sites (repeated sites included) and every operator string up to the stated length',
     'tests compare a few Hamiltonians on tiny lattices against the 1D classes; high bits, long strings, repeated sites and rarely used operator letters are not sampled',
     [GBS + 'hcb_basis_core.h', GBS + 'spinless_fermion_basis_core.h', GBS + 'spinful_fermion_basis_core.h', GBS + 'boson_basis_core.h', GBS + 'higher_spin_basis_core.h'],
     [('op() of each basis core', GBS + '*_basis_core.h')],
     LLVM + 'Each core\'s op() is compared with an independent site-by-site oracle for symbolic state, symbolic sites and symbolic operator characters.',
     A_LLVM + A_REAL, 'hcb/fermion: 32 and 64 sites, strings of 2-3 operators; boson: 3 sites, sps 3-4, strings of 2-3; higher spin: 3 sites, sps 3-4, strings of 2; longer strings and larger sps outside the bounds',
     observe=['matrix elements returned by Op() of a general basis'])
prop('C02', 'General bases: symmetry maps move occupations and signs exactly as declared',
     'For the general-lattice bases (spin_basis_general, boson_basis_general, spinless_fermion_basis_general, spinful_fermion_basis_general and user-defined maps), applying a symmetry given as a site map moves the occupation of each site to its image, inverts the local occupation (empty<->full, particle-hole or spin flip) exactly on the sites marked as inverted, and for fermions multiplies by the sign of reordering the creation operators. '
     'Applying it to an array of states gives the same result as applying it to each of them.',
     ['inputs', 'configurations'], 'every state; site maps: shifts, reflections, transpositions, seeded random permutations, with and without inversions',
     'the permutation network is precomputed bit trickery; tests only use shifts/reflections on a few states of small lattices',
     [GBS + 'benes_perm.h', GBS + 'hcb_basis_core.h', GBS + 'spinless_fermion_basis_core.h', GBS + 'spinful_fermion_basis_core.h', GBS + 'boson_basis_core.h', GBS + 'higher_spin_basis_core.h'],
     [('map_state (scalar and array forms)', GBS + '*_basis_core.h'), ('gen_benes / benes_bwd', GBS + 'benes_perm.h')],
     LLVM + 'map_state is compared with a site-by-site oracle on a fully symbolic state.', A_LLVM,
     'hcb: 3, 6, 32, 37, 64 sites, 10 maps each; fermions: 4-9 sites, covariance with every creation operator; boson/higher spin: 3-4 sites, sps 3-5')
prop('C03', 'General bases: representatives and norms of symmetry orbits are exact',
     'For the general-lattice bases (spin_basis_general, boson_basis_general, spinless_fermion_basis_general, spinful_fermion_basis_general and user-defined maps), for every state and symmetry group, the reported representative is the same for all states of one orbit and belongs to it, the reported group element and sign carry the state to the representative, and the reported norm is the sum of the symmetry characters over the stabiliser of the state (zero exactly when the sector contains no such state). '
     'Array interfaces (representatives, normalisations) agree with this and refuse a norm their integer type cannot hold.',
     ['inputs', 'configurations'], 'every state, every sector of the group, groups built from translations, reflections, inversions, sublattice inversion, 2D translations, spin exchange',
     'tests exercise a few sectors through eigenvalues only; states with non-trivial stabilisers and sign-frustrated fermion orbits are the rare ones',
     [GBS + 'general_basis_core.h', GBS + 'general_basis_rep.h'], [('ref_state, check_state', GBS + 'general_basis_core.h'), ('general_representative, general_normalization', GBS + 'general_basis_rep.h')],
     LLVM + 'Orbit maximum, group element, sign and stabiliser character sum are recomputed by an oracle from the map definition for a symbolic state and symbolic sector numbers.',
     A_LLVM + A_REAL, 'hcb up to 10 sites with full groups (order up to 24) and 32-64 sites with groups of order 4-8; fermions 5-6 sites; boson/higher spin 3-4 sites sps 3-4')
prop('C04', 'General bases: particle sectors and reduced bases list exactly the right states',
     'For the general-lattice bases (spin_basis_general, boson_basis_general, spinless_fermion_basis_general, spinful_fermion_basis_general and user-defined maps), the number of particles (per species) of every state is counted correctly, stepping through a particle-number sector visits its states in increasing order without skipping any, and the constructed basis contains, in descending order and each once with its norm, exactly those states of the sector that are kept by the symmetry reduction. '
     'The construction never writes past the memory it was given and reports when that memory is too small.',
     ['inputs', 'configurations'], 'every state / candidate sequence / norm pattern / memory size within the bounds, every symmetry sector of the listed groups',
     'tests only build complete bases of small chains; a skipped or duplicated state at one place of the enumeration shows up only in particular sectors',
     [GBS + 'make_general_basis.h', GBS + 'hcb_basis_core.h', GBS + 'spinful_fermion_basis_core.h', GBS + 'boson_basis_core.h', GBS + 'misc.h'],
     [('next_state_pcon', GBS + '*_basis_core.h'), ('count_particles', GBS + '*_basis_core.h'), ('make_basis, make_basis_pcon', GBS + 'make_general_basis.h')],
     LLVM, A_LLVM, 'counting: up to 64 sites; successor: 8-10 sites (hcb/fermion), 4 sites sps 3-4; collection: arbitrary norm patterns of up to 4 candidates and every memory size; whole sectors of 3-6 sites with symbolic sector numbers')
prop('C05', 'General bases: operator matrices in a symmetry sector are the projected operator',
     'For the general-lattice bases (spin_basis_general, boson_basis_general, spinless_fermion_basis_general, spinful_fermion_basis_general and user-defined maps), for every symmetry sector and every operator, the matrix elements returned between symmetry-reduced basis states equal those of the operator projected onto the sector, with the correct normalisation, phase and sign, and images outside the basis give no entry. '
     'Applying the operator directly to a vector, with or without conjugation or transposition, gives the same as using that matrix, and a non-zero imaginary part is reported when a real matrix was requested.',
     ['inputs', 'configurations'], 'every target state an operator may produce, every sector of the listed groups, every matrix element value within the bounds',
     'tests check spectra of a few Hamiltonians, which are invariant under many phase errors and do not reach most orbits',
     [GBS + 'general_basis_op.h', GBS + 'general_basis_core.h'], [('general_op, general_inplace_op', GBS + 'general_basis_op.h')],
     LLVM + 'The single-state operator action is replaced by an arbitrary symbolic target state, so the result covers every operator; the expected element is the direct sum over the group.',
     A_LLVM + A_REAL, 'groups of order 2-8 on 3-6 sites; hcb, spinless/spinful fermion and boson cores; columns 0 and 1 of each sector; one operator string per call')
prop('C06', 'General bases: projecting between a sector and the full space is exact',
     'For the general-lattice bases (spin_basis_general, boson_basis_general, spinless_fermion_basis_general, spinful_fermion_basis_general and user-defined maps), expanding a vector of the symmetry-reduced basis into the full (or particle-conserving) space gives for every vector the normalised superposition with the right phases and signs, and the map back is its adjoint. '
     'Expanding and mapping back returns the original vector.',
     ['inputs', 'configurations'], 'every vector (real and complex amplitudes, several columns), every listed group and sector',
     'tests project a handful of random vectors in sectors whose phases are real',
     [GBS + 'general_basis_get_vec.h', 'quspin/basis/basis_general/base_general.py'], [('project_from_general_dense, project_to_general_dense and pcon forms', GBS + 'general_basis_get_vec.h')],
     LLVM + 'Amplitudes are symbolic reals, so each assertion is a linear-arithmetic validity over all vectors.', A_LLVM + A_REAL,
     '3-6 sites, 10 groups, all sectors, hcb/spinless/spinful/boson/higher-spin, 1-2 columns')
prop('C07', 'General bases: looking up a state in the basis returns its position or none',
     'For the general-lattice bases (spin_basis_general, boson_basis_general, spinless_fermion_basis_general, spinful_fermion_basis_general and user-defined maps), for every stored list of basis states in descending order and every state, the lookup used in operator construction and projection returns the index of the state when it is stored and "not in the basis" otherwise, with and without the prefix-block acceleration. '
     'The block bounds built from the list partition it exactly.',
     ['inputs'], 'every strictly descending list and every queried state within the bounds',
     'an off-by-one in a block bound is visible only for a state at the edge of a block; tests use the default block size on a few bases',
     [GBS + 'misc.h', GBS + 'make_general_basis.h', GBS + 'general_basis_op.h'], [('rep_position', GBS + 'misc.h'), ('general_make_basis_blocks', GBS + 'make_general_basis.h'), ('get_prefix', GBS + '*_basis_core.h'), ('get_index', GBS + 'general_basis_op.h')],
     LLVM + 'The stored states and the queried state are symbolic.', A_LLVM, 'lists of 0-5 states; 5-32 sites; prefixes of 1-3 sites; hcb, fermion, boson, higher-spin cores')
prop('C08', 'General bases: bra-ket and sector-shifting actions use the right phases',
     'For the general-lattice bases (spin_basis_general, boson_basis_general, spinless_fermion_basis_general, spinful_fermion_basis_general and user-defined maps), given arbitrary ket representatives, the on-the-fly operator action returns the representative of the image state and the matrix element projected on the symmetry sector (zero when the image is not in the sector or the particle number is not allowed). '
     'Applying an operator that shifts between two symmetry sectors to a vector equals the matrix between the two reduced bases, including phases and norms of both.',
     ['inputs', 'configurations'], 'every target state, every sector (pair) of the listed groups',
     'tests cover zero-momentum-like sectors and spectra; phases of states returning into their own orbit or of diagonal elements are not sampled',
     [GBS + 'general_basis_op.h'], [('general_op_bra_ket, general_op_bra_ket_pcon, general_op_shift_sectors', GBS + 'general_basis_op.h')],
     LLVM, A_LLVM + A_REAL, 'groups of order 2-8 on 3-6 sites; hcb and spinless fermion cores; one ket column symbolic per run')
prop('C09', 'General bases: amplitudes of single states in a sector are exact',
     'For the general-lattice bases (spin_basis_general, boson_basis_general, spinless_fermion_basis_general, spinful_fermion_basis_general and user-defined maps), the amplitude factor reported for any state, in both the representative-to-full and the full-to-representative directions, equals the overlap of the state with the normalised symmetry-reduced basis state, including phase and sign. '
     'It is zero exactly when the state is not contained in the sector.',
     ['inputs', 'configurations'], 'every state and amplitude, every sector of the listed groups',
     'the existing tests compare a few states per model', [GBS + 'general_basis_get_amp.h'], [('get_amp_general, get_amp_general_light', GBS + 'general_basis_get_amp.h')],
     LLVM, A_LLVM + A_REAL, '2-6 sites, groups of order 2-8, hcb/spinless/spinful/boson cores')
prop('C10', 'Basis integers wider than 64 bits behave like one long bit string',
     'For the general-lattice bases with more than 64 sites, whose states are stored in multi-word integers, and/or/xor/not, shifts, comparison and bit counting agree with the same operation on the individual bits, across every word boundary. '
     'Operator actions and symmetry maps on such states give the same result as on the bit string.',
     ['inputs'], 'every pair of 2-4 word integers for the bit operations; operators on sites next to word boundaries; maps on all listed families',
     'lattices above 64 sites are barely tested because full bases cannot be enumerated; a carry or boundary error needs particular bits',
     [GBS + 'general_basis_bitops.h', GBS + 'bits_info.h', GBS + 'misc.h', GBS + 'hcb_basis_core.h', GBS + 'spinless_fermion_basis_core.h'],
     [('bitwise ops', GBS + 'general_basis_bitops.h'), ('bit_count', GBS + 'bits_info.h')], LLVM, A_LLVM,
     '256-bit integers with 2-4 words in use; fermion signs and non-trivial maps: 7-10 symbolic bits over fixed backgrounds at several positions; 1024-16384 bit types share the templates and are outside the bounds')

D1 = 'quspin/basis/basis_1d/_basis_1d_core/sources/'
CYT = ('The Cython sources of the 1D bases are translated this run (vp/cyth.py: fused types reduced to one type, Python-level defs dropped, numpy constants replaced by the C ones), compiled to LLVM IR and executed symbolically (vp/sx.py); z3 decides every assertion; '
       'a counterexample is replayed in a native build before it is reported. ')
A_CYT = ['Cython 0.29.37 (the version the build uses) and clang-18 -O1 preserve the meaning of the .pyx sources', 'vp/sx.py interprets the IR correctly (every counterexample is replayed natively)', 'the symmetry-sector tables come from vp/oracle1d.py: basis vectors written out as sums over the group on occupation lists']
prop('D01', '1D bases: operator strings act with the textbook matrix elements',
     'For the one-dimensional bases (spin_basis_1d, boson_basis_1d, spinless_fermion_basis_1d, spinful_fermion_basis_1d), the compiled action of an operator string on a product state yields exactly the state and matrix element of the ordered product of single-site operators times the coupling: fermion exchange signs (counting occupied orbitals of both species), bosonic square roots, spin ladder factors and truncation at the local Hilbert-space edge. '
     'An unknown operator character is reported as an error.',
     ['inputs'], 'every state, every choice of sites (repeats included), every operator string of the stated length, complex coupling, 32- and 64-bit state integers',
     'tests compare energies of small chains; fermion signs far from site 0, chains that fill the state integer and rarely used letters are not sampled',
     [D1 + 'hcp_ops.pyx', D1 + 'boson_ops.pyx', D1 + 'spf_ops.pyx', D1 + 'hcp_bitops.pyx', D1 + 'bitcount.h'], [('op_func', D1 + '*_ops.pyx')],
     CYT + 'op_func of each core is compared with a site-by-site oracle for symbolic state, sites and operator characters.', A_CYT + A_REAL,
     'hard-core/spinless fermion chains of 10, 32, 64 sites, two species 5, 16, 32 sites, strings of 2; bosons and spins: 3 sites sps 3-4 strings of 2, 24 (40) sites with two symbolic digits, strings of 1; longer strings outside')
prop('D02', '1D bases: translation, reflection, inversion, and next state at fixed number',
     'For every product state of a one-dimensional chain, the compiled translation moves the occupation of site i to site i+a, reflection to site L-1-i, inversion (zblock and its sublattice versions, or species exchange for two fermion species) inverts or exchanges exactly the intended occupations, and for fermions each of them multiplies the sign by the parity of reordering the creation operators; translating back undoes a translation. '
     'The successor function that enumerates states of fixed particle number (of each species) returns the next larger state with the same particle numbers, skipping none.',
     ['inputs'], 'every state of the chain (or every choice of some bits of it on wide chains), lengths up to the full width of the state integer',
     'tests use small chains only; chains of exactly 32 or 64 sites and large numbers of fermions exercise different bits',
     [D1 + 'hcp_bitops.pyx', D1 + 'boson_bitops.pyx', D1 + 'spf_bitops.pyx', D1 + 'hcp_next_state.pyx', D1 + 'boson_next_state.pyx', D1 + 'spf_next_state.pyx', D1 + 'bitcount.h'],
     [('shift/fliplr/flip_all', D1 + '*_bitops.pyx'), ('next_state_pcon', D1 + '*_next_state.pyx')], CYT, A_CYT,
     'translations: 10-64 sites all states (fermion signs included); reflections, species exchange, successors: all choices of 7 bits over a fixed background on 10-64 sites, bosons 3-4 sites all states, 20 and 24 sites with two symbolic digits')
prop('D03', '1D bases: every symmetry sector contains exactly the right states',
     'For every combination of kblock, pblock, zblock, pzblock, zAblock, zBblock supported by the one-dimensional bases, constructing the basis keeps a state exactly when it is the largest state of its symmetry orbit and its orbit has a component in the requested sector (twice, with opposite sigma, where a semi-momentum state requires two copies); the constructed list is complete, in descending order and free of duplicates, with or without fixed particle number.',
     ['inputs', 'configurations'], 'every state offered to the construction, every quantum number of the sector type, unit cells a=1,2,3',
     'tests check that spectra of the sectors combine to the full spectrum on a few chains; a wrong rule for a special orbit shows up only for particular L, k, a',
     [D1 + 'basis_templates.pyx', D1 + 'checkstate.pyx'], [('make_*_basis_template', D1 + 'basis_templates.pyx'), ('CheckState_*', D1 + 'checkstate.pyx')],
     CYT + 'The construction is run on an arbitrary single state (membership) and over the complete state range (order, completeness).', A_CYT,
     'spin-1/2 and spinless-fermion chains of 4-6 sites, two species 2-3 (4 with fixed numbers), bosons 3-4 sites with sps 3; 15 sector types, all quantum numbers; longer chains outside')
prop('D04', '1D bases: sector matrix elements are those of the projected operator',
     'For every symmetry sector of the one-dimensional bases (kblock, pblock, zblock, pzblock, zAblock, zBblock and their combinations), whatever product state an operator string maps a representative to, the matrix elements written to (row, col, ME) are exactly those of the sector-projected operator between the normalised symmetry-adapted states, including phases, semi-momentum (cos/sin) pairs, normalisation ratios and fermion signs; targets outside the sector contribute nothing.',
     ['inputs', 'configurations'], 'every target state an operator can produce, sampled source columns, every quantum number of the sector type',
     'tests compare spectra; an error confined to targets with a particular orbit, sign or group element survives them',
     [D1 + 'op_templates.pyx', D1 + 'refstate.pyx'], [('*_op_template', D1 + 'op_templates.pyx'), ('RefState_*', D1 + 'refstate.pyx')],
     CYT + 'The operator action is replaced by one that maps a chosen source state to an arbitrary (symbolic) target state; the resulting column is compared with the projector written out over the group.', A_CYT + A_REAL,
     'spin-1/2 and spinless fermions 4 sites (all sector types, all k), 6 sites (a=1,2,3; selected sectors), two species 2-3 sites (4 with N=(2,2)), bosons 3 sites sps 3; one to two source columns per sector')

prop('M01', 'Sparse matrix-vector products are exact for every layout and type',
     'For every sparse matrix in csr, csc or dia storage (duplicate entries included), every scalar and every input, the compiled products behind matvec()/get_matvec_function() and operator.dot store y = a*A*x when overwriting and y + a*A*x when accumulating, for one or several vectors, for every combination of matrix and vector data types and index types the dispatcher accepts and for every memory layout (strides) of the input and output arrays; no element outside the output is written.',
     ['inputs', 'configurations'], 'every matrix structure and values within the size bounds, all accepted type combinations, a set of strides covering C, Fortran, sliced and reversed layouts',
     'tests use contiguous vectors and a few dtypes; row/column-major and sliced outputs take different code paths',
     ['quspin/tools/matvec/_oputils/csr.h', 'quspin/tools/matvec/_oputils/csc.h', 'quspin/tools/matvec/_oputils/dia.h', 'quspin/tools/matvec/_oputils/oputils_impl.h', 'quspin/tools/matvec/_oputils/complex_ops.h'],
     [('csr/csc/dia_matvec(s)_gil/_nogil', 'quspin/tools/matvec/_oputils/oputils_impl.h'), ('get_switch_num', 'quspin/tools/matvec/_oputils/oputils_impl.h')],
     LLVM + 'Row pointers, indices, diagonal offsets, matrix values, vectors and the scalar are all symbolic; equality is decided as an identity of real polynomials.', A_LLVM[1:] + ['single-threaded build (without OpenMP), as in this environment'] + A_REAL,
     'matrices up to 3x3 with up to 3 stored entries (2 diagonals), 1-2 vectors; threaded (OpenMP) variants outside', note='')


OPS = 'quspin/operators/'
PYL = ('The real Python functions are executed by their own interpreter on symbolic numbers (vp/pysym.py): every matrix element, drive value, vector component and parameter is a real variable, every branch on such a value is explored, '
       'and z3 decides each comparison for all values at once; a counterexample is replayed on the unmodified code with plain numpy/scipy before it is reported. ')
A_PY = ['the stand-ins for numpy/scipy.sparse in vp/pymodel.py behave like the real libraries (every harness is also run unpatched on the real libraries at several points and must agree)',
        'the compiled matrix-vector products do what M01 states', 'floating-point arithmetic is treated as exact; a matrix counts as vanishing only when it is exactly zero']
PT = 'symbolic execution of the Python sources on polynomial values, z3 (linear and nonlinear real arithmetic) decides each assertion'
prop('H01', 'hamiltonian: matrix, action on states and observables agree at all times',
     'For every hamiltonian built from matrices with arbitrary drive functions and for every time, toarray/todense/tocsr/tocsc, diagonal, trace, indexing and calling all give static + sum_k f_k(t) M_k whatever storage format (dense, csr, csc, dia) the parts use, and changing the format does not change the operator. '
     'dot and rdot (one or several states, one or many times, output arrays, prefactors), expt_value, quant_fluct and matrix_ele (pure, several pure, mixed, sparse states) give the values of that matrix, and the right-hand sides handed to the integrator by evolve are -iH psi, -H psi and -i[H,rho].',
     ['inputs', 'configurations'], 'all matrix entries, drive values, states; all storage-format combinations',
     'tests use a few fixed Hamiltonians, mostly csr and real; wrong conjugation, transposition or prefactors in a rarely used combination of format, number of states and times survives',
     [OPS + 'hamiltonian_core.py', OPS + '_functions.py', OPS + '_make_hamiltonian.py'], [('hamiltonian', OPS + 'hamiltonian_core.py')],
     PYL, A_PY, '2x2 operators with up to 5 drive terms, states 2 x 1..3, up to 3 times', technique=PT)
prop('H02', 'hamiltonian: arithmetic returns the named operator, operands unchanged',
     'For all pairs of hamiltonians (static, driven, with common drive functions, dense or sparse), sums, differences, products, reflected and in-place versions, powers, commutators, scalar multiples, transposition, conjugation, projections and mixed operations with dense, sparse and numpy.matrix operands return at every time exactly the operator they name. '
     'No operand other than the target of an in-place operation changes, neither immediately nor when the result is modified later.',
     ['inputs', 'configurations', 'histories'], 'all matrix entries and drive values; all kind and storage combinations; products that vanish exactly included',
     'tests exercise a subset of operand combinations with equal static parts; aliasing and ordering errors need a later in-place operation or non-commuting driven parts',
     [OPS + 'hamiltonian_core.py', OPS + '_functions.py'], [('_add/_sub/_mul/_rmul/_imul_*', OPS + 'hamiltonian_core.py'), ('mul_function, pow_function, conjugate_function', OPS + '_functions.py')],
     PYL, A_PY, '2x2 operators with one static and one drive term each, projectors 2x1..2x3; longer operator expressions outside', technique=PT)
prop('H03', 'quantum_operator: the parameter-weighted sum, in every form and operation',
     'For every quantum_operator built from matrices under several keys and for every choice of parameters (missing ones count as 1), toarray/todense/tocsr/tocsc, calling, diagonal, trace, tohamiltonian and aslinearoperator all give sum_k J_k M_k whatever storage format each key uses, and dot, rdot (output arrays and prefactors included), expt_value, quant_fluct and matrix_ele give the values of that matrix. '
     'Sums, differences, negation, scalar multiples, transposition, conjugation and copies return exactly the operator they name. '
     'Neither the operands, the caller\'s parameters and matrices, nor other quantum_operator objects change, immediately or when a result is modified later.',
     ['inputs', 'configurations', 'histories'], 'all matrix entries, parameters and states; all storage-format combinations; each call after any other of the listed calls',
     'tests build a few operators with csr storage; state leaking between calls and objects, dropped small couplings and rare storage formats are not sampled',
     [OPS + 'quantum_operator_core.py'], [('quantum_operator', OPS + 'quantum_operator_core.py')], PYL, A_PY, '2x2 operators with 1-3 keys, states 2 x 1..3', technique=PT)
prop('H04', 'exp_op: exponentials act from the left, the right and both sides',
     'For every exp_op of an operator O with factor a, dot gives exp(a O)X, rdot gives X exp(a O) and sandwich gives exp(a O)^dagger X exp(a O) for vectors, several vectors, matrices, sparse matrices and hamiltonians, with and without a time grid (iterated or stacked), with and without a shift; get_mat returns the exponential. '
     'Transposition, conjugation, adjoint, set_a and set_grid give the exponential they name and leave the exp_op they were called on unchanged.',
     ['inputs', 'configurations'], 'all nilpotent (strictly triangular) 3x3 generators, all factors, shifts and operands; dense and sparse generators',
     'tests use a few Hamiltonians on a fixed grid; conjugation or ordering errors cancel for hermitian operands',
     [OPS + 'exp_op_core.py'], [('exp_op', OPS + 'exp_op_core.py')], PYL + 'Generators are nilpotent plus a multiple of the identity, so that exponentials are exact polynomials; scipy\'s expm and expm_multiply are replaced by them. ', A_PY,
     '3x3 nilpotent generators, grids of up to 3 points; non-nilpotent generators outside (their exponential is computed by scipy)', technique=PT)
prop('H05', 'quantum_LinearOperator: acts as the sum of its operator strings',
     'For every quantum_LinearOperator built from operator strings (diagonal, off-diagonal, repeated) with complex couplings and an optional extra diagonal, dot, matvec, rmatvec, matmat, products from the left, sparse operands, products with hamiltonians and other LinearOperators, expt_value, quant_fluct and matrix_ele give the values of the matrix sum_k J_k O_k (+ diagonal). '
     'T, conj, H, negation, scalar multiples and copies (and their combinations) represent the named operator, and neither the original operator nor the arrays it was made from change.',
     ['inputs', 'configurations', 'histories'], 'all matrix elements of the operator strings, all vectors; all combinations of two views',
     'tests only compare dot products of hermitian real operators, which are invariant under transposition and conjugation',
     [OPS + 'quantum_LinearOperator_core.py', 'quspin/basis/base.py'], [('quantum_LinearOperator', OPS + 'quantum_LinearOperator_core.py'), ('_inplace_Op', 'quspin/basis/base.py')],
     PYL + 'The basis is a stand-in whose operators have arbitrary matrix elements; basis._inplace_Op is the real default implementation. ', A_PY, '2x2 operators, up to 3 operator strings with fixed complex couplings', technique=PT)

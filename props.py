"""Single source of the property list.  `python3 props.py` rewrites properties.jsonl and MANIFEST.json."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
P = []


def prop(id, title, statement, text, why, files, mech, over=('inputs',), state=None):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if state:
        a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': list(over), 'text': text}, 'why_tests_cant': why, 'anchors': a})


FM, FT, IM, SP, TE, HA, PE, FP, TD = ('xmps/fMPS.py', 'xmps/fTDVP.py', 'xmps/iMPS.py', 'xmps/spin.py', 'xmps/tensor.py',
                                      'xmps/Hamiltonians.py', 'xmps/fPEPS.py', 'xmps/fPEPS.py', 'xmps/fMPS.py')

prop('C01', 'Orthogonalisation sweeps keep the state and make isometries',
     'Sweeping a finite matrix product state to the left, to the right or towards any centre leaves the represented state vector unchanged '
     'up to the scalar recorded as its norm. Every site the sweep has passed is an isometry (a left one before the centre, a right one after it), '
     'a full sweep leaves a unit-norm state, and a sweep restricted to a range of sites does not touch the sites outside it and its end.',
     'every chain length, local dimension, bond profile and complex or real tensor content with non-zero state; every centre and every range; rank-deficient and scaled inputs included',
     'the tests check a handful of random full-rank standard-bond chains; irregular bonds, deficient ranks, partial ranges and repeated sweeps are not sampled',
     [FM, TE], [('left sweep', FM+': fMPS.left_orthogonalise'), ('right sweep', FM+': fMPS.right_orthogonalise'),
                ('mixed sweep', FM+': fMPS.mixed_orthogonalise'), ('QR reshapes', TE+': uqr, urq')])
prop('C02', 'Canonicalisation yields canonical form with Schmidt spectra, losslessly',
     'Bringing a finite matrix product state to left, right or mixed canonical form without a bond limit preserves its ray and yields unit norm. '
     'Left form makes every site a left isometry whose right environments are the recorded diagonal spectra, right form is the mirror image, and the mixed form has left isometries before and right isometries after a centre of norm one '
     '(on bond directions of non-zero weight when the state is rank deficient). '
     'The recorded spectra are, bond by bond and in descending order, the squared Schmidt coefficients of the normalised state.',
     'every non-zero chain of any length, local dimension, bond profile and spectrum, including degenerate and rank-deficient ones, and every sequence of canonicalisations',
     'tests look at full-rank random chains with non-degenerate spectra; degenerate spectra and sequences decide which factors end up where and are not covered',
     [FM, TE], [('canonicalisers', FM+': fMPS.left_canonicalise, right_canonicalise, mixed_canonicalise'),
                ('environment diagonalisation', TE+': diagonalise')])
prop('C03', 'Truncation respects the bond limit and keeps the dominant weight',
     'Canonicalising with a bond limit, or building a state with one, leaves no bond larger than the limit and a unit-norm state in the requested canonical form. '
     'From a state whose orthogonality centre is where the sweep starts, the fidelity with the original is at least one minus the sum of the discarded squared Schmidt coefficients, and a limit at or above every bond is lossless. '
     'Expanding the bond dimension keeps the state and gives the standard bond profile at the new limit.',
     'every chain, every limit at least one, every direction and centre',
     'tests truncate a few random states and look at bond sizes only',
     [FM, TE], [('truncating sweeps', FM+': fMPS.left_canonicalise, right_canonicalise, mixed_canonicalise'),
                ('limit at construction', FM+': fMPS.__init__'), ('cutting a bond', TE+': truncate_A, truncate_B'), ('expansion', FM+': fMPS.expand')])
prop('C04', 'Converting between state vectors and matrix product states is faithful',
     'Decomposing any non-zero state tensor from the left or from the right gives a matrix product state of the same length and local dimension, in the corresponding canonical form, whose recombination is the normalised tensor up to a phase. '
     'Recombining any matrix product state gives exactly the amplitudes that are the products of its matrices, one index per site.',
     'every state tensor (random, product, cat, basis, low rank, real or complex, any norm) of any length and local dimension, and every chain',
     'tests decompose a few random states; degenerate and rank-deficient vectors are not sampled',
     [FM], [('decomposition', FM+': fMPS.left_from_state, right_from_state'), ('recombination', FM+': fMPS.recombine')])
prop('C05', 'Overlaps and norms equal the inner products of the state vectors',
     'The overlap of two finite matrix product states is the inner product of their state vectors, conjugate-linear in the argument, whatever the gauges and bond dimensions of the two; the norm is the squared length. '
     'Product-state construction, product-state overlap, full overlap and site-local overlap agree with the corresponding inner products and reduced-density-matrix traces of the dense vectors.',
     'all pairs of chains of equal length and local dimension, any gauge, bond profile, scale and history',
     'tests use equal-bond canonical random states, for which mistakes in conjugation, order or gauge cancel',
     [FM], [('overlap and norm', FM+': fMPS.overlap, norm'), ('product states', FM+': fMPS.from_product_state, from_product_states, product_state_overlap'),
            ('full and local overlap', FM+': fMPS.full_overlap, local_overlap')])
prop('C06', 'Expectation values and reduced density matrices match the state vector',
     'Single-site, several-observable, contiguous multi-site and environment-based expectation values of a finite matrix product state are those of its normalised state vector for every Hermitian operator, at any site and in any gauge (the real part for a general one). '
     'Reduced density matrices of contiguous sites are Hermitian, positive, of unit trace and equal to the partial trace of the state vector, and state projections equal the contraction with the conjugated state.',
     'every chain, gauge, site (edges included) and operator, with complex entries, before and after any canonicalisation',
     'tests use the real symmetric or Pauli operators on canonical states; a transposed operator or a missed conjugate is invisible there',
     [FM], [('single site', FM+': fMPS.E, E_, Es'), ('several sites', FM+': fMPS.E_k, rho, rho_proj'), ('environment based', FM+': fMPS.E_L')])
prop('C07', 'Applying operators and projectors acts exactly as on the state vector',
     'Applying a single-site operator, or an adjacent or (for qubits) long-range two-site operator, to a finite matrix product state gives the state vector the dense operator gives, with the site pair taken in increasing order and every other site kept in place; with a bond limit the cut on an adjacent pair is the optimal renormalised one. '
     'Post-selecting a site on a basis state removes that site and leaves the corresponding slice of the state vector, and grouping or separating neighbouring tensors are inverse.',
     'every chain, every unitary or non-unitary operator, every site or pair of sites, both splitting directions, every history before it',
     'tests apply Pauli gates at a few sites; general complex operators, distant pairs and prior canonicalisation states are not sampled',
     [FM], [('single-site operator', FM+': fMPS.apply'), ('two-site operator', FM+': fMPS.apply_two_site'), ('projection', FM+': fMPS.project')])
prop('C08', 'State arithmetic is linear algebra on the state vectors',
     'Adding finite matrix product states as vectors and multiplying one by a scalar give the sum and the multiple of their state vectors, the scalar applied exactly once whatever the gauge; appending and extending give tensor products. '
     'The elementwise operators act tensor by tensor, and the operands are left as they were.',
     'all pairs of chains of equal length and local dimension, bonds equal or not, any complex scalar',
     'tests add two small random states',
     [FM], [('arithmetic', FM+': fMPS.add, subtract, mul, __add__, __sub__, __mul__')])
prop('C09', 'Storage, serialisation and structure queries round-trip',
     'Serialising a finite matrix product state to a flat real or complex vector and back, storing and loading it, and copying it reproduce every tensor exactly. '
     'Structure queries report the true shapes, and random states have the requested length, local dimension and bond profile.',
     'every chain, every bond profile, real and complex form, with and without the structure given explicitly',
     'tests round-trip a few standard-bond chains',
     [FM], [('serialisation', FM+': fMPS.serialize, deserialize'), ('structure', FM+': fMPS.structure, create_structure'),
            ('storage', FM+': fMPS.store, load'), ('random', FM+': fMPS.random')])
prop('C10', 'The energy is the expectation value of the sum of local Hamiltonian terms',
     'For every normalised finite matrix product state, the energy of a nearest-neighbour Hamiltonian given as a list of two-site terms is the expectation value of their sum divided by the number of sites, and that of a full-space Hamiltonian is its expectation value, '
     'whatever gauge the state is in. It is real for Hermitian terms and linear in the Hamiltonian.',
     'every normalised chain of length at least two, any gauge and history, every Hermitian list of terms, any local dimension',
     'tests use one or two spin Hamiltonians on right-canonical states',
     [FM, FT], [('energy', FM+': fMPS.energy'), ('environments', FM+': fMPS.get_envs, E_L')])
prop('C11', 'The time-dependent variational field is the tangent-space projection of -iH',
     'For every full-rank normalised finite matrix product state of standard bond profile and every nearest-neighbour Hamiltonian (one term, a list, or the full matrix), the computed time derivative is the orthogonal projection of -iH acting on the state onto the tangent space of the bond-dimension manifold, up to a multiple of the state itself. '
     'At full bond dimension it is exactly the Schroedinger field up to the phase, and the energy is stationary along it to first order.',
     'every full-rank chain (any gauge), Hamiltonian, length and local dimension',
     'tests compare a few trajectories of spin chains with exact evolution at loose tolerances',
     [FM, FT], [('vector field', FM+': fMPS.dA_dt'), ('null space projectors', FM+': fMPS.left_null_projector, right_null_projector'), ('environments', FM+': fMPS.get_envs')])
prop('C12', 'Time integrators follow the field with their stated order and keep invariants',
     'Every integrator of a trajectory (Euler, Runge-Kutta and adaptive forms offered by the finite and infinite modules) advances a state by the requested steps so that a single step agrees with the field to the order of the method. '
     'With the field of a Hermitian Hamiltonian the normalised energy drifts no faster than the order allows, the times and history recorded are those asked for, and observables recorded along a trajectory are those of the recorded states.',
     'every chain and Hamiltonian, every step count and time list',
     'tests check that trajectories run and look roughly right; a wrong stage weight changes the order, not the look',
     [FT, 'xmps/iTDVP.py'], [('finite trajectories', FT+': Trajectory.euler, rk4, odeint, edint, eulerint, rk4int'), ('infinite', 'xmps/iTDVP.py: Trajectory')],
     over=('inputs', 'histories'))
prop('C13', 'Infinite matrix product states reach canonical form with the true spectrum',
     'Canonicalising an injective infinite matrix product state to left, right, symmetric, mixed or Vidal form preserves the state (fidelity per site one) and normalises it. '
     'Left form has left-isometric tensors and a squared diagonal spectrum as right fixed point, the right form is its mirror, and the spectra are the descending Schmidt coefficients of the half-infinite cut.',
     'every injective one-site-period tensor, any bond and local dimension, gauge and scale',
     'tests use random tensors of a few sizes and check isometry, seldom the state or the spectrum',
     [IM], [('canonical forms', IM+': iMPS.canonicalise, left_canonicalise, right_canonicalise, mixed'), ('Vidal form', IM+': ivMPS.canonicalise, to_iMPS, from_iMPS')])
prop('C14', 'Transfer maps act as the documented sums and agree with their matrices and fixed points',
     'The map of two tensor families sends a matrix X to the sum over the local index of A X B^dagger, its reversed form to the sum of A^dagger X B, and the matrix it builds acts in the same way. '
     'The fixed points it returns are eigenvectors of largest modulus, and transfer-matrix products, their dense matrix and normalised eigenvector pairs are mutually consistent.',
     'all pairs of tensors of equal bond dimension, any local dimension, and all matrices they are applied to',
     'tests compare against one random input with both tensors equal, where transposition or conjugation errors cancel',
     [IM, TE], [('maps', IM+': Map.mv, mvr, asmatrix, right_fixed_point, left_fixed_point'), ('transfer matrix', IM+': TransferMatrix')])
prop('C15', 'Infinite-chain expectation values, energy and time derivative are exact',
     'Single-site expectation values and several observables of an infinite matrix product state equal those of the reduced density matrix built from its transfer fixed points, whatever canonical form is declared; the energy of a two-site term is the two-site expectation value whatever the gauge and norm of the tensor. '
     'The time derivative of a left-canonical state is the tangent-space projection of the energy gradient: it is zero on eigenstates and gauge-orthogonal to the state.',
     'every injective tensor, complex operators and Hamiltonian terms, every declared canonical form',
     'tests use real symmetric operators where a transposed operator goes unseen',
     [IM], [('expectation values', IM+': iMPS.E, Es, energy'), ('time derivative', IM+': iMPS.dA_dt, Lh, Rh')])
prop('C16', 'Spin and Lie-algebra helpers satisfy their defining relations',
     'Spin matrices satisfy the angular-momentum commutation relations with Casimir S(S+1) for every spin, the ladder operators follow from them, and the Lie-algebra generator sets are traceless, Hermitian, orthogonal and complete. '
     'Unitary parametrisations are unitary and in the stated group for all real parameters, component extraction and reconstruction are inverse, and the swap, controlled and rotation gates have their textbook matrices.',
     'every half-integer spin, every group size offered, and all real parameters',
     'tests evaluate none or one instance of these helpers',
     [SP], [('spins', SP+': spins, CR, pCR'), ('groups', SP+': su, SU, U1, U2, U4, SU4, SU8'), ('gates', SP+': CZ, CNOT, CRy, swap')])
prop('C17', 'Hamiltonian assembly yields the described many-body operator',
     'A Hamiltonian described by Pauli strings and coefficients gives two-site matrices and a full-space matrix that are the sum of the described terms placed at every position of the chain, with the strings IX and XI (for X, Y or Z) both written as one single-site field that is counted once per site of a chain. '
     'Embedding a one- or two-site operator at a site of a chain equals the Kronecker product with identities, and reading a matrix back into coefficients is inverse to building it.',
     'every set of strings and coefficients, every chain length and site',
     'tests use one transverse-field Ising instance',
     [HA, SP], [('assembly', HA+': Hamiltonian.to_matrices, to_matrix, from_matrix'), ('embedding', SP+': n_body, N_body_spins')])
prop('C18', 'Tensor utilities meet their algebraic contracts',
     'Reshaped QR and RQ return isometric factors whose product is the input, truncated SVDs are the best low-rank factors, direct sums are block sums, unitary extension returns a unitary with the given columns or rows, and partial traces and reduced density matrices are traces over the complementary sites. '
     'Embedding, padding, splitting and their inverses are exact, conjugation and transposition act on the matrix indices only, and eigenvector helpers return eigenvectors.',
     'all arrays of admissible shapes, real or complex, of any rank including deficient ones',
     'tests hit a few shapes with generic entries',
     [TE], [('factorisations', TE+': uqr, urq, tr_svd, diagonalise, polar'), ('block and padding', TE+': direct_sum, unitary_extension, mps_pad, embed'),
            ('partial traces', TE+': partial_trace')])
prop('C19', 'The network contractor computes the Einstein sum of the described network',
     'Contracting a list of tensors with an index description gives the sum over all repeated positive labels of the product of entries, with negative labels as the ordered free legs. '
     'The value does not depend on the contraction order requested, the free order only permutes legs, partial traces and disconnected parts are included, and inconsistent descriptions are refused.',
     'all networks of any number of tensors, any shapes, any consistent labelling, any contraction and final order',
     'tests reach the contractor only through fixed network shapes',
     ['xmps/ncon.py'], [('contractor', 'xmps/ncon.py: ncon, con, trace, check_indices, find_sequence, permute_final')])
prop('C20', 'Two-dimensional states match their dense contraction on every lattice shape',
     'A finite projected entangled pair state on any rectangle recombines to the dense contraction of its tensors in reading or snake order; transposition and the two reflections are exact geometric moves that undo themselves. '
     'Overlap, norm, expectation values (of one site or of a block, the operator taken column by column as the block density matrices are) and sums agree with the dense vector, and isometrising a state gives a unit-norm state whose centre tensor alone gives the expectation values of the centre site.',
     'every rectangle of lattice sizes (non-square included), any bond and local dimensions, any site',
     'tests contain no two-dimensional case at all',
     ['xmps/fPEPS.py', 'xmps/peps_tools.py'],
     [('states', 'xmps/fPEPS.py: fPEPS'), ('tools', 'xmps/peps_tools.py')])
prop('C21', 'Matrix product operators act and compose as their dense operators',
     'A matrix product operator recombines to the dense operator of its tensors, products of operators and of operators with states are the dense products, and transposition or rotation of the legs is exact and undone by its inverse.',
     'all operators of any length, local and bond dimensions',
     'tests contain no operator case',
     ['xmps/fPEPS.py'], [('operators', 'xmps/fPEPS.py: fMPO')])
prop('C22', 'Thermofield-double states reproduce thermal expectation values',
     'A thermofield-double matrix product state built from a pure state, at random or by purification represents the doubled state exactly: observables on the left or right copy are those of the corresponding reduced density matrix. '
     'The symmetry transformation is an involution of the doubled space and local overlaps are traces of products of reduced density matrices. '
     'Copies, sums and states read back are doubled states again, and time evolution under a Hamiltonian evolves the two copies alike without coupling them.',
     'all chains, operators and Hamiltonians on either copy, and sites',
     'tests compare a handful of evolutions',
     [TD], [('doubled states', TD+': fTFD')])
prop('C23', 'Vidal form round-trips and entanglement entropies are the exact ones',
     'Converting a finite matrix product state to its Vidal form (a bond matrix and a tensor per site) and back preserves the ray; the bond matrices hold the descending squared Schmidt coefficients of the normalised state, and each pair multiplies back to a right-canonical tensor. '
     'Entanglement entropies at every bond are the von Neumann entropies of the normalised state vector, non-negative and invariant under local unitaries and gauge changes.',
     'every full-rank chain, every bond',
     'tests look at one or two bonds of random states',
     [FM], [('Vidal form', FM+': vfMPS'), ('entropy', FM+': fMPS.entanglement_entropy')])
prop('C24', 'Operations change only what they own: copies, inputs and observers are isolated',
     'Queries (overlaps, expectation values, energies, derivatives, serialisation) leave the state vector they are asked about and every argument unchanged, and copies share no memory with their source: no later operation on either is visible in the other. '
     'Constructors and operators never modify the arrays, states or Hamiltonians passed to them.',
     'all states, all operations and all sequences of them',
     'tests compare results, never that inputs survived',
     [FM, FT, IM, HA], [('copying', FM+': fMPS.copy'), ('queries', FM+': fMPS.E, overlap, energy, dA_dt'), ('Hamiltonians', HA+': Hamiltonian')],
     over=('inputs', 'histories'))
prop('C25', 'Observables depend on the state alone, not on the operations that led to it',
     'After any sequence of canonicalisations, operator applications, site assignments, copies and queries, every observable of a finite matrix product state equals that of the state vector the sequence defines. '
     'Remembered centres, environments and norms never make a later answer stale.',
     'all histories of public operations on all chains',
     'tests use fresh states; stale cached centre positions show up only after particular operation sequences',
     [FM], [('centre bookkeeping', FM+': fMPS.mixed_canonicalise, E, __setitem__, apply')], over=('inputs', 'histories'),
     state=[('orthogonality centre', 'site the recorded canonical form is centred on, if any', FM+': fMPS.oc')])

prop('C26', 'The Jacobian of the flow is the linearisation on the tangent space',
     'For every normalised finite matrix product state of full Schmidt rank and every Hermitian nearest-neighbour Hamiltonian, the blocks of the Jacobian are -i<d_i psi|H|d_j psi>, -i<d_i d_j psi|H|psi> and -<d_i d_j psi|d psi/dt> in an orthonormal basis of the tangent space: coefficients imported as a tangent vector give the variation they name and are read back, and the evolution of a tangent vector is the action of these blocks. '
     'Hence the linearised flow is Hamiltonian (the Lyapunov exponents of each step sum to zero), at unrestricted bond dimension it is a rotation (they all vanish), and its invariants do not depend on the gauge.',
     'every full-rank chain of two sites or more in any gauge, with any bond pattern, local dimension of two or more and Hermitian list of terms',
     'tests look at real Hamiltonians on canonical states of a few sites, where transposed operators, swapped pairs of sites and wrong environments are invisible',
     [FM, FT], [('blocks', FM+': fMPS.F1, F2, christoffel'), ('assembly', FM+': fMPS.jac, ddA_dt'), ('tangent vectors', FM+': fMPS.import_tangent_vector, extract_tangent_vector, tangent_space_dims'), ('exponents', FT+': Trajectory.lyapunov')])

# properties without a check, with the reason
NOT_APPLICABLE = {}
LEVEL = {}          # id -> (level, technique, note)
DED = 'contract-based deductive verification of the real functions in /repo'
TAIL = ('; plus the same and further contracts checked at run time over seeded structured inputs (bounded). Assumed: contracts of NumPy/SciPy '
        'factorisations and solvers; floating point treated as exact arithmetic in the deductive part')


def _lv(ids, level, how, note):
    for i in ids.split():
        LEVEL[i] = (level, DED+': '+how, note+TAIL)


_lv('C01', 'proof', 'loop invariants over chains of any length, obligations discharged by a tensor-network rewriting kernel and z3',
    'Every obligation for every length, local dimension, bond profile and entry; rank, centre and range symbolic')
_lv('C14 C15', 'exploration', 'postconditions for all dimensions, discharged by a tensor-network rewriting kernel and z3',
    'All bond and physical dimensions and entries symbolic, for the functions under contract; the eigen-solver based ones rest on run-time contracts')
_lv('C02 C05 C06 C07 C08 C10 C11', 'exploration',
    'loop invariants over chains of any length for the main functions, fixed lengths for the rest, discharged by a tensor-network rewriting kernel and z3',
    'The contracts named "any length" are proved with length, dimensions and entries symbolic; the rest is proved for all dimensions and entries at fixed lengths (bounded)')
_lv('C03 C04 C09 C12 C13 C19 C20 C21 C22 C23 C24 C25 C26', 'exploration',
    'postconditions for symbolic dimensions and entries, discharged by a tensor-network rewriting kernel and z3; size of the chain, lattice or network bounded',
    'Proved for all dimensions and entries at the listed lengths, lattices or networks; nothing is claimed beyond them except by run-time checks')
_lv('C16 C17 C18', 'exploration',
    'postconditions for symbolic dimensions, parameters and entries, discharged by a tensor-network rewriting kernel and z3; matrix sizes or chain lengths bounded where listed',
    'Proved for all entries and, where no bound is listed, all sizes')
DEFAULT = ('exploration', DED, 'Proved at fixed sizes'+TAIL)


def main():
    json_lines = '\n'.join(json.dumps(p, ensure_ascii=False) for p in P)+'\n'
    open(os.path.join(HERE, 'properties.jsonl'), 'w').write(json_lines)
    checks = []
    for p in P:
        i = p['id']
        if i in NOT_APPLICABLE:
            continue
        lv, te, note = LEVEL.get(i, DEFAULT)
        checks.append({'property': i, 'quick_cmd': 'python3-vt check.py %s --tier quick' % i,
                       'thorough_cmd': 'python3-vt check.py %s --tier thorough' % i,
                       'technique': te, 'level': lv, 'level_note': note})
    man = {'version': 1, 'setup_cmd': 'python3-vt setup_check.py', 'checks': checks,
           'not_applicable': [{'property': k, 'reason': v} for k, v in NOT_APPLICABLE.items()]}
    json.dump(man, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1, ensure_ascii=False)
    open(os.path.join(HERE, 'MANIFEST.json'), 'a').write('\n')


if __name__ == '__main__':
    main()

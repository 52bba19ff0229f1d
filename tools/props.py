"""The properties (source of properties.jsonl and MANIFEST.json)."""
PROPS = []
NOTE = ('No violation found among the generated cases (counts, labels and samples in the evidence file); trusts '
        'numpy/scipy dense linear algebra as the reference and bounds sizes to what a dense oracle can hold. ')


def P(id, title, statement, text, why, files, mech, technique, note='', over=('inputs',)):
    PROPS.append(dict(id=id, title=title, statement=statement, text=text, why=why, files=files, mech=mech,
                      technique=technique, note=NOTE + note, over=list(over)))


F = 'xmps/fMPS.py'
P('C01', 'State vectors and matrix product states convert into each other exactly',
  'Splitting any state tensor into a left- or right-orthonormal MPS and recombining it returns the same tensor, with '
  'isometric site tensors and bond dimensions no larger than the state needs room for; recombining any MPS gives the amplitudes '
  'its site tensors define. A random MPS has exactly the requested length, local dimension and bond dimension and can be '
  'used at once; bracket access is 0-based, call access 1-based, and appending or extending concatenates the tensors in order.',
  'every state tensor (d 1..4, L 1..8, complex, degenerate or low-rank Schmidt spectrum) and every MPS with any bond structure',
  'the tests round-trip one fixed random state with d=2; nothing covers rank-deficient states, other local dimensions, L=1 or '
  'non-uniform bonds, and the site-order convention is checked only against the code itself',
  [F], [('left_from_state / right_from_state: successive SVDs', F), ('recombine', F), ('random / create_structure', F)],
  'property-based testing (Hypothesis): round trips against a dense contraction')
P('C02', 'Canonical and orthogonal forms never change the state and satisfy their definitions',
  'Bringing an MPS of any gauge, scale or entanglement structure into left, right or mixed canonical or orthogonal form (whole chain '
  'or part of it, in any sequence of such requests) leaves the represented ray unchanged, normalises it where documented, and yields '
  'tensors that are isometries on the proper side with, for canonical forms, diagonal bond density matrices equal to the true Schmidt '
  'spectrum. Entanglement entropies across every cut equal those of the state vector, and the Vidal form (vertex tensors and Schmidt '
  'values) reproduces the state and its Schmidt values and converts back.',
  'every MPS (any length, local and bond dimension, degenerate or rank-deficient Schmidt spectra, any scale) and every sequence of '
  'gauge operations up to length 4',
  'the tests canonicalise a few generic random states once; degenerate spectra (GHZ, Bell pairs), zero-padded bonds, chains of gauge '
  'changes and partial sweeps are never sampled',
  [F, 'xmps/tensor.py', 'xmps/tests.py'],
  [('left_canonicalise / right_canonicalise / mixed_canonicalise', F), ('left_orthogonalise / right_orthogonalise / mixed_orthogonalise', F),
   ('diagonalise, rank, truncate_A/B', 'xmps/tensor.py'), ('to_vidal, from_vidal, entanglement_entropy', F)],
  'stateful property-based testing: sequences of gauge changes against the dense state and its exact Schmidt decomposition',
  'Directions carrying Schmidt weight below 1e-9 are not judged for isometry.', over=('inputs', 'histories'))
P('C03', 'Truncation respects the bond limit, discards the smallest Schmidt weight and keeps the form',
  'Canonicalising with a bond-dimension limit D gives an MPS whose bonds never exceed D and which is in the requested form; if every Schmidt '
  'rank is already at most D the state is unchanged. From the opposite canonical form the error is bounded by the discarded Schmidt '
  'weight (root of the sum over cuts), and for two sites it is the optimal one.',
  'every MPS and every D from 1 up, for each canonical form, from the opposite canonical form or any gauge',
  'the tests only check that bond dimensions come out at most D on a few random states, not which part of the state is lost',
  [F, 'xmps/tensor.py'], [('left_canonicalise(D) / right_canonicalise(D) / mixed_canonicalise(oc, D)', F), ('truncate_A / truncate_B', 'xmps/tensor.py'),
                          ('fMPS(data, D=D)', F)],
  'property-based testing: Schmidt-weight error bounds and Eckart-Young optimum from dense SVDs')
P('C04', 'Expectation values and density matrices are those of the state, after any history',
  'One-site, several-site, whole-chain and string expectation values, reduced density matrices and energies (local terms or full Hamiltonian) '
  'equal those of the represented state vector, whatever sequence of gauge changes, gates, in-place edits, copies, scalings and '
  'serialisations came before. Asking never changes the state.',
  'every MPS, every hermitian (complex) operator and site set, every history of up to 6 operations',
  'the tests use states straight after one canonicalisation and mostly real operators; stale cached gauge information and transposed '
  'operators do not show there',
  [F], [('E, E_, Es, E_k, E_L, rho, energy, rho_proj', F), ('oc / canonical / orthogonal bookkeeping', F)],
  'stateful property-based testing: histories of operations and queries against a dense state-vector model', over=('inputs', 'histories'))
P('C05', 'Overlaps, sums and scalar multiples act on matrix product states as on vectors',
  'The overlap of two MPS is the inner product of their state vectors (so conjugate-symmetric, and the norm is its square root); adding two MPS and multiplying by a '
  'scalar represent exactly the sum and multiple of the vectors; the local overlap is the trace of the product of reduced density matrices, '
  'averaged over windows where asked. The arithmetic operators act tensor by tensor as documented, and copies share nothing with the original.',
  'every pair or triple of MPS of equal length and local dimension, whatever their bond dimensions and scales, and every complex scalar',
  'the tests compare a few states of equal bond dimension and check self-consistency rather than the vectors',
  [F], [('overlap, full_overlap, norm, add, mul, local_overlap, local_overlaps, __add__ ..., copy', F)],
  'property-based testing: algebraic laws against dense vectors')
P('C06', 'Gates and projections on a matrix product state act as on the state vector',
  'Applying one- and two-site gates (unitary or not, any pair of distinct sites in either order, local dimension 2 or 3, either splitting direction) changes '
  'the represented state exactly as the gate acts on the state vector; with a bond limit the result is the optimal truncation at the orthogonality centre '
  'and respects the limit. Post-selecting a site on a basis state removes that site and leaves the projected state, '
  'and grouping then splitting two-site tensors loses nothing.',
  'every MPS and every circuit of up to 4 gates on any sites, every projection sequence, every bond limit',
  'the tests apply a handful of fixed qubit gates on neighbouring sites',
  [F], [('apply, apply_two_site, post_select', F), ('apply_unitary, group_tensors, separate_tensor_qr/rq/svd', F)],
  'stateful property-based testing: random circuits against a dense state-vector model', over=('inputs', 'histories'))
I = 'xmps/iMPS.py'
P('C07', 'Serialising and storing states and restoring them gives back the same state',
  'Serialising an MPS to a flat vector (complex or real pairs) and deserialising it with its structure or its standard shape, any '
  'number of times, and storing it to a file and loading it, gives back the same site tensors, finite or infinite; '
  'the real form is the real and imaginary parts in order, and neither direction changes the object serialised.',
  'every MPS structure, scale, gauge and memory layout, real and complex, finite and infinite unit cells, repeated round trips, files in a scratch directory',
  'the tests round-trip a random MPS of one standard structure and its right-canonical form',
  [F, I], [('serialize / deserialize / store / load', F), ('serialize / deserialize', I)],
  'property-based testing: round trips through vectors and files')
P('C08', 'Infinite MPS: canonical forms, expectation values and overlaps are those of the represented state',
  'Bringing a uniform infinite MPS into left, right, mixed or symmetric canonical form, in any order and from any gauge, leaves every local reduced '
  'density matrix unchanged and satisfies the definition of the form (isometry, the other fixed point diagonal and normalised, AL C = C AR). '
  'Expectation values and energy densities equal those computed from the fixed points of the transfer matrix, in any form; overlap per site '
  'is 1 for the same state in another gauge and otherwise the largest eigenvalue modulus squared of the mixed transfer matrix. Vidal form and plain form convert into each other, and copies share nothing with the original.',
  'every injective tensor (bond dimension 1..5, local dimension 2..3, complex), any gauge, any sequence of up to 5 form changes',
  'the tests check stored fixture tensors, one change of form each, with expectation values compared only between the code\'s own forms',
  [I], [('canonicalise, left/right eigenmatrices', I), ('E, Es, energy, overlap, mixed', I), ('ivMPS', I), ('TransferMatrix / Map', I)],
  'stateful property-based testing: sequences of form changes against dense fixed points of the transfer matrix', over=('inputs', 'histories'))
P('C09', 'Infinite MPS time evolution follows the projected Schroedinger equation',
  'The environments of the local Hamiltonian solve their defining linear equations; the time derivative of a uniform MPS is the tangent-space '
  'projection of -iH|psi>; Euler and Runge-Kutta steps agree with the exact flow to their order; trajectories record one state per requested time, '
  'conserve the energy and retrace their path when reversed; gradient descent lowers the energy and never passes below a rigorous bound.',
  'every injective tensor (bond dimension 2..3) in any gauge and every hermitian complex two-site term, times and step sizes in the convergent range',
  'the tests evolve two fixed models and print or plot, or compare against a stored case with real tensors',
  ['xmps/iTDVP.py', I, 'xmps/iOptimize.py'], [('get_envs, Lh, Rh, dA_dt', I), ('Trajectory.euler / rk4 / eulerint / rk4int', 'xmps/iTDVP.py'),
   ('find_ground_state', 'xmps/iOptimize.py')],
  'property-based testing: an independent dense evaluation of the projected flow', over=('inputs', 'histories'))
S = 'xmps/spin.py'
P('C10', 'Spin operators, gates and SU(N) generators are the ones their names promise, on any site',
  'The spin matrices of every spin satisfy the angular momentum algebra in the standard basis, and one- and two-site operators placed on a chain act on the site asked for '
  '(site numbers 1-based for one-site operators, 0-based for two-site terms) and on no other. SWAP, CNOT, CZ, Hadamard and controlled rotations, exchange symmetrisation and '
  'antisymmetrisation, spherical coordinates and the permutation symbol follow their definitions. su(N) is an orthonormal basis of traceless hermitian matrices, '
  'SU(v) = exp(-i v.lambda), the vector recovered from a unitary regenerates it (exactly on the principal branch), and generators embedded in one more qubit act as the identity on it.',
  'every spin up to 4, every chain length, local dimension and site, every rotation angle and Lie-algebra vector (N 2..8)',
  'the repository has no test of these functions beyond their use in a few Hamiltonians',
  [S], [('spins, n_body, N_body_spins, N_body_paulis, ladders', S), ('swap, CNOT, CZ, CRy, swap_symmetrise', S),
        ('su, SU, extractv, to_new_v, U4, SU4, SU8, insu2N', S)],
  'property-based testing: algebraic laws and explicit Kronecker products')
P('C11', 'A Hamiltonian written as Pauli strings denotes one operator, in every form it can be asked for',
  'The local terms, the two-site matrix, the full matrix for any chain length and the matrix product operator of a Hamiltonian given by two-site Pauli strings and fields all represent the sum '
  'of the named couplings over all bonds plus the named fields over all sites, boundary sites included; fields may be written as one-site or as two-site strings. Asking in any order and any number of times '
  'gives the same answers, the dictionary given is never changed, Hamiltonians an operator form does not cover are refused, and a two-site matrix decomposed into strings is recovered up to a constant.',
  'every set of two-site strings and fields with real couplings, every chain length 1..9, every sequence of requests',
  'the tests compare two models at one or two lengths in one form each; two-site chains, fields with several components and repeated requests are not covered',
  ['xmps/Hamiltonians.py'], [('Hamiltonian.to_matrices, to_matrix, to_full, to_mpo, from_matrix', 'xmps/Hamiltonians.py')],
  'stateful property-based testing: sequences of requests against explicit Kronecker sums', over=('inputs', 'histories'))
P('C12', 'Tensor network contraction computes the contraction its index lists describe',
  'For every well-formed network - any number of tensors, traces over one tensor, disconnected parts, scalars, any contraction order and any order of the open legs - ncon returns exactly the tensor obtained '
  'by summing over the positive labels, with open legs ordered -1, -2, ... or as requested, with or without index checks, and changes none of its arguments. Inconsistent networks (wrong list lengths, '
  'mismatched dimensions, labels occurring once or three times, duplicated or missing open legs) are refused with ValueError.',
  'every network of up to 6 tensors with up to 7 bonds and 4 open legs of dimensions 1..3, every contraction order, every single inconsistency',
  'ncon has no tests of its own; the MPS code exercises a few fixed networks with the default order',
  ['xmps/ncon.py', 'xmps/fMPS.py'], [('ncon, trace, con, check_inputs', 'xmps/ncon.py'), ('ncon wrapper used by the MPS classes', 'xmps/fMPS.py')],
  'property-based testing: random networks against numpy.einsum')
T = 'xmps/fTDVP.py'
P('C13', 'The finite time derivative is the tangent-space projection of -iH on the state',
  'For a Hamiltonian given as local terms or as a full matrix, the time derivative of a finite MPS - of any gauge and bond structure - '
  'is in left gauge and represents the orthogonal projection of -iH|psi> onto the tangent space of the manifold of that bond structure (without its component along the state), so it keeps norm and energy to first order, '
  'is exact when the bonds are full, does not depend on the canonical form, and is the same for both ways of writing H and for any number of evaluations. Asking does not change the state.',
  'every MPS (L 1..7, d 2..3, D 1..4, any gauge, one-dimensional bonds included) and every hermitian complex Hamiltonian of one- and two-site terms or full matrix',
  'the tests compare the two code paths with each other, or with exact evolution at full bond dimension, for real nearest neighbour qubit models in one canonical form',
  [F], [('dA_dt, l, r, left/right null projectors, get_envs', F)],
  'property-based testing: dense projector onto the numerically differentiated tangent space')
P('C14', 'Tangent vectors: null spaces, coordinates and tangent states are what they claim to be',
  'The left and right null tensors complete each site tensor to an orthonormal set and the null projectors have the defining gauge orthogonality; extracting the coordinates of a tangent vector and importing them back is the identity '
  'in both directions, linear and isometric with respect to the overlap of the corresponding states; a tangent vector converted to a state represents the derivative of the state vector along it; '
  'the tangent-space dimension and basis agree with the rank of the dense tangent map, sites with no free directions included.',
  'every canonical MPS (L 1..6, d 2..3, D 1..4) for the coordinates and any gauge for the null projectors, every tangent vector',
  'the tests check one or two structures with generic tensors, never sites without tangent directions or environments with off-diagonal entries',
  [F], [('left_null_projector, right_null_projector, tangent_space_dims', F), ('extract_tangent_vector, import_tangent_vector, tangent_state, tangent_space_basis', F)],
  'property-based testing: round trips and isometry against dense tangent vectors')
P('C15', 'The Jacobian is the linearisation of the projected flow',
  'The Jacobian of the finite TDVP flow at a canonical MPS is the matrix that propagates a tangent vector along the flow: in the documented real coordinates it is the derivative of the projected vector field (covariant along the manifold), '
  'traceless, independent of the order in which parts are evaluated, and its pieces (F1, F2, Christoffel symbols, second derivative of the tensors) equal the dense expressions they abbreviate for every pair of sites; '
  'given the basis of an earlier time it is expressed in the closest orthonormal basis.',
  'every canonical MPS (L 2..13, d 2..3, D 1..3) and every hermitian complex Hamiltonian of nearest neighbour terms',
  'the tests check that Jacobians of short real qubit chains are antisymmetric or their pieces symmetric, not their values',
  [F], [('jac, F1, F2, christoffel, ddA_dt', F)],
  'property-based testing: dense second derivatives of the MPS map, finite differences of the flow')
P('C16', 'Growing the bond dimension never loses the state and follows the dynamics',
  'Expanding an MPS to a larger bond dimension leaves the represented state unchanged and reaches the dimension asked for where the chain has room; the projection error is the weight of -iH|psi> dt outside the '
  'tangent space; dynamical expansion by a time step dt never exceeds the bond dimension asked for, stays within the projected step of the exact evolution, and follows it to second order when everything leaving the manifold fits into the new bonds; '
  'with a threshold it acts exactly when the projection error reaches it. Growing a product state reaches the bond dimension asked for along the exact evolution. '
  'Matching the gauge of one MPS to another keeps the state and its canonical form and undoes a gauge rotation.',
  'every MPS (L 2..6, d 2..3, D 1..4, any gauge), every hermitian nearest-neighbour Hamiltonian, every target dimension, threshold and step',
  'the tests check one expansion of a product state by its overlap, with a loose tolerance',
  [F], [('expand, grow, projection_error, dynamical_expand, match_gauge_to', F)],
  'property-based testing: dense projections and exact evolution as the oracle')
P('C17', 'Trajectories record the evolution asked for, and their observables are those of the recorded states',
  'A finite trajectory integrated with Euler, Runge-Kutta, the invertible scheme or an ODE solver follows the projected flow to the order of its integrator, reverses, and records exactly one state for each requested time; exact evolution agrees with the matrix exponential for every local dimension; '
  'entropies, Schmidt spectra, Loschmidt echoes, expectation values, energies and OTOCs of a trajectory equal those computed from its recorded states, for any sequence of runs, clears, copies and queries; '
  'saving to and loading from files restores states, times and exponents.',
  'every MPS (L 2..5, d 2..3, any bonds and scale), every hermitian Hamiltonian, evenly spaced times in either direction and order of calls; files in a scratch directory',
  'the tests run a few qubit trajectories and compare integrators at one step size; order of convergence, repeated runs and stored files are not covered',
  [T], [('Trajectory.euler, rk4, invfreestep, eulerint, rk4int, odeint, edint', T), ('mps_evs, ed_evs, schmidts, von_neumann, renyi, loschmidt, mps_energies, ed_OTOC', T), ('save, load, copy, clear', T)],
  'stateful property-based testing: histories of runs and queries against dense evolution', over=('inputs', 'histories'))
N = 'xmps/tensor.py'
P('C18', 'The tensor utilities, canonical-form predicates and example states are what their names say',
  'Unique qr and rq factorisations (triangular with a non-negative diagonal, isometric factor), truncated svd, isometric embeddings and null spaces, partial traces, bond and position bookkeeping, leading eigenmatrices of maps, '
  'the action of a matrix exponential and Haar random unitaries satisfy their definitions for every shape and rank; padding gives two MPS one structure without changing either state; the canonical-form predicates accept exactly the tensors '
  'that satisfy the definition within their tolerance; the named example states (product, GHZ, W, AKLT, spin operators) are those states. Arguments are not modified.',
  'every matrix or tensor of dimensions 1..6 (complex, real, integer, sparse, rank-deficient, rectangular); every pair of MPS; every perturbation of a canonical tensor',
  'the tests run these helpers on one or two generic square matrices, or only through the MPS classes',
  [N, 'xmps/tests.py', 'xmps/mps_examples.py', 'xmps/spin.py'], [('uqr, urq, tr_svd, embed, partial_trace, l_eigenmatrix, r_eigenmatrix, lanczos_expm, haar_unitary, mps_pad, direct_sum, split_up', N),
                                                                ('is_left_canonical, is_right_canonical, ...', 'xmps/tests.py'), ('example states', 'xmps/mps_examples.py')],
  'property-based testing: definitions checked with numpy, metamorphic uniqueness, statistical moments for random unitaries',
  'Haar randomness is judged by moments of the trace at more than six standard errors.')
P('C19', 'Singular value decompositions are right whichever driver has to compute them',
  'For every matrix - any shape, rank, scale, memory layout, real or complex - the singular value decomposition used by the MPS code reproduces the matrix with isometric factors and ordered non-negative singular values, '
  'also when the divide-and-conquer driver fails to converge on any of the calls and the fallback has to be used; it leaves its argument alone unless told otherwise, and errors other than failed convergence are reported. '
  'States built, canonicalised or acted on while the driver fails on any schedule of calls are the same states.',
  'every matrix of dimensions 1..9 with every option of the call; every schedule of injected driver failures during a sequence of MPS operations',
  'convergence failures cannot be provoked by ordinary test inputs, so the fallback is never run by the tests',
  ['xmps/svd_robust.py', F], [('svd', 'xmps/svd_robust.py'), ('canonicalisation through svd', F)],
  'fault injection with property-based testing: failures of the LAPACK driver on generated schedules', over=('inputs', 'faults'))
P('C20', 'Environments and transfer matrices are the partial contractions they abbreviate',
  'The left and right environments of any finite MPS, operators carried along the chain with extra legs, and the index lists for a full contraction equal the explicit contraction of the site tensors; the same after any change of the state; transfer matrices of one infinite tensor or of two act, '
  'from either side, as the matrix they represent, and their fixed points and eigenvalues are those of that matrix; the null projectors of an infinite MPS satisfy their orthogonality; random states of a given energy have that energy within the tolerance.',
  'every MPS (L 1..6, d 1..3, any gauge and bonds) and operators with extra legs; every pair of uniform tensors (D 1..5); every history of changes between requests; every reachable energy',
  'the tests use canonical MPS, for which most environments are trivial, and stored uniform tensors',
  [F, I, N], [('get_envs, l, r, left_transfer, right_transfer, links', F), ('TransferMatrix, Map', N), ('iMPS null projectors', I), ('random_with_energy_E', F)],
  'property-based testing: dense transfer matrices and explicit contractions')
P('C21', 'Thermofield doubles behave as two copies of the state',
  'The doubled state of an MPS is psi x psi with the copies of each site side by side: overlaps are squared, and expectation values on either copy are those of psi. For any doubled state, expectation values '
  'act on the copy asked for, exchanging the copies exchanges them in the vector, symmetrised and random doubled states are symmetric, arithmetic is tensor by tensor and add adds vectors, null spaces split into symmetric and antisymmetric parts, '
  'local overlaps with a product state are the traces of the density matrices, and the time derivative is the projected evolution of both copies under the Hamiltonian, given by terms or as a full matrix, as are trajectories of doubled states.',
  'every doubled state (L 1..5, d 2..3, any gauge), every product state and window, every hermitian complex Hamiltonian',
  'the tests compare the two copies with each other on symmetric states, with real spin operators, and run an evolution without judging it; local overlaps are never called',
  [F], [('fTFD', F)], 'property-based testing: dense vectors with explicit legs for each copy')
PE = 'xmps/fPEPS.py'
P('C22', 'A projected entangled pair state is the vector its lattice of tensors contracts to',
  'Every method of a PEPS acts on the contraction of its lattice: recombination in reading or snake order, overlaps, norms, sums, local operators, expectation values on sites and blocks, '
  'reduced density matrices of product states, environments and row or column transfer operators equal the dense expressions; blocked lattices, transpositions and reflections permute the sites of the vector (and move the centre); '
  'a PEPS built from an MPS contains that MPS; bonds are cut on both of their sides; matrix product operators multiply, apply and recombine as the operators they represent.',
  'every PEPS on 1..4 x 1..4 sites (d 1..3, every bond its own dimension), every block, operator and sequence of transformations; every MPO on 1..5 sites',
  'the tests use square lattices with uniform bonds and product states, and compare the methods with each other rather than with a dense contraction',
  [PE], [('fPEPS', PE), ('fMPO', PE)], 'property-based testing: dense contraction of the lattice by einsum')
P('C23', 'Isometric PEPS and the tools that make them',
  'Making a PEPS isometric around any site leaves every tensor an isometry towards that site, the state normalised, and expectation values at the centre readable from the centre tensor alone, through copies, transpositions and reflections. '
  'Single tensors are made isometric towards a leg or a corner keeping their range; grouping legs and ungrouping them is a round trip for every order and partition; '
  'the disentangler is a unitary that never raises the Renyi entropy of the state it is given and reports the entropy it reaches.',
  'every lattice up to 4 x 4 and every centre; tensors with legs 1..4; two-site states with local dimensions 1..3 and bonds 1..4',
  'the tests check isometries with a centre and uniform bonds of one or two lattices, and never compare the disentangled state with the original',
  [PE, 'xmps/peps_tools.py'], [('isometrise, iso_E, iso_Es, tensor_isometrise_*', PE), ('group_legs, ungroup_legs, renyi, renyi_2_disentangler', 'xmps/peps_tools.py')],
  'property-based testing: definitions, dense expectation values, dense entropies')
P('C24', 'Lyapunov spectra measure the separation of nearby states, and runs continue where they stopped',
  'The exponents of each step of a Lyapunov run are the growth rates of the separation of states close to the current one under the projected evolution, to the order of the step, for any orthonormal initial basis; for product states this holds over any number of steps. '
  'They do not depend on the zero of energy, and sum to zero in every step (volume is conserved); running averages, convergence and pairing measures are those of the exponents recorded; the top exponent alone is the first of the whole spectrum; a threshold stops at the first converged step. '
  'Runs made in parts, copied, or stopped, stored and resumed equal one long run. Raising the bond dimension of a trajectory keeps its state, lowering it loses no more than the discarded weight.',
  'every canonical MPS (L 2..4, d 2..3, D 1..3), hermitian Hamiltonian, basis, step and sequence of runs, stops and resumptions',
  'the tests run spectra of local Hamiltonians only, with assertions about the times rather than the exponents',
  [T, F], [('lyapunov, stop, resume, expand, contract, dynamical_expand', T), ('jac', F)],
  'stateful property-based testing: numerical linearisation of the dense projected flow; parts of runs against one run',
  'Several steps at bond dimension above 1 are a known finding (F79).', over=('inputs', 'histories'))

"""writes /verif/properties.jsonl"""
import json, os
P = []


def add(i, title, statement, over, text, why, files, mech):
    assert len(title) <= 80, title
    P.append({'id': i, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
              'anchors': {'files': files, 'mechanism': [{'name': mech, 'where': ', '.join(files[:4])}]}})


B = 'qmeq/approach/base/'
L = 'qmeq/approach/elph/'

add('C01', 'Compiled Pauli, Lindblad, Redfield and 1vN equal their Python versions',
    "For every system, parameter set and option the compiled Pauli, Lindblad, Redfield and 1vN approaches (with and without "
    "electron-phonon coupling) build the same transition factors, the same kernel and the same particle, energy and heat currents "
    "as the Python approaches of the same name ('py' prefix).",
    ['inputs', 'configurations'], 'all Hamiltonians, couplings, lead/bath parameters, state restrictions and options',
    'Tests compare the two on two small models with one parameter set each; terms that vanish there (coherences, several baths, '
    'removed states, symmetry) are never exercised.',
    [B + f for f in ('pauli.py', 'c_pauli.pyx', 'lindblad.py', 'c_lindblad.pyx', 'redfield.py', 'c_redfield.pyx', 'neumann1.py', 'c_neumann1.pyx')]
    + [L + f for f in ('pauli.py', 'c_pauli.pyx', 'lindblad.py', 'c_lindblad.pyx', 'redfield.py', 'c_redfield.pyx', 'neumann1.py', 'c_neumann1.pyx')],
    'generate_fct, generate_kern, generate_current of each approach class and the routines they call')
add('C02', 'Compiled 2vN iteration equals the Python 2vN iteration',
    "For every system and energy grid, one step of the compiled second-order von Neumann iteration (local term, iterated term, "
    "boundary extrapolation of the energy functions, integration over energy and currents) computes the same values as the Python "
    "implementation.",
    ['inputs', 'configurations'], 'all systems, grids, iterations and leads',
    'One spinless dot and one double dot with a coarse grid are compared; the index and conjugation cases of larger systems are not reached.',
    [B + 'neumann2.py', B + 'c_neumann2.pyx'], 'TermsCalculator2vN.phi1k_local / phi1k_iterate / func_2vN / iterate, Approach2vN.determine_phi1_phi0 / generate_current')
add('C03', 'Compiled RTD kernels and currents equal the Python RTD ones',
    "For every system the compiled real-time-diagrammatic approach builds the same first-order, second-order, coherence-correction and "
    "energy-current kernels, and from them the same particle, energy and heat currents, as the Python implementation. Not compared: which of the "
    "entries with amplitudes below 1e-9 (relative to the temperature) are left out as negligible.",
    ['inputs', 'configurations'], 'all systems, couplings, temperatures and options (including off-diagonal corrections on or off)',
    'Tests compare stationary currents of two tiny models; individual second-order diagrams may cancel or vanish there.',
    [B + 'RTD.py', B + 'c_RTD.pyx'], 'generate_fct, the row/column generators, add_off_diag_corrections, generate_LN, generate_current')
add('C04', 'Compiled special functions equal the Python special functions',
    "For every argument the compiled Fermi, Bose, digamma, principal-value and RTD integral functions and the rate functions built from them "
    "return the value of the Python function of the same name.",
    ['inputs'], 'all arguments, including the branch boundaries of piecewise definitions',
    'Unit tests evaluate a handful of points.',
    ['qmeq/specfunc/specfunc.py', 'qmeq/specfunc/c_specfunc.pyx', 'qmeq/specfunc/specfunc_elph.py', 'qmeq/specfunc/c_specfunc_elph.pyx'],
    'functions and callable classes of the specfunc modules')
add('C05', 'Index maps and kernel handlers of both implementations mean the same',
    "The compiled and the Python kernel handler resolve every pair of many-body states to the same density-matrix slot, include and count "
    "the same elements, and store the same real-valued master-equation rows for the same complex coefficient; the enumeration used by the "
    "compiled approaches lists exactly the distinct density-matrix elements.",
    ['inputs', 'configurations'], 'all state layouts (charge, spin, symmetry, removed states, with or without coherences)',
    'Only layouts of the example models are built in tests.',
    ['qmeq/approach/kernel_handler.py', 'qmeq/approach/c_kernel_handler.pyx', 'qmeq/indexing.py'],
    'KernelHandler methods in kernel_handler.py and c_kernel_handler.pyx')
add('C06', 'Matrix-free application equals the assembled kernel',
    "Solving without storing the kernel applies, to any density matrix, the operator whose matrix is assembled otherwise (up to a common "
    "sign of the equations for imaginary parts), the normalisation condition replaces the same equation, and after the solve the currents are those of the solution vector.",
    ['inputs', 'configurations'], 'all density matrices, systems and approaches supporting the matrix-free mode',
    'Tests check the converged result of two models only.',
    ['qmeq/approach/kernel_handler.py', 'qmeq/approach/c_kernel_handler.pyx', 'qmeq/approach/aprclass.py', 'qmeq/approach/c_aprclass.pyx'],
    'KernelHandlerMatrixFree versus KernelHandler; generate_vec and solve_matrix_free')
add('C07', 'Kernels of the first-order approaches conserve probability',
    "For every system and parameter set the kernel built by the Pauli, Lindblad, Redfield and 1vN approaches (with and without "
    "electron-phonon coupling) has vanishing time derivative of the total probability for every density matrix.",
    ['inputs', 'configurations'], 'all systems, couplings and density matrices',
    'Normalisation is imposed by replacing one row, so a kernel that leaks probability still yields a normalised result; tests never look at the replaced row.',
    [B + 'pauli.py', B + 'lindblad.py', B + 'redfield.py', B + 'neumann1.py'], 'generate_kern / generate_coupling_terms')
add('C08', 'Kernels preserve Hermiticity of the density matrix',
    "For every system the master-equation kernels map Hermitian density matrices to Hermitian ones: the coefficient linking element (b,b') to "
    "(a,a') is the negative complex conjugate of the one linking (b',b) to (a',a) in the equation i d/dt Phi = K Phi.",
    ['inputs', 'configurations'], 'all systems and couplings of the Lindblad, Redfield and 1vN approaches',
    'Only one triangle of the density matrix is stored, so an asymmetric kernel cannot be seen in results.',
    [B + 'lindblad.py', B + 'redfield.py', B + 'neumann1.py'], 'generate_coupling_terms')
add('C09', 'Lead currents are the charge and energy flow the kernel produces',
    "In the first-order approaches the particle current of every lead is the rate of change of the dot charge caused by that lead's part of "
    "the kernel, and the heat current of a lead is its energy current minus its chemical potential times its particle current (in every approach).",
    ['inputs', 'configurations'], 'all systems, leads and density matrices',
    'Tests compare numbers for two models; currents and kernels are computed by separate code.',
    [B + f for f in ('pauli.py', 'lindblad.py', 'redfield.py', 'neumann1.py', 'neumann2.py', 'RTD.py')], 'generate_current against generate_kern')
add('C10', 'Parallel loops of the compiled approaches are free of data races',
    "Iterations that may run concurrently in the compiled approaches never write a location that another iteration reads or writes, other than "
    "through a declared reduction, a slot owned by the executing thread or the same constant stored by all of them.",
    ['schedules'], 'all thread interleavings and thread counts',
    'Races need specific interleavings and usually run unnoticed on small models.',
    [B + 'c_RTD.pyx', B + 'c_pauli.pyx', 'qmeq/approach/c_aprclass.pyx', 'qmeq/approach/c_kernel_handler.pyx'], 'prange regions and everything called from them')
add('C11', 'Solving repeatedly gives the result of a fresh solve',
    "Solving the same system object again, with unchanged or changed parameters, starts from cleared intermediate results: nothing accumulated "
    "in an earlier solve contributes to kernel, occupations or currents.",
    ['histories'], 'all sequences of solves and parameter changes',
    'Tests solve an object once or twice with all terms non-zero, so stale entries are overwritten.',
    ['qmeq/approach/aprclass.py', 'qmeq/approach/c_aprclass.pyx', B, L], 'clean_arrays / prepare_arrays versus the accumulating writes')
add('C12', 'A changed option takes effect at the next solve',
    "After an option of the solved system (symmetrised equation, replaced normalisation row, matrix-free mode, solution method, coherence "
    "treatment, iteration and grid settings) is changed, the next solve uses the new value exactly as a fresh object created with it would.",
    ['histories', 'configurations'], 'all orders of option changes and solves',
    'Tests set options once at construction.',
    ['qmeq/builder/builder.py', 'qmeq/builder/funcprop.py', 'qmeq/approach/aprclass.py', 'qmeq/approach/c_aprclass.pyx'], 'option setters and the values captured when an approach is prepared')
add('C13', 'Changing the considered states refreshes everything derived from them',
    "After states are removed or restored, or the kind of master equation is changed, every index map, energy, many-body matrix, kernel and work "
    "array used by the next solve belongs to the new state space, including the electron-phonon indexing.",
    ['histories'], 'all sequences of state removal/restoration and solves',
    'Tests remove states once on a single model.',
    ['qmeq/builder/builder_base.py', 'qmeq/builder/builder_elph.py', 'qmeq/builder/various.py', 'qmeq/indexing.py'], 'remove_states/use_all_states/remove_coherences and set_statesdm')
add('C14', 'add/change keep every representation of a parameter in step',
    "Adding to or changing Hamiltonian elements, tunnelling amplitudes, electron-phonon couplings or lead/bath parameters updates the dictionary, "
    "the array and the many-body representation so that the next solve equals that of a new object built with the resulting parameters.",
    ['inputs', 'histories'], 'all sequences of add and change calls',
    'Tests apply one add and one change on one model.',
    ['qmeq/qdot.py', 'qmeq/leadstun.py', 'qmeq/baths.py'], 'add/change methods')
add('C15', 'Many-body matrices carry consistent fermion signs and are Hermitian',
    "For every set of single-particle parameters the many-body Hamiltonian is Hermitian; the one-particle (h_ij moves an electron from i to j), two-particle, tunnelling, "
    "electron-phonon and spin-ladder operators are the fermionic operator products of one and the same ordering of the levels, whatever the occupation of the levels in between; "
    "elements that lead to removed states are left out. Parameters given for one spin are copied to the other whenever the spin symmetry is requested, however the option string was made.",
    ['inputs'], 'all single-particle parameters and numbers of levels',
    'Signs appear only with three or more levels between creation and annihilation; most examples have one or two.',
    ['qmeq/qdot.py', 'qmeq/leadstun.py', 'qmeq/baths.py'], 'construct_ham_coulomb/hopping, construct_Tba, construct_Vbbp, spin symmetry handling')
add('C16', 'All readers agree on the layout of the density matrix',
    "Every routine that stores or reads density-matrix elements in the solution vector agrees on where the real part, the imaginary part and "
    "the conjugated element of each pair of states live, and an element marked as absent is never given a place; for states which are not used the readers return zero.",
    ['configurations'], 'all state layouts, indexing schemes and approaches',
    'Only layouts of example models are tested.',
    ['qmeq/indexing.py', 'qmeq/builder/builder_base.py', 'qmeq/builder/various.py', 'qmeq/approach/kernel_handler.py'], 'get_ind_dm0, mapdm0/booldm0/conjdm0, get_phi0/get_phi1, kernel handlers')
add('C17', 'A failed solution is reported and leaves no stale result',
    "When a linear solver (numpy or the LAPACK drivers) or the matrix-free root finder raises an error or reports a failure status, the user is told, the "
    "success flag is false, no exception escapes and the occupations are zero rather than those of an earlier solve; when it returns, the occupations are its "
    "solution, the success flag is what it reported (non-convergence of the root finder gives success False) and, for the matrix solvers, the normalisation "
    "condition had replaced its row of both the kernel and the right-hand side before the call.",
    ['fault_sequences'], 'all failures of the linear algebra back end',
    'Tests never make the solver fail.',
    ['qmeq/approach/aprclass.py', 'qmeq/approach/c_aprclass.pyx'], 'solve_kern, solve_matrix_free, lapack wrapper')
add('C18', 'Every accepted option value is implemented, others are replaced and reported',
    "For every kind of builder (single-particle, many-body, with and without phonons): every named master equation that is accepted selects its own implementation "
    "(compiled or Python, with or without phonons), also when kerntype is set later; every accepted value of itype, itype_ph, mfreeq, indexing and symmetry is used "
    "without a warning and every other value is replaced by the documented default with a warning (itype 0, or 1 for RTD; itype_ph 0; mfreeq False for RTD and 2vN; indexing "
    "charge; kerntype Pauli, also for RTD with phonons), mfreeq also when it or kerntype is set later; every other constructor option or assigned option arrives where it is "
    "read; and every accepted combination (symq, solmethod, mfreeq, itype, itype_ph, indexing, off_diag_corrections, make_kern_copy) can be solved, by the solver it asks for.",
    ['configurations'], 'the full cross product of builders and option values',
    'Tests use the common values.',
    ['qmeq/builder/validation.py', 'qmeq/builder/builder_base.py', 'qmeq/builder/builder_elph.py', 'qmeq/approach/__init__.py'], 'validators, factories and dispatch tables')
add('C19', 'Objects passed in by the user are never modified',
    "Lists, dictionaries and arrays handed to a builder (of any kind, many-body input included) or to a method of it or of its parts (add, change, "
    "update_Tba0, update_Vbbp0, remove_fock_states, sort_eigenstates, set_statesdm) are left unchanged by that call and by every later call, solving included. "
    "(Arrays assigned to attributes are used as they are and are not part of this; nor is a solve with qdq=True of many-body input, which is not supported.)",
    ['inputs', 'histories'], 'all argument objects and call sequences',
    'Tests pass fresh literals and never look at them afterwards.',
    ['qmeq/builder', 'qmeq/qdot.py', 'qmeq/leadstun.py', 'qmeq/baths.py', 'qmeq/indexing.py'], 'parameters of public methods and the attributes that hold them')
add('C20', 'Compiled kernels access arrays only inside their bounds',
    "Bounds checking is switched off in the compiled approaches, yet every index they use lies inside the array it addresses, for every system the builder accepts "
    "(states and coherences left out, any indexing the approach supports, any number of threads); the Python approaches address the same elements without wrapping "
    "around to the end of an array, and the arrays they combine have matching extents.",
    ['inputs', 'configurations'], 'all systems, leads, baths and thread counts',
    'An access slightly outside an array usually goes unnoticed.',
    ['qmeq/approach', 'qmeq/specfunc', 'qmeq/wrappers'], 'array accesses in .pyx code against the allocated extents')
add('C21', 'Energies, tunnelling and phonon couplings use one eigenbasis',
    "In every solve that diagonalises the dot and rotates the couplings (the default), the energies, tunnelling amplitudes and electron-phonon couplings "
    "used come from one and the same diagonalisation of the current Hamiltonian: the couplings are the original many-body operators rotated once as V^dagger X V "
    "with those eigenvectors, block by block over all leads, baths and charges, whatever was changed, added, removed or sorted before.",
    ['histories'], 'all sequences of parameter changes, diagonalisations, rotations and solves',
    'Tests solve freshly created objects.',
    ['qmeq/qdot.py', 'qmeq/leadstun.py', 'qmeq/baths.py', 'qmeq/approach/aprclass.py'], 'diagonalise, rotate, Tba0/Vbbp0 and solve')
add('C22', 'Distribution functions stay finite for any energy and temperature',
    "The Fermi, Bose and related distribution functions guard every exponential against overflow for either sign of the argument, and return the "
    "correct limiting value there.",
    ['inputs'], 'all floating-point energies and temperatures',
    'Tests use moderate arguments.',
    ['qmeq/specfunc/specfunc.py', 'qmeq/specfunc/c_specfunc.pyx'], 'fermi_func, bose, diff_fermi, func_pauli and relatives')
add('C23', 'State labels are exact and selections keep exactly the states asked for',
    "For every indexing scheme each label stands for exactly one Fock state and is listed under its charge and spin; the maps between labels, Fock states "
    "and quantum numbers invert each other, also after Fock states are removed. Removing states or coherences by energy drops exactly those beyond the "
    "given bound, for the electron-phonon indexing as well, and restoring the states brings all of them back.",
    ['inputs', 'histories'], 'all numbers of states, indexing schemes, energies, bounds and sequences of removals',
    'Tests compare a few tables for one size and remove states once on one model.',
    ['qmeq/indexing.py', 'qmeq/builder/various.py', 'qmeq/builder/builder_elph.py'], 'StateIndexing, make_quantum_numbers, remove_fock_states, remove_states, use_all_states, remove_coherences')
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')

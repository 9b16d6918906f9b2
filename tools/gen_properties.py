"""Writes /verif/properties.jsonl (kept as a generator so the text stays reviewable)."""
import json, os
PSR="impurityModel/ed/product_state_representation.py"; CR="impurityModel/ed/create.py"; RM="impurityModel/ed/remove.py"
FI="impurityModel/ed/finite.py"; SP="impurityModel/ed/spectra.py"; AV="impurityModel/ed/average.py"; MC="impurityModel/ed/mpi_comm.py"
GS="impurityModel/ed/get_spectra.py"; CF="impurityModel/ed/get_spectra_using_CF.py"; PR="impurityModel/plotScripts/plotRIXS.py"
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

p("C01","Product-state representations convert losslessly into each other",
"For every number of spin-orbitals n >= 1 and every set of occupied spin-orbitals, converting the product state between any two of the tuple, string, integer, bitarray and bytes representations gives exactly the representation of the same occupation set. Spin-orbital 0 is the first character, the most significant bit and the most significant bit of the first byte, tuples are sorted, strings have exactly n characters and unused bits of the last byte are zero. A conversion never changes its argument and never returns an object whose later modification changes the argument.",
["inputs"],"all n (byte boundaries included) and all 2^n occupations",
"the tests convert one 7-orbital state (2, 5); byte boundaries, empty and full states, long states and leading zeros are never exercised",
[PSR],[("20 pairwise conversion functions",PSR)])
p("C02","Creating/annihilating one electron is exact in all five representations",
"Adding (removing) an electron at spin-orbital i succeeds exactly when i is empty (occupied), changes only the occupation of i, and returns the amplitude (-1)^(number of electrons in spin-orbitals with index below i); otherwise the amplitude is 0 and nothing is added or removed (a mutable state is left as it was; the immutable variants return their documented 'nothing' state -1, (), '' or the unchanged bytes). All five representations agree with each other. Consequently the fermionic anticommutation relations hold for any two spin-orbitals on any product state.",
["inputs"],"all n, all i < n, all product states",
"two tests on one 7-orbital state; signs depend on the parity of an arbitrary number of electrons and on position relative to byte boundaries",
[CR,RM,PSR],[("create.utuple/uint/ustr/ubitarray/ubytes",CR),("remove.utuple/uint/ustr/ubitarray/ubytes",RM)])
p("C03","Applying an operator is the exact second-quantised action",
"Applying an operator (a dict of creation/annihilation strings, of any length and order, with complex strengths) to a many-body state returns, for each product state, the sum over terms and input states of amplitude x strength x fermionic sign of the rightmost-first action, and nothing else. With occupation restrictions exactly the resulting product states that fulfil every restriction (inclusive bounds on the number of electrons in each orbital set) are kept, and afterwards exactly the product states whose squared amplitude modulus is below the cutoff are removed. Operator and state arguments are left unchanged.",
["inputs"],"all operators, states, restrictions and cutoffs",
"the tests apply a handful of one- and two-electron operators to two states; sums of interfering terms, complex strengths, restrictions with several sets and the cutoff boundary are input-dependent",
[FI,CR,RM],[("applyOp without cache",FI)])
p("C04","Operator application with a result cache is transparent",
"When an operator is applied with a cache, the returned state equals the uncached result (with the same restrictions and cutoff) whatever sequence of states the same operator was applied to before with that cache, provided no individual matrix element falls below the cutoff. After each application the cache holds, for every product state seen so far, exactly the operator acting on that one product state, with elements of squared modulus below the cutoff left out. Earlier entries are never changed by later applications.",
["histories","inputs"],"all sequences of applications sharing a cache, all states and operators, with and without restrictions",
"one test applies one operator once with a cache; reuse of entries across applications and states that interfere is a history property",
[FI],[("applyOp with opResult",FI)],[("opResult","|PS> -> op|PS>, shared between calls",FI)])
p("C05","Operator adjoint is exact and hermiticity checks are reliable",
"The adjoint of an operator maps every term to the term with reversed order, creation and annihilation exchanged and complex-conjugated strength, so <a|O b> = <O+ a|b> for all states; taking it twice gives back the operator and the argument is unchanged. The hermiticity assertion passes when the operator equals its adjoint (up to rounding errors) and fails otherwise. An unknown action label is rejected.",
["inputs"],"all operators with complex strengths and all states",
"no test calls these functions directly",
[FI],[("daggerOp, assert_hermitian",FI)])
p("C06","Many-body states obey vector-space and inner-product rules",
"The inner product is conjugate-linear in its first and linear in its second argument over common product states, the squared norm equals the inner product of a state with itself, and adding a multiple of a state (in place or to a new object) changes exactly the amplitudes it should. Non-in-place operations leave their arguments unchanged. Creating or annihilating an electron in a many-body state acts linearly with the fermionic sign, and the two are adjoint to each other.",
["inputs"],"all pairs of states with complex amplitudes and arbitrary overlap of their product states, all multipliers",
"no test covers these functions; conjugation and aliasing errors are invisible for real test amplitudes",
[FI],[("inner, norm2, add, addToFirst, a, c, addOps",FI)])
p("C07","Spin-orbital indexing is a bijection",
"For every shell/bath description (separate shells or several shells sharing one bath), the map from spin-orbital or bath coordinates to an index and its inverse are mutually inverse bijections onto 0..N-1 with N the total number of spin-orbitals. Impurity orbitals come first, shell by shell in the given order with spin down before spin up and rising m, followed by the bath states in the same order. Coordinates or indices that do not exist are rejected with an exception.",
["inputs","configurations"],"all ordered shell descriptions with any numbers of bath states, all coordinates and indices",
"no direct test; only the few shell layouts of the example runs are ever exercised",
[FI],[("c2i, i2c",FI)])
p("C08","The ground-state basis is exactly the restricted configuration space",
"The generated basis contains every product state, once, whose impurity occupation per shell differs from the nominal one by (valence holes - conduction electrons), within the tolerance, with at most the allowed number of valence-bath holes and conduction-bath electrons, and contains nothing else. Every basis state therefore has the same total electron number per shell (nominal impurity plus valence bath occupation). Occupations that are impossible are rejected and never silently turned into states with another electron number.",
["inputs","configurations"],"all shell layouts, nominal occupations, tolerances and bath excitation limits",
"no test; the example runs use a few settings",
[FI],[("get_basis",FI)])
p("C09","Job distribution partitions the work exactly and evenly",
"For every number of workers and every list of tasks, each task is assigned to exactly one worker exactly once, and the numbers of tasks of any two workers differ by at most one. This includes fewer tasks than workers and no tasks at all. Each worker computes its share without communication from its own rank only.",
["inputs","configurations"],"all worker counts, ranks and task lists",
"tests run on one worker only, where every distribution is trivially complete",
[FI],[("get_job_tasks",FI)])
p("C10","All-gather of dictionaries delivers everything to every rank",
"After gathering, the total dictionary on every rank contains its earlier entries plus exactly the union of the local dictionaries of all ranks, for any sizes (also empty) and any chunk size, and the local dictionaries are unchanged. Splitting a dictionary into chunks on its owner yields disjoint chunks that together are the dictionary, none larger than the chunk size, and yields the same number of (empty) items on the other ranks. All ranks take part in the same communications, so none is left waiting.",
["inputs","configurations","schedules"],"all numbers of ranks, all local dictionaries, all chunk sizes, all interleavings of ranks",
"tests run on one rank and never call these functions",
[MC],[("allgather_dict, dict_chunks_from_one_MPI_rank",MC)])
p("C11","The Hamiltonian matrix is the projected operator, in every mode and rank count",
"Element (i,j) of the Hamiltonian matrix equals <basis_i|H|basis_j> for every basis and operator, including complex strengths and operators that lead out of the basis (those contributions are dropped). Dense, sparse, serial and MPI-distributed construction give the same matrix on every rank for any number of ranks. A Hermitian operator gives a Hermitian matrix.",
["inputs","configurations"],"all operators and bases, four construction modes, all rank counts",
"no direct test; only one mode on one rank is used by the example run",
[FI],[("get_hamiltonian_matrix",FI)])
p("C12","Basis expansion closes the space and yields the right Hamiltonian on all ranks",
"Expanding a set of product states with a Hamiltonian and occupation restrictions returns the starting states first, followed without repetition by exactly the further product states reachable by repeated application under the restrictions, and the accompanying matrix is the Hamiltonian restricted to that space. All ranks obtain the same basis in the same order for any number of ranks, also when earlier results are reused, and in the distributed mode each product state's result is stored by exactly one rank and the local matrices sum to the full one. Restricting, reusing cached results or choosing the parallelisation does not change the result.",
["inputs","histories","configurations","schedules"],"all Hamiltonians, starting sets, restrictions, rank counts, set iteration orders, and histories of reuse",
"the full run exercises one rank count and one system; hash-order and rank effects only show with several ranks",
[FI],[("expand_basis",FI),("get_hamiltonian_matrix_from_h_dict",FI),("expand_basis_and_hamiltonian",FI)],[("h_dict","|PS> -> H|PS>, distributed over ranks",FI)])
p("C13","Lanczos coefficients satisfy the Krylov recurrence, local and distributed",
"For a Hermitian matrix H and normalised start vector v0 the returned coefficients satisfy alpha_j = <v_j|H v_j> and beta_j = |w_j| with w_j = H v_j - alpha_j v_j - beta_{j-1} v_{j-1} and v_{j+1} = w_j / beta_j, for min(requested size, dimension) steps. The result on the collecting rank is the same whether the matrix is held completely, densely, or split as a sum over any number of ranks. If the recurrence ends early it is reported explicitly and no numbers are made up.",
["inputs","configurations"],"all Hermitian matrices and start vectors, all splittings over ranks",
"no direct test",
[FI],[("get_tridiagonal_krylov_vectors",FI)])
p("C14","The Green's function is the resolvent matrix element",
"For a Hermitian Hamiltonian the computed function of frequency equals <psi| ((omega + i delta + e) - H)^(-1) |psi> on the space reachable from psi under the restrictions, for every mesh point, when the Krylov size covers the space; with delta > 0 its imaginary part is never positive. All algorithm variants and rank counts agree on the collecting rank. An empty state gives zero.",
["inputs","configurations"],"all Hamiltonians, states, meshes, broadenings and restrictions; sparse/dense/dict variants; all rank counts",
"only compared with stored reference numbers for one system at loose tolerance",
[SP,FI],[("getGreen",SP)])
p("C15","Spectra are T-weighted resolvents for every state and transition operator",
"Element (i, t, w) of the spectra equals <psi_i| T_t+ ((w + i delta + e_i) - H)^(-1) T_t |psi_i> computed under the restrictions, independently of which other states and transition operators are in the lists. An operator that annihilates the state contributes zero. Both parallelisation modes and all rank counts give the same result on the collecting rank, and the input states are unchanged.",
["inputs","configurations","histories"],"all lists of states, energies, transition operators, meshes, restrictions, modes, rank counts",
"only compared with stored reference numbers for one system at loose tolerance",
[SP],[("getSpectra",SP)])
p("C16","RIXS maps follow the second-order formula for every polarisation pair",
"Element (i, tin, tout, win, wloss) of the RIXS map equals <psi3| ((wloss + i delta2 + e_i) - H)^(-1) |psi3> with |psi3> = T_tout ((win + i delta1 + e_i) - H)^(-1) T_tin |psi_i>, computed under the restrictions, and depends on no other entry of the lists. All four parallelisation modes and all rank counts give the same map on the collecting rank. States and operators passed in are unchanged.",
["inputs","configurations","histories"],"all lists of states, polarisations, meshes, four modes, rank counts",
"only compared with stored reference numbers for one system; all polarisations are summed there",
[SP],[("getRIXSmap",SP)],[("tOut_big/tIn_big","per-operator result caches",SP)])
p("C17","The Coulomb operator is Hermitian, conserving and equal to Slater-Condon theory",
"For every set of Slater integrals, the p-d Coulomb operator is Hermitian, conserves particle number, spin and orbital momentum projection, contains no Pauli-forbidden terms, and is linear in each Slater integral. Each coefficient equals half the Slater-Condon expression with Gaunt coefficients for its orbitals (dd, pp, direct pd and exchange pd contributions all included once). Its action on any two-electron state equals the textbook operator.",
["inputs"],"all values of the Slater integrals; all orbital/spin index combinations of the p and d shells",
"no direct test; a wrong multipole or index order would only shift multiplets",
[FI],[("gauntC, getU, getUop, getNoSpinUop, get2p3dSlaterCondonUop, addOps",FI)])
p("C18","Spin-orbit and magnetic-field operators are the angular momentum operators",
"For every shell and coupling strength the spin-orbit operator is the Hermitian matrix of xi * l.s in the (m, spin) basis, with spin index 0 meaning down. For every field vector the field operator is h.S with S the spin-1/2 operators, and it is Hermitian for all real fields. Both act within one shell only and are linear in their parameters.",
["inputs"],"all shells l = 0..3, all couplings and field vectors",
"no direct test; the runs use hx = hy = 0 and so never use the transverse terms",
[FI],[("getSOCop, gethHfieldop",FI)])
p("C19","Double counting equals the multiplet-ligand-field formula or is rejected",
"For every integer d occupation and all Slater integrals the double-counting energies equal the average-repulsion formulas: U_dd n_d + U_pd n_p - c for d and U_pd (n_d + 1) - c for p, with U_dd = F0 - 14/441 (F2 + F4) and U_pd = F0 - G1/15 - 3 G3/70; with only d input just U_dd n_d - c. Non-integer occupations and inconsistent or partial p inputs raise an error and never give numbers.",
["inputs"],"all occupations, charge-transfer corrections and Slater integrals",
"no direct test",
[FI],[("dc_MLFT",FI)])
p("C20","The assembled Hamiltonian is the sum of its parts in index form, and Hermitian",
"The Hamiltonian operator built from the input file equals the sum of Coulomb, spin-orbit (each shell with its own coupling), magnetic field, minus double counting on every p and d spin-orbital (each shell with its own value), and the non-interacting operator read from file, each coordinate translated to its index. Terms that occur in several parts add up. It is Hermitian whenever the file's operator is, and a non-Hermitian input is rejected.",
["inputs","configurations"],"all parameter values, bath layouts and one-particle operators in the file",
"no direct test of the assembly; one parameter set is run",
[GS,CF,FI],[("get_hamiltonian_operator / get_hamiltonian_operator_using_CF",GS)])
p("C21","The crystal-field Hamiltonian has the requested levels and hybridisation",
"For all crystal-field parameters the d-shell part has eg levels at e_imp + 3/5 delta (2 orbitals) and t2g levels at e_imp - 2/5 delta (3 orbitals) per spin, and each bath set has the requested eg/t2g energies and couples to the impurity orbital of the same symmetry and spin with the requested strength. The operator is Hermitian, and eliminating the bath gives the same hybridisation in the spherical and cubic bath basis. Conduction-bath terms are present exactly when the conduction bath is part of the model, and parameters missing from the file take their documented defaults.",
["inputs","configurations"],"all values (and presence/absence) of the ten parameters, both bath bases, with and without conduction bath",
"no direct test",
[CF,FI],[("get_CF_hamiltonian, read_h0_CF_file",CF),("get_spherical_2_cubic_matrix",FI)])
p("C22","Static expectation values equal those of the defining operators",
"For every many-body state (complex amplitudes, any bath layout) the reported d-shell Lz, Sz, L^2, S^2, occupation, density matrices (spherical and cubic) and eg/t2g occupations per spin equal the expectation values of the operators they name. The density matrix is Hermitian with trace equal to the occupation, and eg plus t2g occupations sum to it. The state is unchanged.",
["inputs"],"all states and bath layouts",
"only printed in runs, never compared",
[FI],[("getLz3d, getSz3d, getLsqr3d, getSsqr3d, apply*3d, getTraceDensityMatrix, getDensityMatrix, getDensityMatrixCubic, getEgT2gOccupation",FI),("get_spherical_2_cubic_matrix",FI)])
p("C23","Thermal averages are Boltzmann averages at the requested temperature",
"For all energies, observables (scalars or arrays) and temperatures T > 0 the thermal average equals sum_i o_i exp(-E_i/kT) / sum_i exp(-E_i/kT), is invariant under a common energy shift, lies between the smallest and largest observable, and stays finite for arbitrarily low or high absolute energies. Mismatched numbers of energies and observables are rejected. The printed thermal expectation values use the temperature they are asked for and the states within the energy cutoff.",
["inputs"],"all energies, observables and temperatures",
"no direct test; the reference run uses one temperature",
[AV,FI],[("thermal_average",AV),("printThermalExpValues",FI)])
p("C24","Dipole and photoemission transition operators are the physical ones",
"For every polarisation vector the dipole operator is the sum over spin-conserving p->d one-electron transitions of the dipole matrix elements n.r between the spherical harmonics, linear in the polarisation, and the emission operators are its exact adjoints. The (inverse) photoemission operators are exactly one annihilation (creation) operator for each spin-orbital of the requested shell, in spin-then-m order. Every index refers to the right spin-orbital for any bath layout.",
["inputs","configurations"],"all polarisation vectors, bath layouts and shells",
"only compared through summed spectra for one system",
[SP,FI],[("getDipoleOperator(s), getDaggeredDipoleOperators, getPhotoEmissionOperators, getInversePhotoEmissionOperators",SP)])
p("C25","NIXS transition operators are the plane-wave matrix elements for every q",
"For every non-zero momentum transfer, including along the z axis and with any sign of its components, the NIXS operator equals the multipole expansion sum_k i^k (2k+1)^(1/2) <radial j_k> conj(Y_km(q direction)) x Gaunt over the allowed multipoles (monopole only on request), diagonal in spin. All coefficients are finite. Each index refers to the right spin-orbital.",
["inputs"],"all momentum vectors, shells and radial functions, multipole cutoffs",
"runs use the single direction (1,1,1)",
[SP],[("getNIXSOperator(s)",SP)])
p("C26","Every stored spectrum is computed from the right ingredients and read back right",
"For every input, the stored datasets are: photoemission as inverse-photoemission on the mesh plus minus the photoemission function on the negated mesh and broadening, core-level emission likewise, NIXS, x-ray absorption and RIXS from their own operators, meshes and broadenings, each as the negated imaginary part per eigenstate together with its thermal average at the requested temperature over exactly the eigenstates used; text files list mesh, sum over operators and single columns. The RIXS file holds the loss-by-incoming map summed over polarisations with both meshes, and the plotting script recovers exactly that map and meshes.",
["inputs","configurations"],"all eigenstates, meshes, broadenings, temperatures, polarisation lists and spectra values",
"only one stored reference is compared; plotting is untested",
[SP,PR],[("simulate_spectra",SP),("RIXS.bin writer/reader",SP+", "+PR)])
p("C27","The driver passes every user parameter to the calculation it controls",
"For all user parameters, the scripts diagonalise the Hamiltonian built from the given parameters in the basis built from the given occupations, restrict excited states to impurity occupation [n-1, n+tolerance+1], valence holes and conduction electrons within their limits, and pass on exactly the lowest eigenstates with energy less than energy_cut*k_B*T above the ground state together with the temperature and broadenings. Printed thermal expectation values refer to the requested temperature; the printed product-state weights belong to the printed product states, and every cubic density-matrix element above the printing tolerance is printed with its indices. Command-line values reach the parameter they name.",
["inputs","configurations"],"all parameter values, both driver scripts",
"one parameter set is run",
[GS,CF],[("main and argument parsing",GS)])
p("C28","Eigenstates are correctly sorted, paired and labelled",
"The returned energies are the lowest requested eigenvalues in ascending order and the k-th state carries the amplitudes of the k-th eigenvector on the right product states, in both diagonalisation modes, given correct results from the numerical eigensolver in whatever order it returns them. Exactly the amplitudes whose squared modulus is below the cutoff are left out. The matrix diagonalised is the Hamiltonian in the given basis.",
["inputs"],"all matrices, eigen-solver return orders, cutoffs, numbers of states",
"runs use one solver ordering",
[FI],[("eigensystem",FI)])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))

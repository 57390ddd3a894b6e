t('C03', 'flow-sensitive abstract interpretation of LLVM IR: lock set, store order and table accesses around the initialisation gate', 'All inputs; the ready flag and the tables are discovered from the code. Mutual exclusion is recognised for OpenMP critical sections and mutex calls only.')
t('C09', 'symbolic-data abstract interpretation (affine terms over caller data) of each entry point against stub specifications', 'All real input data; three combinations of sizes per entry point.')
t('C08', 'type-level comparison of the compiler-checked C declarations (libclang) with the parsed Fortran interface blocks', 'All entry points and all arguments of the Fortran module; passing convention, kind, rank, order and intent are compared.')
t('C19', 'type-level comparison of header declarations, definitions and build lists (libclang and LLVM symbol tables)', 'All headers and translation units of the library; every declared function must be defined once with the same type.')
t('C11', 'symbolic-data abstract interpretation (exact linear forms) of the composite routines over stub specifications of the component routines', 'All values of the component integrals; enumerated numbers, angular momenta and orders of components up to the documented capacity (100 per part), representative shells.')
t('C12', 'symbolic-data abstract interpretation (exact linear forms) of the gradient routines over stub specifications of the component routines', 'All values of the primitive integrals; all 15 coincidence patterns x 6 relative placements of the points; enumerated angular momenta (to the documented maximum for the one-component gradients), contraction lengths and three component orders.')
t('C10', 'symbolic-data abstract interpretation of the nuclear-attraction routines against stub specifications of the potentials and integrators', 'All model parameter values; all six models through both routines; enumerated charges and shell sizes.')
t('C16', 'constant-initialiser analysis: every table entry read from LLVM IR and compared with its defining formula in high-precision arithmetic', 'Exhaustive over all entries the library can read; allowed deviations are listed in the evidence.')
t('C17', 'data-provenance and symbolic-data abstract interpretation of the setters and of every consumer of the settings', 'All setting values within wide ranges; consumers discovered by provenance analysis of the integral routines for enumerated shapes.')
t('C18', 'abstract interpretation with concrete angular momentum of the component generators and of user orders', 'All angular momenta up to the documented maximum for the built-in conventions; user orders with symbolic content.')

F = 'All values of the substituted ingredients (symbols); angular momenta, contraction lengths, placements and exponents enumerated (see evidence); other exponents and placements are not covered.'
t('C26', 'symbolic-data abstract interpretation (exact linear forms) of the outercore routines against an independently derived operator expression', F)
t('C27', 'symbolic-data abstract interpretation (exact linear forms in the radial integrals) of the semi-local and spin-orbit routines against independently derived angular expansions', F)
t('C28', 'symbolic-data abstract interpretation (exact linear forms in the auxiliary functions) of the local-potential and nuclear routines against independently derived Hermite and harmonic expansions', F)
t('C29', 'symbolic-data abstract interpretation (exact linear forms in the contraction coefficients) of the one-electron routines against closed forms', F)
t('C30', 'symbolic-data abstract interpretation (exact linear forms in the charge or in the special functions) of the nuclear models against the analytically integrated density', 'All charges and all values of the special functions (symbols); distances and model parameters enumerated (inside, at and outside the nuclear radius; tight and diffuse nuclei). Accuracy of the special functions themselves is not covered here (tables: C16).')
t('C31', 'symbolic-data abstract interpretation (exact linear forms in the potential or contraction coefficients) of the radial quadratures, the Bessel function replaced by a family with analytic integrals', 'All coefficients (symbols); exponents, distances, orders, powers and contraction lengths enumerated. Accuracy of the Bessel function (tables: C16), screening (N04) and the stopping criterion (C17) are not covered here.')

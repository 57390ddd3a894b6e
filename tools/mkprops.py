import json
P=[]
def p(id,title,st,over,qt,why,files,mech,state=None):
    a={"files":["libgrpp/"+f if not f.startswith('test_') else f for f in files],"mechanism":[{"name":n,"where":w} for n,w in mech]}
    P.append({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":qt},"why_tests_cant":why,"anchors":a})

ints=["overlap.c","kinetic.c","momentum.c","type1_integrals.c","type1_mcmurchie_davidson.c","type2_integrals.c","radial_type2_integral.c","spin_orbit_integrals.c","outercore_integrals.c","nuclear_attraction.c","radial_type1_integral.c"]
grads=["grpp_integrals_gradient.c","overlap_gradient.c","diff_gaussian.c"]

p("C01","Integral and gradient routines never modify their inputs",
 "No integral or gradient routine, called from C or through its Fortran entry point, writes to any caller-supplied input - shells and their primitive and Cartesian lists, potentials, full pseudopotential objects, points, parameter arrays - at any moment of the call, not even temporarily with restoration afterwards. The only caller memory written is the output matrices named in the interface. Hence one input object can be shared by any number of concurrent or successive calls.",
 ["inputs","schedules"],"every public integral/gradient routine, every argument value and every control path through it, and every interleaving of two calls sharing inputs",
 "Tests run single-threaded, look only at the output matrices and never compare the inputs before and after; a temporary write with restoration is invisible to them.",
 ints+grads+["full_grpp_integrals.c","fortran.c"],[("private deep copies before shrinking/renormalising","radial_type2_integral.c:tabulate_radial_type2_integrals, type1_integrals.c:libgrpp_type1_integrals"),("differentiated shells are new objects","diff_gaussian.c:differentiate_shell"),("centre of outercore shells","outercore_integrals.c:libgrpp_outercore_potential_integrals")])

p("C02","No hidden mutable state behind the computing routines",
 "Apart from initialisation, finalisation and the documented parameter setters, no public routine writes to global or function-static storage, keeps a pointer to caller memory after returning, or calls a non-reentrant library facility. A result therefore depends only on the arguments, the initialised tables and the parameters, never on earlier calls or on what other threads are computing.",
 ["schedules","histories"],"every public routine other than init/finalize/setters, every control path, every interleaving and every call history",
 "Tests are single-threaded and call each routine in one fixed order; a static cache or scratch buffer gives identical results there.",
 ints+grads+["full_grpp_integrals.c","grpp.c","shell.c","potential.c","parameters.c","init_finalize.c","spherical_harmonics.c","specfunc_bessel_table.c"],[("tables written only during initialisation","init_finalize.c:libgrpp_init"),("all work arrays are automatic or heap-allocated per call","every integral routine"),("parameters changed only by setters","parameters.c")])

p("C03","Initialisation gate and once-only thread-safe initialisation",
 "Every routine that needs the precomputed tables refuses to run (aborts by assertion) before initialisation and after finalisation, and does so before touching any table. Initialisation builds every table before the library is declared ready, does its work at most once, and checking and setting the ready state happen under mutual exclusion, so concurrent first calls are safe.",
 ["histories","schedules"],"every sequence and interleaving of init, finalize and computing calls",
 "Tests always initialise once, first, from one thread, and never call a routine while the library is uninitialised.",
 ["init_finalize.c","type1_integrals.c","type2_integrals.c","spin_orbit_integrals.c","outercore_integrals.c","full_grpp_integrals.c","nuclear_attraction.c","spherical_harmonics.c","specfunc_bessel_table.c"],[("ready flag inside a critical section","init_finalize.c:libgrpp_init, libgrpp_finalize"),("assertion at entry of the integral routines","type1_integrals.c, type2_integrals.c, spin_orbit_integrals.c, outercore_integrals.c, full_grpp_integrals.c, nuclear_attraction.c")])

p("C04","Constructors and copies own their data",
 "A shell or potential created from caller arrays, or derived from another shell or potential (deep copy, removal of zero terms, differentiation), holds its own copy of every array: it shares no storage with the caller's arrays or with the object it was derived from, and the source is left unchanged. Its fields reproduce the source data: angular momenta, number of primitives, and every power, coefficient, exponent and coordinate in order; a deep copy also has the Cartesian components of its source, in the order of the source.",
 ["inputs","histories"],"every constructor/copier, every number of primitives and angular momentum, every later modification or destruction of the source",
 "Tests keep the arrays they pass alive and unchanged, so an object that merely borrows them behaves identically.",
 ["shell.c","potential.c","diff_gaussian.c","fortran.c"],[("copying loops","shell.c:libgrpp_new_shell, libgrpp_shell_deep_copy; potential.c:libgrpp_new_potential, libgrpp_shrink_potential")])

p("C05","Memory is released exactly once and only by its owner",
 "Every computing routine releases all memory it allocated on every path to its return, never releases anything twice, never uses memory after releasing it, and never releases objects the caller only lent to it. Every object built by a constructor is released completely by the matching destructor, and a full pseudopotential object releases exactly the potentials and shells that were handed over to it.",
 ["inputs","histories"],"every public routine and every path through it (early exits, vanishing coefficients, zero potentials, screened integrals, coincident centres), every construction/destruction sequence",
 "The tests do not run under a leak checker and take only the common paths; a leak on an early exit changes no output.",
 ints+grads+["grpp.c","shell.c","potential.c","lmatrix.c","utils.c","full_grpp_integrals.c","fortran.c"],[("cleanup blocks at the end of each routine","every integral routine"),("temporary pseudopotential objects detach lent potentials before destruction","grpp_integrals_gradient.c"),("destructors","grpp.c, shell.c, potential.c, utils.c")])

p("C06","Outputs are fully determined by the call",
 "Every element of every output array is assigned by the call itself on every path - including early exits, vanishing coefficients, empty potentials and coincident centres - and no output element depends on its previous content or on uninitialised memory. The only exception are the two documented partial outercore Fortran entry points, which add to their outputs.",
 ["inputs","histories"],"every public integral/gradient routine, every argument value, every previous content of the output arrays",
 "Test programs hand in freshly zeroed matrices and sample a few paths, so accumulation into stale data or an unassigned element passes unnoticed.",
 ints+grads+["full_grpp_integrals.c","fortran.c"],[("zeroing of outputs at entry","every integral routine"),("assignment loops over the Cartesian product","type2_integrals.c, type1_integrals.c, grpp_integrals_gradient.c")])

p("C07","No out-of-bounds access within the documented limits",
 "For basis functions and pseudopotentials up to the documented maximum angular momentum (10 each) and documented capacities, no public routine reads or writes outside the bounds of any array, structure or table, including one-past indices formed for derivatives of s-type components and the last rows of recurrence tables.",
 ["inputs"],"every public routine, all angular momenta 0..10 of both shells, the pseudopotential and the outercore shells, all contraction lengths and all real arguments",
 "Tests use low angular momenta (up to about 4) and do not run with address checking; a small overrun corrupts nothing they look at.",
 ints+grads+["specfunc_boys.c","specfunc_scaled_mod_sph_bessel.c","specfunc_bessel_table.c","specfunc_gfun.c","spherical_harmonics.c","angular_integrals.c","binomial.c","factorial.c","lmatrix.c"],[("fixed-size recurrence tables","overlap.c, kinetic.c, momentum.c, type1_mcmurchie_davidson.c"),("linear index of a Cartesian component","diff_gaussian.c:nlm_to_linear and its callers"),("adaptive radial grid buffers","radial_type1_integral.c, radial_type2_integral.c")])

p("C08","Fortran interface declarations agree with the C entry points",
 "Every procedure declared in the Fortran interface module exists as an exported entry point with the same number, order, kind and passing convention of arguments and the same result kind, and every constant duplicated in the Fortran module (Cartesian orders, nuclear models) has the value of its C counterpart.",
 ["programs"],"every procedure and constant declared in the Fortran module",
 "The Fortran tests call only some procedures with one argument pattern each, and a wrong integer kind or swapped constant often works by accident on a little-endian machine.",
 ["fortran.c","libgrpp.h","parameters.h","test_libgrpp_f90/libgrpp.f90"],[("exported entry points with trailing underscore","fortran.c"),("interface block and constants","test_libgrpp_f90/libgrpp.f90")])

p("C09","Fortran entry points forward every argument faithfully",
 "Calling a Fortran entry point has exactly the effect of the corresponding C routine applied to the same data: each argument reaches the corresponding parameter (scalars dereferenced, arrays passed through, structures assembled field by field in order), the result is stored into the corresponding output, and nothing is dropped, swapped or duplicated.",
 ["programs","inputs"],"every Fortran entry point and every value of its arguments",
 "Fortran tests cover a few entry points with symmetric data; swapped or truncated arguments of the others are never exercised.",
 ["fortran.c"],[("wrappers with trailing underscore","fortran.c")])

p("C10","Nuclear charge models are dispatched with the right parameters",
 "Each nuclear charge model selects exactly its own electrostatic potential, and the charge and every model parameter (rms radius; half-density radius, skin thickness, bubble depth) reaches the matching parameter of that potential. The convenience routine of a model gives the same result as the generic routine called with that model and the documented parameter list, and the potential enters with the same attractive sign for all models.",
 ["inputs","configurations"],"every nuclear model, every charge and parameter value, generic and convenience entry points",
 "Tests exercise only the generic routine with a few models; the convenience routines are not called by any test.",
 ["nuclear_attraction.c","nuclear_models.c","fortran.c"],[("model selection chain and parameter slots","nuclear_attraction.c:libgrpp_nuclear_attraction_integrals"),("convenience routines","nuclear_attraction.c"),("potential adapters","nuclear_attraction.c:wrapper_coulomb_potential_*")])

p("C11","The full pseudopotential integral is the sum of its components",
 "Integrals over a full pseudopotential equal, element by element, the local integral plus the semi-local integrals over every averaged component plus the scalar outercore part; the spin-orbit matrices equal the sum over every spin-orbit component scaled by 2/(2L+1) plus the spin-orbit outercore part. The outercore part is the sum, over every outercore shell, of its one-shell term and, over every ordered pair of outercore shells with the same L and J, of the two-shell term. Every component stored in the object enters exactly once with its own radial part, each axis goes to its own matrix, and missing components contribute nothing.",
 ["inputs","configurations"],"every number (including zero) and order of local, averaged, spin-orbit and outercore components and every angular momentum",
 "Tests use a handful of pseudopotentials with consecutive components; empty parts, repeated L or many components are not sampled.",
 ["full_grpp_integrals.c","grpp.c"],[("accumulation of component integrals","full_grpp_integrals.c"),("component lists","grpp.c")])

p("C12","Gradients are the exact derivative combination of shifted integrals",
 "The gradient with respect to a point equals the sum, over every centre that coincides with this point, of the derivative with respect to that centre, where differentiating a shell's centre gives 2*exponent times the integral with the raised component minus the exponent of the component times the integral with the lowered one, for every primitive, component and axis, and the derivative with respect to the pseudopotential centre is minus the sum of the two shell derivatives. Hence gradients over all distinct centres cancel, and points carrying no centre give exactly zero.",
 ["inputs","configurations"],"every coincidence pattern of the two shell centres, the pseudopotential centre and the differentiation point, all angular momenta, contraction lengths and both Cartesian orders, for overlap and all pseudopotential gradients",
 "Gradient tests compare with finite differences for a few geometries; the coincidence cases, s functions, and non-default Cartesian orders are sampled sparsely or not at all.",
 grads,[("case analysis over coincident centres","grpp_integrals_gradient.c:libgrpp_full_grpp_integrals_gradient; overlap_gradient.c"),("raised/lowered shells","diff_gaussian.c:differentiate_shell"),("assembly of derivative from up/down blocks","grpp_integrals_gradient.c, overlap_gradient.c")])

p("C13","Integrals are dimensionally homogeneous",
 "Every integral has the physical dimension fixed by its operator: when all lengths are rescaled (coordinates times s, Gaussian exponents divided by s squared, model radii times s, and potential coefficients consistently with their power of r), every element of the result scales by one and the same known power of s. No intermediate step adds, compares or exponentiates quantities in a way that would break this scaling.",
 ["inputs"],"all geometries, exponents, coefficients and angular momenta, for overlap, kinetic, momentum, local, semi-local, spin-orbit, outercore and nuclear attraction integrals",
 "It relates runs with different inputs over a continuum; tests compare a few fixed inputs with reference numbers, and a wrong power of an exponent in a rarely used branch is not sampled.",
 ints+["norm_gaussian.c","specfunc_gfun.c","specfunc_boys.c","screening.c","nuclear_models.c"],[("recurrences and prefactors","overlap.c, kinetic.c, type1_mcmurchie_davidson.c, type2_integrals.c, radial_type2_integral.c"),("normalisation","norm_gaussian.c")])

p("C14","Integrals respect mirror reflections and Cartesian placement",
 "Reflecting every coordinate in one axis multiplies each element of an integral matrix by the sign given by the parity, in that axis, of the two Cartesian components labelling that element - times the extra sign of the operator component (vector for momentum and gradients, axial vector for spin-orbit). Element (i,j) is thus always the integral between the i-th component of the first shell's list and the j-th of the second's, in row-major order, whatever order the lists are in.",
 ["inputs"],"all geometries, angular momenta, component orders and axes for every matrix-valued routine",
 "Tests check fixed geometries with one component order; a sign or index error that matters only for other components or geometries is not seen.",
 ints+grads,[("loops over Cartesian lists and row-major stores","every integral routine"),("angular factors and real spherical harmonics","angular_integrals.c, spherical_harmonics.c, lmatrix.c")])

p("C15","Every input takes effect exactly where it should",
 "Every element of an integral that is not zero by symmetry depends on all data it is defined by: each coordinate of the centres involved, each exponent and coefficient of each primitive of both shells and of the potential; no primitive is skipped and none is replaced by another. It does not depend on data that do not belong to it, such as the nominal J or L label of a potential where these are irrelevant.",
 ["inputs"],"every public integral routine, every contraction length, element and input datum",
 "Tests use few primitives and compare sums; a dropped contribution that is negligible for their data passes.",
 ints,[("contraction loops","every integral routine")])

p("C16","Built-in numerical tables satisfy their defining formulas",
 "Every precomputed constant table in the sources (factorials, double factorials, Boys function grid, Chebyshev coefficients of the Dawson integral, Bessel function grid and asymptotic coefficients, Fermi-model function grid, normalisation factors) holds, entry by entry, the value of its defining mathematical formula to the precision the code relies on.",
 ["inputs"],"every entry of every constant table",
 "A test reaches only the few entries selected by its arguments; a wrong entry elsewhere is never read.",
 ["factorial.c","specfunc_boys.c","specfunc_bessel_table.c","specfunc_scaled_mod_sph_bessel.c","specfunc_dawson.c","specfunc_fermi_sk.c","outercore_integrals.c"],[("constant tables","factorial.c, specfunc_boys.c, specfunc_dawson.c, specfunc_bessel_table.c, specfunc_fermi_sk.c")])

p("C17","Accuracy parameters take effect",
 "Each accuracy parameter that the library lets the user set is actually consulted by the routines it is documented to control: the requested radial tolerance decides when adaptive radial quadrature stops, and the default settings restore the documented defaults. Adaptive quadrature always terminates within its maximum grid.",
 ["configurations","inputs"],"every parameter setter, every value set, every routine using radial quadrature",
 "Tests never change a tolerance and then look for an effect.",
 ["parameters.c","radial_type1_integral.c","radial_type2_integral.c","type2_integrals.c"],[("tolerance parameter","parameters.c:libgrpp_params"),("adaptive quadrature stop test","radial_type1_integral.c, radial_type2_integral.c")])

p("C18","Cartesian component lists are complete and in the documented order",
 "For every angular momentum the generated Cartesian list contains each component (n,l,m) with n+l+m=L exactly once - for both built-in conventions by descending power of x, then descending power of y - and every shell created from data afterwards carries (L+1)(L+2)/2 components in the order of the selected convention. Position lookup of a component inverts the list used by the shells while the selected convention is unchanged.",
 ["inputs","configurations"],"all angular momenta up to the documented maximum plus the derivative shells, both documented orders and any user-supplied generator",
 "Tests use low angular momenta with the default order only.",
 ["parameters.c","shell.c","diff_gaussian.c","grpp_integrals_gradient.c","overlap_gradient.c"],[("generators","parameters.c:cartesian_generator_dirac, cartesian_generator_turbomole"),("index lookup","diff_gaussian.c:nlm_to_linear")])

p("C19","Declared interfaces exist and match their definitions",
 "Every routine declared in a public header is defined in the library with exactly the declared parameter and result types, and every prototype repeated in another source file agrees with the definition it refers to.",
 ["programs"],"every declaration of every library routine in every header and source file",
 "Tests link only the routines they call, and a C prototype that disagrees with the definition still links and often works.",
 ["libgrpp.h","overlap.h","overlap_gradient.h","kinetic.h","momentum.h","nuclear_models.h","parameters.h","specfunc.h","utils.h","type1_mcmurchie_davidson.c","nuclear_attraction.c"],[("repeated local prototypes","*.c"),("public headers","libgrpp.h")])

p("C20","Integrals are linear in contraction and potential coefficients",
 "Each integral is exactly of first degree in the contraction coefficients of the first shell, in those of the second shell, and in the coefficients of the (local, semi-local or spin-orbit) potential: scaling any of these sets by a factor scales the whole matrix by that factor. Outercore integrals are in the same way linear in both basis shells and in the potential coefficients for fixed outercore shells.",
 ["inputs"],"all coefficient values, contraction lengths, geometries and angular momenta",
 "Linearity relates infinitely many inputs; tests evaluate isolated inputs.",
 ints,[("contraction loops","every integral routine"),("private copies carrying normalised coefficients","radial_type2_integral.c, outercore_integrals.c")])

p("C21","Coincident centres and boundary arguments never divide by zero",
 "For every coincidence pattern of the centres (all equal, any two equal, points sharing coordinates) and at the boundary arguments of the special functions (zero argument, zero distance, s functions), no routine divides by zero or evaluates a function outside its domain, so results are finite.",
 ["inputs"],"every coincidence pattern of centres and every boundary argument of the special functions, all angular momenta",
 "Tests sample a few coincidence patterns; the removable singularities of each special function and recurrence are not enumerated.",
 ints+["specfunc_boys.c","specfunc_gfun.c","specfunc_scaled_mod_sph_bessel.c","specfunc_dawson.c","spherical_harmonics.c","nuclear_models.c","norm_gaussian.c"],[("special branches at zero argument","specfunc_*.c, spherical_harmonics.c, radial_type2_integral.c, nuclear_models.c")])

p("C22","Valid input never aborts the process",
 "With the library initialised and arguments within the documented limits, no routine terminates the process: no assertion fails, no exit or abort is reached, and nothing divides an integer by zero or dereferences a null pointer.",
 ["inputs","configurations"],"every public routine, all documented angular momenta, contraction lengths (including zero coefficients), model choices and geometries",
 "Tests call the routines with moderate angular momenta and ordinary arguments; internal assertions on table sizes are far from being triggered.",
 ints+grads+["factorial.c","binomial.c","specfunc_boys.c","spherical_harmonics.c"],[("assertions on table limits","factorial.c, specfunc_boys.c, binomial.c, parameters.c"),("error exits","nuclear_attraction.c, utils.c")])

p("C25","Integrals are invariant under translation of all centres",
 "Shifting every centre (both shells, the pseudopotential or charge, and the differentiation point) by the same vector leaves every integral and gradient unchanged: absolute positions enter only through differences of centres, or through weighted means whose weights cancel.",
 ["inputs"],"all geometries and shifts, every public routine that takes centres",
 "Invariance relates infinitely many geometries; reference tests use fixed absolute coordinates, some with a centre at the origin.",
 ints+grads,[("differences of centres","every integral routine"),("Gaussian product centre","overlap.c, kinetic.c, momentum.c, type1_mcmurchie_davidson.c")])

p("C26","Outercore integrals apply the outercore projection operator",
 "For one outercore shell with potential U the scalar matrix is w times the sum over m of <a|nljm><nljm|U|b> + <a|U|nljm><nljm|b>, and each ordered pair of outercore shells with the same L and J subtracts w times delta times the sum over m of <a|nljm><n'ljm|b>, where delta is half the sum of the analytic one-centre integrals <nlj|U|n'lj> and <nlj|U'|n'lj> (each a sum over every primitive of both shells and every term of the potential), w = L/(2L+1) for J below L and (L+1)/(2L+1) otherwise. The spin-orbit matrices are the same expressions with the angular-momentum matrix of the real spherical harmonics between the projectors and -2/(2L+1) or +2/(2L+1) in place of w. Projectors sit at the pseudopotential centre whatever origin the outercore shells were created with, and the result does not depend on the order of Cartesian components of any shell.",
 ["inputs","configurations"],"every outercore angular momentum 0..10 and both J, any number of primitives and potential terms, all angular momenta of the basis shells, every Cartesian order",
 "The tests contain outercore shells of s, p, d and f type with one contraction length each and compare whole matrices of one molecule.",
 ["outercore_integrals.c","lmatrix.c","spherical_harmonics.c"],[("one-shell term","outercore_integrals.c:libgrpp_outercore_potential_integrals_part_1"),("two-shell term and delta","outercore_integrals.c:libgrpp_outercore_potential_integrals_part_2, calculate_delta_integral"),("angular momentum matrices","lmatrix.c")])

p("C27","Semi-local and spin-orbit integrals are complete angular expansions",
 "Each element of the semi-local matrix equals 16 pi^2 times the sum, over the binomial expansion of both Cartesian functions about the pseudopotential centre and over all lambda1, lambda2, of the two-parameter radial integral T(lambda1,lambda2,N) with N the total power, times the sum over m of the two angular integrals of the projector's harmonic m with the expansion directions -(C-A), -(C-B); no term allowed by the triangle and parity conditions is missing or counted twice. Each spin-orbit matrix is the same expansion with the corresponding angular-momentum matrix between the two angular integrals. The radial integrals are requested for the given potential and shells, at the squared distances of the shell centres from the pseudopotential centre, and within the tabulated range of lambda and N. This holds also when one or both shells sit on the pseudopotential centre.",
 ["inputs"],"all angular momenta of the shells and of the projector, all components in any order, all placements of the centres, any values of the radial integrals",
 "Reference data compare final numbers for a few molecules; a term missing for a high lambda, a particular component, or a coincident centre is not sampled.",
 ["type2_integrals.c","spin_orbit_integrals.c","angular_integrals.c","spherical_harmonics.c","lmatrix.c"],[("sum over expansion terms","type2_integrals.c:libgrpp_type2_integrals; spin_orbit_integrals.c:libgrpp_spin_orbit_integrals"),("angular integrals","angular_integrals.c:angular_type2_integral"),("harmonics","spherical_harmonics.c")])

p("C28","Local and nuclear integrals are complete analytic expansions",
 "For every term of a local potential (power 0, 1 or 2 of r) and every pair of primitives the integral equals the Hermite expansion of the product of the two Cartesian functions and the potential's Gaussian, contracted with the derivatives of the auxiliary function (Boys function for 1/r, Dawson-type function for 1/r^2, none for r^0) at the reduced distance, with the exact prefactor, product centre and normalisation; contributions of all primitives and terms are added with their coefficients. A point nucleus is minus the charge times the 1/r case with a zero exponent. For extended nuclei each pair of primitives contributes the complete spherical-harmonic expansion over radial integrals Q(lambda,N) requested with the squared distances, the length of the expansion vector and the prefactor of that pair.",
 ["inputs"],"all angular momenta and components in any order, any number of primitives and potential terms, all exponents and placements of centres, any values of the auxiliary functions",
 "Tests compare final numbers for a few shells; errors confined to high Hermite orders, particular components, mixed powers or a coincident centre are not sampled.",
 ["type1_mcmurchie_davidson.c","type1_integrals.c","nuclear_attraction.c","angular_integrals.c","norm_gaussian.c"],[("Hermite expansion and recurrences","type1_mcmurchie_davidson.c:setup_E_array, setup_R_array, setup_G_array"),("sum over terms","type1_integrals.c:libgrpp_type1_integrals"),("expansion in harmonics","type1_integrals.c:evaluate_radially_local_potential_integral_primitive_gaussians")])

p("C29","Overlap, kinetic and momentum integrals equal their closed forms",
 "Every element of the overlap matrix is the sum over pairs of primitives of the product of contraction coefficients, normalisation factors and three one-dimensional Gaussian integrals of its own pair of components. The kinetic element is minus one half of the sum over axes with a second derivative acting on the second function, and the momentum element along an axis is minus the integral with the first derivative along this axis acting on the second function (the imaginary part of the momentum operator).",
 ["inputs"],"all angular momenta up to the documented maximum on either side, all components in any order, all contraction lengths, exponents and placements of centres",
 "Tests compare matrices of a few molecules with low angular momenta; high angular momenta, unequal shells and coincident or aligned centres are sampled sparsely.",
 ["overlap.c","kinetic.c","momentum.c","norm_gaussian.c"],[("one-dimensional recurrences","overlap.c:overlap_integrals_shell_pair_obara_saika; kinetic.c; momentum.c"),("normalisation","norm_gaussian.c")])

p("C30","Nuclear charge models obey electrostatics",
 "For every nuclear charge model (point, ball, Gaussian, Fermi, Fermi bubble) the potential is the attractive electrostatic potential of the model's charge density, the density is normalised to the nuclear charge, and the rms radius reported by the library (or given as the parameter of the model) is the second moment of this density. This holds inside, at and outside the nuclear radius, for tight and diffuse distributions and for any bubble depth; the bubble model of depth zero is the Fermi model. Default estimates of radii follow the documented formulas, the estimated Fermi parameters reproduce the given rms radius with a skin thickness of 2.3 fm, and an impossible estimate is reported.",
 ["inputs"],"all charges, distances and model parameters",
 "Tests compare nuclear attraction integrals for one or two nuclei; densities and radii are not tested at all, the potentials only through integrals dominated by distances far outside the nucleus.",
 ["nuclear_models.c"],[("potentials","nuclear_models.c:libgrpp_coulomb_potential_*"),("densities","nuclear_models.c:libgrpp_charge_density_*"),("normalisation","nuclear_models.c:fermi_model_norm_factor, fermi_bubble_model_norm_factor"),("radii and estimates","nuclear_models.c:libgrpp_rms_radius_*, libgrpp_estimate_*")])

p("C31","Radial integrals are quadratures of their own integrands",
 "Each radial integral of a semi-local or spin-orbit potential, labelled (lambda1, lambda2, N), is the quadrature with weight r^2 of r^N times the contracted potential times, for either shell, the sum over all its primitives of coefficient, normalisation, exp(-a(r-d)^2) and the scaled Bessel function of order lambda and argument 2adr, where d is the distance of this shell from the potential. For a nucleus of finite size the integrand is r^N times the potential times the Gaussian product factor times the Bessel function of order lambda. Every refinement of the grid continues the same quadrature, each table entry belongs to its own labels, and the one-centre special case gives the same integrals analytically.",
 ["inputs"],"all coefficients, contraction lengths, orders and powers; all refinement levels of the grid",
 "Tests reach the integrals only through final matrices, hardly ever the finest grids, long contractions or high orders, where an error stays below the comparison threshold.",
 ["radial_type1_integral.c","radial_type2_integral.c"],[("semi-local tables","radial_type2_integral.c:tabulate_radial_type2_integrals"),("grid refinement","radial_type2_integral.c:expand_radial_type2_grid; radial_type1_integral.c:expand_radial_type1_grid"),("finite nuclei","radial_type1_integral.c:tabulate_radial_type1_integrals")])

p("N01","Integral values agree with the exact integrals",
 "Every integral agrees with the mathematically exact value to the documented accuracy.",["inputs"],"all inputs",
 "Reference data cover a few inputs.",ints,[("numerics","all")])
p("N02","Real integral matrices are symmetric under exchange of bra and ket",
 "Exchanging the two shells transposes the matrix (with a sign for momentum and spin-orbit).",["inputs"],"all inputs","Tests sample few pairs.",ints,[("numerics","all")])
p("N03","Rotational covariance",
 "Rotating all centres rotates the integrals over complete Cartesian shells accordingly, for any rotation, not only axis reflections.",["inputs"],"all rotations","Tests sample no rotations.",ints,[("numerics","all")])
p("N04","Screening never drops a significant contribution",
 "No integral contribution larger than the stated thresholds is dropped by screening.",["inputs"],"all inputs","Tests sample few inputs.",["screening.c","type2_integrals.c","radial_type2_integral.c"],[("screening","screening.c")])
import sys
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,s)
print(len(P))

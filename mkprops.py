"""writes properties.jsonl (run by hand when a statement changes)"""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    assert len(title)<=80, title
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=["CasimirRio/"+f for f in files],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=None))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    P.append(d)

p("C01","Log Bessel functions are exact for every argument array",
"For every array of positive arguments, in any order and mixing any magnitudes, the logarithms of the modified spherical Bessel functions i_l and k_l that the package returns equal the exact values for every order 0..lmax, and the ratios I(nu)/I(nu+1) equal the exact ratios. Each returned element depends only on its own argument and order: not on the other arguments of the array, not on lmax, and not on the lower order at which the caller cuts the table.",
["inputs"],"every finite array of arguments 1e-9 < x <= 2e4, every lmax up to 120, every cut lmin<=lmax, both the interior (I) and exterior (K) selection",
"the tests compare a few sorted arrays with scipy; unsorted arrays, arrays that straddle the series/closed-form switch at 1e-3, large arguments and single elements inside mixed arrays are never sampled",
["bessel_sk.py"],[("upward recursion for k_l, Wronskian + continued fraction for i_l","lnknu, lniknu, fnu, fraction"),("series / closed form switch at 1e-3","lniknu")],
["return values of lnknu, lniknu, mie_bessels, trans_bessels, i_fraction, fnu","the same functions as they are called inside real energy calculations"])

p("C02","Gaunt coefficients are exact for every l, l', m",
"For all multipole orders l, l' and every projection m the returned vector contains exactly the Gaunt integrals of Y_{l,m} Y_{l',-m} Y_{l'',0} for l''=|l-l'|, |l-l'|+2, ..., l+l', including their signs, and zeros for |m| > min(l,l'). The vector is invariant under m -> -m and under exchange of l and l'.",
["inputs"],"all 0<=l<=100, 0<=l'<=200 and all integer m, in particular |m| near min(l,l') and very different l, l'",
"the tests sample small l; loss of accuracy and boundary cases grow with l, |m| and |l-l'|",
["cython_gaunt.pyx"],[("closed form at l''=l+l' and three-term recursion","gaunt()")],
["return value of gaunt()","gaunt() as called by the translation coefficients"])

p("C03","Mie coefficients of solid spheres and cavities are exact",
"For every pair of materials (dielectric, Drude, plasma, magnetic or perfect conductor where allowed), radius, array of wavenumbers and range lmin..lmax, the scaled TE and TM coefficients together with the logarithmic scale equal the exact Mie coefficients for scattering at a sphere and for reflection inside a spherical cavity. Each coefficient depends only on its own wavenumber and order, equal materials inside and outside scatter nothing, and the perfect conductor is the limit of very large permittivity.",
["inputs","configurations"],"all material pairs incl. user-defined ones, kr from 1e-6 to 1e3, 1<=lmin<=lmax<=40, arrays in any order",
"the Mie test module cannot even be imported with current SciPy; nothing else compares a Mie coefficient with an independent value",
["scattering.py","bessel_sk.py"],[("log-derivative form of the Mie coefficients, common scale i_l/k_l","scattering.mie, mie_internal, miePEC, miePEC_internal")],
["return values of scattering(...).mie / mie_internal"])

p("C04","Zero-frequency coefficients and round trips are the exact k -> 0 limits",
"The analytic zero-frequency Mie coefficients (exterior and cavity) and ln det(1-M) in each m-subspace at zero frequency equal the limits k -> 0 of the exact finite-frequency quantities for every admissible material combination: dielectrics, Drude metals (no TE response unless magnetic), plasma metals (finite penetration depth), magnetic materials and perfect conductors. They are returned for every lmin and m, in exterior and interior geometry, in whatever order the subspaces are asked for.",
["inputs","configurations","histories"],"all predefined and random user-defined materials, radii 0.01..30 micron, all lmin..lmax, all m, all orders of asking for m",
"no test evaluates the zero-frequency branch for any material but the perfect conductor",
["scattering.py","geometry.py","translation.py"],[("material flags select the limit","scattering.mie_k0, mie_internal_k0"),("static translation coefficients","translation.trans_k0_ext/int"),("static round trip","geometry.blockmatrices_k0_*, single_m_k0, mSumme_k0")],
["mie_k0, mie_internal_k0, blockmatrices_k0, single_m_k0, mSumme_k0"],
[("cached zero-frequency Mie coefficients","first call fills them, later calls cut them","geometry.SphereSphere")])

p("C05","Layered spheres scatter exactly, whatever the number of layers",
"For every stack of concentric layers the scattering coefficients equal the exact solution of the multilayer boundary conditions. A layer made of the same material as one of its neighbours changes nothing wherever it sits, a one-interface stack is the solid sphere, the single-coating and the general stack routine agree, and the lists of materials and radii given by the caller are left as they were.",
["inputs","configurations","histories"],"1 to 5 layers, layer thickness 1e-3 to 10 radii, all material kinds incl. a perfectly conducting core, every k array and lmin..lmax",
"one test compares a coated sphere with a solid one; no multilayer reference, no degenerate stacks, no repeated calls",
["stratified_sphere_scattering.py","scattering.py"],[("recursion over interfaces","StratifiedMieScattering.mie_stratified / mie_coated, coated_miescattering.mie_coated"),("outermost layer equal to the medium is dropped","mie_stratified")],
["return values of mie_stratified and mie_coated","the caller's lists after the call"])

p("C06","Translation coefficients are exact in both directions",
"For every pair l1, l2 >= max(1,m), distance, medium (also magnetic) and wavenumber array the four translation coefficients (polarisation conserving and mixing, forward and backward) together with their logarithmic scale equal the exact coefficients for the exterior (outgoing to regular) and the interior (regular to regular) case. Their zero-frequency form equals the leading term of the k -> 0 expansion.",
["inputs","configurations"],"m<=l1<=lmax, m<=l2<=lssmax up to 40, kL from 1e-4 to 200, both geometries, any order of the wavenumbers",
"no test looks at translation coefficients",
["translation.py","cython_gaunt.pyx"],[("sum over l'' of Gaunt x Bessel with scale of the largest term","translation.get_vl1l2, get_scaled_bessels"),("closed static forms","trans_k0_ext, trans_k0_int")],
["return value of translation(...).trans_ab()"])

p("C07","ln det(1-M) of every m-subspace equals the exact scattering formula",
"For every geometry (exterior or one sphere inside the other), material combination, solid or layered spheres, truncation and wavenumber array, the value returned for one m-subspace is ln det(1-M) of the exact truncated round-trip operator. The block matrices have that determinant, their polarisation channels add up to the blocks, and the coated-sphere geometry agrees with the layered one.",
["inputs","configurations"],"radius ratios 0.02..50, gaps 0.01..100 radii, lmax/lssmax up to about 12, all m<=lmax, k from 1e-6 to 1e2, all material kinds",
"the functional tests compare one perfect-conductor configuration with stored numbers",
["geometry.py","translation.py","scattering.py","matrix_balancing.pyx"],[("assembly of the round trip from Mie coefficients and translations with trace-invariant scaling","geometry.SphereSphere.roundTrip_elements, blockmatrices, blockmatrices_channels, single_m"),("balanced determinant","balanced_slogdet")],
["single_m, blockmatrices, blockmatrices_channels, supermatrix"])

p("C08","The sum over m is complete to the requested precision and per frequency",
"The total for every wavenumber is the m=0 term plus twice the terms of all m up to lmax, up to an error of the requested precision times the largest element of the batch. Splitting, merging, reordering or duplicating the wavenumbers of a batch changes no element beyond that, a leading zero frequency is evaluated as the analytic static term, and a total that is exactly zero is returned as zero.",
["inputs","configurations"],"geometries as in C07, batches of 1..30 wavenumbers in any order with and without a leading 0, precision 1e-1..1e-12",
"tests evaluate one batch; the early termination of the m-sum looks at one element of the batch only",
["geometry.py"],[("early termination by relative change of the largest element","mSumme, mSumme_k0")],
["mSumme, mSumme_k0, single_m"])

p("C09","Results do not depend on call history and inputs are never modified",
"Whatever sequence of calls was made before on the same or on other objects, every evaluation returns what a fresh object would return for the same arguments; also after an earlier calculation failed or was interrupted (Ctrl-C) at any point. Arrays, lists and material objects handed in by the caller keep their contents, and changing the wavenumber arrays handed in, or returned results, after a call does not influence later results.",
["histories","inputs"],"random sequences of up to 12 calls (round trips, m-sums, static terms, free energy, entropy, force, matsubara terms, Mie, layered Mie, PFA) on shared objects, incl. in-place changes of the caller's arrays and interrupted calls in between",
"tests use a fresh object per assertion; the caches keyed on the last wavenumber array and the flags set on the way are only visible in sequences",
["geometry.py","thermodynamics.py","stratified_sphere_scattering.py","raw_PFA.py","PFA.py","materials.py","scattering.py"],[("Mie cache keyed on a copy of the last wavenumbers","roundTrip_elements"),("static cache","roundTrip_elements_k0"),("f_matsubaras / force_matsubaras / forceFlag","thermodynamics.finiteT")],
["public methods at the API boundary"],
[("K, MieA, MieB, MieA_k0, MieB_k0","caches of the last evaluation","SphereSphere"),("forceFlag, f_matsubaras","mode flag and cached matsubara terms","finiteT")])

p("C10","Free energy, entropy and T=0 energy follow from the Matsubara sum",
"The free energy at the i-th temperature is i*deltaT times the sum of the terms n=0,i,2i,...<=nmax with the zeroth weighted one half; the entropy is minus its temperature gradient; the terms do not depend on how the frequencies are sliced or where the range starts; the numerically and the analytically evaluated zeroth term agree; the T=0 energy is the frequency integral of ln det(1-M). A temperature grid with a coarser step gives the same free energies at common temperatures.",
["inputs","configurations"],"random geometries and materials, deltaT 0.02..5, nmax 0..150, up to 40 temperatures, slice widths 1..200, solid and layered spheres",
"one functional test, one configuration, nmax below the slice width",
["thermodynamics.py"],[("primed Matsubara sum","finiteT.free_energy, get_f_matsubaras, F_alle, slicewise_eval"),("finite difference","entropy"),("quadrature","e0")],
["free_energy, entropy, e0, get_f_matsubaras, slicewise_eval"])

p("C11","Energies obey the symmetries, signs and limits of the Casimir effect",
"Exchanging the two exterior spheres, or rescaling all lengths and wavenumbers together with the material frequencies, leaves ln det(1-M) unchanged. A sphere made of the medium contributes exactly nothing; two spheres that both are optically denser (or both thinner) than the medium attract (all materials non-magnetic), with a magnitude that falls monotonically with distance and never decreases with growing truncation, while one denser and one thinner sphere repel. At large distance perfect conductors reach the Casimir-Polder (T=0) and the static dipole (high T) energies.",
["inputs","configurations"],"random exterior geometries and material triples; families in distance, truncation and scale",
"tests never vary a parameter; relations between two runs cannot be expressed as stored numbers",
["geometry.py","thermodynamics.py","scattering.py","translation.py"],[("whole evaluation chain","SphereSphere.single_m, mSumme, mSumme_k0; finiteT.e0")],
["single_m, mSumme, mSumme_k0, e0"])

p("C12","Plane-plane energies and pressures follow the Lifshitz formula",
"Fresnel coefficients at imaginary frequency are exact for every pair of materials, and the plane-plane free energy at every temperature (zero, finite, infinite) equals the Lifshitz formula; the pressure is minus the derivative of the free energy with respect to the distance, the polarisation-resolved terms add up, shielding removes exactly the zero-frequency term, and both implementations of the formula agree.",
["inputs","configurations"],"material triples incl. perfect conductor, Drude, plasma, magnetic; distance 0.02..20 micron, scaled temperature 0.05..20, 0 and infinity",
"there is no test of the PFA modules",
["PFA.py","raw_PFA.py","scattering.py"],[("quadrature over k_perp per Matsubara frequency","SphereSpherePFA.planeplaneFreeEnergy, planeplane_e0, planeplaneFreeEnergyHT, planeplanePressure, get_f_matsubaras"),("Fresnel coefficients","scattering.fresnel, fresnelPEC")],
["return values of the methods of PFA.SphereSpherePFA and raw_PFA.SphereSpherePFA"])

p("C13","Material response functions are exact, causal and correctly classified",
"For every oscillator list and permeability model, predefined or user-defined, epsilon and mu at imaginary wavenumbers equal the documented oscillator sums for arrays and scalars, are real, at least 1 (epsilon), decrease monotonically with wavenumber and tend to 1. The flags for finite conductivity, dielectric and magnetic behaviour describe the static limit, and every predefined material returns the response of its own parameters and keeps doing so after being used.",
["inputs","configurations"],"random lists of 0..8 oscillators incl. Drude/plasma terms in any position and zero-strength terms, all predefined materials, k from 1e-12 to 1e6, scalar and array arguments",
"tests evaluate a few materials at single wavenumbers",
["materials.py","materials_converter.py"],[("oscillator sums","LorentzMaterial, LorentzSmithMaterial"),("classification","is_sigma_finite, is_dielectric, is_magnetic")],
["epsilon, mu, flags"])

p("C14","Scaling and linear-algebra helpers preserve determinants and traces",
"Balancing returns a matrix that is diagonally similar to its input (same diagonal, determinant and spectrum, rows and columns of comparable norm) and terminates on every square matrix, whatever the magnitudes, zeros, infinities or NaNs in it. The trace-invariant scalings keep the trace of every power, and the batched determinant, inverse, product, trace and append helpers equal the textbook operations matrix by matrix.",
["inputs"],"random square matrices of size 1..24 with dynamic range up to 1e300, zero rows/columns, denormals, non-contiguous layouts, batches of any length",
"tests use a few small fixed matrices",
["matrix_balancing.pyx","geometry.py"],[("power-of-two balancing","balance"),("geometric row/column scaling","single_k_scale, dynamic_scaling"),("helpers","dot_3d_matrices, inv_3d_matrix, inv_3d_blockmatrix, sln_det_3d, sln_det_blockdiagonal, trace_dot_3d, balanced_slogdet, matrix_append")],
["return values of the helpers and of balance"])

p("C15","The compiled extension modules never touch memory they do not own",
"For every call that Python code can make with integers or float matrices of any layout - including invalid projections, empty, one-element, non-square, strided, reversed and read-only inputs - the compiled routines neither read nor write outside the arrays involved, neither overflow integers (for orders up to some thousands) nor leak references or memory, and leave the interpreter intact.",
["inputs"],"all l,l'<=90 and m beyond +-min(l,l'), matrices of sizes 0..40 with any stride, whole energy calculations on top of the instrumented modules",
"array bounds checks are compiled out, and an out-of-bounds access of a few elements rarely changes a value a test looks at",
["cython_gaunt.pyx","matrix_balancing.pyx"],[("loop bounds derived from l, l' and the matrix shape, with boundscheck(False)","gaunt, balance")],
["AddressSanitizer/UBSan reports, bounds-checked build, reference counts"])

p("C16","A job file produces exactly the result the library computes",
"For every valid job file the worker program writes a result file whose data rows equal the requested quantity computed through the library with the same parameters, and whose header states the parameters actually used (radii, distance, materials, truncations, temperatures, quantity, evaluation, precision). A job that fails, or is ended while it computes, leaves no result file. A distance given on the command line overrides the one in the file, solid and layered spheres are both accepted, and an existing result file is never overwritten however often the job is run, also when several jobs with the same result name run at the same time: each leaves its own complete file.",
["inputs","configurations","histories"],"random job files over all documented keys and quantities, with and without a command-line distance, repeated and simultaneous runs into the same name, failing and killed runs",
"worker.py is a program without any test",
["worker.py","geometry.py","thermodynamics.py"],[("configuration parsing","assign_radius, return_geometry, do_calculation"),("header and result","job_infos, save_result")],
["the files in the job's directory and the exit status of the process"])

p("C17","Numerical helpers and optical-data completion reproduce their formulas",
"The log factorial and log double factorial are exact; the numerical derivative is exact for the polynomial degrees its stencils promise at every grid position and rejects decreasing grids (with interpolation switched on it is the derivative of the log-log interpolated data, also for data that change sign); completing tabulated optical data returns the tabulated curve (linear between points) inside the data range and a Drude law outside, in the order of the requested grid, and reproduces Drude data everywhere; a single requested frequency is answered with the Drude law of gold.",
["inputs"],"random grids, polynomials, data sets and requested grids; orders up to 500",
"tests sample single values of the helpers; the data completion has no test",
["helper_functions.py","data_inter_extrapolation.py"],[("5-point and edge stencils","num_derivative"),("gammaln identities","lfac, ln_2dbl"),("piecewise completion","data_interp_extrap.interpolate, fit, get_drude_data")],
["return values"])

p("C18","Sphere-sphere PFA energies and forces follow from the plane-plane energy",
"The proximity-force energy of two spheres is the plane-plane free energy integrated over the facing surface with the true local distance, and the force is 2 pi R_eff times the plane-plane free energy at the smallest distance, for exterior and interior spheres, for either order of the radii, every temperature and both shielding settings. The closed-form implementation (raw_PFA) returns pi R_eff L times its plane-plane free energy as energy and 2 pi R_eff times it as force.",
["inputs","configurations"],"radii 0.2..20, distances exterior and interior, T in {0, finite, infinity}, both orders of the radii, shielding on/off",
"there is no test of the PFA modules",
["PFA.py","raw_PFA.py"],[("surface integral and Derjaguin factor","spheresphereEnergy, spheresphereForce, distance")],
["return values of spheresphereEnergy, spheresphereForce, distance"])

p("C19","Round-trip expansion converges to ln det(1-M) as documented",
"Evaluating by the trace expansion gives ln det(1-M) to the requested precision (amplified at most by 1/(1 - largest eigenvalue of M)) for every geometry, a fixed order N gives exactly the sum of the first N round-trip traces with the sign of ln det(1-M), and the single round-trip approximation (also in the thermodynamic class built on it) is its order-one term; the force of that class is the negative distance derivative of the same sum.",
["inputs","configurations"],"geometries as in C07, orders 1..8 and automatic, precision 1e-2..1e-10",
"no test evaluates the trace mode except with stored numbers for one geometry",
["geometry.py","thermodynamics.py"],[("power sums of the round-trip matrix","mSum_roundtrips, arbitrary_roundtrips, mSum_oneRoundtrip"),("oneRoundtrip.F_alle","thermodynamics.py")],
["mSumme with evaluation='trace', mSum_roundtrips, mSum_oneRoundtrip, oneRoundtrip.get_f_matsubaras, free_energy, force"])

p("C20","Automatic truncation follows the geometry and meets the precision",
"When truncations are chosen automatically, the maximum multipole order is at least 1, depends only on the smaller (outermost) radius, the surface distance, the precision and the offset, never decreases when the spheres come closer or a higher precision is requested, does not depend on the order in which the radii are given, grows by exactly the requested offset (surface distances below 30 smaller radii; beyond, only dipoles are used), and the inner-sum order is that order times the radius ratio, rounded down. The number of Matsubara terms is at least 1, never grows with temperature and leaves out less than 1e-4 of the free energy. Truncations given explicitly are used as given. With the default offset the resulting energies agree with much larger truncations to within three times the requested precision (twenty times if the first sphere is the larger one).",
["inputs","configurations"],"exterior and interior geometries with gap/radius 0.1..300, precision 1e-1..1e-4, l_offset 0..10, scaled temperature x gap 0.03..30, solid and layered radii; accuracy for gap/radius >= 0.3, radius ratio <= 2.5, precision 1e-1..1e-3",
"tests fix the truncation by hand",
["geometry.py","thermodynamics.py"],[("empirical truncation rule","geometry.get_lmax, SphereSphere.__init__"),("empirical number of Matsubara terms","finiteT.__init__")],
["lmax, lssmax, nmax of constructed objects; free energies with automatic and enlarged truncation"])

p("C21","The force is minus the distance derivative of the free energy",
"The Casimir force returned for a geometry equals minus the derivative of the free energy with respect to the centre distance, for every number of Matsubara terms and temperature, exterior and interior, solid and layered spheres, and asking for it disturbs no other quantity.",
["inputs","configurations"],"random geometries and materials, nmax below, at and above the slice width",
"no test calls force()",
["thermodynamics.py","geometry.py","translation.py"],[("trace of (1-M)^-1 dM/dL","finiteT.force, mSum_trace_dot, get_vl1l2_force")],
["force() against a central difference of free_energy()"])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
print(len(P))

#!/usr/bin/env python3
# writes properties.jsonl (kept so the file stays reviewable); run by hand only
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if observe: a["observe_at"]=observe
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":statement,
      "quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
S="src/"
p("C01","Coordinate derivative functions are the true inverse Jacobian",
 "For every curvilinear coordinate system a box can be given, the nine functions the box advertises as dX^i/dx^m form exactly the inverse of the Jacobian of the map x(X) the same box advertises, at every regular coordinate point and for every setting of the system's parameters. Where second derivatives d2X^i/dx^m dx^n are advertised they are exactly the derivatives of those first derivatives.",
 ["inputs","configurations"],"every regular point (X,Y,Z) of the coordinate domain, every number of points, every parameter of the coordinate system (stretching constants, domain number, centre, inner/outer surface data)",
 "The tests run a few par files with fixed grids; most coordinate systems and most second-derivative entries are never used by a test, and a wrong entry only shifts convergence errors within the factor 2 that is tolerated.",
 [S+"utility/Coordinates/Coordinates.c",S+"utility/Coordinates/coordtrans_CubedSphere.c",S+"utility/Coordinates/transfDerivs.c"],
 [("init_CoordTransform_And_Derivs function table",S+"utility/Coordinates/Coordinates.c"),("closed-form derivative functions",S+"utility/Coordinates/Coordinates.c"),("dXdx_from_dxdX / ddXdxdx_from_dXdx_ddxdXdX",S+"utility/Coordinates/transfDerivs.c")],
 ["box->dX_dx[i][m]","box->ddX_dxdx[i][m][n]","box->x_of_X[i]"])
p("C02","Cartesian derivatives obey the chain rule, whichever path computes them",
 "Given the derivatives of a field along the box coordinates, the Cartesian first and second partial derivatives returned for any field equal the chain-rule expressions with the box's coordinate derivatives at every grid point, both when the coordinate derivatives are stored and when they are computed on the fly. The helpers for scalars, vectors and symmetric tensors deliver each derivative in the component its tensor name promises, and nothing else is written.",
 ["inputs","configurations"],"every field, every box size, every coordinate system, stored or unstored transforms, both second-derivative options",
 "Tests only ever use one of the stored/unstored paths per coordinate system and check one aggregated norm; the vector and tensor variants and mixed components are not observed.",
 [S+"utility/Coordinates/cartesianDerivs.c"],
 [("cart_partials, cart_partial_all",S+"utility/Coordinates/cartesianDerivs.c"),("FirstDerivsOf_*, FirstAndSecondDerivsOf_*, allDerivsOf_*",S+"utility/Coordinates/cartesianDerivs.c")])
p("C03","Spectral differentiation is exact on the basis",
 "On any interval [a,b] and for any number of collocation points, the spectral derivative of every function in the span of the box's basis (Chebyshev on zeros or extrema, Fourier) is its exact derivative, through the coefficient recurrences, through the precomputed first- and second-derivative matrices, and along each of the three directions. (The derivative of the highest cosine of an even number of Fourier points, which is not in the span, is zero.) Differentiating never changes values on other lines of the grid, and all second derivatives are the iterated first ones in the configured order.",
 ["inputs","configurations"],"every n, interval, coefficient vector, direction and basis",
 "Tests differentiate a handful of smooth functions on fixed grids and accept errors within a factor of two of a recorded value.",
 [S+"utility/Spectral/explicit_Cheb_trafos.c",S+"utility/Spectral/explicit_Four_trafos.c",S+"utility/Spectral/diffmatrices.c",S+"utility/Spectral/matrices.c",S+"utility/Spectral/derivs.c"],
 [("cheb_deriv, four_deriv",S+"utility/Spectral/explicit_Cheb_trafos.c"),("initdiff_matrix*, initdiff_matrix2",S+"utility/Spectral/diffmatrices.c"),("spec_Deriv1/spec_Deriv2",S+"utility/Spectral/derivs.c")])
p("C04","Spectral transforms are inverse to each other and agree across back ends",
 "Transforming grid values to spectral coefficients and back returns the values, and evaluating coefficients and transforming back returns the coefficients, for Chebyshev-zeros, Chebyshev-extrema and Fourier bases, for every number of points. The explicit sums, the built-in FFTs and the FFTW back end produce the same coefficients and values under the documented normalisation.",
 ["inputs","configurations"],"every n (powers of two for the built-in FFT), every data vector, every back end",
 "Tests choose one back end per run and never transform arbitrary data; odd and even n follow different branches.",
 [S+"utility/Spectral/explicit_Cheb_trafos.c",S+"utility/Spectral/explicit_Four_trafos.c",S+"utility/Spectral/FFTs_for_sgrid.c",S+"utility/Spectral/spec_coeffs.c"],
 [("cheb_coeffs_*/cheb_eval_*",S+"utility/Spectral/explicit_Cheb_trafos.c"),("four_coeffs*/four_eval*",S+"utility/Spectral/explicit_Four_trafos.c"),("numrec and FFTW3 variants",S+"utility/Spectral/FFTs_for_sgrid.c")])
p("C05","Spectral integration is exact on the basis",
 "The definite integral over a box direction of any function in the span of the basis equals the exact integral over [a,b], and the indefinite integral of every basis function whose antiderivative the points can represent is that antiderivative up to a constant along each line. Multi-dimensional integrals are the iterated one-dimensional ones; surface, volume and sphericalDF integrals carry the documented surface or volume element.",
 ["inputs","configurations"],"every n, interval, coefficient vector and direction",
 "Integrals are tested, if at all, for one function on one interval.",
 [S+"utility/Spectral/integrals.c",S+"utility/Spectral/explicit_Cheb_trafos.c",S+"utility/Spectral/explicit_Four_trafos.c"],
 [("cheb_int/four_int",S+"utility/Spectral/explicit_Cheb_trafos.c"),("spec_Integral1/spec_2dIntegral/spec_3dIntegral",S+"utility/Spectral/integrals.c")])
p("C06","Spectral interpolation reproduces the grid function",
 "Interpolating a field inside a box returns the field's value at every collocation point and the exact value of every function in the span of the box's basis at any point of the box, for any interval, basis and number of points.",
 ["inputs","configurations"],"every field, box extent and evaluation point",
 "Tests interpolate a few smooth functions on default intervals; intervals that do not start at a multiple of the period are not covered.",
 [S+"utility/Spectral/interpolate.c",S+"utility/Spectral/explicit_Cheb_trafos.c",S+"utility/Spectral/explicit_Four_trafos.c",S+"utility/Spectral/spec_coeffs.c"],
 [("spec_interpolate, basis functions",S+"utility/Spectral/interpolate.c")])
p("C07","Spectral filters remove exactly the advertised modes",
 "Applying a mode filter sets to zero every spectral coefficient above the cut-off along the chosen directions and leaves every other coefficient unchanged; applying it twice equals applying it once, and a cut-off at or beyond the number of modes changes nothing.",
 ["inputs","configurations"],"every field, cut-off and combination of directions",
 "No test inspects individual coefficients after filtering.",
 [S+"utility/Spectral/filters.c",S+"utility/Coordinates/coordFilters.c"],[("spec_filter*",S+"utility/Spectral/filters.c")])
p("C08","Finite-difference operators have their advertised order",
 "The finite-difference derivative matrices and stencils (uniform periodic, uniform one-sided at the ends, non-uniform) are the advertised difference quotients and differentiate exactly all polynomials up to their advertised order (uniform first derivatives: quadratics; uniform second derivatives: cubics; non-uniform first derivatives: linear functions) for every interval and every number of points, including the points next to the ends. Converting a grid to finite differences makes its matrices those of these stencils on the grid's own points.",
 ["inputs","configurations"],"every n, interval and polynomial up to the order",
 "Finite differencing is used in tests only as a preconditioner, where errors are invisible.",
 [S+"utility/Spectral/finite_differences.c"],[("fd2_* functions",S+"utility/Spectral/finite_differences.c")])
p("C09","Time integrators apply their order-consistent update",
 "One step of each selectable time integrator maps the evolved variables at time t to the update its Butcher tableau prescribes, evaluated for an arbitrary right-hand side, and that tableau satisfies all order conditions up to the advertised order of the method. The same update is applied to every variable at every point of every box, and the stored previous level is the state before the step.",
 ["inputs","configurations"],"every right-hand side, time step, number of variables/points, every integrator choice",
 "Tests use one or two integrators on one equation and bound the final error by a factor of two, which a lower-order method passes.",
 [S+"utility/evolve/rk.c",S+"utility/evolve/icn.c",S+"utility/evolve/evolve.c",S+"main/main/variables.c"],
 [("Butcher tables, evolve_rk_generic, evolve_rk_rk4",S+"utility/evolve/rk.c"),("evolve_icn, evolve_euler",S+"utility/evolve/icn.c")])
p("C10","Variable-list arithmetic is pointwise, complete and frame-preserving",
 "Every variable-list operation (copy, add, average, subtract, scale, set constant, swap, dot product, norm) produces the documented combination for every listed variable at every grid point of every box, for any aliasing the callers use, and leaves every unlisted variable unchanged.",
 ["inputs","configurations"],"every list length, box layout, coefficient values including zero, aliased source and destination",
 "Tests never look at these operations in isolation; wrong coefficients in rarely used branches (zero or unit coefficients) are not exercised.",
 [S+"main/main/variables.c",S+"utility/GridIterators/utility.c"],[("vlcopy, vladd, vladdto, vlaverage, vlsetconstant, ...",S+"main/main/variables.c"),("dot, norm2",S+"utility/GridIterators/utility.c")])
p("C11","BSSN right-hand sides equal the BSSN evolution equations",
 "At every grid point and for every geometry, lapse and shift, the computed time derivatives of the BSSN variables equal the tensor-form BSSN evolution equations in terms of the same fields and their partial derivatives, for every gauge and option combination; stepping form and rate form agree. Enforcing the algebraic constraints yields unit determinant and zero trace.",
 ["inputs","configurations"],"every value of the fields and derivatives with positive-definite conformal metric, every option combination",
 "BSSN tests run nearly flat or static data where most of the thousands of terms vanish.",
 [S+"physics/BSSN/BSSN_rhs.c",S+"physics/BSSN/BSSN_AlgConstr.c",S+"physics/BSSN/BSSN_init.c"],[("BSSN_rhs",S+"physics/BSSN/BSSN_rhs.c"),("BSSN_AlgConstr",S+"physics/BSSN/BSSN_AlgConstr.c")])
p("C12","Second-order Z4 right-hand sides equal the Z4 equations",
 "At every grid point and for every geometry the computed time derivatives of the second-order Z4 system equal its tensor-form evolution equations, and reduce to the ADM equations when the constraint variables vanish and damping is off.",
 ["inputs","configurations"],"every value of the fields and derivatives, every option value",
 "Only one robust-stability style par file touches Z4.",
 [S+"physics/Z4secondO/Z4secondO_rhs.c"],[("Z4secondO_rhs",S+"physics/Z4secondO/Z4secondO_rhs.c")])
p("C13","Constraint monitors compute the Hamiltonian and momentum constraints",
 "At every point and for every metric, extrinsic curvature, conformal factor and matter source the reported Hamiltonian and momentum constraint values equal their definitions R+K^2-K_ij K^ij and D_j(K^ij-g^ij K) (with sources and normalisation as documented), independent of how the conformal factor is split off.",
 ["inputs","configurations"],"every value of the fields and derivatives with invertible metric",
 "Tests evaluate the monitors on solutions, where every correct and many wrong formulas give approximately zero.",
 [S+"physics/ADMvars/ADMconstraints.c",S+"physics/ADMvars/ADMenergy_spheric_intergrand.c"],[("ADMconstraints",S+"physics/ADMvars/ADMconstraints.c")])
p("C14","Analytic initial data are exact solutions of the constraints",
 "The black-hole (Kerr-Schild for every mass and spin, isotropic Schwarzschild) and gauge-wave initial data written to the grid satisfy the vacuum Hamiltonian and momentum constraints identically away from the singularity, the linear wave satisfies them to first order in its amplitude, and conformal-factor derivatives written alongside are the derivatives of the conformal factor.",
 ["inputs","configurations"],"every regular point, mass, spin, amplitude, time",
 "Tests fix one mass and usually zero spin, and measure norms that are dominated by resolution.",
 [S+"physics/SingleBH/SingleBHKS.c",S+"physics/SingleBH/SingleBHisotropic.c",S+"physics/TestID/TestID_1dGaugeWave.c",S+"physics/TestID/TestID_1dLinearWave.c"],[("SingleBHKS, SingleBHisotropic, TestID_*",S+"physics/SingleBH/SingleBHKS.c")])
p("C15","Parameter database: last setting wins and list membership is exact",
 "After any sequence of adding, setting and reading parameters every read returns the most recently set value (or the default), in string, integer and floating form; a membership query on a list-valued parameter is true exactly when the value is one of its blank-separated entries. Parsing a parameter file assigns to each name exactly the value text the file gives it, with comments, blanks and repeated assignments treated as documented.",
 ["histories","inputs"],"every sequence of parameter operations and every parameter file text",
 "Tests only use well-formed par files with distinctive names; near-miss names, prefixes and suffixes never occur.",
 [S+"main/main/parameters.c",S+"main/main/utilities.c"],[("findparameter/makeparameter/Gets/Getv/Sets",S+"main/main/parameters.c"),("parse_parameter_file",S+"main/main/parameters.c")])
p("C16","Tensor declarations create the right components with the right parities",
 "Declaring a variable with a tensor index string creates one component per independent index combination, in lexicographic order and with the documented names, and each component's reflection sign about each coordinate plane is the product over its indices that lie along that axis. Looking a variable up by name returns its own index and variable lists contain components in declared order.",
 ["inputs","configurations","histories"],"every supported index string and sequence of declarations",
 "Tests never inspect the parity tables and use few index symmetries.",
 [S+"main/main/tensors.c",S+"main/main/variables.c"],[("tensorindexlist",S+"main/main/tensors.c"),("AddVar, IndLax, vlpush",S+"main/main/variables.c")])
p("C17","Lists, point lists and sparse containers behave as sets/sequences",
 "Integer lists, face lists, point lists and sparse vectors behave like the abstract sequence or set they represent under any sequence of add, unite, remove, duplicate and look-up operations, without touching memory outside their allocations.",
 ["histories","inputs"],"every sequence of operations and every list length",
 "Tests only build the lists the default grids need; removal, duplication and multi-box lists are hardly used.",
 [S+"main/MemoryMan/points.c",S+"main/MemoryMan/boxlists.c",S+"main/MemoryMan/list_templates.c",S+"utility/LinAlg/SparseVector_utils.c"],[("AddToPointList, DuplicatePointList_for_grid",S+"main/MemoryMan/points.c"),("intList/boxlist operations",S+"main/MemoryMan/boxlists.c")])
p("C18","Grid storage and traversal are complete and non-overlapping",
 "Enabling variables gives every enabled variable its own zeroed storage on all points of every active box and disabling releases exactly that, repeatably; traversing points, lines, planes and faces of a box visits each intended point exactly once for every box size. Duplicating grids preserves every value and the geometry.",
 ["histories","configurations"],"every box size, sequence of enable/disable calls",
 "Tests use equal moderate box sizes and never disable/re-enable in unusual orders.",
 [S+"main/MemoryMan/storage.c",S+"main/MemoryMan/grid.c",S+"main/MemoryMan/loops.h",S+"main/MemoryMan/sgrid_MemoryMan.h"],[("enablevar/disablevar/copy_grid",S+"main/MemoryMan/storage.c"),("forallpoints/forplane/Index macros",S+"main/MemoryMan/loops.h")])
p("C19","Checkpoint restart restores the run exactly",
 "Writing a checkpoint and restarting from it restores time, iteration number, parameters and every stored variable bit for bit, so that a restarted run continues as the uninterrupted one would. Binary numbers are written in the declared byte order on any host and read back unchanged.",
 ["crash_points","inputs","histories"],"every state of the grid at a checkpoint, every double bit pattern, both byte orders",
 "One test restarts a run at a time that happens to be exactly representable in six digits.",
 [S+"utility/checkpoint/checkpoint_write.c",S+"utility/checkpoint/checkpoint_read.c",S+"main/main/endianIO.c"],[("checkpoint_write_local/checkpoint_read_*_local",S+"utility/checkpoint/checkpoint_write.c"),("fwrite_double_little/fread_double_little",S+"main/main/endianIO.c")])
p("C20","Linear solvers report success only for a solved system",
 "Whenever an iterative or direct solver reports success, the returned vector satisfies the linear system to the requested tolerance in the reported norm, and when the iteration limit is reached or the method breaks down without reaching the tolerance this is reported as failure. Converting a grid operator to a sparse matrix reproduces the operator: matrix times vector equals the operator applied to the vector.",
 ["inputs","histories"],"every operator, right-hand side, tolerance and iteration limit",
 "Tests only solve systems that converge.",
 [S+"utility/GridIterators/bicgstab.c",S+"utility/GridIterators/Newton.c",S+"utility/LinAlg/SparseVector_utils.c",S+"utility/LinAlg/ReadMatrixFrom_Fx.c",S+"utility/numerics/lu.c"],[("bicgstab",S+"utility/GridIterators/bicgstab.c"),("SparseMatrixLines_times_vector, lu_decomp/lu_solve",S+"utility/LinAlg/SparseVector_utils.c")])
p("C21","Root finders and minimisers return bracketed, converged answers",
 "When a one-dimensional root finder reports success its answer lies in the given bracket and is an exact root or lies within the requested accuracy of a sign change (Brent, bisection) or of the last Newton iterate, between points of opposite sign (bracketed Newton); the function is evaluated inside the bracket only and a bracket without sign change is reported as failure. One-dimensional minimisers return the lowest value seen. Multi-dimensional Newton reports convergence (result>=0 and check 0) only when the residual meets the tolerance.",
 ["inputs"],"every function with finite values on the bracket, every bracket and tolerance",
 "Tests use a few smooth functions and never the failure paths.",
 [S+"utility/numerics/rtbrent_brak.c",S+"utility/numerics/newton1d_brak.c",S+"utility/numerics/rt_brak.c",S+"utility/numerics/minbrent_brak.c",S+"utility/numerics/newton_linesearch.c"],[("rtbrent_brak, newton1d_brak, rtbisect, min_brak",S+"utility/numerics/rtbrent_brak.c")])
p("C22","Spherical-harmonic functions are the (spin-weighted) harmonics",
 "The real and imaginary parts returned for every degree, order and spin weight are those of the (spin-weighted) spherical harmonic in the documented convention, orthonormal on the sphere, and associated Legendre functions satisfy their defining recurrences and normalisation.",
 ["inputs"],"every supported l, m, s and angle",
 "Mode extraction is tested for one mode of one wave.",
 [S+"physics/ModeComputer/SpinWeightedSphericalHarmonics.c",S+"utility/Spectral/SphericalHarmonics.c"],[("SpinWeightedSphericalHarmonic",S+"physics/ModeComputer/SpinWeightedSphericalHarmonics.c"),("Ylm routines",S+"utility/Spectral/SphericalHarmonics.c")])
p("C23","Linearised elliptic operators are the derivative of the nonlinear ones",
 "For every elliptic problem shipped with the code the linearised operator handed to the Newton solver is the exact directional derivative of the nonlinear residual at the current state, in the interior and on the boundary rows.",
 ["inputs","configurations"],"every state, every perturbation, every point",
 "Newton converges on the tested problems even with a wrong Jacobian, since tests start from or converge to states where the error vanishes.",
 [S+"physics/Poisson2/Poisson2.c",S+"physics/Poisson3/Poisson3.c",S+"physics/Poisson/Poisson.c"],[("F_Poisson*/J_Poisson*",S+"physics/Poisson3/Poisson3.c")])
p("C24","Wave-type evolution systems implement their PDE and radiative boundary",
 "The scalar wave evolution modules set time derivatives equal to the wave operator on the configured background for every field configuration, and radiative outer boundaries impose du/dt = -v (u-u0)/r - v n.grad u at every listed boundary point and only there, in rate form and in stepping form. The effective source of a scalar charge is the wave operator applied to the windowed singular field of a charge on the circular orbit of the configured black hole.",
 ["inputs","configurations"],"every field value, background, boundary point list",
 "Tests evolve one pulse on one grid and tolerate a factor of two in the error.",
 [S+"physics/ScalarWave/ScalarWave.c",S+"physics/testwave/wave.c",S+"utility/boundary/radiative.c",S+"physics/ScalarOnKerr/ScalarOnKerr.c",S+"physics/ScalarOnKerr/DV_CircSchwSource/Source.c",S+"physics/ScalarOnKerr/DV_CircSchwSource/THZ.c"],[("ScalarWave_evolve",S+"physics/ScalarWave/ScalarWave.c"),("set_boundary_radiative",S+"utility/boundary/radiative.c")])
p("C25","Post-Newtonian orbit and wave form",
 "The post-Newtonian evolution equations keep every spin's magnitude and the unit normal's length constant, precess the orbital plane so that total angular momentum changes only by radiation reaction, and contain each coefficient of the documented expansion for every mass ratio and spin; the orbital radius and the wave-form amplitudes contain each coefficient of the documented (Kidder 1995) expansion for every direction, and the fields on the sphere and their mode integrals are formed from them.",
 ["inputs"],"every mass, spin and separation in range",
 "Output of this module is checked by one run with one binary, if at all.",
 [S+"physics/PN_CircularOrbit_GWs/PN_CircOrbit.c",S+"physics/PN_CircularOrbit_GWs/compute_GWs.c"],[("xodot functions and derivative routine",S+"physics/PN_CircularOrbit_GWs/PN_CircOrbit.c"),("wave-form amplitudes",S+"physics/PN_CircularOrbit_GWs/compute_GWs.c")])
p("C26","Box faces are matched consistently",
 "Every point of an external box face belongs to a face record (to exactly one per face with the default set-up), a record of contact has a partner record of the other box that points back and has the complementary value / normal-derivative flag, points without a box beyond them are in outer-boundary records, and the values (or normal derivatives) that are transferred through a record are those of the other box at the same physical location.",
 ["configurations","inputs"],"every layout of Cartesian boxes, polar or spherical shells and cubed-sphere arrangements that the set-up routines can produce; arbitrary fields, points and coordinates in the transfer",
 "Tests cover a few fixed layouts and only observe aggregated errors.",
 [S+"utility/Coordinates/Coordinates_set_bfaces.c",S+"utility/boundary/BCs_from_bfaces.c"],[("bface setup",S+"utility/Coordinates/Coordinates_set_bfaces.c"),("FPsi_*_for_bface",S+"utility/boundary/BCs_from_bfaces.c")])
p("C27","Cubed-sphere maps are invertible and stay on their surfaces",
 "For every cubed-sphere patch and type the map from (lambda,A,B) to Cartesian coordinates and the inverse map undo each other in both directions, and lambda=0 and lambda=1 land exactly on the patch's inner and outer surface. Where the surfaces are given by a spherical-harmonic expansion, its coefficients are the surface integrals over all six patches and the surface derivatives are the exact derivatives of the expansion.",
 ["inputs","configurations"],"every point of a patch, every centre, size, domain number and patch type",
 "Tests use one configuration of radii and never call the inverse on arbitrary points.",
 [S+"utility/Coordinates/coordtrans_CubedSphere.c",S+"utility/Coordinates/FSurf_CubedSpheres.c",S+"utility/Coordinates/setup_CubedSpheres.c"],[("xyz_of_lamAB_CubSph, lamAB_of_xyz_CubSph",S+"utility/Coordinates/coordtrans_CubedSphere.c")])
p("C28","Smooth attenuation and special functions meet their definitions",
 "The attenuation (window) functions are 0 and 1 at and beyond their ends, stay within [0,1], are monotone in between, and the derivative functions provided with them are their exact derivatives; the complex-number helpers satisfy the identities that define them.",
 ["inputs"],"every argument and shape parameter",
 "No test evaluates these functions directly.",
 [S+"utility/numerics/attenuation.c",S+"utility/Coordinates/ComplexFunctions.c"],[("Attenuation01, Att_0to1_x_x0_w_q_s, dAtt_*",S+"utility/numerics/attenuation.c"),("complex helpers",S+"utility/Coordinates/ComplexFunctions.c")])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
print(len(P))

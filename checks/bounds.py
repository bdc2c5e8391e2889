"""Per property: (how it is decided, bounds, stubs and stand-ins, what lies outside).  Used in the evidence files and DESIGN.md."""
B = {
"C01": ("tpfa_htrans_compute, tpfa_trans_compute and tpfa_eff_trans_compute run on grids whose geometry arrays are overwritten with free reals; results are compared with |c.Kn|/|c|^2 and the series combination (cross-multiplied, so no rounding enters).", "2D 2x1 and 3D 2x1x1 cells; all centroids, normals, symmetric tensors in [-100,100], positive mobilities and one-sided values.", "BLAS reference dgemv/ddot/dnrm2 (engine/blas_ref.c).", "other topologies (the code is a per-face loop)."),
"C02": ("ifs_tpfa (C interface) and IncompTpfa (class, with real rock/fluid evaluation, gravity heads, wells) assemble; the linear solver is replaced by *any exact solution* of the assembled system (fresh unknowns constrained by A x = b); per-cell volume balances of the reported fluxes and perforation rates are asserted.", "2- and 3-cell rows and a 2x2 patch; all transmissibilities > 0, sources, boundary values, gravity terms, well indices, targets; wells none/BHP/rate; compressible-rock variant with arbitrary iterate.", "linear solver; incompressible property class with free values.", "larger grids."),
"C03": ("same runs as C02; every boundary face and well equation is compared with its condition.", "as C02; boundary conditions: none, flux, pressure, several faces per condition.", "as C02.", "gravity on pressure-boundary faces (the solver documents pressure boundaries without it)."),
"C04": ("IncompTpfa::solve twice on one object (an arbitrary earlier step with other data) versus a fresh object: all outputs equal.", "3D column of 2 cells, well none/BHP/rate, gravity on/off, both steps' data free.", "linear solver: the same function of the matrix for both objects.", "more than one earlier step."),
"C05": ("incremental assembly: after an exact increment the linearised balance and, at fixed points, the nonlinear balance hold; IncompTpfa's loop: whenever solve() returns, the reported state satisfies the nonlinear balance within the tolerances given.", "2-3 cells; 1-2 Newton iterations; rock multipliers quadratic or free values; wells none/BHP/rate.", "linear solver; root of the loop bounded by its iteration limit.", "convergence itself."),
"C06": ("cfs_tpfa_res_assemble: residuals against the mass balance written out with A^-1; well rows against their control.", "2 or 3 cells in a row, 2 or 3 phases (black-oil matrix pattern), wells BHP/total rate/surface rate, sources, arbitrary pressures, gravity terms, rock compressibility on/off; matrices with positive determinant, entries in [0,4].", "dgetrf/dgetrs reference without pivoting (positive pivots in the admissible matrices).", "pivoting."),
"C07": ("formal differentiation of the residual terms built by the same run; every matrix entry compared.", "as C06 with 2 cells, 2 phases, rock on/off.", "as C06.", "pivoting."),
"C08": ("cfs_tpfa_res_flux/fpress/comprock... and CompressibleTpfa::solve through a stub fluid: reported phase fluxes, face pressures, upwind choices, surface volumes, well rates.", "2 cells, 2 phases; wells none, producer, injector (shut producer: thorough).", "fluid with A(p), mu(p) linear in p; linear solver as in C02.", "3 phases through the class; convergence."),
"C09": ("mim_ip_simple_all, gravity, density and mobility updates.", "2 cells; symbolic boxes with full symbolic tensors (2D/3D); three irregular planar-faced shapes with symbolic tensors (in 3D diagonal and off-diagonal entries in turn); positive definiteness for boxes with diagonal tensors (full 2D tensors in thorough).", "dgeqrf/dorgqr replaced by Gram-Schmidt (any orthonormal basis of the same span gives the same projector); LAPACK/BLAS reference.", "warped faces."),
"C10": ("ifsh/cfsh construct + assemble, exact solution of the assembled system, fsh_press_flux; cell balances, both half-face fluxes of every face, boundary pressures and fluxes, perforation inflow, well controls.", "3 cells with 4/5/4 faces, two inner products per cell, five boundary-condition sets, wells: none, one in two cells, two sharing a cell, two sharing two cells, each BHP or rate; sources, gravity, values and targets free; compressible terms from two choices.", "linear solver; BLAS reference.", "symbolic inner products (they are products with the multipliers); wells in the compressible variant (ignored by the code)."),
"C11": ("symbolic face-flux signs on fixed graphs: sequence and components against reachability; the component search tarjan() itself for *every* digraph by CBMC.", "graphs of up to 6 cells (rows, patches, rings, 3D box); CBMC: all digraphs with up to 4 vertices/5 edges (more in thorough).", "none.", "larger graphs."),
"C12": ("TransportSolverTwophaseReorder::solve with the scalar root finder (its contract is C15) replaced by one that returns the prescribed end saturation after asserting that the function handed over vanishes exactly where the implicit upwind balance does; order of visits and mass balances asserted.", "3x1 and 2x2 grids, all flux directions on acyclic fields, dt, pore volumes, viscosities, sources free; linear and quadratic relperm; loops: fixed rotating field with free initial saturations, real solver arithmetic.", "root finder, fluid.", "loops of more than 4 cells; tolerance accumulation."),
"C13": ("solveGravity of the incompressible and compressible reorder solvers, prescribed-root technique: column sweeps, balances, limits, resting states.", "columns of 2 and 3 cells, 1-2 columns, gravity up/down, all initial saturations, several data sets with one or two free parameters.", "root finder, fluid.", "convergence of the sweeps; fully free data."),
"C14": ("TransportSolverCompressibleTwophaseReorder::solve as C12, with formation factors and pore volumes varying.", "2x1, 3x1, 2x2.", "root finder, fluid with free tables.", "loops."),
"C15": ("RegulaFalsi::solve (both forms) and bracketZero over uninterpreted functions: the function is known only through fresh values at the points asked for.", "up to 1-2 (thorough 3) iterations of the search after initialisation; all brackets, tolerances.", "none.", "more iterations (the invariant step is what is explored)."),
"C16": ("TofReorder::solveTof/solveTofTracer on all acyclic flux fields; multidimensional upwinding variant.", "rows of 3, 2x2, 2x2x... patches; fluxes, pore volumes, sources free (tails of 2x2 fluxes from choices).", "none.", "cycles (the code iterates)."),
"C17": ("DGBasisBoundedTotalDegree and DGBasisMultilin evaluated at free points of a cell with free centroid.", "2D and 3D, degrees 0 and 1.", "none.", "known findings: addConstant of the multilinear basis."),
"C18": ("TofDiscGalReorder with dgesv replaced by a recorder returning arbitrary coefficients: residual of the assembled local system equals the weak form for every coefficient vector; limiters.", "2x1 and 2x2 grids, degree 0 and 1, both bases, limiters, both velocity interpolations.", "dgesv; quadrature is C44.", "known finding: limiter lift of the multilinear basis."),
"C19": ("NonuniformTableLinear, UniformTableLinear, buildUniformMonotoneTable.", "2 to 4 nodes, free data, free argument.", "none.", "longer tables (same segment arithmetic)."),
"C20": ("MonotCubicInterpolator: interpolation, monotonicity through the derivative sign on each segment, constancy outside, set operations.", "2-5 points.", "none.", "file input."),
"C21": ("SaturationPropsFromDeck over all saturation-function families and tables, end-point scaling.", "2-3 table rows per table, free table entries, one or two regions, free saturations; end-point scaling with the Simple family, oil-water.", "deck built in memory.", "end-point scaling of three-phase families, hysteresis."),
"C22": ("the parameter-based property classes with free parameters.", "2 cells, 1-2 phases, all relperm functions.", "parameters handed over through the class constructors; ParameterGroup only for the discrete choices.", "text formatting of numbers."),
"C23": ("SinglePvtDead, SinglePvtDeadSpline, SinglePvtConstCompr.", "tables of 2-3 rows, free values and pressures.", "none.", ""),
"C24": ("SinglePvtLiveOil and SinglePvtLiveGas.", "2 saturated nodes (3 in thorough) with undersaturated branches of 2 points.", "none.", "behaviour without gas component in wet gas (division by the absent phase)."),
"C25": ("BlackoilPropertiesFromDeck over in-memory decks, all combinations of dead/live/constant-compressibility phases.", "2 cells, free pressures and surface volumes, 2-row tables.", "deck built in memory.", "text parsing."),
"C26": ("RockCompressibility from parameters and from decks.", "free pressure, ROCKTAB of 2-3 rows.", "", ""),
"C27": ("computePorevolume, computeSaturatedVol, averages, injected/produced, layout conversions.", "2-3 cells, 2-3 phases.", "fluid with free values.", ""),
"C28": ("computeTotalMobility/Omega/PhaseMobilities/FractionalFlow.", "2-3 cells, 2-3 phases.", "fluid with free values.", ""),
"C29": ("computeTransportSource, WellReport, computePhaseFlowRatesPerWell etc.", "3 cells, 2 wells with up to 2 perforations, 2-3 phases.", "fluid with free values.", ""),
"C30": ("estimateCellVelocity, VelocityInterpolation (constant, ECVI), WachspressCoord.", "boxes with symbolic sides; irregular quadrilaterals and hexahedra.", "", "warped faces."),
"C31": ("GridManager and cart_grid constructors.", "up to 3x3 and 3x2x3 cells, symbolic spacings, depths, deck variants (DXV.. TOPS, DEPTHZ).", "", "larger sizes."),
"C32": ("compute_geometry.", "boxes, sheared and trapezoidal cells with symbolic vertices along planar faces.", "sqrt as an exact algebraic function.", "warped faces."),
"C33": ("processed_grid from ZCORN with symbolic depths: connectivity against overlap of the depth intervals; conformity.", "up to 2x2x1, 2x1x2, 1x1x3 blocks, faults with symbolic throw, inactive cells, pinched layers.", "", "fault throws with pillars not vertical."),
"C34": ("extractColumn on processed grids with symbolic gaps, and on hand-made tables.", "up to 2x1x3, 1x2x4.", "", ""),
"C35": ("SparseTable, SparseVector.", "up to 3 rows of up to 3 elements.", "", ""),
"C36": ("CBMC: construction of CSR matrices for all patterns; assembly helpers, input/output recorder.", "up to 3x3.", "qsort/bsearch models calling the code's comparator.", ""),
"C37": ("CBMC: add_well, append/clear/set controls, clone, equality, and every allocation failing.", "sequences of up to 4 calls, up to 3 wells.", "malloc may fail in the oom unit.", ""),
"C38": ("CBMC: append/clear sequences.", "3 (thorough: more) calls.", "", ""),
"C39": ("CBMC: partition_*, dfs, hash sets; symfork: coarse topology, splitting.", "grids to 3x3x2, graphs of 3-4 vertices, hash sets with symbolic hash functions.", "", ""),
"C40": ("SimulatorTimer with symbolic step lengths from parameters/TSTEP.", "up to 3 steps.", "", "calendar dates."),
"C41": ("WellsManager-style groups: applyGroupControls, conditionsMet, reinjection.", "group tree FIELD{G1{W1,W2},W0} and variations; 2-3 phases; guide rates, targets, rates free.", "deck built in memory.", "deeper trees."),
"C42": ("initState*: saturations, contact, hydrostatic pressures, deck states, face pressures.", "up to 3 layers x 2 columns with free geometry (incompressible); blackoil depth integration with constant and (fixed depths) pressure-dependent densities.", "fluid with free values.", "capillary transition zones (ignored by the code)."),
"C44": ("CellQuadrature and FaceQuadrature applied to polynomials with free coefficients.", "degrees 0-2 (cells), 0-3 (faces); boxes with symbolic sides, five planar-faced shapes.", "", "higher degrees (not offered)."),
"C45": ("spu_explicit and spu_implicit.", "2-4 cells, free fluxes, gravity, mobility tables.", "linear solves exact.", ""),
"C46": ("SinglePointUpwindTwoPhase + ImplicitTransport assembler: residual and Jacobian against formal derivatives.", "2x1, 3x1, 2x2; gravity, capillary pressure; free data except where noted in the units.", "fluid with quadratic relperm.", ""),
"C48": ("unit conversions, averages.", "all reals; averages of 2-3 positive numbers.", "", "units of measurement tables in text form."),
"C49": ("EclipseGridInspector (sizes, indices, corner depths, volumes, dips, limits, rejected input) on in-memory decks; CornerPointChopper on a deck file written by the harness.", "grids to 3x2x1, 1x2x3, 2x3x2; free pillar positions and depths (volumes), half of the coordinates of one axis at a time (limits), free layer slopes over fixed rectangular bases (dips); chopping a 2x2x3 deck with fixed (thorough: two free) depths, free range, pillars and fields, all boxes.", "extraction of a double from a stream answers marker numbers with symbolic values (chopping).", "writeGrdecl; chopping decks whose layers cross."),
"C50": ("EclipseGridParser and SpecialEclipseFields on deck texts with every number of the tested keywords symbolic: grid and integer fields, PVT/saturation/rock/endpoint tables, schedule keywords, polymer keywords, defaults, repeat counts, comments, missing terminators, unit systems, reading a second deck.", "about 45 keywords in METRIC, FIELD and LAB; tables of up to 3 rows and 2 regions; the layouts listed in harness/deckparse.cpp.", "extraction of a double from a stream answers marker numbers with symbolic values; the digits of a number are thus not symbolic.", "all other texts; names with quotes in FAULTS; MAPAXES."),
"C51": ("RockFromDeck and IncompPropertiesFromDeck.", "2 cells of a 3-cell deck, all subsets of PERMX..PERMZX.", "deck built in memory.", "text parsing."),
}

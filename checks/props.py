# Source of /verif/properties.jsonl (written by tools/gen.py).
PROPS = []
def P(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": ["opm/core/" + f for f in files], "mechanism": [{"name": n, "where": "opm/core/" + w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": "opm/core/" + w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    PROPS.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

P("C01", "Two-point transmissibilities follow the flux formula",
  "For every cell face the one-sided transmissibility equals |c.K n|/|c|^2, with c the vector from cell centroid to face centroid, n the area-weighted face normal and K the cell's symmetric permeability tensor, and is never negative. Face transmissibility is the reciprocal of the sum of reciprocals of its one-sided values, and the mobility-weighted variant is the same combination after scaling each side by its cell's total mobility.",
  ["inputs", "configurations"], "all cell/face positions, normals, symmetric tensors, positive mobilities; 2D and 3D grids, interior and boundary faces",
  "No existing test computes a transmissibility; the claim quantifies over all real geometry and permeability.",
  ["pressure/tpfa/trans_tpfa.c", "pressure/tpfa/trans_tpfa.h"], [("one-sided and combined transmissibilities", "pressure/tpfa/trans_tpfa.c")])

P("C02", "Incompressible pressure solve conserves volume in every cell",
  "For any grid, positive transmissibilities, sources, boundary conditions, wells and gravity terms, whenever the assembled linear system is solved exactly, the reported face fluxes and well perforation rates satisfy: net outflow of every cell equals its source plus its perforation inflow (plus, for slightly compressible rock, minus the pore-volume change over the step). Each internal face flux is transmissibility times the potential drop including gravity, so flow goes from high to low potential.",
  ["inputs", "configurations"], "all transmissibilities > 0, sources, boundary pressures/fluxes, well controls/indices, gravity, mobilities and time steps on small grids of fixed topology; any exact solution of the assembled system",
  "No stable test runs a pressure solve; a test can only sample a few systems.",
  ["pressure/tpfa/ifs_tpfa.c", "pressure/IncompTpfa.cpp", "linalg/sparse_sys.c"],
  [("system assembly", "pressure/tpfa/ifs_tpfa.c"), ("flux post-processing", "pressure/tpfa/ifs_tpfa.c"), ("driver", "pressure/IncompTpfa.cpp")])

P("C03", "Pressure solve honours boundary conditions and well controls",
  "In the incompressible two-point solver, every prescribed-flux face carries exactly its prescribed flux, a prescribed-pressure face carries transmissibility times the drop to the prescribed pressure, other boundary faces carry no flow. A rate-controlled well's perforation rates sum to its (reservoir) target, a pressure-controlled well's bottom-hole pressure equals its target, every perforation rate is well index times mobility times drawdown, and a stopped well injects and produces nothing in total.",
  ["inputs", "configurations"], "all control targets, boundary values, well indices, mobilities, gravity heads; injectors and producers, rate and pressure control, several perforations",
  "No stable test runs a pressure solve with wells or boundary conditions.",
  ["pressure/tpfa/ifs_tpfa.c", "pressure/IncompTpfa.cpp"], [("boundary and well assembly", "pressure/tpfa/ifs_tpfa.c"), ("well potentials", "pressure/IncompTpfa.cpp")])

P("C04", "Repeated pressure solves do not depend on earlier solves",
  "Calling the incompressible pressure solver again on the same solver object gives the same pressures, face fluxes, perforation rates and bottom-hole pressures as a freshly constructed solver given the same state, sources, boundary conditions and time step, whatever was solved before.",
  ["histories", "inputs"], "all previous saturations/pressures/sources before the last call, all inputs of the last call, wells with gravity head",
  "Needs a two-call history with different state and a comparison against a fresh solver; no test does this.",
  ["pressure/IncompTpfa.cpp", "pressure/IncompTpfa.hpp"], [("per-solve dynamic data", "pressure/IncompTpfa.cpp")])

P("C05", "Incremental solve with compressible rock is Newton on the same balance",
  "With pressure-dependent pore volume, an exactly solved increment system from any current iterate yields updated pressures that satisfy the cell balances (fluxes, sources, wells, linearised pore-volume change relative to the old pore volume) linearised at that iterate; at a fixed point (zero increment) the nonlinear balance holds exactly.",
  ["inputs", "configurations"], "all iterates, previous pressures, pore volumes, compressibilities, time steps, sources and wells on small grids",
  "No stable test exercises compressible-rock assembly.",
  ["pressure/tpfa/ifs_tpfa.c", "pressure/IncompTpfa.cpp"], [("compressible-rock assembly and increment", "pressure/tpfa/ifs_tpfa.c")])

P("C06", "Compressible pressure residual is the volume-weighted mass balance",
  "The compressible two-point residual of each cell equals the cell's pore-volume discrepancy plus the inverse-fluid-matrix weighted sum of component outflow through faces, minus sources and perforation inflow, over the time step; a well row states its active control (bottom-hole pressure or total reservoir/surface rate of its component distribution). Internal face component fluxes cancel between the two neighbouring cells.",
  ["inputs", "configurations"], "all pressures, fluid matrices, viscosities, relative permeabilities, gravity terms, sources, well indices and controls on small grids",
  "No stable test reaches the compressible pressure code.",
  ["pressure/tpfa/cfs_tpfa_residual.c", "pressure/CompressibleTpfa.cpp"], [("residual assembly", "pressure/tpfa/cfs_tpfa_residual.c")])

P("C07", "Compressible pressure Jacobian is the derivative of the residual",
  "For every cell and well equation of the compressible two-point pressure solver the assembled matrix entry equals the partial derivative of the corresponding residual with respect to that cell or well pressure, with phase properties at faces and perforations held fixed.",
  ["inputs", "configurations"], "all pressures, fluid matrices and their derivatives, sources, wells (rate and pressure controlled) on small grids",
  "No stable test compares any Jacobian with its residual.",
  ["pressure/tpfa/cfs_tpfa_residual.c"], [("Jacobian assembly", "pressure/tpfa/cfs_tpfa_residual.c")])

P("C08", "Phase fluxes reported by the compressible solver match its pressures",
  "After a compressible pressure step, face phase fluxes equal face transmissibility times phase mobility times phase potential difference (gravity included), with face phase properties taken from the upstream cell of each phase, and the perforation rate equals well index times total mobility times drawdown, and is zero for a stopped well. On an internal face with zero potential difference of a phase, that phase's flux is zero.",
  ["inputs", "configurations"], "all pressures, mobilities, densities, gravity heads; all upwind direction combinations",
  "No stable test reaches the compressible pressure code.",
  ["pressure/CompressibleTpfa.cpp", "pressure/tpfa/cfs_tpfa_residual.c"], [("upwinding", "pressure/CompressibleTpfa.cpp"), ("flux reconstruction", "pressure/tpfa/cfs_tpfa_residual.c")])

P("C09", "Mimetic inner product is exact for linear pressure and symmetric positive",
  "For any cell with consistent geometry and symmetric positive definite permeability, the inverse inner product applied to centroid-difference pressures of a linear field reproduces the exact face fluxes; the matrix is symmetric, and positive definite. Gravity pressure differences equal gravity dotted with face-minus-cell centroid.",
  ["inputs", "configurations"], "all box geometries and permeability tensors within bounds",
  "No test covers the mimetic discretisation.",
  ["pressure/mimetic/mimetic.c"], [("inner product", "pressure/mimetic/mimetic.c")])

P("C10", "Hybrid mimetic pressure solve is locally conservative and honours data",
  "Solving the hybridised (Schur-complement) system exactly and reconstructing pressures and fluxes gives: per-cell net outflow equals the cell source plus well inflow, fluxes on the two sides of every internal face cancel, and prescribed boundary pressures and fluxes and well controls are honoured.",
  ["inputs", "configurations"], "all inner products, sources, gravity terms, boundary values and wells on small grids",
  "No test covers the hybrid system.",
  ["pressure/mimetic/hybsys.c", "pressure/mimetic/hybsys_global.c", "pressure/fsh.c", "pressure/ifsh.c", "pressure/fsh_common_impl.c"], [("Schur complement", "pressure/mimetic/hybsys.c"), ("global assembly", "pressure/mimetic/hybsys_global.c"), ("solver", "pressure/ifsh.c")])

P("C11", "Transport ordering visits upstream cells first",
  "For every directed flow graph induced by face fluxes, the computed sequence is a permutation of the cells grouped in consecutive components such that each component is exactly one strongly connected set, and every cell's upstream neighbours lie in the same or an earlier component.",
  ["inputs"], "all directed graphs up to the stated number of vertices/edges; all signs of fluxes on small grids",
  "Tests do not exercise the ordering; cycles of every shape are needed.",
  ["transport/reorder/tarjan.c", "transport/reorder/reordersequence.cpp", "transport/reorder/ReorderSolverInterface.cpp"], [("strongly connected components", "transport/reorder/tarjan.c"), ("graph construction", "transport/reorder/reordersequence.cpp")])

P("C12", "Two-phase reordering transport satisfies its implicit balance",
  "After an incompressible two-phase transport step with the reordering solver, every cell's water saturation lies within its admissible range and satisfies the implicit upwind balance (new minus old water volume equals time step times net water inflow, upstream fractional flow, injected water included) within the solver tolerance; both phase saturations sum to one. Water volume is thereby conserved over the whole grid.",
  ["inputs", "configurations"], "all face fluxes, sources, pore volumes, saturations and time steps on small grids incl. loops; fluid with symbolic viscosities",
  "No stable test runs a transport step.",
  ["transport/reorder/TransportSolverTwophaseReorder.cpp", "transport/reorder/ReorderSolverInterface.cpp", "utility/RootFinders.hpp"], [("single-cell residual", "transport/reorder/TransportSolverTwophaseReorder.cpp")])

P("C13", "Gravity segregation keeps phase volumes and admissible saturations",
  "After a gravity segregation step in vertical columns, the water volume of every column equals its volume before the step within solver tolerance, saturations stay in the admissible range and sum to one, and with equal densities nothing changes.",
  ["inputs", "configurations"], "all saturations, densities, time steps and column shapes within bounds",
  "No stable test runs gravity segregation.",
  ["transport/reorder/TransportSolverTwophaseReorder.cpp", "transport/reorder/TransportSolverCompressibleTwophaseReorder.cpp"], [("column solve", "transport/reorder/TransportSolverTwophaseReorder.cpp")])

P("C14", "Compressible two-phase transport satisfies its implicit balance",
  "After a compressible two-phase transport step with the reordering solver, each cell satisfies the implicit upwind water balance in surface volumes with the cell's old and new formation factors and pore volumes within the solver tolerance; saturations stay admissible and sum to one, and reported surface volumes equal fluid matrix times saturation.",
  ["inputs", "configurations"], "all fluxes, sources, pressures, fluid matrices, pore volumes, time steps on small grids",
  "No stable test runs a compressible transport step.",
  ["transport/reorder/TransportSolverCompressibleTwophaseReorder.cpp", "utility/miscUtilitiesBlackoil.cpp"], [("single-cell residual", "transport/reorder/TransportSolverCompressibleTwophaseReorder.cpp")])

P("C15", "Bracketing root finders return a root inside the bracket",
  "For every continuous function whose values at the bracket ends have opposite signs (or one is zero), the root finder returns a point inside the closed bracket at which either the function is within tolerance of zero or a sign change has been enclosed in an interval no longer than the tolerance; it never exceeds its iteration limit silently and never evaluates outside the bracket. When no bracket exists the configured error policy applies.",
  ["inputs"], "all function values consistent with a continuous function, brackets, tolerances, initial guesses; bounded iterations",
  "The function values are the input: tests can only try specific functions; no existing test does.",
  ["utility/RootFinders.hpp"], [("modified regula falsi", "utility/RootFinders.hpp")])

P("C16", "Time-of-flight and tracers satisfy the upwind balance",
  "For flow fields without loops, the finite-volume time-of-flight of every cell satisfies: outflow times value equals the pore volume plus inflow times upstream values, with zero time-of-flight injected by sources and boundary inflow; tracer concentrations satisfy the same balance without the pore volume, lie between 0 and 1 and are 1 for the tracer's own source cells.",
  ["inputs", "configurations"], "all loop-free fluxes, pore volumes and sources on small grids (loops are only pretended to be solved by this version, which says so on its output)",
  "No stable test runs the time-of-flight solver.",
  ["tof/TofReorder.cpp", "transport/reorder/ReorderSolverInterface.cpp"], [("single- and multi-cell solve", "tof/TofReorder.cpp")])

P("C17", "Discontinuous Galerkin bases are consistent polynomials",
  "Basis functions reproduce constants and linear functions about the cell centre, reported gradients are the derivatives of reported values, the cell average of an expansion is its mean-value coefficient functional, and adding a constant to an expansion adds that constant at every point.",
  ["inputs", "configurations"], "all cell geometries, points and coefficients; degrees 0 and 1, 2D and 3D",
  "dgbasis tests evaluate a few points on fixed cells only.",
  ["tof/DGBasis.cpp", "tof/DGBasis.hpp"], [("basis evaluation", "tof/DGBasis.cpp")])

P("C18", "Discontinuous Galerkin time-of-flight reduces to the upwind balance",
  "The discontinuous Galerkin time-of-flight solution of degree 0 equals the finite-volume one, and for degree 1 the solution satisfies the upwind balance weighted by every basis function; limiters keep each cell average, except that an average below its upstream bound is raised to it, and limited values respect neighbour or upstream bounds.",
  ["inputs", "configurations"], "all fluxes, pore volumes and sources on small grids",
  "No stable test runs the discontinuous Galerkin time-of-flight solver.",
  ["tof/TofDiscGalReorder.cpp"], [("cell assembly and limiters", "tof/TofDiscGalReorder.cpp")])

P("C19", "Piecewise-linear tables interpolate, differentiate and invert consistently",
  "A uniform or non-uniform linear table returns the data at its nodes, the straight-line value between neighbouring nodes and its documented extrapolation outside; the reported derivative is the slope of the segment used, the inverse returns an argument whose table value is the given one, and domain/range rescaling maps values accordingly. A uniform table resampled from non-uniform data agrees with it at every sample point.",
  ["inputs"], "all strictly increasing nodes, all values, all query points; up to the stated number of nodes",
  "Table tests query a handful of points of fixed tables.",
  ["utility/linearInterpolation.hpp", "utility/UniformTableLinear.hpp", "utility/NonuniformTableLinear.hpp", "utility/buildUniformMonotoneTable.hpp"], [("interpolation", "utility/linearInterpolation.hpp")])

P("C20", "Monotone cubic interpolation is interpolating and monotone",
  "For strictly increasing abscissae the interpolant passes through every data point, is constant outside the data range, and for monotone data is monotone between points; sums, scaling, extrema, monotonicity queries and missing-range queries are consistent with the data, and removing constant end pieces keeps the represented function's strictly monotone part.",
  ["inputs", "histories"], "all data sets up to the stated size, all query points, point insertions in any order",
  "No stable test covers the interpolator.",
  ["utility/MonotCubicInterpolator.cpp", "utility/MonotCubicInterpolator.hpp"], [("Hermite evaluation and derivative limiting", "utility/MonotCubicInterpolator.cpp")])

P("C21", "Deck-based relative permeability and capillary pressure are consistent",
  "Saturation functions built from deck tables return, for two-phase systems, the tables' linear interpolants as functions of their own saturation; reported derivative matrices are the derivatives of the reported values along saturations summing to one, values are non-negative, and the reported admissible saturation range is that of the tables. End-point scaling maps the scaled end points to the table's end points.",
  ["inputs", "configurations"], "all monotone tables up to the stated size, all saturations, two- and three-phase models",
  "No stable test evaluates deck saturation functions.",
  ["props/satfunc/SatFuncSimple.cpp", "props/satfunc/SatFuncStone2.cpp", "props/satfunc/SatFuncGwseg.cpp", "props/satfunc/SaturationPropsFromDeck_impl.hpp"], [("saturation functions", "props/satfunc/SatFuncSimple.cpp")])

P("C22", "Simple fluid and rock models return their parameters",
  "The parameter-based property classes return the configured porosity, isotropic permeability, densities, viscosities and formation factor one for every cell and phase; constant, linear and quadratic relative permeability equal 1, s and s^2 with exact derivatives, capillary pressure is zero, and density equals the fluid matrix applied to surface densities.",
  ["inputs", "configurations"], "all parameter values, saturations, pressures, numbers of phases and cells within bounds",
  "No stable test evaluates these classes.",
  ["props/BlackoilPropertiesBasic.cpp", "props/IncompPropertiesBasic.cpp", "props/pvt/PvtPropertiesBasic.cpp", "props/satfunc/SaturationPropsBasic.cpp", "props/rock/RockBasic.cpp"], [("evaluation", "props/satfunc/SaturationPropsBasic.cpp")])

P("C23", "Dead and constant-compressibility fluids: values and derivatives agree",
  "For dry/dead and constant-compressibility phases, formation volume factors and viscosities are the documented functions of pressure (reciprocal of the interpolated reciprocal table; quadratic approximation of the exponential about the reference pressure), dissolved ratios are zero, and reported pressure derivatives are exact derivatives of reported values.",
  ["inputs"], "all monotone tables up to the stated size, all pressures, all coefficients",
  "No stable test evaluates phase behaviour.",
  ["props/pvt/SinglePvtDead.cpp", "props/pvt/SinglePvtConstCompr.hpp", "props/pvt/SinglePvtDeadSpline.cpp"], [("evaluation", "props/pvt/SinglePvtDead.cpp")])

P("C24", "Live oil and wet gas: saturated, undersaturated and derivatives agree",
  "For oil with dissolved gas and gas with vaporised oil the dissolved ratio is the smaller of the saturated ratio and the available ratio; factors and viscosities reproduce the tables at table nodes on both the saturated and undersaturated branches, are continuous where the branches meet at table nodes, and reported pressure derivatives equal derivatives of reported values away from kinks.",
  ["inputs"], "all monotone tables up to the stated size, all pressures and compositions",
  "No stable test evaluates live-oil or wet-gas behaviour.",
  ["props/pvt/SinglePvtLiveOil.cpp", "props/pvt/SinglePvtLiveGas.cpp"], [("two-branch evaluation", "props/pvt/SinglePvtLiveOil.cpp")])

P("C25", "Fluid matrices relate surface and reservoir volumes consistently",
  "The fluid property interface returns per cell the matrix relating surface volumes to reservoir phase volumes built from formation factors and dissolved ratios, its pressure derivative is the exact derivative, phase densities equal that matrix applied to surface densities, and every quantity of a cell depends only on that cell's inputs irrespective of batch size or order.",
  ["inputs", "configurations"], "all pressures, compositions, surface densities; two and three phases, several cells per call",
  "No stable test evaluates fluid matrices.",
  ["props/BlackoilPropertiesFromDeck.cpp", "props/pvt/BlackoilPvtProperties.cpp"], [("matrix", "props/BlackoilPropertiesFromDeck.cpp")])

P("C51", "Rock and incompressible fluid properties follow the deck",
  "Rock properties read from a deck give every active cell the porosity and the symmetric permeability tensor of its own deck cell: given components are used as they are, a cross component fills both symmetric positions, a single component means an isotropic tensor, and cross components without their diagonal components are rejected. Incompressible fluid properties read from a deck have the deck's viscosities, surface densities in phase order, reservoir densities equal to surface densities over formation volume factors, and the deck's saturation functions; decks with missing keywords or the wrong phases are rejected.",
  ["inputs", "configurations"], "all permeability keyword combinations, all values, with and without a cell map",
  "No stable test builds deck-based rock or incompressible fluid objects with symbolic data or partial permeability keywords.",
  ["props/rock/RockFromDeck.cpp", "props/IncompPropertiesFromDeck.cpp", "props/pvt/PvtPropertiesIncompFromDeck.cpp"], [("rock", "props/rock/RockFromDeck.cpp"), ("incompressible fluid", "props/pvt/PvtPropertiesIncompFromDeck.cpp")])
P("C26", "Rock compressibility is consistent with the pore-volume multiplier",
  "The pore-volume multiplier is one at the reference pressure, follows the documented quadratic law or the table's linear interpolant, and the reported compressibility equals the multiplier's pressure derivative divided by the multiplier for tabulated data and the constant coefficient otherwise; the model is inactive exactly when no data is given. Pore volumes computed with it equal porosity times cell volume times the multiplier.",
  ["inputs"], "all pressures, coefficients, tables up to the stated size",
  "No stable test evaluates rock compressibility.",
  ["props/rock/RockCompressibility.cpp", "utility/miscUtilities.cpp"], [("multiplier", "props/rock/RockCompressibility.cpp")])

P("C27", "Volume bookkeeping utilities add up",
  "Pore volumes, saturated phase volumes, average saturations, injected and produced totals, and saturation-layout conversions computed by the utility functions equal their defining sums over cells; injection counts sources with inflow at the given composition, production counts outflow split by fractional flow, each multiplied by the time step.",
  ["inputs", "configurations"], "all porosities, volumes, saturations, sources, time steps; one to three phases, small grids",
  "No stable test evaluates these helpers.",
  ["utility/miscUtilities.cpp", "utility/miscUtilitiesBlackoil.cpp"], [("sums", "utility/miscUtilities.cpp")])

P("C28", "Mobility and fractional-flow helpers follow their definitions",
  "Phase mobility is relative permeability over viscosity, total mobility their sum, mobility-weighted density the mobility-weighted average, and fractional flow the phase mobility over the total, so fractional flows sum to one; each entry depends only on its own cell.",
  ["inputs", "configurations"], "all saturations, viscosities, densities, arbitrary relative permeability values; several cells in arbitrary order",
  "No stable test evaluates these helpers.",
  ["utility/miscUtilities.cpp", "utility/miscUtilitiesBlackoil.cpp"], [("mobilities", "utility/miscUtilities.cpp")])

P("C29", "Transport sources and well reports agree with sources, wells and fluxes",
  "The per-cell transport source equals the sum of source terms, boundary inflow/outflow and perforation rates, with the injection composition converted to the first phase; per-well phase rates split perforation flow by well composition for injection and by cell fractional flow for production, and reported well totals are the sums over their perforations.",
  ["inputs", "configurations"], "all sources, fluxes, perforation rates, compositions, several wells and perforations, injectors and producers",
  "No stable test evaluates these helpers.",
  ["utility/miscUtilities.cpp", "utility/miscUtilitiesBlackoil.cpp"], [("transport source", "utility/miscUtilities.cpp"), ("well report", "utility/miscUtilities.cpp")])

P("C30", "Velocity reconstruction is exact for constant fields",
  "Cell velocity estimates, corner-velocity interpolation and constant interpolation reproduce a constant velocity field exactly from its face fluxes at every point of every cell, and corner velocities match the normal flux densities of the adjacent faces. Generalised barycentric coordinates are non-negative inside a cell, sum to one and reproduce the point.",
  ["inputs", "configurations"], "all velocities, all evaluation points, box cells of any size in 2D and 3D",
  "velocityinterpolation/wachspress tests use a few fixed points, cells and fields.",
  ["utility/VelocityInterpolation.cpp", "utility/WachspressCoord.cpp", "utility/miscUtilities.cpp"], [("interpolation", "utility/VelocityInterpolation.cpp")])

P("C31", "Structured grids have consistent topology and geometry",
  "Every constructed Cartesian or tensor grid has the right number of cells, faces and nodes, each interior face separates exactly its two logically adjacent cells, cell-to-face and face-to-cell relations are mutually inverse with correct direction tags; volumes, areas, centroids and outward normals (first cell to second) are those of the boxes described by the coordinates, and each cell's area-weighted outward normals sum to zero.",
  ["inputs", "configurations"], "all grid spacings and coordinates; all cell counts up to the stated bound; 2D and 3D",
  "geom tests check a few fixed grids.",
  ["grid/cart_grid.c", "grid/grid.c", "grid/GridManager.cpp"], [("topology and geometry fill", "grid/cart_grid.c")])

P("C32", "General geometry computation satisfies the divergence theorem",
  "Computed face areas, normals, centroids and cell volumes and centroids of grids with planar faces equal the exact geometric quantities: outward area vectors sum to zero, volume equals one third of the sum of centroid-normal products, and translating or scaling all nodes translates or scales the results accordingly.",
  ["inputs", "configurations"], "all node coordinates of hexahedral cells within bounds (planar-faced families)",
  "geom tests check a few fixed grids.",
  ["grid/cpgpreprocess/geometry.c", "grid/cornerpoint_grid.c"], [("geometry", "grid/cpgpreprocess/geometry.c")])

P("C33", "Corner-point processing yields a conforming grid",
  "Processing corner-point input yields a grid in which exactly the active cells with positive extent appear, every face has one or two distinct neighbours that list it back, overlapping neighbouring cells across pillars are connected by a face, cells stacked in one column are connected exactly when their depths meet, the faces on each side of a cell cover that side exactly with normals pointing from the first to the second neighbour (also for mirrored axes), and face and node tables stay within bounds.",
  ["inputs", "configurations"], "all corner depths and activity flags of small decks within bounds, matching and faulted columns",
  "No stable test processes corner-point input beyond fixed examples.",
  ["grid/cpgpreprocess/preprocess.c", "grid/cpgpreprocess/facetopology.c", "grid/cpgpreprocess/uniquepoints.c", "grid/cornerpoint_grid.c"], [("face matching", "grid/cpgpreprocess/facetopology.c"), ("unique points", "grid/cpgpreprocess/uniquepoints.c")])

P("C34", "Column extraction partitions cells into ordered columns",
  "Extracting vertical columns from a logically Cartesian grid puts every active cell in exactly one column, cells of a column share their lateral index and are listed by increasing depth index, and every column is contiguous.",
  ["inputs", "configurations"], "all activity patterns on small grids",
  "column tests check two fixed grids.",
  ["grid/ColumnExtract.hpp"], [("extraction", "grid/ColumnExtract.hpp")])

P("C35", "Sparse table and sparse vector behave like their dense models",
  "A table of variable-length rows returns exactly the rows put into it through any construction route, in order, with matching size queries and equality, and a sparse vector returns the stored element at stored indices and the default element elsewhere.",
  ["inputs", "histories"], "all row-size patterns and values within bounds, both construction routes, interleaved appends",
  "sparsetable/sparsevector tests use fixed content.",
  ["utility/SparseTable.hpp", "utility/SparseVector.hpp"], [("containers", "utility/SparseTable.hpp")])

P("C36", "Sparse matrix construction accumulates every contribution",
  "For any sparsity pattern, building a compressed-row matrix by counting or pushing entries, sorting rows and adding values by position yields row starts and column lists that describe exactly the requested pattern in ascending order, lookups return the position of the requested column, and zeroing or solving helpers touch only their own data; no access leaves the allocated arrays.",
  ["inputs", "histories"], "all patterns of small matrices, all push orders",
  "No stable test covers the matrix structure.",
  ["linalg/sparse_sys.c", "linalg/call_umfpack.c"], [("CSR construction", "linalg/sparse_sys.c")])

P("C37", "Well collections keep every well's data intact",
  "After any sequence of adding wells, appending and clearing controls and choosing the current control, every well keeps its type, reference depth, composition, perforated cells, well indices and name, control lists keep all appended controls in order, cloning gives an equal but independent collection, and equality holds exactly for equal data; failed additions leave the collection unchanged.",
  ["histories", "inputs"], "all call sequences up to the stated length, perforation counts and values, exceeding initial capacities",
  "wells tests use two fixed wells.",
  ["wells/wells.c", "wells.h"], [("append and grow", "wells/wells.c")])

P("C38", "Boundary-condition and source collections keep every entry",
  "Flow boundary conditions and source-term collections hold exactly the entries appended so far, in order and with their faces or cells, values and compositions, across growth and clearing; no append ever writes outside the collection's storage.",
  ["histories", "inputs"], "all append/clear sequences up to the stated length with arbitrary values",
  "No stable test covers these containers.",
  ["pressure/flow_bc.c", "transport/implicit/transport_source.c", "pressure/tpfa/compr_source.c", "pressure/tpfa/compr_bc.c", "pressure/FlowBCManager.cpp"], [("append and grow", "pressure/flow_bc.c")])

P("C39", "Block partitions and coarse connections are well formed",
  "Structured partitioning assigns every cell to exactly one block with contiguous block numbers after compression and the inverse map lists every cell once; splitting by connectivity yields connected blocks; integer sets contain exactly the inserted keys; coarse topology connects two blocks exactly when a fine face lies between them.",
  ["inputs", "configurations"], "all partition vectors and neighbour lists of small grids, all inserted keys",
  "No stable test covers partitioning.",
  ["pressure/msmfem/partition.c", "pressure/msmfem/coarse_conn.c", "pressure/msmfem/hash_set.c", "pressure/msmfem/dfs.c"], [("partition", "pressure/msmfem/partition.c"), ("hash set", "pressure/msmfem/hash_set.c")])

P("C40", "Simulation timer adds up",
  "At every step the timer's current time equals the sum of the completed step lengths, the total time is the sum of all step lengths, the step lengths are those configured, and the timer reports completion exactly after the last step.",
  ["inputs", "histories"], "all step lengths, numbers of steps within bounds, any stepping order through the public calls",
  "No stable test covers the timer.",
  ["simulator/SimulatorTimer.cpp"], [("time bookkeeping", "simulator/SimulatorTimer.cpp")])

P("C41", "Group well control respects targets and guide rates",
  "When group constraints are applied, the rates assigned to the wells under group control add up to the group target in proportion to their guide rates, wells not under group control keep their own control, and after checking conditions no constraint flagged as satisfied is violated by the given rates and pressures.",
  ["inputs", "configurations"], "all guide rates, targets, well rates and pressures for small group trees",
  "wells/group tests use one fixed deck.",
  ["wells/WellsGroup.cpp", "wells/WellCollection.cpp"], [("group control", "wells/WellsGroup.cpp")])

P("C42", "Initial states are equilibrated and admissible",
  "State initialisation gives saturations within the admissible range summing to one, with water below and oil above the contact; hydrostatic pressure differences between depths equal the integral of the density of the phase present times gravity from the datum, and face pressures lie consistent with adjacent cells.",
  ["inputs", "configurations"], "all depths, contacts, densities, datum pressures on small grids",
  "No stable test covers state initialisation.",
  ["simulator/initState_impl.hpp"], [("hydrostatic initialisation", "simulator/initState_impl.hpp")])

P("C43", "Parameter groups return what was stored",
  "Values stored in or parsed into parameter groups are returned unchanged under their path with the right type, defaults are used exactly when the parameter is absent, and later insertions override earlier ones; nested groups resolve by path.",
  ["inputs", "histories"], "all names and values",
  "param tests use a few fixed parameters; the claim quantifies over strings.",
  ["utility/parameters/ParameterGroup.cpp", "utility/parameters/ParameterGroup_impl.hpp"], [("lookup", "utility/parameters/ParameterGroup_impl.hpp")])

P("C44", "Cell and face quadrature integrate polynomials exactly",
  "Cell and face quadrature rules of the stated degree have positive weights summing to the cell volume or face area, and integrate every polynomial up to their degree exactly on box-shaped cells and planar faces, with all points inside the cell or face.",
  ["inputs", "configurations"], "all box sizes and positions (every rule but the 3D second-degree one), fixed sheared and irregular shapes with all polynomial coefficients (every rule); 2D and 3D",
  "quadratures tests check fixed grids and functions.",
  ["grid/CellQuadrature.hpp", "grid/FaceQuadrature.hpp"], [("quadrature", "grid/CellQuadrature.hpp")])

P("C45", "Single-point-upwind steppers conserve volume",
  "An explicit single-point-upwind step changes each cell's phase volume by exactly the time step times net upstream inflow plus its source, so internal exchanges cancel in total; an implicit step's solution satisfies the same balance with end-of-step values, using each face's upstream mobility.",
  ["inputs", "configurations"], "all fluxes, gravity fluxes, saturations, sources, time steps on small grids",
  "No stable test covers these steppers.",
  ["transport/minimal/spu_explicit.c", "transport/minimal/spu_implicit.c"], [("update", "transport/minimal/spu_explicit.c")])

P("C46", "Implicit transport model: Jacobian matches residual",
  "In the fully implicit two-phase transport model, the residual of each cell is accumulation minus upstream-weighted inflow, gravity and source contributions, the assembled Jacobian entries equal the residual's derivatives with respect to each saturation, and interior flux contributions cancel between neighbours.",
  ["inputs", "configurations"], "all saturations, mobilities, fluxes, gravity terms, sources, time steps on small grids",
  "No stable test covers the implicit transport model.",
  ["transport/implicit/SinglePointUpwindTwoPhase.hpp", "transport/implicit/ImplicitAssembly.hpp", "transport/implicit/JacobianSystem.hpp"], [("flux and accumulation", "transport/implicit/SinglePointUpwindTwoPhase.hpp")])

P("C47", "Multiscale coarse system reproduces fine-scale inner products",
  "The multiscale mixed-method coarse system assembled from basis functions represents exactly the fine-scale system restricted to those basis functions, so coarse fluxes mapped to the fine grid are conservative per block.",
  ["inputs", "configurations"], "all inner products and partitions of small grids",
  "No stable test covers the multiscale solver.",
  ["pressure/msmfem/coarse_sys.c", "pressure/msmfem/ifsh_ms.c"], [("coarse assembly", "pressure/msmfem/coarse_sys.c")])

P("C48", "Unit conversion and averages are exact inverses and bounds",
  "Converting a quantity from a unit to SI and back returns the quantity, named units equal their defining products, and arithmetic, harmonic and geometric averages lie between the smallest and largest argument in the order harmonic, geometric, arithmetic.",
  ["inputs"], "all positive quantities and units",
  "Unit tests check a few constants only.",
  ["utility/Units.hpp", "utility/Average.hpp"], [("conversion", "utility/Units.hpp")])

P("C49", "Deck grid geometry inspection returns exact cell geometry",
  "For corner-point data the inspector returns each cell's corner depths, logical index and the coordinate limits of the grid; for vertical pillars the cell volume (base area times mean thickness), and over rectangular bases the dips of planar layers; indices outside the grid and fields of the wrong size are rejected. Sub-grid extraction keeps exactly the requested columns and the layers that meet the depth range, with their cell data, and cuts depths to the range; an empty range is rejected.",
  ["inputs", "configurations"], "all pillar coordinates and depths within bounds of small decks",
  "No stable test covers the inspector.",
  ["io/eclipse/EclipseGridInspector.cpp", "io/eclipse/CornerpointChopper.hpp"], [("inspection", "io/eclipse/EclipseGridInspector.cpp")])

P("C50", "Deck parsing preserves data and converts units",
  "Parsing a deck keeps every keyword's values in order, expands repeat counts and default markers, ignores comments and blank lines, converts each quantity from the deck's unit system to SI exactly once, rejects non-numeric text in numeric data and records whose terminator is missing, and keeps nothing of a deck read before.",
  ["inputs"], "all deck texts",
  "Parsing correctness quantifies over all texts.",
  ["io/eclipse/EclipseGridParser.cpp", "io/eclipse/EclipseGridParserHelpers.hpp", "io/eclipse/SpecialEclipseFields.hpp"], [("tokenising", "io/eclipse/EclipseGridParserHelpers.hpp")])

#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below (one place to edit)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
         "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

# ---------------------------------------------------------------- geometry
prop("G01", "Every pin and every mesh region sits where the geometry input puts it",
 "For every accepted geometry description, the pin, plane and mesh region found at any point of the core are the ones the input names there: lattice and core rows are read north first, assembly planes are read top first, and boundaries lie at the accumulated pin pitches and plane heights. All ways of asking (by plane and pin order, by position, by point, by region number) agree with each other and number the pins and regions without gap or overlap.",
 ["inputs", "configurations"],
 "all cores, assemblies, lattices and pins the input language can describe (any shape, any mixture of pitches, heights, pin meshes and plane groupings)",
 "The tests load five fixed inputs and look at a few pins and indices of each; a swapped axis, an order reversed twice or an offset that only matters for unequal lattices, unequal heights or more than one kind of plane is not visible there.",
 ["src/core/core_mesh.cpp", "src/core/core.cpp", "src/core/assembly.cpp", "src/core/lattice.cpp", "src/core/plane.cpp", "src/core/pin.cpp", "src/core/pin_mesh_cyl.cpp", "src/core/pin_mesh_rect.cpp"],
 [("row flip while reading lattices and core", "Lattice ctor, Core ctor"), ("top-to-bottom reversal of planes", "Assembly ctor"), ("unique planes, region offsets, pin order", "CoreMesh ctor"), ("point lookup", "CoreMesh::get_location_info, get_pinmesh, Plane::get_pinmesh, Lattice::get_pinmesh")],
 ["CoreMesh iteration over pins, pin_position(), coarse_cell(), get_pinmesh(), get_location_info(), volumes(), XSMesh region lists"])
prop("G02", "Cells, surfaces and planes of the coarse mesh index one consistent box grid",
 "Every cell of the coarse mesh has six distinct surfaces, every interior surface belongs to exactly the two cells on its two sides, and neighbour, position, plane and surface look-ups are mutually inverse and leave no index unused. Surface orientation, surface area, cell volume and cell widths agree with the grid lines.",
 ["configurations", "inputs"], "all grid sizes and all (unequal) grid spacings, all cells, surfaces and directions",
 "The tests check selected cells and surfaces of one 6x5 mesh; the index formulas mix nx, ny and nz and go wrong only for particular aspect ratios, planes or faces.",
 ["src/core/mesh.hpp", "src/core/mesh.cpp", "src/core/core_mesh.cpp"],
 [("surface numbering per plane: bottom faces, x faces, y faces", "Mesh::prepare_surfaces, coarse_surf"), ("neighbour and position arithmetic", "Mesh::coarse_neighbor, coarse_position, surface_normal"), ("areas and volumes", "Mesh::coarse_area, coarse_volume")],
 ["Mesh and CoreMesh public queries"])
prop("G03", "Mesh region volumes partition the core at every level of mesh treatment",
 "Region volumes are positive, depend only on the geometry input, and add up exactly to the volume of the pin, plane and core that contain them, whichever level of detail (full mesh, plane stack, pins, pins per plane group) they are requested at. The number of regions reported for a level equals the number of volumes returned for it.",
 ["inputs", "configurations"], "all pin meshes (radii, subdivisions, sectors), lattices, plane heights and plane groupings",
 "The tests compare a handful of areas of one cylindrical and one rectangular pin and count regions of fixed inputs; the treatments differ only when plane heights differ or planes are grouped.",
 ["src/core/pin_mesh_cyl.cpp", "src/core/pin_mesh_rect.cpp", "src/core/core_mesh.cpp"],
 [("equal-area ring subdivision and sector split", "PinMesh_Cyl ctor"), ("volume lists per treatment", "CoreMesh::volumes, n_reg")],
 ["PinMesh::areas(), CoreMesh::volumes(), n_reg(), coarse_volume()"])
prop("G04", "Points and straight tracks inside a pin land in the regions that contain them",
 "A point inside a pin lies in exactly one region, the one whose ring and sector, or rectangle, contains it. A straight track across a pin is cut into segments that add up to its length, follow each other without gap, and are each attributed to the region that contains them; the distance to the next surface along a direction is never negative and never skips a surface.",
 ["inputs"], "all pin meshes, all points, all directions, all entry and exit points including tangents, centre crossings and corners",
 "The tests use about ten hand-picked points and rays; region lookup and tracing have many case distinctions (sector edges, quadrant signs, tangency) that single points miss.",
 ["src/core/pin_mesh_cyl.cpp", "src/core/pin_mesh_rect.cpp", "src/core/geometry/geom.hpp"],
 [("ring and sector search", "PinMesh_Cyl::find_reg"), ("sorted intersections, midpoint lookup", "PinMesh_Cyl::trace, PinMesh_Rect::trace"), ("nearest surface", "distance_to_surface")],
 ["PinMesh::find_reg(), trace(), distance_to_surface()"])
# ---------------------------------------------------------------- rays
prop("R01", "Characteristic rays cover the core evenly and see the right regions",
 "For every angle the rays are parallel, evenly spaced at no more than the requested spacing, run from boundary to boundary, and each ray is an unbroken chain of segments lying in the regions it is attributed to, with lengths adding up to the chord. After the chosen volume correction the ray-weighted segment lengths reproduce the region volumes it promises to preserve.",
 ["inputs", "configurations"], "all core shapes, pin meshes, quadratures, spacings, modularity and volume-correction options",
 "The tests trace a few rays through one small square core with one spacing; non-square cores, pin-modular layout, uncorrected and angle-corrected volumes are not exercised.",
 ["src/sweepers/moc/ray.cpp", "src/sweepers/moc/ray_data.cpp", "src/core/mesh.cpp"],
 [("angle modularisation", "RayData ctor, modularize_angle"), ("tracing by pins", "Ray ctor, CoreMesh::trace"), ("volume correction", "RayData::correct_volume")],
 ["RayData iteration, Ray segments, spacing(), nx(), ny()"])
prop("R02", "Every ray end meets the start of its reflected ray at the same boundary slot",
 "For every angle each boundary slot on the incoming faces starts exactly one ray and each slot on the outgoing faces ends exactly one ray, and slots are ordered along the face so that a slot number denotes the same boundary point for an angle and its reflection. The coarse-mesh cells and surfaces recorded along a ray, forwards and backwards, are those the ray physically crosses, with the right number of segments between crossings.",
 ["inputs", "configurations"], "all core shapes and all modularised angles, both travel directions",
 "One test follows hand-computed rays through a 3x2-pin core; the bookkeeping depends on the ratio of rays per face, and corner crossings occur only for particular ratios.",
 ["src/sweepers/moc/ray.cpp", "src/sweepers/moc/ray_data.cpp"],
 [("boundary slot numbering", "RayData ctor, Ray::bc"), ("coarse trace merge", "Ray ctor, RayCoarseData")],
 ["Ray::bc(), cm_surf_fw/bw, cm_cell_fw/bw, cm_data()"])
# ---------------------------------------------------------------- angles
prop("A01", "Angular quadratures are normalised, symmetric and closed under reflection",
 "Every quadrature the input can request consists of unit directions replicated symmetrically into eight octants with positive weights adding up to one per octant, and integrates the even powers of the direction cosines that its kind promises to. Reflecting an angle off a surface or reversing it yields the index of the angle with the mirrored or opposite direction and the same weight, twice yields the original, and writing a quadrature out and reading it back yields the same set.",
 ["inputs"], "all quadrature kinds, orders and numbers of angles, all angles and surfaces; before and after angles are modified",
 "The tests check weights of a few orders and some reflections of one order; table offsets for high orders and reversal in three dimensions are not covered.",
 ["src/core/angular_quadrature.cpp", "src/core/angular_quadrature.hpp", "src/core/level_symmetric.cpp", "src/core/product_quadrature.hpp"],
 [("octant replication", "Angle::to_octant, AngularQuadrature ctor"), ("reflection tables", "AngularQuadrature::reflect, reverse"), ("weight maps", "GenSn, GenProduct")],
 ["AngularQuadrature iteration, reflect(), reverse(), output(), H5 constructor"])
prop("A02", "Boundary exchange hands each outgoing flux to the right incoming slot",
 "After a boundary update, the incoming flux of an angle on a reflective side equals the outgoing flux of its mirror angle at the same place on that side, on a vacuum side it is zero, and on a prescribed side it is unchanged; no other angle, side or group is touched. This holds whether updates are made per angle or all at once.",
 ["histories", "configurations"], "all combinations of side conditions, face sizes, groups and any sequence of per-angle and global updates",
 "The tests perform single updates with two fixed side combinations; interactions of sides, per-angle order and unequal face sizes are not enumerated.",
 ["src/core/boundary_condition.cpp", "src/core/boundary_condition.hpp"],
 [("per-angle face offsets", "BoundaryCondition ctor"), ("mirror-angle copy", "BoundaryCondition::update")],
 ["BoundaryCondition::get_face(), get_boundary(), update()"])
# ---------------------------------------------------------------- cross sections
prop("X01", "Material data read from a library is what the library says, under the right ID",
 "For every well-formed library the material reached through an input ID has the absorption, nu-fission, fission, spectrum and scattering data of the named block, with the total equal to absorption plus outgoing scattering and the spectrum normalised to one if any entry is positive. Libraries or material references that are malformed, incomplete or unknown are rejected.",
 ["inputs"], "all group counts, material counts, block orders, ID assignments and scattering patterns; all single defects of a library",
 "The tests read one library and compare a few numbers.",
 ["src/core/material_lib.cpp", "src/core/material.cpp", "src/util/file_scrubber.cpp"],
 [("line-oriented parser", "MaterialLib ctor"), ("derived totals and spectrum", "Material ctor")],
 ["MaterialLib::get_material_by_id, Material accessors; exit status of a run"])
prop("X02", "Scattering matrices keep every entry, its direction and its sums",
 "Whatever the pattern of zeros, a scattering matrix returns for each pair of groups the transfer that was stored, treats rows as destinations, reports as outgoing total of a group the sum over destinations, and keeps self-scatter addressable even when zero. Copies and assigned matrices are equal and independent, and two matrices compare equal exactly when every entry is the same.",
 ["inputs"], "all group counts and all zero patterns (up- and down-scatter, empty rows, gaps)",
 "The tests use two matrices; the sparse row bounds depend on the pattern.",
 ["src/core/scattering_matrix.hpp", "src/core/scattering_matrix.cpp"],
 [("row bounds min_g..max_g", "ScatteringMatrix ctor"), ("column sums", "ScatteringMatrix::out, out_cdf")],
 ["ScatteringMatrix::to(), out(), as_vector(), out_cdf(), copies and comparison"])
prop("X03", "Each mesh region uses the cross sections of the material the input puts there",
 "The cross-section mesh assigns each mesh region, at each level of detail, to exactly one material and all data returned for the region are that material's.  Fission-related probabilities and cumulative distributions derived from them are consistent with the cross sections.",
 ["inputs", "configurations"], "all assignments of materials to regions, any material IDs, any geometry",
 "One test builds a cross-section mesh for one input and checks that every region occurs.",
 ["src/core/xs_mesh.cpp", "src/core/xs_mesh_region.cpp"],
 [("region lists keyed by material ID", "XSMesh ctor"), ("probability tables", "XSMeshRegion ctor")],
 ["XSMesh iteration, reg(), xsmac*, reaction_cdf, chi_cdf"])
prop("X04", "Homogenised cross sections preserve reaction rates",
 "Homogenising a pin with volume weights, or with a given flux, yields cross sections, spectrum and scattering for which pin volume times homogenised flux times cross section equals the sum over the pin's regions, group by group, in every plane group; it does not depend on regions of other pins, and updating with a new flux uses that flux only. Homogenised data written to a file and read back, for all or part of the planes, give the same cross sections.",
 ["inputs", "histories"], "all pin compositions, fluxes, plane groupings, repeated updates with changing fluxes",
 "The tests homogenise one small stack with a flat flux and compare a few values.",
 ["src/core/xs_mesh_homogenized.cpp", "src/core/xs_mesh_homogenized.hpp"],
 [("volume- and flux-weighted sums", "XSMeshHomogenized::homogenize_region, homogenize_region_flux"), ("file input", "read_data_single, read_data_multi")],
 ["XSMeshHomogenized iteration, update(), set_flux(), output(), H5 constructor"])
prop("X05", "Region-wise expanded cross sections always match their source",
 "Whenever a group's cross sections are requested in expanded, per-region form, the values equal the current cross sections of each region plus any splitting term passed in that request, no matter which groups, splittings and cross-section updates were requested before.",
 ["histories"], "all sequences of requests for groups, with and without splitting, and cross-section updates",
 "No test exercises repeated requests; caching makes the result depend on history.",
 ["src/core/xs_mesh.hpp", "src/core/xs_mesh.cpp", "src/core/xs_mesh_homogenized.cpp"],
 [("state counter cache", "ExpandedXS::expand, XSMesh::state")],
 ["ExpandedXS::operator[], expand()"])
# ---------------------------------------------------------------- transport
prop("S01", "The group source is fission plus scattering plus external source, each once",
 "For every group the source handed to a sweep equals the fission source times the group's spectrum, plus scattering from all other groups using the current fluxes, plus any external source and transverse leakage, plus self-scattering with the current flux, each added once, spread evenly over all directions. Building the source for one group does not disturb another.",
 ["histories", "inputs"], "all group structures, scattering patterns, fluxes, and sequences of group initialisation and inner iterations",
 "No test compares a source with its definition; the sweeper tests use one flat problem.",
 ["src/core/source.cpp", "src/core/source_isotropic.cpp", "src/core/transport_sweeper.cpp"],
 [("accumulation order", "Source::initialize_group, fission, in_scatter"), ("self-scatter and scaling", "SourceIsotropic::self_scatter"), ("fission source and totals", "TransportSweeper::calc_fission_source, total_fission")],
 ["Source::get_transport(), TransportSweeper::calc_fission_source()"])
prop("S02", "An Sn sweep solves the discrete transport equations of its scheme",
 "After a group sweep the scalar flux is the weighted sum over all directions of angular fluxes that satisfy, cell by cell in upwind order, the balance and closure relations of the chosen differencing scheme, with the source and cross sections of that group and the boundary fluxes left by the previous sweep; negative results are set to zero. This holds in two and three dimensions, for unequal cell sizes, every combination of boundary conditions and any number of inner iterations.",
 ["inputs", "histories", "configurations"], "all meshes, materials, quadratures, boundary conditions, schemes, inner-iteration counts and sequences of group sweeps",
 "No test runs an Sn sweep and compares a flux.",
 ["src/sweepers/sn/sn_sweeper_variant.hpp", "src/sweepers/sn/sn_sweeper_dd.hpp", "src/sweepers/cmdo/sn_sweeper_cdd.hpp", "src/sweepers/sn/sn_sweeper.cpp"],
 [("upwind loops", "SnSweeperVariant::sweep_1g, sweep_1g_2d"), ("cell relation", "evaluate, evaluate_2d"), ("boundary exchange", "BoundaryCondition::update")],
 ["TransportSweeper::flux() after sweep()"])
prop("S03", "A MoC sweep solves the characteristic equations along its rays",
 "After a group sweep the scalar flux of each region is the one obtained by following every ray in both directions with the flat source and total cross section of each region and summing over rays and angles, with incoming fluxes taken from the boundary exchange of the previous sweep. In a uniform infinite medium the result is the flat analytical flux.",
 ["inputs", "histories", "configurations"], "all geometries, materials, quadratures, ray options, boundary conditions, update schemes and sequences of group sweeps, with and without source splitting",
 "One infinite-medium test with a tolerance of half a percent and one smoke test of a full run.",
 ["src/sweepers/moc/moc_sweeper.cpp", "src/sweepers/moc/moc_sweeper_kernel.hpp", "src/core/exponential.hpp"],
 [("segment update", "MoCSweeper::sweep1g"), ("scalar flux scaling", "MoCSweeper::sweep1g"), ("exponential table", "Exponential_Linear")],
 ["TransportSweeper::flux() after sweep()"])
prop("S04", "Sweeps tally surface currents that balance every coarse cell",
 "The currents left on the coarse mesh by the last inner iteration of a sweep equal the net angular flow through each surface per area, so that for every coarse cell the net outflow plus the collisions equals the emission of that iteration. With grouped planes the radial currents are the same on every plane of the group and axial currents are left alone.",
 ["inputs", "configurations"], "all meshes, boundary conditions, sweeper kinds, plane groupings and unequal heights",
 "No test looks at coarse currents.",
 ["src/sweepers/sn/sn_current_worker.hpp", "src/sweepers/moc/moc_current_worker.hpp", "src/core/coarse_data.hpp"],
 [("upwind and downwind tallies", "sn::Current"), ("ray crossings, area normalisation, plane expansion", "moc::Current")],
 ["CoarseData::current after sweep()"])
prop("S05", "Results do not depend on the number of threads or their timing",
 "Running the same problem with any number of threads and any interleaving gives the same fluxes, currents and eigenvalue up to floating-point summation order, and exactly the same integer-valued results. The Sn sweeper never updates its boundary angle by angle when more than one thread is allowed, whatever the input asks for; its results with several threads are those of one thread with the update at the end of the sweep.",
 ["schedules"], "all thread counts, all loop schedules and interleavings of reductions and boundary updates",
 "Tests run with two threads once and never compare thread counts.",
 ["src/sweepers/sn/sn_sweeper_variant.hpp", "src/sweepers/moc/moc_sweeper_kernel.hpp", "src/sweepers/mc/particle_pusher.cpp"],
 [("per-thread flux and critical reduction", "sweep_1g, sweep1g"), ("boundary update in single", "sweep_1g"), ("atomic current tallies", "sn::Current")],
 ["fluxes, currents, k of runs with different OMP_NUM_THREADS"])
prop("S06", "Pin-averaged flux and its projection back are inverse to each other",
 "The pin flux of a sweeper is the volume average of its region fluxes over the pin or pin and plane group; imposing a pin flux scales the region fluxes of that pin only, keeps their shape, and makes the pin flux equal to the imposed one. The reported difference is the norm of the change of the pin flux. The pin fluxes and pin powers in the result file are those of the region fluxes, with the reported normalisation.",
 ["inputs", "histories"], "all geometries, plane groupings, sweeper kinds and positive fluxes",
 "No test imposes a pin flux.",
 ["src/sweepers/moc/moc_sweeper.cpp", "src/sweepers/sn/sn_sweeper.hpp", "src/core/transport_sweeper.cpp"],
 [("volume-weighted average", "get_pin_flux_1g"), ("ratio scaling", "set_pin_flux_1g")],
 ["get_pin_flux(), set_pin_flux_1g(), flux()"])
# ---------------------------------------------------------------- solvers
prop("E01", "The eigenvalue solver performs power iteration and stops only when it should",
 "Each outer iteration multiplies k by the ratio of new to old total fission and reports k and both changes of that iteration; iteration ends when both tolerances are met and the minimum number of iterations has been done, or at the maximum number, never otherwise, and the reported history has one entry per iteration. The result file contains the flux, power and history of the last iteration. State dumps asked for after given iterations are written for exactly those iterations that take place, whatever order they are listed in, and hold the state at that point.",
 ["histories", "configurations"], "all tolerances, limits, problems and convergence histories",
 "One end-to-end test runs without checking anything.",
 ["src/solvers/eigen_solver.cpp", "src/solvers/fixed_source_solver.cpp"],
 [("k update and convergence test", "EigenSolver::step, solve"), ("fission source normalisation", "EigenSolver::solve")],
 ["convergence group of the result file, screen output"])
prop("E02", "The fixed-source solver iterates to its tolerance and no further",
 "A fixed-source run sweeps all groups once per iteration with the external source given in the input, stops in the first iteration whose flux change is below the tolerance or at the iteration limit, and reports failure to converge. For a problem with known answer the converged flux is that answer.",
 ["inputs", "histories"], "all sources, tolerances and limits",
 "No test runs a fixed-source problem.",
 ["src/solvers/fixed_source_solver.cpp", "src/core/source.cpp", "src/core/transport_sweeper.cpp"],
 [("iteration loop", "FixedSourceSolver::solve, step"), ("external source", "Source::add_external")],
 ["flux and iteration count of a fixed-source run"])
prop("C01", "CMFD reproduces the transport solution it is built from and conserves neutrons",
 "With the currents, fluxes and cross sections of a transport solution, the diffusion system assembled from them balances every coarse cell with exactly those currents, so that a converged transport solution is left unchanged and k is the transport k. Whatever the state it starts from, the solved coarse fluxes and k satisfy the assembled system to the requested tolerances unless the iteration limit stops it, and the currents it leaves on the fine mesh, top surface included, are those of the solved system.",
 ["inputs", "histories"], "all meshes, cross sections, currents, boundary conditions and plane groupings",
 "The one CMFD test only checks that the solver runs.",
 ["src/core/cmfd.cpp"],
 [("coupling coefficients", "CMFD::setup_solve"), ("current storage", "CMFD::store_currents"), ("source iteration", "CMFD::solve, solve_1g")],
 ["CMFD::solve(), flux(), coarse_data()"])
prop("C02", "CMFD acceleration changes the path, not the answer",
 "For every problem whose solution needs no replacement of negative fluxes, an eigenvalue run with CMFD acceleration that converges gives the same k and the same flux shape as the run without it, within the tolerances; with coarse cells thinner than a mean free path it does converge wherever the plain run converges readily. Acceleration never turns a converging run into one that stops at the wrong solution.",
 ["inputs", "histories"], "all problems with CMFD on and off, for each sweeper",
 "The end-to-end test runs one problem with acceleration and compares nothing.",
 ["src/solvers/eigen_solver.cpp", "src/core/cmfd.cpp", "src/sweepers/moc/moc_sweeper.cpp"],
 [("homogenise, solve, project", "EigenSolver::do_cmfd")],
 ["k and flux of runs with and without acceleration"])
prop("D01", "Corrected Sn reproduces the MoC planes and axial leakage couples them",
 "Correction factors computed from a MoC sweep make the corrected Sn equations reproduce the MoC pin fluxes and surface fluxes of the plane they came from; axial leakage handed to each plane group is the difference of its bottom and top currents over its height (blended with the previous one by the relaxation factor), and the planes are swept with it. A flat problem has the same eigenvalue and pin fluxes as plain MoC whether the plane or the Sn flux is exposed. Correction data written to a file and read back are unchanged, and an Sn problem using the file repeats the coupled solution.",
 ["inputs", "histories"], "all meshes, plane groupings, angles, groups and iteration sequences",
 "No test runs the 2D3D sweeper.",
 ["src/sweepers/cmdo/correction_worker.cpp", "src/sweepers/cmdo/plane_sweeper_2d3d.cpp", "src/sweepers/cmdo/correction_data.cpp"],
 [("ray-averaged factors", "CurrentCorrections::calculate_corrections"), ("leakage", "PlaneSweeper_2D3D::add_tl"), ("file input", "CorrectionData::from_data")],
 ["correction data, fluxes of the two sweepers, transverse leakage output"])
# ---------------------------------------------------------------- Monte Carlo
prop("K01", "Random streams are the specified sequence and jumping equals stepping",
 "The generator produces the linear congruential sequence of its parameters from any seed, advancing by n in one jump gives the same state as n single steps for every n, values derived from it stay inside their stated half-open ranges, and sampling from a cumulative table returns a valid index with the right probability. Different particle histories never share part of a stream while they draw fewer numbers than the stride.",
 ["inputs", "histories"], "all seeds, all jump lengths, all bounds and tables, all particle numbers of a run",
 "The tests compare a few numbers and jump once; extreme states and large particle numbers are not reached.",
 ["src/util/rng_lcg.hpp", "src/sweepers/mc/particle_pusher.cpp"],
 [("multiply-add modulo 2^63", "RNG_LCG::operator()"), ("binary jump", "RNG_LCG::jump_ahead"), ("stride per particle", "ParticlePusher::simulate")],
 ["RNG_LCG public methods; histories of particles with given numbers"])
prop("K02", "A Monte Carlo run is reproducible for any number of threads and any schedule",
 "The fission sites handed to each cycle, their order, numbers and content, and therefore every history, the analog k and the source entropy, are identical for every thread count and interleaving, and track-length and collision results agree up to summation order. Each cycle starts with exactly the requested number of particles numbered consecutively.",
 ["schedules", "histories"], "all thread counts and all interleavings of particle histories over all cycles",
 "One test simulates single particles; no test runs a cycle with more than one thread count.",
 ["src/solvers/monte_carlo_eigenvalue_solver.cpp", "src/sweepers/mc/particle_pusher.cpp", "src/sweepers/mc/fission_bank.cpp"],
 [("stream per particle number", "ParticlePusher::simulate"), ("stable sort by parent and renumbering", "MonteCarloEigenvalueSolver::step"), ("resampling", "FissionBank::resize")],
 ["k history, entropy history, bank contents per cycle"])
prop("K03", "A particle history stays in the core and obeys geometry and boundary conditions",
 "Every history is a chain of straight flights, each ending at the nearer of a collision and a region, pin or domain boundary; at a reflective side the direction is mirrored and the particle continues inside, at a vacuum side the history ends, and it never leaves the core otherwise or uses cross sections of a region it is not in. A history ends only by leakage, capture or fission. Given its start and random stream, it scores in every region, pin and estimate exactly the flights and collisions it makes, and leaves its fission neutrons where it ends.",
 ["inputs", "histories"], "all geometries, boundary conditions, starting points and random streams",
 "One test runs particles in a homogeneous box.",
 ["src/sweepers/mc/particle_pusher.cpp", "src/core/core_mesh.cpp", "src/core/mesh.cpp"],
 [("flight loop", "ParticlePusher::simulate"), ("relocation", "CoreMesh::get_location_info"), ("boundary handling", "Mesh::boundary_surface")],
 ["tallies of single-particle runs, fission sites"])
prop("K04", "Tallies report the mean and relative deviation of what was scored",
 "A tally returns the sample mean per weight and per volume and the relative standard deviation of exactly the scores committed since the last reset, independently of the volume used for normalisation and of the order of scores; batches are counted once. Resetting forgets everything.",
 ["histories"], "all sequences of scoring, weighting, committing and resetting",
 "No test covers tally statistics.",
 ["src/sweepers/mc/tally_scalar.hpp", "src/sweepers/mc/tally_spatial.hpp"],
 [("running sums", "TallyScalar::score, TallySpatial::commit_realization"), ("statistics", "get()")],
 ["TallyScalar::get(), TallySpatial::get()"])
prop("K05", "The fission bank keeps, resamples and measures sites without bias",
 "Resizing a bank to n leaves exactly n sites, all of them copies of sites that were there, keeps every original site when growing and duplicates no site when shrinking; swapping exchanges contents and totals; entropy is that of the distribution of sites over pins. The total produced in a cycle is the sum of the weights added since it was cleared.",
 ["histories", "inputs"], "all bank sizes, targets, random streams and sequences of operations",
 "No test covers the fission bank.",
 ["src/sweepers/mc/fission_bank.cpp", "src/sweepers/mc/fission_bank.hpp"],
 [("random duplication and removal", "FissionBank::resize"), ("entropy", "FissionBank::shannon_entropy")],
 ["FissionBank public methods"])
prop("K06", "A Monte Carlo run reports its active cycles only and never reuses a stream",
 "A Monte Carlo eigenvalue run makes the inactive and active cycles asked for, each with the requested number of particles, starting from sites inside the given box. Every history of the run uses its own random stream, the next one not used by an earlier history or cycle. The k and entropy histories have one entry per cycle; means and deviations of k, fluxes and pin powers are those of the active cycles alone, and the k, region flux, pin flux and power in the result file agree with each other.",
 ["histories", "inputs"], "all numbers of cycles, inactive cycles and particles, seeds, source boxes, cores and materials",
 "No test runs the Monte Carlo solver.",
 ["src/solvers/monte_carlo_eigenvalue_solver.cpp", "src/sweepers/mc/particle_pusher.cpp", "src/sweepers/mc/fission_bank.cpp", "src/sweepers/mc/tally_spatial.hpp"],
 [("cycle loop and reset of tallies", "MonteCarloEigenvalueSolver::solve, step"), ("offset of the streams", "ParticlePusher::simulate"), ("results", "MonteCarloEigenvalueSolver::output, ParticlePusher::output")],
 ["MonteCarloEigenvalueSolver::solve()", "result file"])
# ---------------------------------------------------------------- input and output
prop("I01", "Lists in the input text denote exactly the values written",
 "Reading a list of numbers yields every number of the text in order and nothing else, grouped lists yield one group per pair of braces and one group per bare number, in order, with no digit lost; anything else, including unmatched, nested or empty braces, is rejected. Printing a set of indices as ranges and expanding the ranges gives the set back.",
 ["inputs"], "all texts over digits, blanks, braces and other characters",
 "The tests use a dozen texts, all with blanks around braces.",
 ["src/util/string_utils.cpp", "src/util/string_utils.hpp"],
 [("brace scan", "explode_braces"), ("stream extraction", "explode_string"), ("range printing", "print_range")],
 ["explode_string(), explode_braces(), print_range()"])
prop("I02", "Inconsistent input is refused with a message, never accepted or crashed on",
 "A run whose input omits a required item, refers to something undefined, gives the wrong number of entries, a non-positive size or an unknown option ends with an error message and a failure status before solving; a run whose input is consistent is accepted. No such input makes the program crash, hang or silently use something else.",
 ["inputs", "fault_sequences"], "all single and double faults injected into consistent inputs of every solver and sweeper kind",
 "The tests check three rejected inputs.",
 ["src/input_proc.cpp", "src/driver.cpp", "src/core/core_mesh.cpp", "src/core/pin.cpp", "src/core/lattice.cpp", "src/core/assembly.cpp", "src/core/core.cpp", "src/util/validate_input.cpp"],
 [("constructor checks throwing", "all XML constructors"), ("top-level handler", "run()")],
 ["exit status and messages of the program"])
prop("I03", "Data written to a result file reads back identically, in the documented shape",
 "Arrays, scalars and strings written to a result file under any path read back with the same shape, index order and values whatever their layout in memory, links lead to what they were made for, and opening modes protect existing data as their names say: only opening for writing anew discards anything. Reading something absent, of another kind or of another shape than asked for, writing where something exists already or without permission, and data that does not fill its dimensions raise an error of the program and leave the file as it was.",
 ["inputs", "histories"], "all shapes, values, paths and sequences of create, write, read and reopen",
 "The tests write one array and read it once.",
 ["src/util/h5file.cpp", "src/util/h5file.hpp"],
 [("dataset creation and reading", "H5Node::write, read"), ("access modes", "H5Node ctor")],
 ["H5Node public methods"])
prop("I04", "Command-line amendments change exactly the named item, once",
 "Running with amendments behaves exactly like running the input with the named attributes or texts replaced, the first of several elements of one name being meant; an amendment naming something absent or ambiguous, or malformed, is refused. The case name, and with it the names of all output files, is the one given in the input or otherwise the name of the input file without its extension.",
 ["inputs"], "all paths into the input, values, and numbers and orders of amendments",
 "No test uses amendments.",
 ["src/input_proc.cpp"],
 [("path walk", "apply_amendment"), ("argument scan", "InputProcessor ctor")],
 ["recorded input in the result file, exit status"])
prop("I05", "The exponential table is accurate and monotone over its whole range",
 "The tabulated exponential agrees with the true one within its stated error for every argument in its range, including both ends and every interval boundary, and falls back to the true function outside it.",
 ["inputs"], "all arguments, all table sizes and ranges",
 "The tests sample the table at random points and print the error.",
 ["src/core/exponential.hpp"],
 [("linear interpolation", "Exponential_Linear::exp")],
 ["Exponential::exp()"])

out = os.path.join(os.path.dirname(__file__), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")

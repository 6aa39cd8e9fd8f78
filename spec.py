"""The properties, their cases and bounds: single source of properties.jsonl, MANIFEST.json and the tables of DESIGN.md
(regenerate with `python3 tools/generate.py`)."""

PROPS = []
NA = []
IN, HI, CO, SC, FA = "inputs", "histories", "configurations", "schedules", "fault_sequences"


def P(pid, title, statement, over, text, why, mech, harness, cases, entry=(), assume=(), **k):
    PROPS.append(dict(id=pid, title=title, statement=statement, over=over, text=text, why=why, mech=mech, harness=harness,
                      cases=[dict(name=c[0], bounds=c[1], **(c[2] if len(c) > 2 else {})) for c in cases], entry=list(entry), assume=list(assume), opts=k))


def N(pid, title, statement, over, text, why, mech, reason):
    NA.append(dict(id=pid, title=title, statement=statement, over=over, text=text, why=why, mech=mech, reason=reason))


# ------------------------------------------------------------------------------------------------ neighbour search
NS = "src/neighbor_searcher.cpp: setNeighbors"
BK = "src/bucket.cpp: storeParticles"
P("A01", "Neighbour search finds exactly the particles within the search radius",
  "After a neighbour search every particle inside the domain lists exactly the other non-ghost particles that are closer than the search radius, "
  "each once, with the distance between them, and never itself. This holds wherever the particles are in the domain, for every domain size "
  "and again after the particles have moved or left.",
  [IN, HI], "all positions of the particles in the domain, all kinds, repeated searches",
  "NeighborSearch2d checks one fixed lattice layout; cell borders, chains of a cell and repeated searches depend on positions no sample covers.",
  [("cell grid with a margin of one cell", BK), ("27-cell scan with distance test", NS)], "neighbor",
  [("line", "3 particles on a line along each axis, all positions, 3 kinds of the last two, domain of 4x3x5 cells not a multiple of the radius"),
   ("packed", "344 mixed particles with up to 230 neighbours, one moving by a fifth of the radius"), ("dense", "block of 100 mixed particles (up to 40 neighbours) and one moving through it along each axis"),
   ("pair3d", "2 particles, all positions in 2x2x2 cells (inner half)"), ("again", "2 searches, 3 particles of mixed kinds, 2 moved arbitrarily along a row, one optionally a ghost"),
   ("crowd", "6 particles, 4 fixed in a row of cells, 2 moving freely on two lines"),
   ("vast", "domain of 206 thousand cells away from the origin, one particle moving within 2 cells of its far corner along each axis")], ["NeighborSearcher::setNeighbors", "Bucket::storeParticles"])
P("A02", "Particles that leave the domain become ghosts and stay out",
  "A particle found outside the domain box becomes a ghost at the next neighbour search, a particle inside or on the border of the box keeps its kind, "
  "and nothing else about them changes. A ghost is nobody's neighbour, stays a ghost even when its coordinates are inside again, and its escape does not stop the run.",
  [IN, HI], "every position in a box 50 units wide around the domain, every kind, two consecutive searches",
  "No test places a particle outside the domain.",
  [("closed box test before bucketing", BK)], "neighbor",
  [("leave", "1 particle anywhere in [-50,50]^3, 4 kinds, beside one inside, domain with and without height"), ("stays_out", "escape at any distance up to 50, then return to any coordinate inside"),
   ("exodus", "1 particle anywhere on a line 100 units long while 1500 others escape at once, or 40 one after the other in 12 searches")],
  ["NeighborSearcher::setNeighbors", "Bucket::storeParticles"])
P("A03", "The neighbour search never touches memory outside its grid",
  "For every position, finite or not, every domain box and every search radius the neighbour search terminates without reading or writing outside its own storage. "
  "A particle with a coordinate that is not a number, or infinite, is treated as having left the domain and does not affect the others.",
  [IN, CO], "all positions in a range around the domain, domain lengths and origins, radii, and non-finite coordinates",
  "Tests use one box and ordinary positions; border cells and non-finite positions (a diverged run) are never reached.",
  [("grid dimensions with margin", "src/bucket.cpp: Bucket::Bucket"), ("out-of-domain test that a NaN fails", BK)], "neighbor",
  [("grid_any", "radius in [0.5,1.25], domain length in [0.125,2], origin in [-2,2], 2 particles in [-10,10]^2"),
   ("corner3d", "1 particle anywhere in the closed unit cube, radius 0.5, 0.75 or 1"), ("nonfinite", "NaN, +inf, -inf on each axis, other coordinates free")],
  ["Bucket::Bucket", "NeighborSearcher::setNeighbors"], san=True)
# ------------------------------------------------------------------------------------------------ kernel
WG = "src/weight.cpp: weight"
RV = "src/refvalues.cpp: RefValues"
P("B01", "The kernel weight is the MPS weight function",
  "The weight of a distance is radius over distance minus one inside the effective radius and exactly zero at and beyond it. It is positive and strictly decreasing inside, "
  "and depends only on the ratio of distance to radius.",
  [IN], "all distances and radii in a range spanning six orders of magnitude or more",
  "WeightTest evaluates a handful of points.", [("cutoff and formula", WG)], "kernel",
  [("weight_laws", "distance in [1e-12,4096], radius in [2^-10,1024]"), ("weight_monotone", "as above, two distances"), ("weight_scale", "scale factor in [1/8,8]")], ["weight"])
P("B02", "Reference constants are the sums over the full initial lattice",
  "The reference number density is the kernel sum over all lattice neighbours within the effective radius in the configured dimension, and lambda is the kernel-weighted mean of "
  "their squared distances. Both depend on the radius ratio only, up to the square of the length unit for lambda.",
  [IN, CO], "all radii up to nine and a half (2D) and six and a half (3D) particle distances, length units from 1/32 to 8",
  "RefValuesTest has one radius per dimension; a radius between two lattice shells or a truncated lattice shows only at other radii.",
  [("lattice sums", RV)], "kernel",
  [("refvalues_2d", "radius in [1.0625,9.5) particle distances"), ("refvalues_3d", "radius in [1.0625,6.5) particle distances"), ("refvalues_scale", "radius in [1.5,6.5], 4 length units")], ["RefValues::RefValues"])
# ------------------------------------------------------------------------------------------------ time step
STEP = "src/mps.cpp: MPS::stepForward"
P("S01", "Fluid in free flight follows gravity exactly",
  "A fluid particle without neighbours gains gravity times the time step in velocity and then moves by its new velocity times the time step, in every step and independently for each particle. "
  "No force accumulates or gets lost from one step to the next.",
  [IN, HI], "all positions, velocities, gravities, time steps; several steps",
  "No test performs a time step.", [("gravity and advection", "src/mps.cpp: calGravity, moveParticle")], "step",
  [("free_flight", "2 particles, all positions/velocities/gravity in ranges, dt in [1e-5,1], both dimensions, 4 kinds of the second"), ("free_flight_steps", "3 consecutive steps, all velocities and gravities")],
  ["MPS::stepForward"])
P("S02", "Viscosity is the discrete Laplacian of the velocity field",
  "The viscous velocity change of a fluid particle is the kinematic viscosity times 2d/(n0 lambda) times the kernel-weighted sum of velocity differences to all non-ghost particles within the Laplacian radius, "
  "taken from the velocities at the start of the step. A uniform velocity field feels none, and a fluid pair exchanges equal and opposite momentum.",
  [IN, CO], "all velocities, viscosities, pair distances; both dimensions; all particle kinds",
  "No test performs a time step.", [("viscosity term", "src/mps.cpp: calViscosity")], "step",
  [("viscosity_pair", "other radii above or below, any separation in [-1.75,1.75]^2, 4 kinds, velocities and viscosity free"), ("viscosity_crowd", "27 particles in 3D with up to 26 neighbours, one velocity free in [-8,8]^3 or [-1e7,1e7]^3"), ("viscosity_cluster2", "6 mixed particles in 2D, all velocities and viscosity"),
   ("viscosity_cluster3", "6 mixed particles in 3D, all velocities and viscosity")], ["MPS::stepForward"])
P("S03", "Wall, dummy and ghost particles never move",
  "Only fluid particles move: wall, dummy wall and ghost particles keep their position, velocity and kind through gravity, viscosity, collisions and pressure in every step.",
  [IN], "all gravities, velocities, pressures and fluid positions touching the fixed particles",
  "No test performs a time step.", [("kind tests in every phase", "src/mps.cpp"), ("infinite mass in collisions", "src/particle.cpp: inverseDensity")], "step",
  [("fixed_prediction", "1 fluid particle moving freely between two fixed ones, 9 kind pairs, 2 orders"), ("fixed_gravity", "3 fixed kinds, all positions, gravities, time steps"),
   ("fixed_step", "6 mixed particles, pressures free")], ["MPS::stepForward"])
P("S04", "Collisions are momentum-conserving impulses along the line of centres",
  "Particles closer than the collision distance are pushed apart to it, and if they approach they separate with the restitution coefficient times the approach speed, along the line of centres only, "
  "shared in inverse proportion to mass, walls counting as infinitely heavy. Total momentum and the centre of mass of colliding fluid are unchanged; particles not closer than the collision distance and ghosts are unaffected.",
  [IN, CO], "all separations, velocities, restitution coefficients, kinds, storage orders and three density ratios",
  "No test performs a time step; the outcome depends on distance, direction, kind, density and storage order together.",
  [("pairwise impulse", "src/mps.cpp: collision"), ("inverse mass", "src/particle.cpp: inverseDensity")], "step",
  [("collision_axis", "pair at any separation in [-0.75,0.75] along x, y or z, velocities in [-256,256] and restitution free, gravity acting, 7 combinations of kind, density and fluid type, 2 orders"),
   ("collision_plane", "pair at any planar separation in [1/16,1/2]^2, velocities free"), ("collision_three", "3 fluid particles in a row with free gaps and velocities plus a distant one, 3 storage orders")],
  ["MPS::stepForward", "Particle::inverseDensity"])
P("S05", "Collisions never create kinetic energy",
  "A collision of two fluid particles, or of a fluid particle with a wall, never increases their total kinetic energy for any restitution coefficient from zero to one.",
  [IN, CO], "all separations along an axis, velocities and restitution coefficients", "No test performs a time step.",
  [("impulse", "src/mps.cpp: collision")], "step", [("collision_energy", "pair along x or y, velocities free in [-256,256]^2, restitution in [0,1], 7 combinations of kind, density and fluid type, 2 orders")], ["MPS::stepForward"])
P("S06", "Number density is the kernel sum at the positions pressure is computed for",
  "When pressure is calculated, the number density of every non-ghost particle equals the sum of the weights of all non-ghost particles within the number density radius at the current, moved and collided positions. "
  "Ghost particles have number density zero and nothing of an earlier value remains.",
  [IN, HI], "all separations of a pair in space; a moving particle passing through a mixed cluster", "No test performs a time step.",
  [("number density", "src/mps.cpp: calNumberDensity"), ("re-search after moving", STEP)], "step",
  [("density_pair", "pair at any separation in [-1,1]^3 (down to 1/128), 4 kinds, leftovers free"), ("density_crowd", "block of 64 mixed particles (up to 50 neighbours) and one moving through it"), ("density_packed", "217 mixed particles with up to 180 neighbours, one moving by an eighth of the radius"), ("density_contact", "fluid particle and a partner of 4 kinds at any separation in [1/8,3/4] along x or y, either side, beside a third of 2 kinds"), ("density_history", "2 steps; between them a fluid particle moves along a line of 4 units through 5 fixed ones of all kinds, or leaves the domain"), ("density_moving", "one of 6 mixed particles moves by up to half a unit through the cluster, with a large and a small collision distance")], ["MPS::stepForward"])
P("S07", "Pressure accelerates fluid by minus the discrete gradient over density",
  "Every particle gets the pressure calculated for it; fluid is then accelerated by minus the discrete gradient of pressure over its own density, taken against the lowest pressure in its neighbourhood and over fluid and wall particles within the gradient radius only, "
  "and velocity and position are corrected by that acceleration. A uniform pressure exerts no force, pressure never pulls a pair together, and dummy wall and ghost pressures have no influence.",
  [IN], "all pressures of a mixed cluster in two and three dimensions; all separations of a pair", "No test performs a time step.",
  [("minimum pressure", "src/mps.cpp: setMinimumPressure"), ("gradient", "src/mps.cpp: calPressureGradient"), ("correction", "src/mps.cpp: moveParticleUsingPressureGradient")], "step",
  [("gradient_cluster2", "6 mixed particles in 2D, 5 pressures free up to 1000 or 1e7"), ("gradient_cluster3", "6 mixed particles in 3D, 5 pressures free up to 1000 or 1e7"), ("gradient_pair", "pair at any planar separation, 4 kinds, pressures free"),
   ("gradient_crowd", "27 particles in 3D with up to 26 neighbours, one pressure free"), ("gradient_uniform", "cluster in 2D and 3D, one free pressure"), ("pressure_assigned", "6 free pressures")], ["MPS::stepForward"])
P("S09", "The Courant number is the fluid maximum and its limit is reported",
  "After a step the Courant number is the largest speed of any fluid particle, after the pressure correction, times time step over particle distance. Exceeding the configured limit is reported on the error stream, staying within it is not, and the report does not stop the run.",
  [IN, CO], "all velocities, limits and leftovers", "No test performs a time step.", [("Courant number", "src/mps.cpp: calCourant")], "step",
  [("courant", "2 fluid, a wall and a ghost particle, velocities up to 256, limit free, two resolutions, both dimensions; two steps"), ("courant_corrected", "pressure free")], ["MPS::stepForward"])
P("S10", "A step depends only on kinds, positions, velocities and densities",
  "The result of a time step does not depend on leftovers of earlier steps such as pressures, number densities, boundary states or neighbour lists. Continuing a run therefore gives the same result as restarting from the state it had reached.",
  [HI, IN], "arbitrary leftovers in every derived field; two-step histories", "Histories are never exercised by the tests.",
  [("derived fields are recomputed", STEP)], "step",
  [("stale_fields", "4 particles, one position, 12 leftovers free, explicit method"), ("restart_pressure", "2 steps, 4 particles, 2 and 3 dimensions, one pressure of each step free"), ("restart", "2 steps, 4 particles, velocity and gravity free")], ["MPS::stepForward", "PressureCalculator::Explicit::calc"])
P("S11", "Ghost particles are invisible",
  "A ghost particle placed anywhere, even inside the fluid and with arbitrary velocity, pressure and density, changes nothing about the motion, pressure, number density or Courant number of the others, and stays where it is.",
  [IN], "all ghost positions and values", "No test contains a ghost.", [("ghosts are not bucketed", BK)], "step",
  [("ghost_line", "4 particles and a ghost at any distance in [1/16,3/8] on either side of a fluid particle along x or y, approaching it"), ("ghost_invisible", "4 particles and a ghost at any place in [1.5,2.5]^2 with free velocity, pressure and number density; one free fluid position")], ["MPS::stepForward"])
P("S12", "A planar flow stays planar",
  "In a two-dimensional run all particles that start in the plane stay exactly in it: gravity in the plane, viscosity, collisions and pressure never produce an out-of-plane position or velocity.",
  [IN], "all in-plane gravities, velocities and pressures of a mixed cluster", "No test performs a time step.", [("vector forces are sums of differences", "src/mps.cpp")], "step",
  [("planar", "6 mixed particles, gravity and velocities free"), ("planar_pressure", "6 mixed particles, pressures free")], ["MPS::stepForward"])
P("S13", "Particles keep their identity",
  "A time step neither creates, deletes nor reorders particles; number, density and fluid type of a particle never change. The only change of kind is that of a fluid particle that leaves the domain and becomes a ghost.",
  [IN, HI], "all velocities, including those that leave the domain, and kinds", "No test performs a time step.", [("in-place update", "src/mps.cpp")], "step",
  [("identity", "4 particles, kinds free, velocity in [-8,8] with a step of 0.25 in a domain of width 4")], ["MPS::stepForward"])
P("S14", "The dynamics respect mirror symmetry and do not depend on numbering",
  "Mirroring positions, velocities and gravity in a coordinate plane mirrors the result of a step, and renumbering the particles renumbers it.",
  [IN], "one free position and velocity in an asymmetric cluster, mirrored in x and y, and reversed numbering", "No test performs a time step.",
  [("symmetric formulas", "src/mps.cpp")], "step",
  [("mirror_x", "3 particles, one position and velocity free"), ("mirror_y", "3 particles, one position and velocity free"), ("renumber", "3 particles, reversed order, one position and velocity free, with and without a collision")],
  ["MPS::stepForward"])
P("S15", "The dynamics do not depend on the place or on the names of the axes",
  "Moving all particles together with the domain by any vector moves the result of a step by that vector and changes nothing else. Exchanging the axes, in the plane or in space, exchanges them in the result.",
  [IN], "several shifts and all exchanges of axes, one free position and velocity in an asymmetric cluster of all kinds", "No test performs a time step.",
  [("formulas in relative positions", "src/mps.cpp"), ("cells relative to the domain", "src/neighbor_searcher.cpp, src/bucket.cpp")], "step",
  [("shifted", "6 particles of all kinds, 3 shifts, with and without collision, one position and velocity free"), ("axes", "6 particles, x and y exchanged in 2D and 3D, cyclic exchange in 3D, one position free")],
  ["MPS::stepForward", "NeighborSearcher::setNeighbors", "Bucket::storeParticles"])
P("S16", "A time step is its documented phases in order",
  "A time step of the explicit method applies gravity and viscosity to the fluid, moves it, resolves contacts, takes number densities, pressures and their gradient at the resulting positions and corrects velocity and position by it; with all interactions acting together, the result is the composition of these laws and nothing else. Over several steps the same holds for each step in turn.",
  [IN, HI], "all restitution coefficients, sound speeds and wall densities in a cluster of all kinds with gravity, viscosity, a contact and pressure acting together, one and three steps", "No test performs a time step; the other properties isolate one law at a time.",
  [("order of the phases", "src/mps.cpp: stepForward")], "step",
  [("whole_step2", "16 particles of all kinds in 2D, 3 speeds, with and without a contact, one leaving the domain, restitution or sound speed free"), ("whole_step3", "34 particles in 3D, otherwise the same"), ("whole_steps", "3 steps in 2D, fast and calm, densities of two walls free in the last one")],
  ["MPS::stepForward", "PressureCalculator::Explicit::calc"])
P("S17", "The dynamics do not depend on the units of measurement",
  "Expressing the same particles, settings and gravity in other units of length, time and mass gives the same motion, kinds, number densities, Courant number and warnings, and pressures in the corresponding unit: no law has a built-in length, speed, time or density.",
  [IN], "four systems of units over more than ten orders of magnitude; restitution, sound speed or Courant limit free", "No test performs a time step.",
  [("dimensional consistency", "src/mps.cpp, src/refvalues.cpp, src/neighbor_searcher.cpp, src/pressure_calculator/explicit.cpp")], "step",
  [("units2", "16 particles of all kinds in 2D, 3 speeds, calm or fast, with and without a contact, 4 unit systems; restitution or sound speed free in one step, Courant limit in two"), ("units3", "34 particles in 3D, otherwise the same")],
  ["MPS::stepForward", "RefValues::RefValues", "NeighborSearcher::setNeighbors", "PressureCalculator::Explicit::calc"])
P("S18", "The dynamics of fluid do not depend on a uniform motion",
  "Giving all particles of a body of fluid away from walls the same additional velocity adds that velocity to the result and changes nothing else: no force, contact or pressure depends on absolute speed.",
  [IN, HI], "eight additional velocities, all restitution coefficients, sound speeds or densities, contacts, one and three steps", "No test performs a time step.",
  [("velocity differences only", "src/mps.cpp")], "step",
  [("drift2", "9 particles in 2D, 8 additional velocities, with and without contact, restitution or sound speed free"), ("drift3", "the same in 3D"), ("drift_steps", "3 steps, 8 additional velocities, two densities free in the last one")],
  ["MPS::stepForward"])
# ------------------------------------------------------------------------------------------------ pressure
PPE = "src/pressure_calculator/pressure_poisson_equation.cpp"
IMP = "src/pressure_calculator/implicit.cpp"
FS = "src/pressure_calculator/dirichlet_boundary_condition_generator/free_surface.cpp"
LS = ["the iterative linear solver (Eigen BiCGSTAB) is replaced by its contract: success means the returned vector solves the system"]
P("P01", "Implicit pressure solves the pressure Poisson equation",
  "With the implicit method the pressures of inner fluid and wall particles solve the discrete Poisson equation of the current state: relaxed relative deviation of number density over dt squared as source, kernel couplings within the Laplacian radius divided by the particle's density, compressibility over dt squared on the diagonal. "
  "Free surface, dummy wall and ghost particles have pressure zero, dummy wall and ghost particles do not couple, negative pressures are replaced by zero. Nothing of an earlier system enters the next one and the calculation changes no motion, kind or density.",
  [IN, CO, HI], "all number densities, relaxation and compressibility coefficients, pair distances, densities; repeated use", "No test calculates pressure.",
  [("matrix and source", PPE), ("boundary rows", "src/pressure_calculator/dirichlet_boundary_condition.cpp"), ("clipping", IMP)], "pressure",
  [("ppe_rows", "6 mixed particles with one or two walls, 4 number densities and relaxation free"), ("ppe_distance", "pair at any distance in [0.25,1.5], density, number density, compressibility free, 2 x 4 kinds"), ("ppe_again", "second use of one calculator after particles moved, left and changed state"),
   ("ppe_3d", "4 particles in 3D, number densities free"), ("ppe_pure", "6 mixed particles"), ("ppe_water", "4 particles, number densities free, in the units of water: densities about 1000, compressibility 4.5e-10, dt 0.0005"), ("ppe_ghost", "ghost at any place with free number density and density")],
  ["PressureCalculator::Implicit::calc", "PressurePoissonEquation::solve"], LS)
P("P03", "A failed pressure solution stops the run",
  "When the linear solver reports failure its result is never used: the program reports the failure and ends with a failure status.",
  [FA, IN], "the solver fails on any system of a closed pair of particles", "Tests never make the solver fail.", [("solver status test", PPE)], "pressure",
  [("solver_failure", "a closed fluid/wall pair with free number density, solver failing in its first, second or third use"), ("solver_nearly", "4 particles, number density free, solver failing with a relative error of 1e-9")], ["PressurePoissonEquation::solve"], LS)
P("P04", "Free surface classification follows its thresholds",
  "Fluid and wall particles are free surface if their number density is below the threshold ratio of the reference density and inner otherwise; ghost and dummy wall particles take no part. "
  "With the distribution criterion a sparse particle is free surface only if, in addition, the sum of the vectors to its neighbours exceeds the distribution threshold times the particle distance in some direction. Exactly the particles that are not inner get a fixed pressure.",
  [IN, CO], "all number densities, thresholds, and neighbour arrangements", "No test classifies particles.",
  [("number density criterion", "src/surface_detector/number_density.cpp"), ("distribution criterion", "src/surface_detector/distribution.cpp"), ("boundary values", FS)], "pressure",
  [("surface_density", "4 kinds, number densities and threshold free, leftovers of two states"), ("surface_distribution", "0 to 2 neighbours, one anywhere in a cube, 4 kinds, 2 thresholds, number density free"), ("surface_crowd", "125 neighbours of 4 kinds, one moving in a plane, number density free")],
  ["DirichletBoundaryConditionGenerator::FreeSurface::generate", "SurfaceDetector::Distribution::isFreeSurface", "SurfaceDetector::NumberDensity::isFreeSurface"], LS)
P("P05", "Explicit pressure follows the equation of state",
  "With the explicit method the pressure of every particle except ghosts is the squared sound speed times its density times the relative excess of number density, and zero at or below the reference density; ghosts have none. The pressure stored after a step is that of the step's number density.",
  [IN, CO], "all number densities, sound speeds and densities, both dimensions", "No test calculates pressure.", [("equation of state", "src/pressure_calculator/explicit.cpp"), ("update after the step", STEP)], "pressure",
  [("explicit_eos", "all number densities up to a hundred times the reference, sound speed in [1,50], density in [0.001,2000], 2 radii, 2 dimensions, 4 kinds, 3 surface states and fluid types"), ("explicit_step", "one step of 6 particles, one position free")],
  ["PressureCalculator::Explicit::calc", "MPS::stepForward"])
P("P06", "The configured pressure solver uses the configured constants",
  "A run uses the pressure method, thresholds, radii, relaxation, compressibility, sound speed and surface criterion of its settings. An unknown pressure method is refused with a message and a failure status.",
  [CO, IN], "all thresholds and coefficients, twelve method names", "No test builds a configured solver.", [("wiring", "src/mps_factory.cpp: MPSFactory::create")], "pressure",
  [("wired_implicit", "5 particles, threshold up to 3 and relaxation up to 2 free"), ("wired_distribution", "4 particles, distribution threshold free, sparse and dense"), ("wired_method", "12 names, sound speed free")],
  ["MPSFactory::create", "MPS::stepForward"], LS)
P("P07", "Gravity acts as configured",
  "Gravity given by components acts exactly as given; given by norm and angle it has that norm, lies in the plane and is turned by the angle, in degrees, from straight down towards +x.",
  [CO], "all components, norms and angles", "No test builds a configured solver.", [("gravity from norm and angle", "src/mps_factory.cpp")], "pressure",
  [("wired_gravity", "all components and norms, 5 angles"), ("wired_gravity_angle", "angles in [-80,80]: sine and cosine as uninterpreted functions with sin^2+cos^2=1")], ["MPSFactory::create"])
# ------------------------------------------------------------------------------------------------ loading
SYMTXT = ["file text is concrete except numbers, which are symbolic values carried through formatting and parsing; character-level malformations are limited to those listed"]
P("L01", "Particle files are read faithfully",
  "Reading a profile, CSV or VTK file gives exactly its time and, in order, the kind, position and velocity of every particle. Fluid type and density come from their own column or array wherever it is placed and are 0 and the default density when absent; a negative density also means the default.",
  [IN], "all numbers; all kinds; column orders, array orders and presence of optional data", "VtuTest loads one file; the CSV and profile readers have no test that is run.",
  [("profile reader", "src/particles_loader/prof.cpp"), ("CSV reader", "src/particles_loader/csv.cpp"), ("VTK reader", "src/particles_loader/vtu.cpp")], "io",
  [("prof_load", "0..3 particles, all numbers; 1300 particles of many magnitudes behind a free one"), ("csv_load", "3 particles, 4 column orders, optional columns, all numbers; 1300 particles of many magnitudes behind a free one"), ("vtu_load", "2 particles, 3 layouts, optional arrays present or absent, all numbers")],
  ["ParticlesLoader::Prof::load", "ParticlesLoader::Csv::load", "ParticlesLoader::Vtu::load"], SYMTXT)
P("L02", "Missing, truncated or malformed particle files are refused",
  "A particle file that does not exist, ends early, contains something else than numbers where numbers belong, has unknown, duplicate or missing columns, empty cells or another number of rows than announced, VTK arrays of different lengths or without a time, is a binary VTK file or has an unknown extension is refused: the program fails instead of computing with invented particles.",
  [IN, FA], "every truncation point and every position of a garbage token in a profile file; listed defects of the other formats", "No test reads a malformed file.",
  [("format checks", "src/particles_loader/*.cpp"), ("extension dispatch", "src/loader.cpp")], "io",
  [("prof_broken", "2 particles, cut or garbage at each of 16 tokens, 8 wrong counts"), ("csv_broken", "10 kinds of defects: each column missing, each cell empty, announced 0..3 rows against 0..2, 14 cut points, time or count followed by something or not finite, and others"), ("vtu_broken", "11 kinds of defects: each array shorter, longer, packed on one line or followed by garbage, each line cut, no time, time followed by something or not finite, and others"), ("missing_file", "3 formats"), ("input_extension", "5 extensions")],
  ["ParticlesLoader::Prof::load", "ParticlesLoader::Csv::load", "ParticlesLoader::Vtu::load", "Loader::load"], SYMTXT)
P("L03", "Every setting is read under its documented name with its documented meaning",
  "Each numeric, vector, flag and text setting of the settings file takes effect as documented: radii and the collision distance are ratios of the particle distance, the search radius covers every effective radius, and unset optional settings have their documented defaults.",
  [CO], "all values of all settings at once", "No test that is run loads a settings file.", [("settings reader", "src/loader.cpp")], "io",
  [("settings_numbers", "15 scalars, 3 vectors, 4 ratios (up to 3 and 50) free, both dimensions"), ("settings_options", "all combinations of the optional flags")], ["Loader::load"], SYMTXT)
P("L04", "A missing or unreadable mandatory setting is refused",
  "A settings file that lacks any mandatory entry, or holds something unreadable in its place, is refused: the program fails instead of running with an invented value.",
  [CO, FA], "each of 25 entries, absent, unreadable or incomplete", "No test loads an incomplete settings file.", [("required keys", "src/loader.cpp")], "io",
  [("settings_missing", "25 entries x absent/unreadable, 3 vectors with missing or unreadable components, another number free")], ["Loader::load"], SYMTXT)
P("L05", "A run starts from its particle file and keeps unmodified copies of its input",
  "A run starts at the time and with the particles of the particle file named in the settings, found relative to the settings file, using the configured default density. Both input files are copied unchanged next to the results and an existing file there is never overwritten but ends the program with a failure status.",
  [IN, HI], "all numbers, three formats, sub-directory or not, earlier copies present or not", "No test that is run loads an input.",
  [("relative path and copies", "src/loader.cpp")], "io",
  [("input_load", "3 formats, 2 places, 2 particles, all numbers"), ("input_no_overwrite", "settings copy, particle copy or none present, with the same or other content")], ["Loader::load"], SYMTXT)
# ------------------------------------------------------------------------------------------------ saving
P("W01", "Written files can be read back",
  "Writing a state in any of the three formats and reading the file gives the same time, the same particles in the same order with the same kinds and, up to the six printed digits, the same positions and velocities; fluid types survive in CSV and VTK, densities in CSV. Each file shows the state handed over last.",
  [IN, HI], "all times, positions, velocities, kinds, boundary states; consecutive files from one writer", "ToProf and ToVtu compare one written file with itself or a fixed text.",
  [("writers", "src/particles_exporter.cpp"), ("readers", "src/particles_loader/*.cpp")], "io",
  [("roundtrip_prof", "0..2 particles, all numbers; 1300 particles of many magnitudes behind a free one"), ("roundtrip_csv", "0..2 particles, all numbers; 1300 particles of many magnitudes behind a free one"), ("roundtrip_vtu", "0..2 particles, all numbers; 1300 particles of many magnitudes behind a free one"), ("exporter_reuse", "2 consecutive states of 2 and 0 to 2 particles, all kinds and numbers, into another or the same file, 3 formats")],
  ["ParticlesExporter::toProf", "ParticlesExporter::toCsv", "ParticlesExporter::toVtu"], SYMTXT)
P("W02", "VTK files describe every particle completely and consistently",
  "A VTK file, text or binary, announces one point and one cell per particle and holds exactly one array each for position, kind, velocity, pressure, number density, its ratio to the reference, boundary state and fluid type with the values of the particles, and the time. "
  "In a binary file every array lies at its announced offset with its exact length and full precision.",
  [IN], "all values, kinds and boundary states; 0 to 2 particles", "ToVtu checks one particle set against fixed text; binary output has no test.",
  [("VTK writer", "src/particles_exporter.cpp: toVtu")], "io",
  [("vtu_ascii", "0..2 particles, all values; 1300 particles of many magnitudes behind a free one"), ("vtu_binary", "0..2 particles, all values; 1300 particles of many magnitudes behind a free one"), ("saved_ratio", "3 particles, number densities free, both dimensions and encodings")], ["ParticlesExporter::toVtu"], SYMTXT)
P("W03", "A result that cannot be written stops the run",
  "When an output file cannot be created or the disk fills up while it is written, the program reports it and ends with a failure status instead of going on with missing or truncated results.",
  [FA], "each output format in a directory that does not exist; the disk full at every point of writing a file", "No test makes writing fail.", [("open and close checks", "src/particles_exporter.cpp")], "io",
  [("unwritable", "4 formats"), ("disk_full", "4 formats, disk full after any number of bytes, for good or until the first failure, 2 particles with free values")], ["ParticlesExporter::toProf", "ParticlesExporter::toCsv", "ParticlesExporter::toVtu"])
# ------------------------------------------------------------------------------------------------ simulation
SIMX = ["src/main.cpp", "generator/generator_src/generator_dialogue.cpp"]
SIMA = SYMTXT + ["exact ties of time against end time or output period are excluded for symbolic values (rounding decides them) and checked for binary fractions"]
P("R01", "Output files appear on schedule, numbered and complete",
  "A run saves its initial state and then, after each step that reaches the next multiple of the output period since the start, the current state, in all three formats, numbered consecutively from 0000. Every file carries the simulated time and the particles of that moment.",
  [CO, IN], "all time steps, start times, lengths and output periods of runs up to seven steps", "No test runs a simulation.",
  [("main loop and save condition", "src/simulation.cpp"), ("file names", "src/saver.cpp")], "simulation",
  [("schedule", "dt in [1/16,1/4], start in [0,2], length in [-0.25,0.4375], period in [1/32,1/2]"), ("schedule_exact", "binary fractions: 3 starts, 4 periods, position free"), ("many_files", "10002 files, velocity free")],
  ["Simulation::run", "Saver::save"], SIMA, extra=SIMX)
P("R02", "A run takes the steps needed to reach its end time and no more",
  "Simulated time starts at the time of the particle file and advances by the time step; a run performs steps until the end time is reached and stops at the first step that reaches it, performing none if it starts at or after its end.",
  [CO], "all start and end times of runs up to eleven steps and around 700 steps", "No test runs a simulation.", [("main loop", "src/simulation.cpp: run")], "simulation",
  [("end_time", "start in [-2,2], length in [-1,1.25], dt 1/8"), ("long_run", "about 700 steps (2500 thorough), start and length free")], ["Simulation::run"], SIMA, extra=SIMX)
P("R03", "VTK output is binary exactly when asked for",
  "The VTK files of a run are binary if the settings ask for it and text otherwise, for both pressure methods, and the other formats do not depend on it.",
  [CO], "option set, unset and absent; both methods", "No test runs a simulation.", [("option", "src/saver.cpp")], "simulation",
  [("vtk_option", "3 option states, 2 methods, position free"), ("vtk_late", "131 files (1011 thorough), velocity free")], ["Simulation::run", "Saver::save"], SIMA, extra=SIMX)
P("R04", "A saved state can be used to continue a run",
  "Using any saved profile, CSV or VTK file of a run as the particle file of another run continues it: the second run starts at the saved time, performs the remaining steps and reaches the same state up to the printed precision. Runs with fluids of several densities are continued from their CSV files.",
  [HI], "all start times and velocities; three formats; three restart points", "No test runs a simulation.", [("loader and saver agree", "src/loader.cpp, src/particles_exporter.cpp")], "simulation",
  [("restart_run", "4-step run, restart from file 0, 1 or 2, start time and velocity free"), ("restart_mixed", "two fluids colliding after a restart from file 0 or 1, density and speed free")], ["Simulation::run"], SIMA, extra=SIMX)
P("R05", "Wrong invocations fail and leave earlier results alone",
  "The program accepts the documented long and short options in any order and then reports success. A wrong or incomplete command line, a missing directory, an invalid input or a result directory that already holds a copy of one of its input files ends it with a failure status, and none of this changes a file of an earlier run. Other files in the output directory are left alone.",
  [CO, HI, FA], "documented and wrong command lines, invalid inputs, second runs", "No test starts the program.", [("argument parser", "src/main.cpp"), ("copies", "src/loader.cpp")], "simulation",
  [("rerun", "second run with the same or another settings directory"), ("command_line", "3 option orders"), ("command_line_errors", "9 wrong command lines"), ("bad_input", "14 invalid inputs")],
  ["main", "Simulation::run"], SIMA, extra=SIMX)
P("R06", "A run that cannot save its results fails",
  "If the disk fills up at any moment of a run, for good or for a moment, while the input is copied or any of its result files is written, the run ends with a failure instead of reporting success over missing or truncated results.",
  [FA, CO], "every number of bytes after which the disk is full, text and binary VTK output, any motion of the particles", "No test makes writing fail.", [("results of a step", "src/saver.cpp: save"), ("file writers", "src/particles_exporter.cpp"), ("input copies", "src/loader.cpp")], "simulation",
  [("disk_full_run", "3-step run, 4 states in 3 formats, disk full after any number of bytes, for good or until the first failure, gravity free")],
  ["Simulation::run", "Saver::save"], SIMA + ["a full disk is injected at the write, writev, sendfile and copy_file_range calls for files below the scratch directory"], extra=SIMX)
P("R07", "The progress report shows the run as it is",
  "Every step prints one line with its number, the time step, the time reached, the end time, the number of files written so far and the Courant number of the step, and the wall-clock time elapsed since the start, the time remaining extrapolated from the mean time per step, that mean and the time of the step itself; the log shows number and time of every step, and the run ends with its total time. All values are right to the digits shown.",
  [IN, HI], "all start times, speeds and accelerations; several output periods, time steps and step durations from fractions of milliseconds to days", "No test runs a simulation.", [("report", "src/simulation.cpp: timeStepReport, endSimulation")], "simulation",
  [("progress_values", "3 steps, 2 time steps, 3 output periods; start time, speed and acceleration free"), ("progress_times", "4 steps, 5 sets of step durations, speed free")],
  ["Simulation::run", "Simulation::timeStepReport"], SIMA + ["wall-clock readings are replaced by a clock that advances by a chosen amount in each step"], extra=SIMX)
P("R08", "The same input gives the same results",
  "Two runs with the same settings and particles leave the same result files, whatever the wall clock shows meanwhile, wherever input and output directories are, whatever other files lie there and whatever was run before.",
  [HI, CO], "all speeds and offsets of two colliding fluids near a wall, several clocks and places, a run in between", "No test runs a simulation.", [("main loop", "src/simulation.cpp: run"), ("time step", STEP)], "simulation",
  [("reproducible", "3 steps of 5 particles of all kinds, both methods and VTK encodings, another run in between or not, clock jumping forwards and backwards; one speed and one offset free")],
  ["Simulation::run", "MPS::stepForward"], SIMA + ["both runs are executed by one process; with the implicit method the pressures come from a fixed stand-in for the solver"], extra=SIMX)
P("G01", "A generator never overwrites particle files without consent",
  "When a requested particle file already exists the generator asks; only an affirmative answer lets it write, and a refusal or the end of input leaves every file as it was. With consent, or nothing to overwrite, exactly the requested formats are written with the generated particles at time 0; unknown formats are refused before anything is written.",
  [IN, HI], "all combinations of existing and requested files, eight dialogues, all particle values", "No test covers the generators.",
  [("dialogue", "generator/generator_src/generator_dialogue.cpp")], "simulation",
  [("dialogue", "8 existing x 7 requested x 8 answers, 2 particles with free values"), ("dialogue_extension", "6 format lists")], ["GeneratorDialogue::generatorDialogue"], SYMTXT, extra=SIMX)

P("G02", "The generators produce their tank layouts without gaps or overlap",
  "Wherever one looks in or around the tank of the dam break (1.0 x 0.6, column of 0.25 x 0.5, spacing 0.025) or of the hydrostatic case (0.36 x 0.6, filled to 0.48, spacing 0.012), the generated files hold exactly one resting particle per lattice place of the fluid, of the two layers of wall around it and of the two layers of dummy wall around those, of that kind, and none in the empty part or outside.",
  [CO], "all points in and around the two tanks, both file formats", "No test runs a generator.",
  [("generators", "generator/generate_dambreak.cpp, generator/generate_hydrostatic.cpp")], "generators",
  [("dambreak", "every point of the tank and two spacings around it, in 35 blocks, 2 formats"), ("hydrostatic", "every point of the tank and two spacings around it, in 42 blocks, 2 formats")], ["main", "GeneratorDialogue::generatorDialogue"],
  ["the geometry itself consists of constants in the two programs; what is free is the point that is looked at"], extra=["generator/generator_src/generator_dialogue.cpp", "generator/generate_dambreak.cpp", "generator/generate_hydrostatic.cpp"])
P("T01", "Parallel loops give the same result for every thread schedule",
  "No two threads of a parallelised loop touch the same memory with one of them writing, outside a lock, whatever the state of the particles; so search, forces, densities, pressures and corrections do not depend on how many threads run or in which order.",
  [SC, IN], "every assignment of iterations to threads (each iteration its own thread), all positions and velocities", "The tests run one schedule; a race changes results only sometimes.",
  [("parallel loops", "src/mps.cpp, src/bucket.cpp, src/neighbor_searcher.cpp, src/pressure_calculator")], "threads",
  [("threads_search", "6 particles, 4 moving freely along a row of cells, 2 searches, 62 threads forwards and backwards"),
   ("threads_explicit", "whole step, 7 mixed particles, one position and one velocity free (may leave the domain); 62, 3 and 1 threads"),
   ("threads_collision", "row of 4 particles all touching their neighbours, one velocity free, 3 kinds of the last"), ("threads_implicit", "whole step with either surface detector, one position free"), ("threads_steps", "3 steps with a particle leaving, both methods")],
  ["MPS::stepForward", "NeighborSearcher::setNeighbors", "PressureCalculator::Implicit::calc", "PressureCalculator::Explicit::calc"],
  ["accesses inside precompiled libraries (libstdc++, yaml-cpp) are not recorded; custom lock-free synchronisation would be reported as a race", "more than 62 iterations: neighbouring iterations share a thread"], omp=True)

# ------------------------------------------------------------------------------------------------ not applicable
N("N01", "The iterative pressure solver converges to an accurate solution",
  "For every solvable pressure system the linear solver returns a solution within its tolerance, or reports failure.",
  [IN], "all solvable systems", "Tests solve none.", [("BiCGSTAB with diagonal preconditioner", PPE)],
  "convergence and residual of Eigen's BiCGSTAB are floating-point facts of an external library iterated until a data-dependent tolerance; neither the real-arithmetic encoding nor a bit-precise one (hundreds of chained double multiplications and divisions) is within reach of the solvers")
N("N02", "A run is numerically stable and conserves volume",
  "Within the documented limits of time step and Courant number a dam break or a resting water column stays bounded and keeps its volume.",
  [IN, HI], "all long runs", "Tests run none.", [("time step", STEP)],
  "a statement about thousands of steps of thousands of particles in floating point; no bounded symbolic execution says anything about it")
N("N04", "The helper scripts run the program as documented",
  "The run and conversion scripts pass the documented arguments, protect existing results and convert files faithfully.",
  [CO], "all arguments", "No test runs a script.", [("scripts", "scripts/*.sh")],
  "shell scripts; no symbolic executor for shell is available")

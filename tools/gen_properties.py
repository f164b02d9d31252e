#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a generator only because JSON lines are unpleasant to edit)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=False):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files,
        "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
        "mechanism": [{"name": a, "where": b} for a, b in mech],
        "observe_at": list(observe), "hook_needed": None}})
CP = "cosmic_profiles/"
SA, SC, CB = CP+"shape_profs/shape_profs_algos.pyx", CP+"shape_profs/shape_profs_classes.pyx", CP+"common/cosmic_base_class.pyx"
ST, DT = CP+"shape_profs/shape_profs_tools.py", CP+"dens_profs/dens_profs_tools.py"
DA, DC, HC = CP+"dens_profs/dens_profs_algos.pyx", CP+"dens_profs/dens_profs_classes.pyx", CP+"cython_helpers/helper_class.pyx"
RF, GC, RG, RS = CP+"gadget/read_fof.py", CP+"gadget/gen_catalogues.pyx", CP+"gadget/readgadget.py", CP+"gadget/readsnap.py"
CA, CO, PR, MH, CT = CP+"common/caching.py", CP+"common/config.py", CP+"common/python_routines.py", CP+"mock_tools/mock_halo_gen.py", CP+"common/cosmo_tools.py"

p("C01", "Shape catalogues are the same under every thread schedule and are correct",
  "For every selection of objects, the local and global shape catalogues returned to the user equal those of the sequential iterative shape-tensor (Katz) procedure applied to each object on its own, with unconverged shells and objects reported as NaN. An object that admits no ellipsoid (coplanar, collinear or coincident particles) is itself reported as unclassified and never fails the request for the others; a particle right at the centre adds nothing to a reduced tensor. The result does not depend on how many threads take part, on which thread processes which object or shell, on how their steps interleave, or on where in the periodic box the objects lie.",
  ["schedules", "inputs", "configurations"],
  "all interleavings and team sizes of the parallel shape kernels, all catalogues (object sizes, centres, periodic straddling, degenerate objects), all iteration settings (reduced, shell-based, tolerance, wall, minimum count, radii)",
  "The tests run one or two halos under whatever schedule the OS picks and compare only loose medians; a race between scratch buffers, a schedule-dependent result, or a halo straddling the box edge is never provoked.",
  [SA, SC, HC, CB], [("parallel loops over objects and shells with shared scratch buffers", SA), ("periodic wrap before the loop", HC), ("catalogue assembly and unit conversion", CB)],
  [("per-object shape rows", "d, q, s, axes, convergence flag of every radius", SA)], ["getShapeCatLocal / getShapeCatGlobal return values"])
p("C02", "Velocity-dispersion shape catalogues are schedule-independent and correct",
  "For every selection of objects, the local and global velocity shape catalogues equal those obtained by iterating, per object on its own, the velocity-dispersion tensor of the particles inside the position-space ellipsoid, about the object's centre-of-mass velocity. The result does not depend on thread count, assignment of work, interleaving, or periodic placement, and every object that has velocity data and converges gets a finite row. An object that admits no ellipsoid is itself reported as unclassified and never fails the request for the others.",
  ["schedules", "inputs", "configurations"],
  "all interleavings and team sizes of the parallel velocity kernels, all catalogues with velocities, all iteration settings",
  "No existing test calls the velocity catalogues at all, and none controls the schedule.",
  [SA, SC, CB, HC], [("parallel loops with position and velocity scratch buffers", SA), ("velocity catalogue methods", SC)],
  [("velocity scratch buffer", "velocities of the object being processed", SA)], ["getShapeCatVelLocal / getShapeCatVelGlobal return values"])
p("C03", "Density profiles are schedule-independent, correct and conserve mass",
  "For every selection of objects and every list of radii, the spherically binned, ellipsoidally binned and kernel-smoothed density profiles equal the sequential definition applied to each object alone, with every particle counted in exactly the shell it lies in, so that shell densities times shell volumes add up to the mass inside the outermost edge. An object without R200, without ellipsoids or with a particle right at its centre never fails the request for the others. The result does not depend on thread count, assignment of objects to threads, interleaving, or where in the periodic box the object lies.",
  ["schedules", "inputs", "configurations"],
  "all interleavings and team sizes of the density kernels, all catalogues and radius grids, all three estimators",
  "Tests check one halo against a generous tolerance on one schedule; the ellipsoidal estimator is only plotted, never compared, and multi-object or boundary-straddling catalogues are not covered.",
  [DA, DC, DT, HC], [("parallel density loops", DA), ("profile entry point and shape lookup", DC)],
  [], ["estDensProfs return value"])
p("C04", "Object masses and centres are schedule-independent and physically right",
  "The masses and centres reported for every object equal the total mass and the periodic-box-aware mode or centre of mass of exactly that object's particles, with each centre inside the box when it is periodic. The report does not depend on thread scheduling, on the other objects selected, or on whether an object crossing the box boundary is stored wrapped or contiguous.",
  ["schedules", "inputs", "configurations"],
  "all schedules of the parallel centre and mass loops, all catalogues and box placements, both centre definitions",
  "Tests never compare centres or masses against anything, and no tested halo crosses the box boundary.",
  [SA, HC, PR, DC, CB], [("centre finding in parallel over objects", HC), ("periodic wrapping", PR), ("reported centres folded into the box", CB)],
  [], ["getMassesCenters return value"])
p("C05", "FoF/SH catalogue reading is complete and identical on all ranks",
  "However many processes read a FoF/subhalo catalogue, however its groups are split over files, in whatever order the files are listed and the processes run, every process obtains the same complete catalogue in file-number order, converted to internal units. A process that cannot read its share makes the read fail visibly and never yields a shortened or reordered catalogue; without faults the read always terminates.",
  ["schedules", "configurations", "fault_sequences", "inputs"],
  "all rank counts, schedules of the ranks, file counts (including fewer files than ranks, empty files and double-digit file numbers), directory orders, and I/O faults per rank",
  "Tests run on a single rank with a single-file catalogue and no faults.",
  [RF], [("per-rank slice of the sorted file list, gather/gatherv/broadcast", RF)],
  [("displacement and count tables of the gather", "position of every rank's part", RF)], ["getFoFSHData return value on every rank"])
p("C06", "Object catalogue = central subhalos above threshold with their particles",
  "The object catalogue built from the FoF/SH data contains, in FoF order, exactly the halos that have at least one subhalo and whose first subhalo holds at least the minimum number of particles, each with the consecutive particle indices of that first subhalo inside its FoF group's file range, its size and its own radius. This holds for every thread schedule and team size, for empty catalogues, and repeated calls, and the resulting index sets of different objects are disjoint. An analysis object opened on the files reports exactly these objects, and the summaries it prints count exactly these halos, subhalos and objects.",
  ["schedules", "inputs", "configurations"],
  "all interleavings and team sizes of the parallel catalogue construction and all FoF/SH tables and thresholds",
  "No test exercises the catalogue builder on more than one fixed snapshot or more than one schedule.",
  [GC, RF, CB], [("parallel pass decision, size and index filling", GC)], [("offset tables", "start of each FoF group in the particle list", GC)], ["calcObjCat return value", "getIdxCat / getR200 / getObjInfo / getObjInfoGadget of the Gadget classes"])
p("C07", "Snapshot readers return the complete file contents or fail",
  "A block read from a single- or multi-file snapshot (HDF5 or binary format, either byte order) equals the concatenation, in file order, of what the files store for that block and particle types, converted to internal units. When a file is missing, truncated, or a read fails or comes up short, the reader fails visibly and never returns partial, repeated or stale data, and a later read of intact files succeeds.",
  ["fault_sequences", "inputs", "configurations", "histories"],
  "all snapshot layouts (formats, file counts, particle-type counts, byte order, mass table), all truncation points, missing files, failing or short reads at any point, and retries",
  "Tests read no snapshot at all, and inject no fault.",
  [RG, RS], [("multi-file assembly and completeness check", RG), ("binary record reader", RS)], [("running offset", "number of particles already filled in", RG)], ["read_block / header / read_field return values"], False)
p("C08", "Result cache: concurrent calls behave like a sequential bounded LRU",
  "Under any interleaving of concurrent calls, cached calls always return what the wrapped function would return for exactly those arguments, exceptions are passed on and never cached, and the outcome of every call, statistics query and clear is explained by some sequential order of their steps (a call that misses looks up first and stores after computing) on a least-recently-used cache. The cache never holds more entries than its bound, and in memory-limited mode it stops growing once available memory falls below the limit.",
  ["schedules", "histories", "configurations", "fault_sequences"],
  "all interleavings of threads calling, querying and clearing a cache, all bounds including zero, unlimited and memory-limited, all memory-pressure histories and failures of the wrapped function",
  "Tests never call the cache from two threads, never fill it and never starve it of memory.",
  [CA], [("lock-protected linked list and dictionary", CA), ("memory-limit switch", CA)], [("link ring", "recency order of the entries", CA), ("full flag", "no more growth allowed", CA)], ["lru_cache / np_cache_factory wrappers, cache_info, cache_clear"])
p("C09", "Memoised results are never stale, mixed up or contaminated",
  "A result that the library returns from its internal caches is always what a fresh computation in the present configuration (units, which files, thresholds, arguments) would return; the group files themselves are taken as immutable while a process runs. What a caller does with a returned array never changes what later callers get, and array arguments that differ in shape or type are never confused with each other.",
  ["histories", "inputs"],
  "all histories of catalogue requests interleaved with unit-system changes, requests for other files, threshold changes, failed reads and caller mutations of returned arrays",
  "Tests make each cached call once, in one unit system, and never modify a returned array.",
  [CA, RF, GC, CO], [("array-to-key conversion", CA), ("memoised per-rank read", RF), ("memoised catalogue construction", GC)],
  [("cache dictionary", "argument key to shared result", CA)], ["getFoFSHData, calcObjCat, np_cache_factory results along a history"])
p("C10", "Dumped shape catalogues survive crashes whole and reload faithfully",
  "After a dump completes, asking for the same catalogue again returns the dumped values to the written precision, from the same or a new process, and the files hold one row per object, with its mass and centre, in the output units of the dump. If the process dies, or the disk fails or fills up, at any point of a dump, a later process never returns a torn or mixed catalogue: it returns either the complete dumped one or recomputes, and a repeated dump then succeeds.",
  ["crash_points", "fault_sequences", "histories"],
  "all crash points and disk faults (no space, I/O error, torn write) during the dump of local, global and velocity catalogues, followed by restart, reload and re-dump histories, for any working directory",
  "Tests dump once without a fault and never reload.",
  [SC, CB], [("eight-file dump", SC), ("reload when a dump exists", CB)], [("dump files", "durable catalogue", SC)], ["dump* methods followed by get* in a restarted process", "contents of CAT_DEST"])
p("C11", "Unit-system changes are atomic, and every output follows them",
  "After any history of accepted and rejected unit-system changes, the unit system in force is exactly that of the last accepted change, a rejected one leaving no trace. Every quantity an object reports is in the output units in force when it is asked for and describes the same physical object whichever units its inputs were given in.",
  ["histories", "configurations"],
  "all sequences of input/output unit updates (valid and rejected) interleaved with queries on existing objects (the dimensionless Hubble parameter itself enters the internal units, so objects created before it was changed are not meant)",
  "Tests set the unit system once at the start and never change it, nor make a rejected change.",
  [CO, CB, DC], [("module-global unit system", CO), ("conversions on input and output", CB)], [("unit globals", "units in force", CO)], ["config.* values and conversions", "masses, centres, radii, densities along a history"])
p("C12", "Mock halo generation does not depend on the worker pool",
  "A generated mock halo is a function of the arguments alone: the same particles in the same order come out for every number of pool workers, every assignment and completion order of shells, and every state of the global random generator. The particles fill each ellipsoidal shell with the number its profile mass calls for, and a failing worker makes the call fail instead of dropping shells.",
  ["schedules", "configurations", "fault_sequences", "inputs"],
  "all worker counts, task assignments and completion orders, initial random states, worker failures, profiles and axis ratios",
  "Tests use one pool size on one machine, with the schedule the OS picks, and check only derived medians.",
  [MH, PR], [("pool map over shells with per-shell seeding", MH), ("uniform draw from an ellipsoidal shell", PR)], [("worker random state", "seeded per shell", PR)], ["genHalo return value"])
p("C13", "Density fits and concentrations stay with their object under any pool",
  "Row i of the fitted parameters, and concentration i, belong to object i for every worker count and completion order of the fitting pool, with NaN exactly where that object's profile cannot be fitted; one object's failure does not disturb another's result. Fits are independent of which other objects are fitted along, parameters given as fixed are kept and reported as given, and concentration times scale radius equals the object's radius.",
  ["schedules", "configurations", "inputs", "fault_sequences"],
  "all worker counts, assignments and completion orders, all mixes of fittable and unfittable profiles, all selections, worker failures",
  "Tests fit one or two objects under one schedule; a permuted or shared row would go unnoticed.",
  [DT, DC], [("pool map over objects, results scattered by object number", DT), ("entry points", DC)], [], ["fitDensProfs / estConcentrations return values"])
p("C14", "Results depend only on the arguments, not on history or environment",
  "Asking for the same quantity again gives the same answer, whatever was asked before, whatever the wall clock, global random state, CPU affinity, working directory or hash seed, and whichever of the two ways (direct arrays or Gadget files) the same particles were supplied. Selecting a subset or permutation of objects gives exactly the matching rows of the full answer.",
  ["histories", "configurations", "inputs"],
  "all call histories, selections and permutations, clock jumps, random-generator states, CPU counts and hash seeds",
  "Tests call each method in one fixed order in one environment, and never compare a subset with the whole.",
  [CB, SC, DC, CP+"gadget/", PR], [("selection reduction", CB), ("seeded helper randomness", PR)], [("object state", "r200, catalogue and particle arrays held by an analysis object", CB)], ["all public get*/est*/fit* methods along a history"])
p("C15", "Analysis calls leave inputs and state alone; invalid requests are refused",
  "No analysis or plotting call modifies the arrays the user passed in, the catalogue an object holds, or earlier results, even when a plot fails half-way because the disk does. An invalid object selection, an unknown profile or unit name or an inconsistent input is refused with an exception before anything is computed, written or changed.",
  ["histories", "fault_sequences", "inputs"],
  "all histories of analysis and plotting calls, including ones ended by disk faults or invalid arguments",
  "Tests never inspect the inputs afterwards, inject no failure and pass no invalid selection.",
  [CB, SC, DC, ST, DT, CO], [("selection validation", CB), ("plot and histogram methods", ST)], [], ["input arrays and later results after each call", "files written"])
p("C18", "Plots and visualisations depict the requested objects' own data",
  "Every figure file that a plotting or visualisation call writes shows exactly the data of the requested objects, in the output units in force: profile and shape medians with their spread, overall and per mass group, histograms of triaxiality and ellipticity over the selected objects, and particles, centre and ellipsoids of the object the file is named after, all in the same periodic image. One call's figures do not carry over into another's, whatever was plotted before, whether an earlier call failed, and however the work was scheduled.",
  ["histories", "inputs", "configurations", "fault_sequences"],
  "all histories of plotting calls on several objects in changing output units, including ones that failed on a bad disk, all selections, bin counts and thread schedules",
  "Tests only check that the plotting calls return; no test looks at what was drawn.",
  [ST, DT, SC, CB], [("median profiles, mass groups and histograms", ST), ("density profile figures", DT), ("3D visualisation", SC)], [], ["figures and file names written to VIZ_DEST"])
p("C19", "Every rank of an MPI job can make every call; rank 0 alone answers, prints and writes",
  "When a script of public calls is run by several MPI processes, rank 0 returns, prints, draws and writes exactly what a single process running that script would, and every other rank goes through each call without an error, without waiting forever, and without results (None, in the same tuple form, the snapshot header excepted), printed lines, figures or files of its own. This holds for every number of ranks and every order in which they run. If a rank dies or its disk fails, whatever any rank returned before is still right.",
  ["schedules", "configurations", "fault_sequences", "histories"],
  "all rank counts, orders in which the ranks run, scripts of public calls on objects from arrays and from files, cache settings, and rank crashes or disk faults",
  "Tests run as a single process, so code for the other ranks is never executed at all.",
  [DC, SC, CB, ST, DT, MH, RF, CP+"gadget/"], [("rank guards of the public methods", SC), ("rank guards of the density methods", DC), ("collective catalogue reading", RF), ("rank guards of the plotting routines", ST)],
  [("module-global rank", "which process answers", DC)], ["return values, printed lines, figures and files of every rank"])
p("C16", "Analytic density profiles and their fits are mathematically consistent",
  "Each analytic profile equals its published formula and the fitted profile minimises the squared residual of the logarithmic densities within its bounds.",
  ["inputs"], "all radii and parameters", "Tests sample one parameter vector per profile.",
  [PR, DT], [("profile formulas", PR)], [], ["getNFWProf and friends"])
p("C17", "Cosmological helper functions match their definitions",
  "The overdensity threshold, the critical density and the particle mass helpers match their defining formulas for every redshift and cosmology.",
  ["inputs"], "all redshifts and cosmologies", "No test varies their arguments.",
  [CT, PR], [("formulas", CT)], [], ["getDelta, getRhoCrit, getMassDMParticle"])
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")

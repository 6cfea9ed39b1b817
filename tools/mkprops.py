"""Writes properties.jsonl (one source for ids, titles, statements and anchors)."""
import json, os
P = []
A = "cosmic_profiles/"
def p(id, title, st, over, text, why, files, mech, state=(), obs=()):
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": st,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": [A + f for f in files],
                          "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [{"name": n, "where": A + w} for n, w in mech],
                          "observe_at": list(obs), "hook_needed": None}})
SH = "The suite calls the shape functions on four mock halos per run and asserts array shapes only; no value, tolerance, failure rule or axis is ever compared."
DE = "The suite asserts only that a profile has one row per halo and one column per radius; never a density."

p("C01", "Local shape profiles are the fixed point of the iterative Katz scheme",
  "For every selected halo and every requested radius, the local shape catalogue reports the axis ratios and principal axes that the documented iteration reaches: start from the sphere (or spherical shell) of that radius about the halo centre, form the mass-weighted (optionally distance-reduced) shape tensor of the enclosed particles, take axis ratios and axes from its eigen-system, re-select particles in the resulting ellipsoid (or homoeoid shell) with the semi-major axis held fixed, and stop once both ratios change by no more than the requested tolerance. If the iteration exceeds the iteration limit, or ever has fewer particles than the required minimum, that radius is flagged unconverged and its values are missing, without affecting other radii or halos.",
  ["inputs", "configurations"], "all particle sets, masses, radii, iteration tolerances/limits/minimum counts, reduced or not, ellipsoid- or shell-based, mode or centre-of-mass centres", SH,
  ["shape_profs/shape_profs_algos.pyx", "shape_profs/shape_profs_classes.pyx", "cython_helpers/helper_class.pyx"],
  [("ellipsoid iteration", "shape_profs/shape_profs_algos.pyx: runEllAlgo"), ("shell iteration", "shape_profs/shape_profs_algos.pyx: runShellAlgo"), ("shape tensor", "cython_helpers/helper_class.pyx: calcShapeTensor")],
  [("q, s, axes, iteration, selected particles", "state of one iteration", "runEllAlgo / runShellAlgo locals")], ["getShapeCatLocal"])
p("C02", "Global halo shapes are the fixed point of the iteration over the halo",
  "For every selected halo the global shape catalogue reports the axis ratios, the principal axes and the semi-major extent reached by the same ellipsoid iteration as the local catalogue, run once with a semi-major axis equal to the halo radius plus the documented safety margin, so that by default every particle of the halo is included. The minimum particle count, iteration limit and tolerance are honoured exactly as in the local case.",
  ["inputs", "configurations"], "all halos, masses, radii and iteration parameters", SH,
  ["shape_profs/shape_profs_algos.pyx", "shape_profs/shape_profs_classes.pyx"],
  [("global iteration", "shape_profs/shape_profs_algos.pyx: calcMorphGlobal, calcObjMorphGlobal")], [], ["getShapeCatGlobal"])
p("C03", "Velocity-dispersion shapes come from the velocities of the selected particles",
  "The local and global velocity-dispersion shape catalogues report the eigen-structure of the mass-weighted (optionally distance-reduced) second-moment tensor of particle velocities relative to the halo's mass-weighted mean velocity, iterating the spatial selection with the axis ratios and axes so found, under the same tolerance, iteration-limit and minimum-count rules as the position-based shapes. The result does not change when a constant velocity is added to all particles or when all velocities are scaled.",
  ["inputs", "configurations"], "all positions, velocities, masses, radii and iteration parameters", "Velocity shapes are called in the suite only for Gadget-style input, for which no test exists; nothing is asserted about them.",
  ["shape_profs/shape_profs_algos.pyx", "shape_profs/shape_profs_classes.pyx"],
  [("velocity iteration", "shape_profs/shape_profs_algos.pyx: runEllVDispAlgo, runShellVDispAlgo"), ("filling of the velocity buffer", "shape_profs/shape_profs_algos.pyx: calcMorphLocalVelDisp, calcMorphGlobalVelDisp")], [], ["getShapeCatVelLocal", "getShapeCatVelGlobal"])
p("C04", "Shape results are well-formed and equivariant under rotation and relabelling",
  "Every converged shape has 0 < s <= q <= 1, three mutually orthogonal unit axes, and axes paired with their lengths from longest to shortest; every unconverged one is missing in all its fields, and the convergence flag says which is which, also when an axis points exactly along a coordinate direction. Rotating, reflecting, translating or rescaling all particles about the halo rotates, reflects, leaves or rescales the reported shape accordingly (about a mode centre, whose search starts from the halo's extent along the coordinate axes, this holds for rotations and reflections that permute those axes), and reordering the particles or scaling all masses changes nothing.",
  ["inputs"], "all particle sets and all rigid motions, scalings and permutations of them", SH,
  ["shape_profs/shape_profs_algos.pyx", "shape_profs/shape_profs_classes.pyx", "cython_helpers/helper_class.pyx"],
  [("eigen-solver call and ordering", "cython_helpers/helper_class.pyx: ZHEEVR"), ("missing values", "shape_profs/shape_profs_algos.pyx: calcMorphLocal, calcMorphGlobal")], [], ["getShapeCatLocal", "getShapeCatGlobal"])
p("C05", "Spherical density profiles conserve mass in contiguous shells",
  "A directly binned spherical profile assigns each particle of the halo to exactly the one shell, bounded by the midpoints between consecutive requested radii (the innermost shell starting at the centre, the outermost ending at the last radius), that contains its distance to the halo centre, and reports the mass in the shell divided by the shell volume, in output units. Shells without particles have zero density, and particles beyond the last radius contribute nothing.",
  ["inputs"], "all halos, masses, centres and radius grids", DE,
  ["dens_profs/dens_profs_algos.pyx", "dens_profs/dens_profs_classes.pyx", "cython_helpers/helper_class.pyx"],
  [("direct binning", "dens_profs/dens_profs_algos.pyx: calcDensProfsSphDirectBinning"), ("bin edges", "dens_profs/dens_profs_algos.pyx: calcDensProfsSphDirectBinning"), ("shell mass", "cython_helpers/helper_class.pyx: calcMsphShell")], [], ["estDensProfs"])
p("C06", "Ellipsoidal density profiles follow each halo's own local shape",
  "A directly binned ellipsoidal profile counts, in each shell between neighbouring bin edges, the mass of the halo particles lying between the two ellipsoids whose axis lengths and directions come from that halo's local shape catalogue (interpolated to the bin edges and radii), and divides by the volume between those ellipsoids. Particles are judged in each halo's own principal frame about its own centre, and an empty shell is reported as missing.",
  ["inputs", "configurations"], "all halos with a locally converged shape at all radii and all radius grids", DE,
  ["dens_profs/dens_profs_algos.pyx", "dens_profs/dens_profs_classes.pyx", "cython_helpers/helper_class.pyx"],
  [("ellipsoidal binning", "dens_profs/dens_profs_algos.pyx: calcDensProfsEllDirectBinning"), ("shell mass", "cython_helpers/helper_class.pyx: calcMell"), ("shape lookup", "dens_profs/dens_profs_classes.pyx: _estDensProfsBase")], [], ["estDensProfs(spherical=False)"])
p("C07", "Kernel density profiles are mass-weighted sums of the shell kernel",
  "A kernel-based profile reports at each requested radius the sum over the halo's particles of particle mass times the documented angle-averaged Gaussian kernel, whose width grows as the square root of the particle's distance to the halo centre relative to a tenth of the halo radius. The profile is therefore additive over particles and proportional to mass, and every particle contributes.",
  ["inputs"], "all halos with no particle exactly at the centre, all masses and radius grids", DE,
  ["dens_profs/dens_profs_algos.pyx", "dens_profs/dens_profs_classes.pyx", "cython_helpers/helper_class.pyx"],
  [("kernel sum", "dens_profs/dens_profs_algos.pyx: calcDensProfsKernelBased"), ("kernel", "cython_helpers/helper_class.pyx: calcKTilde")], [], ["estDensProfs(direct_binning=False)"])
p("C08", "Halo masses and centres are those of the selected particles",
  "The mass reported for each halo is the sum of its particle masses, and its centre is either the mass-weighted mean position or, in mode, the point reached by the shrinking-sphere procedure: repeatedly recentre on the mass-weighted mean of the particles within a radius shrunk by a fixed factor until fewer than the minimum number of particles remain. The centre always lies inside the periodic box, and density and shape estimates use the centre of the kind that was requested for them.",
  ["inputs", "configurations"], "all particle sets, masses and the two centre definitions", "No test compares a mass or a centre with anything.",
  ["common/python_routines.py", "common/cosmic_base_class.pyx", "shape_profs/shape_profs_classes.pyx", "dens_profs/dens_profs_classes.pyx"],
  [("centre of mass", "common/python_routines.py: calcCoM"), ("shrinking sphere", "common/python_routines.py: calcMode"), ("recentring", "common/python_routines.py: recentreObject")], [], ["getMassesCenters", "getShapeCatLocal", "getShapeCatGlobal"])
p("C09", "A halo cut by the periodic boundary is treated like the same halo uncut",
  "In a periodic box, moving a compact halo (smaller than half the box) by any vector and wrapping its particles back into the box leaves its mass, all density profiles, shapes, axes, velocity shapes and fitted parameters unchanged and moves its centre by that vector modulo the box. A box length of zero means no periodicity: positions are used as they are.",
  ["inputs", "configurations"], "all compact halos, all translations, boxes and boundary faces, edges and corners", "The mock halos of the suite sit in the middle of the box, so no particle ever crosses a boundary.",
  ["common/python_routines.py", "cython_helpers/helper_class.pyx", "dens_profs/dens_profs_algos.pyx", "shape_profs/shape_profs_algos.pyx"],
  [("unwrapping", "common/python_routines.py: respectPBCNoRef"), ("unwrapping in compiled loops", "cython_helpers/helper_class.pyx: respectPBCNoRef"), ("recentring", "common/python_routines.py: recentreObject")], [], ["getMassesCenters", "estDensProfs", "getShapeCatLocal", "getShapeCatGlobal"])
p("C10", "Results are physically the same in every system of input and output units",
  "Whatever supported input units (length, mass, velocity, with or without little h) the data are supplied in, and whatever output units are chosen, reported radii, masses, centres, densities and scale radii denote the same physical quantities, converted to the output system in force at the time of the query. Dimensionless results (axis ratios, axes, concentrations, shape parameters, convergence flags) do not depend on the units at all, and changing one unit setting leaves the others in force.",
  ["inputs", "configurations", "histories"], "all pairs of unit systems and all orders of unit changes, object creation and queries", "The suite uses one input and one output system and never compares values.",
  ["common/config.py", "common/__init__.py", "common/cosmo_tools.py", "common/cosmic_base_class.pyx", "shape_profs/shape_profs_classes.pyx", "dens_profs/dens_profs_classes.pyx"],
  [("unit registers", "common/config.py"), ("conversions", "common/config.py")], [("In*/Out* unit registers", "current input and output systems", "common/config.py")], ["updateInUnitSystem", "updateOutUnitSystem", "getMassesCenters", "estDensProfs", "getShapeCatLocal", "fitDensProfs"])
p("C11", "Exactly the halos with enough particles are kept, in order and correctly indexed",
  "A catalogue object retains exactly those supplied halos whose particle count is at least the minimum resolution, in the order supplied, each with its own particles and its own radius; every query about a list of halo numbers returns one entry per number, in that order, referring to that retained halo.",
  ["inputs", "configurations"], "all catalogues of halo sizes (including empty halos and thresholds met exactly) and all subsets, orders and single-element selections", "The suite has two equal halos well above the threshold and always asks for all of them or the first.",
  ["common/cosmic_base_class.pyx", "shape_profs/shape_profs_classes.pyx", "dens_profs/dens_profs_classes.pyx"],
  [("selection and compression", "common/cosmic_base_class.pyx: CosmicBaseDirect"), ("subsetting", "common/cosmic_base_class.pyx: _calcMassesCentersBase, getIdxCat")], [], ["getIdxCat", "getMassesCenters", "estDensProfs", "getShapeCatLocal"])
p("C12", "Each halo's results depend on that halo alone",
  "The values reported for a halo do not depend on which other halos are in the catalogue or in the same request, on their order or sizes, on where the halo's particles are stored in the particle arrays, or on the number of threads used.",
  ["inputs", "schedules", "configurations"], "all catalogues, request subsets and orders, and thread counts", "The suite has two halos, one thread setting and no comparison of values.",
  ["shape_profs/shape_profs_algos.pyx", "dens_profs/dens_profs_algos.pyx", "dens_profs/dens_profs_tools.py", "common/cosmic_base_class.pyx"],
  [("per-thread buffers", "shape_profs/shape_profs_algos.pyx: calcMorphLocal"), ("offsets", "dens_profs/dens_profs_algos.pyx")], [], ["estDensProfs", "getShapeCatLocal", "getShapeCatGlobal", "getMassesCenters", "fitDensProfs"])
p("C13", "Queries do not change the data: any history gives the same answers",
  "No query changes the particle data, the halo index lists, the radii, the caller's arrays and dictionaries or the outcome of any later query: whatever sequence of mass, density, shape, fit, plot and catalogue-dump calls has been made, each query returns what it would have returned on a fresh object over the same data.",
  ["histories"], "all sequences of public queries on one object, and on several objects over shared arrays", "The suite runs one fixed sequence and compares no values before and after.",
  ["common/cosmic_base_class.pyx", "dens_profs/dens_profs_classes.pyx", "shape_profs/shape_profs_classes.pyx", "dens_profs/dens_profs_algos.pyx", "dens_profs/dens_profs_tools.py"],
  [("cached index catalogue and masses", "common/cosmic_base_class.pyx"), ("views handed to compiled loops", "dens_profs/dens_profs_algos.pyx")], [("particle arrays, index catalogue, radii", "shared mutable data", "CosmicBase instances")], ["every public method"])
p("C14", "Dumped shape catalogues are faithful, complete and reload to the same result",
  "Dumping a shape catalogue writes, for that snapshot and suffix, one text file each for the radii, both axis ratios, the three axes, the centres and the masses, whose contents, to the printed precision and in output units, equal the query result halo by halo and radius by radius (an unconverged shape is missing there, too); a later query for those halos and radii that finds the dump returns that same catalogue. Dumps with different suffixes, snapshots, destinations or kinds (local, global, velocity) never overwrite or stand in for one another.",
  ["histories", "inputs", "configurations"], "all sequences of dumps and queries over suffixes, kinds and destinations", "The suite writes catalogues but never opens the files it wrote.",
  ["shape_profs/shape_profs_classes.pyx"],
  [("writers", "shape_profs/shape_profs_classes.pyx: _dumpShapeCatLocalBase, _dumpShapeCatGlobalBase"), ("readers", "shape_profs/shape_profs_classes.pyx: _getShapeCatLocalBase, _getShapeCatGlobalBase")], [("*_local_*.txt, *_global_*.txt", "the dump", "CAT_DEST")], ["dumpShapeCatLocal", "dumpShapeCatGlobal", "dumpShapeVelCatLocal", "dumpShapeVelCatGlobal", "getShapeCatLocal"])
p("C15", "The result cache is a bounded least-recently-used map keyed by the arguments",
  "A memoised function returns for every call the value the function yields for those arguments (arguments being distinguished by value, keyword and, where requested, type); a repeated call is answered without recomputation until its entry has been evicted, entries are evicted in least-recently-used order only when the cache is full: it holds as many entries as the limit allows, or the memory available has fallen below the configured number of bytes; and the reported hits, misses and current size are exact. Entries never survive an explicit clear, and array arguments and results round-trip unchanged.",
  ["histories", "configurations"], "all sequences of calls, clears and limit changes over all limits (none, zero, positive) and result sizes", "The suite never inspects the cache; its two-halo runs neither fill nor evict it.",
  ["common/caching.py"],
  [("lru cache", "common/caching.py: lru_cache"), ("array keys", "common/caching.py: np_cache_factory")], [("cache, linked list, hits, misses, size", "state of the cache", "common/caching.py")], ["lru_cache", "np_cache_factory"])
p("C16", "Caching and its limits are invisible in results and honoured in memory",
  "Whatever limits on cache size and number of entries are configured, before or between queries, and whatever has been cached by this or other objects, every query returns the value for its own data, arguments and current units. Objects over different data never see each other's cached results, and a changed limit takes effect on the caches in use.",
  ["histories", "configurations"], "all interleavings of limit updates, queries and object creations/destructions", "The suite sets one cache limit at start and has objects that never share keys.",
  ["common/caching.py", "common/__init__.py", "common/config.py", "common/cosmic_base_class.pyx", "gadget/read_fof.py", "gadget/gen_catalogues.pyx"],
  [("limits", "common/config.py"), ("keys", "common/caching.py: np_cache_factory")], [], ["updateCachingMaxGBs", "updateCachingMaxSize", "getMassesCenters", "estDensProfs"])
p("C17", "Profile fits return the optimum of the requested model with fixed values kept",
  "Fitting a density profile of the chosen model (NFW, Hernquist, Einasto, alpha-beta-gamma) to a profile generated by that model recovers its parameters, ignores missing or zero-density bins, returns parameters per halo in request order under the right names and units, and flags failures. Parameters the caller fixes are returned unchanged and the remaining ones are optimised with those values held.",
  ["inputs", "configurations"], "all models, parameter values, radius grids, patterns of missing bins, fixed-parameter subsets and halo subsets", "The suite only checks that the fit returns an array of the expected shape.",
  ["dens_profs/dens_profs_tools.py", "dens_profs/dens_profs_classes.pyx"],
  [("fit", "dens_profs/dens_profs_tools.py: fitDensProf"), ("per-halo fits", "dens_profs/dens_profs_tools.py: fitDensProfHelper"), ("assembly", "dens_profs/dens_profs_classes.pyx: _fitDensProfsBase")], [], ["fitDensProfs"])
p("C18", "Concentrations are the halo radius over the fitted scale radius",
  "The concentration reported for each requested halo equals that halo's own radius divided by the scale radius that the fit of the same profile with the same model returns for it, dimensionless and in request order.",
  ["inputs", "configurations"], "all halos, subsets, models and units", "The suite checks only the shape of the returned array.",
  ["dens_profs/dens_profs_classes.pyx", "common/cosmic_base_class.pyx"],
  [("concentration", "dens_profs/dens_profs_classes.pyx: _estConcentrationsBase")], [], ["estConcentrations"])
p("C19", "Analytic density models evaluate their published formulae",
  "The four density models return, for every radius (scalar or array) and parameter set, the published formula: Einasto and alpha-beta-gamma reach the documented value at the scale radius, Hernquist and NFW are the alpha-beta-gamma model with their inner/outer slopes, every model scales linearly with its characteristic density and depends on radius only through radius over scale radius.",
  ["inputs"], "all radii and parameters", "No test evaluates a model at any point.",
  ["dens_profs/dens_profs_tools.py"],
  [("models", "dens_profs/dens_profs_tools.py: getNFWProf, getHernquistProf, getEinastoProf, getAlphaBetaGammaProf")], [], ["getNFWProf", "getHernquistProf", "getEinastoProf", "getAlphaBetaGammaProf"])
p("C20", "Mock halos have the requested mass profile, shape and particle mass",
  "A generated mock halo consists of equal-mass particles whose total equals the mass the chosen density model assigns to the generated shells, with each ellipsoidal shell containing the number of particles that its share of that mass prescribes and every particle lying between the shell's bounding ellipsoids. The reported characteristic density is the one for which the model holds the requested total mass, and the same arguments always give the same halo.",
  ["inputs", "configurations"], "all masses, resolutions, models, parameters and axis profiles", "The suite uses mock halos as input and asserts nothing about them.",
  ["mock_tools/mock_halo_gen.py", "common/python_routines.py", "dens_profs/dens_profs_tools.py"],
  [("generator", "mock_tools/mock_halo_gen.py: genHalo, genAlphaBetaGammaHalo etc."), ("shell sampling", "common/python_routines.py: drawUniformFromShell")], [], ["genHalo"])
p("C21", "Sampling helpers put points where they say",
  "Points drawn uniformly from a ball, ellipsoid or ellipsoidal shell lie inside it, in the requested number and dimension, and fill it without bias between octants and radii; Fibonacci points lie on the unit sphere (or the ellipsoid of the given axes), are distinct and evenly spread.",
  ["inputs"], "all sizes, dimensions and axis lengths", "No test calls them for their value.",
  ["common/python_routines.py"],
  [("samplers", "common/python_routines.py: drawUniformFromEllipsoid, fibonacci_sphere, fibonacci_ellipsoid")], [], ["drawUniformFromEllipsoid", "fibonacci_sphere", "fibonacci_ellipsoid"])
p("C22", "Simulation snapshots are read completely, in file order and in internal units",
  "Reading a snapshot, in one file or split over several, yields the positions, masses and velocities of every particle of the requested type in file order, converted once from the input to the internal units, using the header's mass table when a type has one mass; a missing snapshot or field is reported, not invented.",
  ["inputs", "configurations"], "all snapshot layouts: number of files, particle types, mass tables, units, file naming", "There is no test with a snapshot.",
  ["gadget/readgadget.py", "common/cosmic_base_class.pyx"],
  [("blocks", "gadget/readgadget.py: read_block, read_field, header")], [], ["DensShapeProfsGadget", "read_block", "header"])
p("C23", "Halos are assembled from group files with the right particles and radii",
  "For simulation input, the retained halos are exactly those groups that have a central subhalo with at least the minimum number of particles of the chosen type, in file order across all group files; each halo's particles are the contiguous run that the group and subhalo lengths assign to its central subhalo, and its radius is the group's radius of the requested definition, in internal units.",
  ["inputs", "configurations"], "all group catalogues: groups without subhalos, empty groups, several files, any file numbering, both radius definitions", "There is no test with a group catalogue.",
  ["gadget/read_fof.py", "gadget/gen_catalogues.pyx", "common/cosmic_base_class.pyx"],
  [("reader", "gadget/read_fof.py: getFoFSHData"), ("assembly", "gadget/gen_catalogues.pyx: calcObjCat")], [], ["DensShapeProfsGadget.getIdxCat", "getMassesCenters"])
p("C24", "Any number of parallel processes reads the same group catalogue",
  "Whatever number of processes the analysis is launched with, and however the group files divide among them, every process ends up with the same complete group and subhalo lists, in file order, as a single process reading all files; the analysis that follows gives on the first process, and writes to the catalogue files, exactly what a single process gives, and none of the other processes fails or waits for ever.",
  ["schedules", "configurations"], "all numbers of processes and files (fewer, equal, more, not divisible)", "The suite runs a single process.",
  ["gadget/read_fof.py", "common/cosmic_base_class.pyx"],
  [("partition and gather", "gadget/read_fof.py: getFoFSHData"), ("broadcast", "common/python_routines.py, gadget/read_fof.py")], [], ["getFoFSHData", "DensShapeProfsGadget"])
p("C25", "Plots show the catalogue's own data and are written where promised",
  "The histograms and profile plots are drawn from the shape and density catalogues of exactly the requested halos: every converged value in range is counted once in its bin, medians and spreads are those of the plotted sample, triaxiality is (1-q^2)/(1-s^2), what labels and legends state (the units in force, the mass range of a bin, the semi-axes of an ellipsoid, one scale for all axes of a picture) is true of what is drawn, and each call writes the documented files under the visualisation directory for its suffix and snapshot and nothing else. Plotting does not fail because some halos or radii are unconverged.",
  ["inputs", "configurations"], "all catalogues, subsets, suffixes and numbers of bins", "The suite runs some plotting calls and never looks at the figures or the files.",
  ["shape_profs/shape_profs_tools.py", "shape_profs/shape_profs_classes.pyx", "common/python_routines.py", "dens_profs/dens_profs_classes.pyx"],
  [("figures", "shape_profs/shape_profs_tools.py: getShapeProfs, getLocalTHist, getGlobalTHist, getLocalEpsHist, getGlobalEpsHist")], [], ["plotShapeProfs", "plotLocalTHist", "plotGlobalTHist", "plotLocalEpsHist", "plotGlobalEpsHist"])
p("C26", "Mass bins and summary statistics partition the sample",
  "Splitting halos into mass bins puts every halo in exactly one bin together with its own centre and vector quantity, bins ordered by mass and equally full except the last, with edges that separate them. The summary of a binned sample returns for each bin its mean or median and the documented error, missing for empty bins, and the two-sample tests are symmetric, vanish for identical samples and return the textbook statistic.",
  ["inputs"], "all sample sizes, group counts and contents", "No test asserts a value of them.",
  ["common/cosmo_tools.py"],
  [("mass split", "common/cosmo_tools.py: M_split"), ("statistics", "common/cosmo_tools.py: getMeanOrMedianAndError"), ("tests", "common/cosmo_tools.py: chiSquareToICore, KSTest")], [], ["plotShapeProfs", "M_split"])
p("C27", "Legacy binary snapshots round-trip through the reader",
  "A Gadget snapshot in either binary format, in either byte order and in one or several files, is read back to the header, block order, particle types and values that were written, for positions, velocities, masses and identifiers.",
  ["inputs", "configurations"], "all binary formats, byte orders, particle types and file splits", "There is no test with a binary snapshot.",
  ["gadget/readsnap.py", "gadget/readgadget.py"],
  [("block reader", "gadget/readsnap.py: read_block, find_block")], [], ["readsnap.read_block", "readgadget.read_block", "readgadget.header"])
p("C28", "Cosmology helpers return the documented quantities",
  "The critical density, the dark-matter particle mass and the virial overdensity return the documented quantity in the documented units for every argument (box size, particle number, redshift, density parameters). A number in scientific notation is formatted as the power of ten that denotes the same number.",
  ["inputs"], "all redshifts, density parameters, box sizes, particle numbers and two-decimal numbers with exponents up to 19", "No test evaluates them.",
  ["common/python_routines.py"],
  [("helpers", "common/python_routines.py: getRhoCrit, getMassDMParticle, getDelta"), ("formatting", "common/python_routines.py: eTo10")], [], ["getRhoCrit", "getMassDMParticle", "getDelta", "eTo10"])
p("C29", "Faulty requests are refused and change nothing; sound ones are served",
  "A request that is not well-formed is refused with an error before anything is computed, written or changed: a selection that is empty or has negative, repeated, non-integer or too large halo numbers; a Katz configuration with a setting left out, a number instead of several radii, a non-boolean flag or text for a number; a fit method that is no dictionary, names no known profile or minimiser or has fields its profile does not; profiles whose number is not that of the selected halos; fewer than three radii for an ellipsoidal density profile; an unknown unit; an unknown object type or radius definition, or group files that are not there. After a refusal the particle data, the files, the unit systems and every later answer are what they were. Well-formed requests are not refused.",
  ["inputs", "histories"], "every query, plot, dump, constructor and unit change with every kind of fault, and sequences that mix refused and served requests", "No test makes a faulty request.",
  ["common/python_routines.py", "common/cosmic_base_class.pyx", "common/config.py", "shape_profs/shape_profs_classes.pyx", "dens_profs/dens_profs_classes.pyx", "gadget/read_fof.py"],
  [("selections", "common/python_routines.py: isValidSelection, getIntSelection"), ("settings", "common/python_routines.py: checkKatzConfig, checkDensFitMethod"), ("units", "common/config.py: updateInUnitSystem, updateOutUnitSystem")],
  [("unit systems", "in force for all conversions", "common/config.py globals")], ["every public function and constructor"])
if __name__ == "__main__":
    with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
        for x in P:
            f.write(json.dumps(x) + "\n")
    print(len(P))

#!/usr/bin/env python3
# writes /verif/properties.jsonl (kept in one place so that the text stays consistent)
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    P.append({"id":id,"title":title,"statement":statement,
      "quantifier":{"over":over,"text":text},"why_tests_cant":why,
      "anchors":{"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],
                 "state":[{"name":n,"meaning":m,"where":w} for n,m,w in (state or [])],
                 "observe_at":observe or [],"hook_needed":None}})
H="cosmic_profiles/cython_helpers/helper_class.pyx"; DA="cosmic_profiles/dens_profs/dens_profs_algos.pyx"
SA="cosmic_profiles/shape_profs/shape_profs_algos.pyx"; PR="cosmic_profiles/common/python_routines.py"
CB="cosmic_profiles/common/cosmic_base_class.pyx"; CF="cosmic_profiles/common/config.py"
DT="cosmic_profiles/dens_profs/dens_profs_tools.py"; DC="cosmic_profiles/dens_profs/dens_profs_classes.pyx"
SC="cosmic_profiles/shape_profs/shape_profs_classes.pyx"; CT="cosmic_profiles/common/cosmo_tools.py"
GC="cosmic_profiles/gadget/gen_catalogues.pyx"; CA="cosmic_profiles/common/caching.py"
MH="cosmic_profiles/mock_tools/mock_halo_gen.py"; ST="cosmic_profiles/shape_profs/shape_profs_tools.py"
tests_shape="The tests assert little more than array shapes on two fixed mock halos in one box, "
p("C01","Spherical density profiles are shell mass over shell volume",
  "For every object and every requested radius, the direct-binning spherical density is the summed mass of exactly those of the object's particles whose distance from the object's centre lies in the half-open radial bin around that radius (bin edges at the midpoints between requested radii in units of the object's R200, closed by a tiny inner edge and the last radius), divided by the volume of that spherical shell. Bins without particles have density zero, and every particle lies in at most one bin.",
  ["inputs"],"all particle sets, masses, object catalogues, radii and boxes",
  tests_shape+"never the density values; the property quantifies over every particle set and bin layout.",
  [H,DA],[("brute force spherical binning",H+" calcDensProfBruteForceSph"),("bin edges, gathering, centring",DA+" calcDensProfsSphDirectBinning")],["DensProfs.estDensProfs(direct_binning=True, spherical=True)"])
p("C02","Ellipsoidal density profiles use the object's own shells and particles",
  "For every object and radius, the ellipsoidal direct-binning density is the summed mass of exactly those of the object's particles that lie, in the frame of the object's principal axes interpolated to that radius, inside the outer and not inside the inner ellipsoid (semi-axes interpolated from the object's shape profile to the bin edges), divided by the difference of the two ellipsoid volumes; a bin without particles is undefined (NaN). Every object's profile uses all of its own particles, and no other object's.",
  ["inputs"],"all particle sets, shape profiles, catalogues and radii",
  tests_shape+"never an ellipsoidal density value.",
  [H,DA,CB],[("principal-frame shell membership",H+" calcDensProfBruteForceEll"),("interpolation of axes, gathering",DA+" calcDensProfsEllDirectBinning")],["DensShapeProfs.estDensProfs(direct_binning=True, spherical=False)"])
p("C03","Kernel density profiles follow the angle-averaged Gaussian kernel",
  "For every object and radius, the kernel-based density is the sum over all of the object's particles of the particle's mass times the angle-averaged Gaussian kernel of Reed et al. (2005) at that radius, with a smoothing width of 0.005 R200 times the square root of the particle's distance to the centre in units of a tenth of R200. The estimate is linear in the particle masses and involves no particle of another object.",
  ["inputs"],"all particle sets, masses, catalogues and radii",
  tests_shape+"never a kernel density value.",
  [H,DA],[("kernel",H+" calcKTilde"),("kernel sum",DA+" calcDensProfsKernelBased")],["DensProfs.estDensProfs(direct_binning=False)"])
p("C04","A reported shape is the eigen-structure of the mass tensor of its shell",
  "For every object and radius with a converged shape, the reported axis ratios are the square roots of the ratios of the intermediate and smallest to the largest eigenvalue, and the reported axes the unit eigenvectors belonging to the largest, intermediate and smallest eigenvalue, of the symmetric mass-weighted second-moment tensor about the object's centre (each term divided by the squared ellipsoidal radius in reduced mode). That tensor is taken over exactly the object's particles inside the current ellipsoid of semi-axes d, q d, s d or, in shell mode, those also outside the inner one shrunk by the shell width along each axis; the first iteration uses the sphere or spherical shell.",
  ["inputs","histories"],"all particle sets, radii and settings; every iteration of the algorithm",
  tests_shape+"with unreduced tensors and full ellipsoids only; shape values are never compared and the reduced and shell-based branches never run.",
  [H,SA],[("shape tensor",H+" calcShapeTensor"),("iterative selection",SA+" runShellAlgo/runEllAlgo"),("per-radius driver",SA+" calcObjMorphLocal/calcObjMorphGlobal")],["DensShapeProfs.getShapeCatLocal / getShapeCatGlobal"])
p("C05","Shape iteration stops in bounded steps and flags what did not converge",
  "For every object and radius the shape iteration performs at most the configured number of steps, and reports a shape only if the last step changed both axis ratios by at most the configured relative tolerance and every step used at least the configured minimum number of particles. In every other case (too few particles, iteration budget exhausted, zero R200, all particles coincident) the distance, axis ratios and all axes of that entry are NaN and it is flagged as not converged, while a converged entry has every component of every axis reported as computed, also those that are exactly zero.",
  ["inputs","histories"],"all particle sets, tolerances, iteration budgets and minimum particle numbers",
  tests_shape+"and never look at entries that fail to converge.",
  [SA,SC],[("iteration loop and exits",SA+" run*Algo"),("early exits",SA+" calcObjMorph*"),("NaN marking",SA+" calcMorph*")],["is_conv field of the shape catalogue"])
p("C06","Each object's result depends only on that object and lands in its own row",
  "For every catalogue and every valid selection of objects, row i of each result describes the i-th selected object and equals what is obtained for that object alone, with that object's own particles, masses and R200. Adding, removing, reordering or modifying other objects, the number of worker threads and the order in which objects are processed change nothing in that row.",
  ["inputs","schedules","configurations"],"all catalogues, all selections (any order, any subset) and all thread schedules",
  "The tests use a single selection of at most two objects and only look at shapes of arrays.",
  [PR,DA,SA,CB],[("selection of catalogue rows",PR+" getSubSetIdxCat"),("offset arithmetic and parallel loops",DA+", "+SA)],["all public catalogue methods with obj_numbers"])
p("C07","Periodic wrapping moves particles by whole box lengths and keeps objects whole",
  "For every object smaller than half the box, all computations see the object's particles as one connected cloud in which every coordinate differs from the stored one by 0, +L or -L and is within half a box length of the object's first particle; a box size of zero means no wrapping. Consequently mass, shape and density results are the same wherever in the box the object lies, including when it straddles a face, edge or corner, and reported centres always lie inside the box.",
  ["inputs"],"all particle positions in the box, all box sizes and all translations of an object",
  "The tests keep both mock halos well inside the box, so that no wrapping ever happens.",
  [H,PR,DA,SA],[("unwrapping",PR+" respectPBCNoRef"),("unwrapping in worker loops",H+" respectPBCNoRef"),("recentring",PR+" recentreObject")],["getMassesCenters, estDensProfs, getShapeCat* near the box faces"])
p("C08","Object masses and centres are the sum and the configured centre",
  "For every object the reported mass is the sum of the masses of its particles, and the reported centre is the centre of mass in centre-of-mass mode, or in mode-centring the point reached by repeatedly taking the centre of mass of the particles within a sphere shrinking by 17 per cent around the previous one until fewer than five remain. The computation ends for every particle set, including coincident particles.",
  ["inputs"],"all particle sets, masses and both centring modes",
  "The tests never compare a mass or a centre, and no test contains coincident particles.",
  [PR,DA,SA],[("centre of mass",PR+" calcCoM"),("shrinking sphere",PR+" calcMode"),("mass sum",DA+" calcMassesCenters")],["getMassesCenters"])
p("C09","Unit conversion in and out is exact and consistent",
  "For every choice of input and output unit systems (named or numeric, with or without h) lengths, masses, densities and scale radii returned to the user equal the physical quantity given by the user expressed in the output units: converting in multiplies by the ratio of the input to the internal unit, converting out by the ratio of the internal to the output unit, and densities use mass over length cubed. Dimensionless results do not depend on the unit system, unit names resolve to their defined values, and unknown names are rejected.",
  ["inputs","configurations"],"all unit systems, values of h and quantities",
  "The tests use the default unit system or one fixed setting and never compare a returned value in two unit systems.",
  [CF,CB,DC,SC],[("unit tables and conversion helpers",CF),("scaling at the class boundary",CB+", "+DC+", "+SC)],["all public getters; config.update*UnitSystem"])
p("C10","Density models implement their published formulas",
  "For all radii and parameters the Einasto, generalised alpha-beta-gamma, NFW and Hernquist models return rho_s exp(-2/alpha((r/r_s)^alpha-1)), rho_s/((r/r_s)^gamma (1+(r/r_s)^alpha)^((beta-gamma)/alpha)), rho_s/((r/r_s)(1+r/r_s)^2) and rho_s/((r/r_s)(1+r/r_s)^3), the generalised model reducing to NFW for (1,3,1) and to Hernquist for (1,4,1). The fit objective is the mean squared difference between the logarithms of the given profile and the model at the given radii, with the parameter vector read in the documented order.",
  ["inputs"],"all radii, parameter vectors, profiles",
  "The tests only check that a fit returns arrays of the right shape.",
  [DT],[("model functions",DT+" get*Prof"),("parameter order",DT+" getModelParsDict"),("objective",DT+" toMinimize")],["fitDensProfs, getters of model profiles"])
p("C11","Fits are per-object, scale with density and honour fixed parameters",
  "For every set of density profiles the i-th fit result belongs to the i-th profile and its own R200, ignores undefined bins, scales its normalisation with the profile, keeps every parameter the user fixes at that value and every free one inside its documented bounds, and is all-NaN only if the optimiser rejects the problem. Fit results are returned under the right parameter names, and the concentration is R200 divided by the fitted scale radius of the same object.",
  ["inputs","schedules"],"all profiles, methods, fixed-parameter sets and worker schedules",
  "The tests check array shapes of two fits; order of workers, fixed parameters and NaN bins never matter to them.",
  [DT,CB,DC],[("fit set-up",DT+" fitDensProf"),("result order",DT+" fitDensProfHelper"),("naming and concentrations",DC+", "+CB)],["fitDensProfs, estConcentrations"])
p("C12","Mass binning partitions the objects by mass",
  "For every list of object masses and every number of bins, the mass groups are consecutive, non-empty, equally sized (except possibly the last) blocks of the objects sorted by mass, which together contain every object exactly once, with the centres, velocities and indices returned for a group belonging to the same objects in the same order. The returned edges are the smallest mass of each group followed by the largest mass of all.",
  ["inputs"],"all mass lists (ties, any length) and bin counts",
  "The tests call it through plotting with two objects and look at no group.",
  [CT],[("sorting and blocking",CT+" M_split/getBlocks")],["M_split"])
p("C13","Caching never changes a result and evicts least recently used entries",
  "For every history of calls and every cache setting, a call through the cache returns what the uncached function would return for those arguments: calls whose array contents, shapes or other arguments differ never share an entry. The number of entries never exceeds the configured maximum, a full cache evicts the least recently used entry, clearing empties it, and hits plus misses counts the calls.",
  ["histories","inputs","configurations"],"all call sequences, argument arrays and cache configurations",
  "The tests never fill a cache, never clear one and never call with arrays that differ only in shape.",
  [CA],[("linked list and table",CA+" lru_cache"),("array keys",CA+" np_cache_factory")],["cached_function, cache_info(), cache_clear()"],
  [("root","head of the circular recency list",CA),("cache","table from key to link",CA),("full","whether eviction is on",CA)])
p("C14","Halo catalogues list exactly the central subhalo's particles",
  "For every group catalogue, the object catalogue contains, in order, exactly the halos that have at least one subhalo and whose first subhalo has at least the minimum number of particles, each with a size equal to that of its first subhalo, the consecutive particle indices that start where the halo's particles start (the total size of all previous halos), and its own R200.",
  ["inputs"],"all group and subhalo tables and thresholds",
  "No test reads a group catalogue.",
  [GC],[("offset sums and filter",GC+" calcObjCat/calcCSHIdxs")],["DensShapeProfsGadget / DensProfsGadget catalogues"])
p("C15","Snapshot blocks are returned complete, in order and in internal units",
  "For every snapshot (one or several files, binary or HDF5) and every list of particle types, reading a block returns one row per particle, type after type in the requested order and file after file in file order, with value equal to the stored value converted exactly once from input to internal units; velocities are additionally multiplied by the square root of the scale factor. Particle types with a fixed mass in the header get that mass, a block that cannot be provided raises an error, and no row is left unfilled.",
  ["inputs","configurations"],"all snapshots, file counts, particle types and unit systems",
  "No test reads a snapshot.",
  ["cosmic_profiles/gadget/readgadget.py","cosmic_profiles/gadget/readsnap.py"],[("block assembly","cosmic_profiles/gadget/readgadget.py read_block/read_field")],["DensShapeProfsGadget.getXYZMasses"])
p("C16","Mock halos have the requested mass profile and stay in their shells",
  "For every profile and every sequence of growing semi-axes, the generated particles of shell i lie within the i-th ellipsoidal shell, every shell's particle count is proportional (up to rounding) to the model's mass in it, normalised such that the total model mass within the outermost radius is the requested mass, and the particle mass times the particle number is that mass. The same call always yields the same halo.",
  ["inputs"],"all profiles, semi-axis sequences, masses and resolutions",
  "The tests generate two fixed halos as input data and check nothing about them.",
  [MH,PR],[("normalisation, counts",MH+" genHalo"),("shell sampling",PR+" drawUniformFromShell/inShell")],["genHalo"])
p("C17","Velocity-dispersion shapes weigh velocities over the position-selected particles",
  "For every object and radius, a converged velocity-dispersion shape is the eigen-structure of the mass-weighted second-moment tensor of the velocities of exactly the selected particles about the object's mass-weighted mean velocity. The particles are selected by position exactly as for position shapes, with the ellipsoid or shell following the velocity tensor's axes and ratios, and the same convergence rules apply.",
  ["inputs","histories"],"all particle positions, velocities and settings",
  "No test calls a velocity-dispersion routine.",
  [SA,H],[("iteration",SA+" runEllVDispAlgo/runShellVDispAlgo"),("gathering of velocities, mean velocity",SA+" calcMorph*VelDisp, "+H+" calcCoM")],["getShapeCatVelLocal / getShapeCatVelGlobal"])
p("C19","Computations leave the caller's data untouched",
  "For every input, estimating densities, shapes, centres, masses, selections or fits changes none of the arrays, lists or dictionaries the caller passed in nor the object's stored particles, catalogue and radii, so that repeating a call gives the same answer and the order of calls does not matter. In particular wrapping and recentring operate on copies.",
  ["inputs","histories"],"all inputs and all call sequences",
  "The tests never compare an input before and after a call, nor call twice in different orders.",
  [DA,SA,PR,H],[("copies and scratch arrays",DA+", "+SA+", "+PR)],["inputs after any call"])
p("C20","Compiled kernels stay within their arrays and results are independent of scratch",
  "For every catalogue consistent with the particle arrays, every element the compiled routines read or write lies within the array it belongs to (bounds checks are off there), every worker writes only its own scratch rows and its own object's results, and no result depends on values left in scratch storage by an earlier object or iteration.",
  ["inputs","schedules"],"all consistent inputs and thread schedules",
  "Out-of-bounds accesses and races do not show in the tests' single small run, which asserts shapes only.",
  [H,DA,SA,GC],[("index arithmetic, thread scratch",H+", "+DA+", "+SA+", "+GC)],["no crash; identical results for any thread count"])
p("C21","Only valid selections and settings are accepted",
  "An object selection is accepted if and only if it is non-empty and consists of distinct non-negative integers below the number of objects; everything else raises an error and computes nothing. Fit-method and shape-algorithm settings are accepted if and only if they name a known profile, only parameters of that profile and a supported optimiser, or have Boolean mode flags and a list of radii, respectively, and accepted settings are passed on unchanged.",
  ["inputs","configurations"],"all selections, method dictionaries and shape settings",
  "The tests use valid settings only.",
  [PR],[("validators",PR+" isValidSelection/checkDensFitMethod/checkKatzConfig")],["every public method taking obj_numbers, method, katz_config"])
p("C18","Dumped shape catalogues hold the computed shapes in output units",
  "For every set of objects, dumping a shape catalogue writes one row per object with the axis ratios and axes as computed, and distances, centres and masses converted to output units, under file names that distinguish local from global and position from velocity shapes. Reading them back yields the same catalogue up to the printed precision.",
  ["inputs","histories"],"all catalogues and call sequences",
  "The tests dump once into an empty folder and never read the files.",
  [CB,SC],[("dump",CB+" _dumpShapeCat*Base"),("reload",CB+" _getShapeCat*Base")],["files in the catalogue folder"])
P.sort(key=lambda x:x["id"])
for x in P: assert len(x["title"])<=80,(x["id"],len(x["title"])); assert x["statement"].count(". ")<=2,x["id"]
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
print(len(P))

"""Which contracts decide which property."""
H = 'cosmic_profiles/cython_helpers/helper_class.pyx::CythonHelpers.'
R = 'cosmic_profiles/common/python_routines.py::'
SH = 'cosmic_profiles/shape_profs/shape_profs_algos.pyx::'
D = 'cosmic_profiles/dens_profs/dens_profs_algos.pyx::'

ASSUMPTIONS = [
    'floating-point numbers are treated as real numbers and machine integers as mathematical integers',
    'divisors are nonzero and arguments of square roots are not negative',
    'distinct array parameters do not overlap in memory',
    'inputs are finite (no NaN or infinity in particle data)',
    'numpy, scipy and LAPACK calls behave as modelled (element-wise semantics; root finders, interpolators and eigensolvers are unspecified functions of their arguments)',
    'one process (MPI rank 0 of size 1); iterations of prange loops run in any order on any thread, with thread-private scratch rows',
]

NOTE = ('Proved for all inputs over real numbers and mathematical integers; assumes the modelled meaning of numpy/scipy calls, '
        'no overlap between distinct array arguments, nonzero divisors, and an in-house verification-condition generator.')

PROPS = {
    'C01': dict(roots=[D + 'calcDensProfsSphDirectBinning'], replay=['dens'],
                note='Every obligation of the driver over all objects and of each function it calls is discharged.'),
    'C02': dict(roots=[D + 'calcDensProfsEllDirectBinning'], replay=['dens'],
                note='Every obligation of the driver over all objects and of each function it calls is discharged; interp1d is an unspecified function of its samples.'),
    'C03': dict(roots=[D + 'calcDensProfsKernelBased'], replay=['dens'],
                note='Every obligation of the driver over all objects and of each function it calls is discharged.'),
    'C04': dict(roots=[SH + 'calcMorphLocal', SH + 'calcMorphGlobal'], replay=['shapes'],
                note='Every obligation of both drivers over all objects and of each function they call is discharged; the LAPACK eigensolver is assumed to return the eigenvalues in ascending order with unit eigenvectors of the tensor it is given.'),
    'C05': dict(roots=[SH + k for k in ('calcMorphLocal', 'calcMorphGlobal', 'calcMorphLocalVelDisp', 'calcMorphGlobalVelDisp')], replay=['shapes'],
                note='Every obligation of the four drivers over all objects and of each function they call is discharged, the iteration with a decreasing measure; relative tolerance below one.'),
    'C17': dict(roots=[SH + 'calcMorphLocalVelDisp', SH + 'calcMorphGlobalVelDisp'], replay=['shapes'],
                note='Every obligation of both drivers over all objects and of each function they call is discharged; LAPACK as for C04.'),
    'C08': dict(roots=[D + 'calcMassesCenters'], replay=['dens'],
                note='Every obligation of the driver over all objects and of each function it calls is discharged, the mode recursion with a decreasing measure.'),
}

DRIVERS = [D + k for k in ('calcDensProfsSphDirectBinning', 'calcDensProfsEllDirectBinning', 'calcDensProfsKernelBased', 'calcMassesCenters')] + \
          [SH + k for k in ('calcMorphLocal', 'calcMorphGlobal', 'calcMorphLocalVelDisp', 'calcMorphGlobalVelDisp')]

PROPS.update({
    'C06': dict(roots=DRIVERS, replay=['dens', 'shapes'],
                note='The contract of each of the eight drivers gives row i as a function of object i alone; prange iterations are proved independent of each other.'),
    'C07': dict(roots=DRIVERS + [R + 'respectPBCNoRef', R + 'recentreObject', R + 'calcMode', R + 'calcCoM'], replay=['dens', 'shapes'],
                note='The contract of each of the eight drivers is stated over the particles translated by 0, +L or -L towards the first particle of their object.'),
    'C20': dict(roots=DRIVERS, replay=['dens', 'shapes'],
                note='Index bounds of every compiled access, independence of prange iterations and determinacy of every result are obligations of the eight drivers and of each function they call.'),
})

T = 'cosmic_profiles/dens_profs/dens_profs_tools.py::'
MODELS = [T + k for k in ('getEinastoProf', 'getAlphaBetaGammaProf', 'getNFWProf', 'getHernquistProf')]
FITS = [T + 'fitDensProf', T + 'fitDensProfHelper']

PROPS.update({
    'C10': dict(roots=MODELS + [T + 'getModelParsDict', T + 'toMinimize'], replay=['models'],
                note='Every obligation of the four models (at one radius and at an array of radii) and of the fit objective of each profile is discharged.'),
    'C11': dict(roots=FITS, replay=['models'],
                assumptions=['the optimiser is an unspecified function of its arguments that stays within the bounds it is given',
                             'a process pool returns results in the order of its arguments'],
                note='Every obligation of the fit of one object and of the fits of all objects, for every profile and every set of fixed parameters, is discharged.'),
})

NOT_APPLICABLE = {'C15': 'not yet under contract'}

DC = 'cosmic_profiles/dens_profs/dens_profs_classes.pyx::DensProfsBase.'
SC = 'cosmic_profiles/shape_profs/shape_profs_classes.pyx::DensShapeProfsBase.'
INIT = 'cosmic_profiles/shape_profs/shape_profs_classes.pyx::DensShapeProfs.__init__'
GETTERS = [DC + k for k in ('getR200', 'getIdxCat', 'getXYZMasses')]
DENSITIES, MASSES = [DC + 'estDensProfs'], [DC + 'getMassesCenters']
FITTED = [DC + k for k in ('fitDensProfs', 'estConcentrations')]
CATALOGUES = [SC + k for k in ('getShapeCatLocal', 'getShapeCatGlobal')]
DUMPS = [SC + k for k in ('dumpShapeCatLocal', 'dumpShapeCatGlobal')]
METHODS = MASSES + DENSITIES + FITTED + CATALOGUES + DUMPS
CF = 'cosmic_profiles/common/config.py::'
UNITS = [CF + k for k in ('updateInUnitSystem', 'updateOutUnitSystem', 'getLMVInternal', 'LengthInternalToOut', 'MassInternalToOut')]
CHECKS = [R + k for k in ('isValidSelection', 'checkKatzConfig', 'checkDensFitMethod')]
COMPUTE = (D, SH, T, 'cosmic_profiles/cython_helpers/')

PROPS.update({
    'C09': dict(roots=UNITS + [INIT] + GETTERS + METHODS, replay=['classes'], assume=COMPUTE,
                note='Every obligation of the unit settings, of the constructor and of each public method is discharged; the contracts of the compiled drivers and fits are those proved by C01-C08 and C11.'),
    'C18': dict(roots=DUMPS + CATALOGUES, replay=['classes'], assume=COMPUTE,
                assumptions=['files are a ghost map from path to written array; the printed precision is the format string'],
                note='Every obligation of the dump methods is discharged for every object without a catalogue dumped before; reading back is numpy.loadtxt and not proved.'),
    'C19': dict(roots=DRIVERS + FITS + [INIT] + GETTERS + METHODS, replay=['classes', 'dens', 'shapes'], kinds=('frame',),
                note='The frame condition of each public method, driver and fit (arguments and stored data unchanged) is discharged; results are functions of arguments and stored data by the contracts of the other checks.'),
    'C21': dict(roots=CHECKS + METHODS, replay=['classes'], assume=COMPUTE, kinds={DC: ('raise',), SC: ('raise',), '': None},
                note='For each public method and each validity test, that an error is raised exactly when the selection or the settings are not acceptable is an obligation, all discharged.'),
})

for _p, _more in (('C01', DENSITIES), ('C02', DENSITIES), ('C03', DENSITIES), ('C04', CATALOGUES), ('C05', CATALOGUES), ('C08', MASSES),
                  ('C06', MASSES + DENSITIES + FITTED + CATALOGUES), ('C11', FITTED)):
    PROPS[_p]['roots'] = PROPS[_p]['roots'] + _more
    PROPS[_p]['replay'] = PROPS[_p]['replay'] + ['classes']

PROPS['C14'] = dict(roots=['cosmic_profiles/gadget/gen_catalogues.pyx::calcObjCat'], replay=['catalogues'],
                    note='Every obligation of the catalogue of central subhalos is discharged, for every group and subhalo table.')

PROPS['C12'] = dict(roots=['cosmic_profiles/common/cosmo_tools.py::M_split'], replay=['massbins'],
                    note='Every obligation of the mass split is discharged, for every number of objects and of bins.')

MOCK = ['cosmic_profiles/common/python_routines.py::drawUniformFromShell', 'cosmic_profiles/mock_tools/mock_halo_gen.py::genHalo']
PROPS['C16'] = dict(roots=MOCK, replay=['mock'],
                    assumptions=['scipy.integrate.quad is the exact integral, interp1d lies between the neighbouring values, random draws are arbitrary values in their range',
                                 'the resolution puts a particle into the first proper shell (the coarsening of the shells otherwise is not under contract)'],
                    note='Every obligation of the sampling of a shell and of the generator is discharged, for every profile, number of shells and resolution that fills the first proper shell.')
PROPS['C19']['roots'] = PROPS['C19']['roots'] + MOCK
PROPS['C19']['replay'] = PROPS['C19']['replay'] + ['mock']

CACHE = 'cosmic_profiles/common/caching.py::'
PROPS['C13'] = dict(roots=[CACHE + k for k in ('lru_cache', '_make_key', '_HashedSeq', 'np_cache_factory')], replay=['caching'],
                    assumptions=['a cached function returns equal results for equal arguments (its own properties are C14 and C15)',
                                 'equality of keys is equality of the values in them; a value of a simple type never equals a list',
                                 'a numpy array is determined by its values, its type and its shape; flatten, tuple, array and reshape are inverse to each other',
                                 'other threads and recursive calls reach the shared state only through the same wrapper',
                                 'maxsize is None or not negative'],
                    note='Every obligation is discharged: each lock region of the wrappers preserves the invariant of the cyclic list, the dictionary and the '
                         'limit from any state that satisfies it, and is a step of a least-recently-used cache; equal keys belong to equal arguments.')

_DENS = {'C01': 'calcDensProfsSphDirectBinning', 'C02': 'calcDensProfsEllDirectBinning', 'C03': 'calcDensProfsKernelBased'}
for _p in _DENS:
    PROPS[_p]['assume'] = [SH] + [D + v for q, v in _DENS.items() if q != _p]
for _p in ('C04', 'C05'):
    PROPS[_p]['assume'] = [D + v for v in _DENS.values()]

"""Contracts of the public methods of the profile classes (cosmic_profiles/dens_profs/dens_profs_classes.pyx,
cosmic_profiles/shape_profs/shape_profs_classes.pyx; the private methods of cosmic_base_class.pyx are verified as part of
their callers)."""
from fractions import Fraction
from ..terms import *
from .. import terms as t
from .. import frontend as F
from ..contract import contract
from ..engine import ObjV, DictV, TupleV, NONE, Opaque, ModV
from . import routines, dens_algos, shape_algos, dens_tools, config
from .routines import some_array
from .config import l_int, m_int

DP = 'cosmic_profiles/dens_profs/dens_profs_classes.pyx'
SP = 'cosmic_profiles/shape_profs/shape_profs_classes.pyx'
D = DP + '::DensProfsBase.'
S = SP + '::DensShapeProfsBase.'
ALG = 'cosmic_profiles/dens_profs/dens_profs_algos.pyx::'
SH = 'cosmic_profiles/shape_profs/shape_profs_algos.pyx::'
R_ = 'cosmic_profiles/common/python_routines.py::'
T_ = 'cosmic_profiles/dens_profs/dens_profs_tools.py::'


# ---- the object ----------------------------------------------------------------------------------------------
def instance(path, cls):
    def make(eng, st, env):
        o = ObjV((F.load(path), cls))
        v = lambda nm: t.var('n_' + nm, 'I')
        for d in 'nqb':
            st.assume(le(ZERO_I, v(d)))

        def arr(nm, dims, sort):
            a = eng.new_store(st, nm, dims, sort, t.mklam(len(dims), lambda *ix: t.uf('p_' + nm, ix, sort)))
            st.objs[(o.oid, nm)] = eng.as_mv(a)
        arr('xyz', [v('n'), num(3, 'I')], 'R')
        arr('masses', [v('n')], 'R')
        arr('idx_cat', [v('q')], 'I')
        arr('obj_size', [v('b')], 'I')
        arr('r200', [v('b')], 'R')
        for nm, sort in (('L_BOX', 'R'), ('CENTER', 'S'), ('SNAP', 'S'), ('CAT_DEST', 'S'), ('VIZ_DEST', 'S'), ('MIN_NUMBER_PTCS', 'I'),
                         ('start_time', 'R')):
            st.objs[(o.oid, nm)] = t.var('p_' + nm, sort)
        st.objs[(o.oid, 'SUFFIX')] = t.strc('_')
        st.objs[(o.oid, 'SAFE')] = num(6)
        st.objs[(o.oid, 'MASS_UNIT')] = num(10 ** 10)
        return o
    return make


DENS = instance(DP, 'DensProfsBase')
SHAPE = instance(SP, 'DensShapeProfsBase')


class Obj:
    """attributes of the object in the pre-state"""
    def __init__(self, c, o):
        self.c, self.o = c, o

    def __getattr__(self, nm):
        return self.c.attr(self.o, nm)


def selections():
    yield lambda eng, st, env: numbers(eng, st, 'I', False)
    yield lambda eng, st, env: numbers(eng, st, 'I', True)
    yield lambda eng, st, env: numbers(eng, st, 'R', False)


def numbers(eng, st, sort, islist):
    n = t.var('n_k', 'I')
    st.assume(le(ZERO_I, n))
    a = eng.new_store(st, 'obj_numbers', [n], sort, t.mklam(1, lambda k: t.uf('p_obj_numbers', (k,), sort)))
    a.islist = islist
    return a


def out_length(c):
    return l_int(c) / c.get_global(config.PATH, 'OutUnitLength_in_cm')


def out_mass(c):
    return m_int(c) / c.get_global(config.PATH, 'OutUnitMass_in_g')


class Selected:
    """the selected objects as a catalogue of their own"""
    def __init__(self, c, self_, nrs):
        self.c, s = c, Obj(c, self_)
        self.s = s
        routines.consistent(c, s.idx_cat, s.obj_size)
        valid = routines.valid_selection(nrs, s.obj_size.dims[0])
        if nrs.arr.dtype != 'I':
            c.requires(not_(valid), 'whole numbers come as integers')
        c.raises_when(not_(valid), 'ValueError')
        self.ok = nrs.arr.dtype == 'I'
        self.k = nrs.dims[0]
        if not self.ok:
            c.returns_any()
            return
        n, f = routines.subset(s.idx_cat, s.obj_size, nrs)
        self.idx = c.lam([n], f, 'I')
        self.size = c.lam([self.k], lambda i: s.obj_size(nrs(i)), 'I')
        self.r200 = c.lam([self.k], lambda i: s.r200(nrs(i)))
        n = s.xyz.dims[0]
        c.requires(s.L_BOX >= 0, 'box size not negative')
        c.requires(c.forall(s.obj_size.dims[0], lambda p: lt(ZERO_I, s.obj_size(p))), 'every object has particles')
        c.requires(c.forall(s.idx_cat.dims[0], lambda j: and_(le(ZERO_I, s.idx_cat(j)), lt(s.idx_cat(j), n))), 'particle indices in range')
        self.cat = cat = dens_algos.Cat(s.xyz, s.masses, self.idx, self.size, s.L_BOX)
        c.requires(c.forall(cat.nb, lambda p: ne(dens_algos.total(cat.m(p), cat.size(p)), num(0))), 'selected objects have mass')


def getter(key, make, f):
    contract(key, 'self:*', level='top', variants=[{'self': make}])(f)


def getR200(c, self_):
    r = Obj(c, self_).r200
    u = out_length(c)
    c.returns_array('R', r.dims, lambda p: r(p) * u)


def getIdxCat(c, self_):
    s = Obj(c, self_)
    c.returns((s.idx_cat, s.obj_size))


def getXYZMasses(c, self_):
    s = Obj(c, self_)
    l, m = out_length(c), out_mass(c)
    c.returns((c.array('R', s.xyz.dims, lambda k, a: s.xyz(k, a) * l), c.array('R', s.masses.dims, lambda k: s.masses(k) * m)))


for f in (getR200, getIdxCat, getXYZMasses):
    getter(D + f.__name__, DENS, f)


@contract(D + 'getMassesCenters', 'self:* obj_numbers:*', level='top', variants=[{'self': DENS, 'obj_numbers': x} for x in selections()])
def getMassesCenters(c, self_, nrs):
    x = Selected(c, self_, nrs)
    if not x.ok:
        return
    s = x.s
    centers, m = c.call(ALG + 'calcMassesCenters', s.xyz, s.masses, x.idx, x.size, s.L_BOX, s.CENTER)
    l, mu = out_length(c), out_mass(c)
    c.returns_records([x.k], {'centre': ('R', [3], lambda p, a: centers.f(p, a) * l), 'mass': ('R', [], lambda p: m.f(p) * mu)})


# ---- settings ------------------------------------------------------------------------------------------------
def katz_choices():
    out = list(routines.katz_variants())
    r, d = out[0]
    yield routines.katz_dict(r, d)
    yield routines.katz_dict(r, dict(d, REDUCED=t.var('p_x', 'I')))


class Settings:
    """accepted shape-algorithm settings"""
    def __init__(self, c, cfg):
        r = c.call(R_ + 'checkKatzConfig', cfg)
        self.ok = r is not None
        if self.ok:
            self.R, self.tol, self.wall, self.least, self.reduced, self.shell_based = r
            self.R = c.lam(self.R.dims, self.R.f)
            shape_algos.control(c, self.tol, self.wall)
        else:
            c.returns_any()


def view_of(c, r):
    return c.lam(r.dims, r.f, r.dtype)


def path(c, s, what, scope, suffix='_'):
    return c.strcat(s.CAT_DEST, '/%s_%s' % (what, scope) + suffix, s.SNAP, '.txt')


def no_dump(c, s, scope, suffix='_'):
    c.requires(not_(t.uf('path_exists', (path(c, s, 'd', scope, suffix),), 'B')), 'no catalogue was dumped before')


def dens_at(c, D):
    """densities in outgoing units"""
    u = out_mass(c) / out_length(c) ** 3
    c.returns_array('R', D.dims, lambda p, r: D.f(p, r) * u)


def shapes(c, x, k, vel=None, suffix='_', scope='local'):
    s = x.s
    no_dump(c, s, scope, suffix)
    v = [vel] if vel is not None else []
    name = SH + 'calcMorph' + scope.capitalize() + ('VelDisp' if vel is not None else '')
    if scope == 'local':
        return c.call(name, s.xyz, *v, s.masses, x.r200, x.idx, x.size, s.L_BOX, k.R, k.tol, k.wall, k.least, s.CENTER, k.reduced, k.shell_based)
    return c.call(name, s.xyz, *v, s.masses, x.r200, x.idx, x.size, s.L_BOX, k.tol, k.wall, k.least, s.CENTER, s.SAFE, k.reduced)


def with_settings(make, **more):
    sel, kz = list(selections()), list(katz_choices())
    out = [dict(more, self=make, obj_numbers=x, katz_config=kz[0]) for x in sel] + [dict(more, self=make, obj_numbers=sel[0], katz_config=kz[1])]
    return out


@contract(D + 'estDensProfs', 'self:* r_over_r200:R[r] obj_numbers:* direct_binning:B spherical:B katz_config:*', level='top',
          variants=[dict(v, direct_binning=a, spherical=b) for v in with_settings(DENS) for a, b in ((t.TRUE, t.TRUE), (t.TRUE, t.FALSE), (t.FALSE, t.var('p_spherical', 'B')))])
def estDensProfs(c, self_, R, nrs, direct, spherical, cfg):
    k = Settings(c, cfg)
    x = Selected(c, self_, nrs)
    if not x.ok or not k.ok:
        return
    s = x.s
    c.requires(lt(ZERO_I, R.dims[0]), 'at least one radius')
    if direct is t.FALSE:
        return dens_at(c, c.call(ALG + 'calcDensProfsKernelBased', s.xyz, s.masses, x.r200, R, x.idx, x.size, s.L_BOX, s.CENTER))
    if spherical is t.TRUE:
        return dens_at(c, c.call(ALG + 'calcDensProfsSphDirectBinning', s.xyz, s.masses, x.r200, R, x.idx, x.size, s.L_BOX, s.CENTER))
    c.raises_when(lt(R.dims[0], t.lift(3, 'I')), 'ValueError')
    d, q, sh, minor, inter, major, _, _ = [view_of(c, y) for y in shapes(c, x, k)]
    b = c.lam(d.dims, lambda p, i: d(p, i) * q(p, i))
    cc = c.lam(d.dims, lambda p, i: d(p, i) * sh(p, i))
    dens_at(c, c.call(ALG + 'calcDensProfsEllDirectBinning', s.xyz, s.masses, x.r200, R, d, b, cc, major, inter, minor, x.idx, x.size, s.L_BOX, s.CENTER))


def catalogue(c, x, k, scope, vel=None, suffix='_'):
    d, q, s, minor, inter, major, _, _ = shapes(c, x, k, vel, suffix, scope)
    l = out_length(c)
    ax = lambda v: ('R', [3], v.f)
    c.returns_records(d.dims, {'d': ('R', [], lambda *i: d.f(*i) * l), 'q': ('R', [], q.f), 's': ('R', [], s.f),
                               'is_conv': ('B', [], lambda *i: not_(t.isnan(q.f(*i)))), 'minor': ax(minor), 'inter': ax(inter), 'major': ax(major)})


def after_dump(scope, one=False, suffix='_'):
    """an object for which the catalogue of the selected objects was dumped before: the files hold some catalogue in the
    form in which the dump methods write it"""
    def make(eng, st, env):
        o = SHAPE(eng, st, env)
        n, r = t.var('n_k', 'I'), t.var('n_ROverR200', 'I') if scope == 'local' else t.ONE_I
        st.assume(eq(n, t.ONE_I) if one else le(t.lift(2, 'I'), n))
        st.assume(le(t.ONE_I, r))
        flat = lambda nm: lambda p, j: t.uf('f_' + nm, (p, t.uf('idiv', (j, t.lift(3, 'I')), 'I'), t.uf('mod', (j, t.lift(3, 'I')), 'I')), 'R')
        cells = {nm: ([n, r], lambda p, j, nm=nm: t.uf('f_' + nm, (p, j), 'R')) for nm in ('d', 'q', 's')}
        cells.update({nm: ([n, r * 3], flat(nm)) for nm in ('minor', 'inter', 'major')})
        cells['m'] = ([n], lambda p: t.uf('f_m', (p,), 'R'))
        cells['centers'] = ([n, num(3, 'I')], lambda p, a: t.uf('f_centers', (p, a), 'R'))
        for nm, (dims, f) in cells.items():
            where = eng.np.strcat([st.objs[(o.oid, 'CAT_DEST')], t.strc('/%s_%s%s' % (nm, scope, suffix)), st.objs[(o.oid, 'SNAP')], t.strc('.txt')])
            st.globals[('<files>', where)] = Opaque('file', arr=eng.new_store(st, 'file_' + nm, dims, 'R', t.mklam(len(dims), f)), opts={})
            st.assume(t.uf('path_exists', (where,), 'B'))
        o.after_dump = r
        return o
    return make


def read_back(c, self_, nrs, cfg, scope):
    k = Settings(c, cfg)
    x = Selected(c, self_, nrs)
    if x.ok and k.ok:
        v = lambda nm: lambda *ix: t.uf('f_' + nm, ix if scope == 'local' else (ix[0], ZERO_I) + ix[1:], 'R')
        dims = [x.k, k.R.dims[0]] if scope == 'local' else [x.k]
        c.returns_records(dims, {nm: ('R', [], v(nm)) for nm in ('d', 'q', 's')} | {nm: ('R', [3], v(nm)) for nm in ('minor', 'inter', 'major')} |
                          {'is_conv': ('B', [], lambda *i: not_(t.isnan(v('q')(*i))))})


def reading(scope):
    sel, kz = list(selections()), list(katz_choices())
    return with_settings(SHAPE) + [dict(self=after_dump(scope, one), obj_numbers=sel[0], katz_config=kz[0]) for one in (False, True)]


@contract(S + 'getShapeCatLocal', 'self:* obj_numbers:* katz_config:*', level='top', variants=reading('local'))
def getShapeCatLocal(c, self_, nrs, cfg):
    if getattr(self_, 'after_dump', None) is not None:
        return read_back(c, self_, nrs, cfg, 'local')
    k = Settings(c, cfg)
    x = Selected(c, self_, nrs)
    if x.ok and k.ok:
        catalogue(c, x, k, 'local')


@contract(S + 'getShapeCatGlobal', 'self:* obj_numbers:* katz_config:*', level='top', variants=reading('global'))
def getShapeCatGlobal(c, self_, nrs, cfg):
    if getattr(self_, 'after_dump', None) is not None:
        return read_back(c, self_, nrs, cfg, 'global')
    k = Settings(c, cfg)
    x = Selected(c, self_, nrs)
    if x.ok and k.ok:
        catalogue(c, x, k, 'global')


def dumped(c, x, k, scope, vel=None, suffix='_'):
    """one row per object: ratios and axes as computed, lengths and masses in outgoing units"""
    d, q, s, minor, inter, major, centers, m = shapes(c, x, k, vel, suffix, scope)
    l, mu = out_length(c), out_mass(c)
    nr = k.R.dims[0] if scope == 'local' else t.ONE_I
    if scope == 'global':
        lift = lambda y, last: c.array('R', [x.k, t.ONE_I] + last, lambda p, r, *a: y.f(p, *a))
        d, q, s = [lift(y, []) for y in (d, q, s)]
        minor, inter, major = [lift(y, [t.lift(3, 'I')]) for y in (minor, inter, major)]
    out = {'d': c.array('R', d.dims, lambda p, r: d.f(p, r) * l), 'q': q, 's': s,
           'centers': c.array('R', centers.dims, lambda p, a: centers.f(p, a) * l), 'm': c.array('R', m.dims, lambda p: m.f(p) * mu)}
    for nm, v in (('minor', minor), ('inter', inter), ('major', major)):
        out[nm] = c.array('R', [x.k, nr * 3], lambda p, j, v=v: v.f(p, t.uf('idiv', (j, t.lift(3, 'I')), 'I'), t.uf('mod', (j, t.lift(3, 'I')), 'I')))
    for nm, v in out.items():
        c.writes(path(c, x.s, nm, scope, suffix), v, fmt='%1.7e')
    c.returns(None)


@contract(S + 'dumpShapeCatLocal', 'self:* obj_numbers:* katz_config:*', level='top', variants=with_settings(SHAPE))
def dumpShapeCatLocal(c, self_, nrs, cfg):
    k = Settings(c, cfg)
    x = Selected(c, self_, nrs)
    if x.ok and k.ok:
        dumped(c, x, k, 'local')


@contract(S + 'dumpShapeCatGlobal', 'self:* obj_numbers:* katz_config:*', level='top', variants=with_settings(SHAPE))
def dumpShapeCatGlobal(c, self_, nrs, cfg):
    k = Settings(c, cfg)
    x = Selected(c, self_, nrs)
    if x.ok and k.ok:
        dumped(c, x, k, 'global')


# ---- fits ----------------------------------------------------------------------------------------------------
def fit_choices():
    for p, names in dens_tools.PARS.items():
        fixed = {k: t.var('fixed_' + k, 'R') for k in names}
        for d in [{}, fixed] + [{k: fixed[k]} for k in names]:
            yield DictV(dict(d, profile=t.strc(p)))
        yield DictV({'profile': t.strc(p), 'min_method': t.var('p_min_method', 'S')})
    yield DictV({'profile': t.strc('burkert')})
    yield DictV({'profile': t.strc('nfw'), 'alpha': t.var('fixed_alpha', 'R')})


def fit_variants(make):
    ms, sel = list(fit_choices()), list(selections())
    return [{'self': make, 'method': m, 'obj_numbers': sel[0]} for m in ms] + [{'self': make, 'method': ms[0], 'obj_numbers': x} for x in sel[1:]]


def fitted(c, self_, dens, R, method, nrs):
    """best-fit parameters in internal units, one row per object; None if not accepted"""
    s = Obj(c, self_)
    before = len(c.raises)
    c.call(T_CHECK, method)
    if any(cond is t.TRUE for cond, _ in c.raises[before:]):
        c.returns_any()
        return None, None
    c.raises_when(ne(dens.dims[0], nrs.dims[0]), 'ValueError')
    valid = routines.valid_selection(nrs, s.obj_size.dims[0])
    if nrs.arr.dtype != 'I':
        c.requires(not_(valid), 'whole numbers come as integers')
    c.raises_when(not_(valid), 'ValueError')
    if nrs.arr.dtype != 'I':
        c.returns_any()
        return None, None
    lc, mc = 1 / out_length(c), s.MASS_UNIT / out_mass(c)
    m = dict(method.d)
    if 'rho_s' in m:
        m['rho_s'] = to_real(m['rho_s']) * mc / lc ** 3
    if 'r_s' in m:
        m['r_s'] = to_real(m['r_s']) * lc
    r200 = c.lam(nrs.dims, lambda i: s.r200(nrs(i)))
    best = c.call(T_ + 'fitDensProfHelper', c.lam(dens.dims, lambda i, j: dens(i, j) * mc / lc ** 3), R, r200, DictV(m))
    return best, r200


T_CHECK = R_ + 'checkDensFitMethod'


@contract(D + 'fitDensProfs', 'self:* dens_profs:R[g,r] r_over_r200:R[r] method:* obj_numbers:*', level='top', variants=fit_variants(DENS))
def fitDensProfs(c, self_, dens, R, method, nrs):
    best, _ = fitted(c, self_, dens, R, method, nrs)
    if best is None:
        return
    l, mu = out_length(c), out_mass(c) / Obj(c, self_).MASS_UNIT
    unit = {'rho_s': mu / l ** 3, 'r_s': l}
    fields = {nm: ('R', [], lambda p, j=j, nm=nm: best.f(p, t.lift(j, 'I')) * unit.get(nm, num(1))) for j, nm in enumerate(dens_tools.PARS[method.d['profile'].data])}
    fields['is_conv'] = ('B', [], lambda p: not_(t.isnan(best.f(p, t.ONE_I) * (unit['r_s'] if len(fields) == 3 else num(1)))))
    c.returns_records(nrs.dims, fields)


@contract(D + 'estConcentrations', 'self:* dens_profs:R[g,r] r_over_r200:R[r] method:* obj_numbers:*', level='top', variants=fit_variants(DENS))
def estConcentrations(c, self_, dens, R, method, nrs):
    best, r200 = fitted(c, self_, dens, R, method, nrs)
    if best is not None:
        last = len(dens_tools.PARS[method.d['profile'].data]) - 1
        c.returns_array('R', nrs.dims, lambda p: r200(p) / best.f(p, t.lift(last, 'I')))


# ---- construction --------------------------------------------------------------------------------------------
def fresh_object(path, cls):
    return lambda eng, st, env: ObjV((F.load(path), cls))


def list_of_lists(eng, st, env):
    n = t.var('n_o', 'I')
    st.assume(le(t.ONE_I, n))
    k, j = t.fresh('k', 'I'), t.fresh('j', 'I')
    st.assume(t.forall([k], le(ZERO_I, t.uf('p_len', (k,), 'I'))))
    return Opaque('ragged', n=n, lens=t.lam([k], t.uf('p_len', (k,), 'I')), body=t.lam([k, j], t.uf('p_idx', (k, j), 'I')), dtype='I', islist=True,
                  pytype=ModV('builtins.list'), hasattr=lambda a: TRUE if a == '__len__' else FALSE)


def one_list(eng, st, env):
    n = t.var('n_l', 'I')
    st.assume(le(t.ONE_I, n))
    a = eng.new_store(st, 'idx_cat', [n], 'I', t.mklam(1, lambda k: t.uf('p_idx', (k,), 'I')))
    a.islist = True
    return a


def radii(eng, st, env):
    return eng.new_store(st, 'r200', [t.var('n_o', 'I')], 'R', t.mklam(1, lambda k: t.uf('p_r200', (k,), 'R')))


IN = {'length': lambda c: c.get_global(config.PATH, 'InUnitLength_in_cm') / l_int(c), 'mass': lambda c: c.get_global(config.PATH, 'InUnitMass_in_g') / m_int(c)}


def initialised(c, self_, xyz, masses, idx_cat, obj_size, r200, L, SNAP, VIZ, CAT, least, CENTER, suffix='_'):
    for nm, v in (('xyz', xyz), ('masses', masses), ('idx_cat', idx_cat), ('obj_size', obj_size), ('r200', r200), ('L_BOX', L), ('SNAP', SNAP),
                  ('VIZ_DEST', VIZ), ('CAT_DEST', CAT), ('MIN_NUMBER_PTCS', least), ('CENTER', CENTER), ('SUFFIX', t.strc(suffix)),
                  ('SAFE', num(6)), ('MASS_UNIT', num(10 ** 10))):
        c.set_attr(self_, nm, v)
    c.returns(None)


@contract(SP + '::DensShapeProfs.__init__', 'self:* xyz:R[n,3] masses:R[m] idx_cat:* r200:* L_BOX:R SNAP:S VIZ_DEST:S CAT_DEST:S MIN_NUMBER_PTCS:I CENTER:S',
          level='top', variants=[{'self': fresh_object(SP, 'DensShapeProfs'), 'idx_cat': list_of_lists, 'r200': radii},
                                 {'self': fresh_object(SP, 'DensShapeProfs'), 'idx_cat': one_list, 'r200': lambda eng, st, env: t.var('p_r200', 'R')}])
def init_DensShapeProfs(c, self_, xyz, masses, idx_cat, r200, L, SNAP, VIZ, CAT, least, CENTER):
    c.raises_when(ne(xyz.dims[0], masses.dims[0]), 'AssertionError')
    l, m = IN['length'](c), IN['mass'](c)
    if isinstance(idx_cat, Opaque):
        n, length, idx = idx_cat.n, lambda i: app(idx_cat.lens, [i]), lambda i, j: app(idx_cat.body, [i, j])
        r = r200
    else:
        n, length, idx = t.ONE_I, lambda i: idx_cat.dims[0], lambda i, j: idx_cat(j)
        r = lambda i: r200
    own = lambda i: ite(le(least, length(i)), length(i), ZERO_I)
    if isinstance(idx_cat, Opaque):
        P = t.mklam(1, lambda i: le(least, length(i)))
        cnt, total = t.count_of(ZERO_I, n, P), Sum(ZERO_I, n, own)
        kept = lambda k: t.filt(ZERO_I, k, P)

        def content(k):
            s, j = routines.segment_of(k, own)
            return idx(s, j)
    else:
        cnt, total, kept, content = ite(le(least, length(ZERO_I)), t.ONE_I, ZERO_I), own(ZERO_I), lambda k: ZERO_I, lambda k: idx(ZERO_I, k)
    initialised(c, self_, c.array('R', xyz.dims, lambda k, a: xyz(k, a) * l), c.array('R', masses.dims, lambda k: masses(k) * m),
                c.array('I', [total], content), c.array('I', [cnt], lambda k: length(kept(k))), c.array('R', [cnt], lambda k: r(kept(k)) * l),
                L * l, SNAP, VIZ, CAT, least, CENTER)

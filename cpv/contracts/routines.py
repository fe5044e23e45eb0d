"""Contracts of cosmic_profiles/common/python_routines.py."""
from ..terms import *
from .. import terms as t
from fractions import Fraction
from ..contract import contract
from ..engine import DictV, TupleV
from .helpers import total, com_of, wrapped

P = 'cosmic_profiles/common/python_routines.py::'


@contract(P + 'respectPBCNoRef', 'xyz:R[n,3] L_BOX:R')
def respectPBCNoRef(c, xyz, L):
    c.requires(L >= 0, 'box size not negative')
    c.returns_like(xyz, lambda k, a: wrapped(xyz(k, a), xyz(0, a), L), eq(L, num(0)))


@contract(P + 'calcCoM', 'xyz:R[n,3] masses:R[n]', level='top')
def calcCoM(c, xyz, m):
    n = xyz.dims[0]
    c.requires(lt(ZERO_I, n), 'at least one particle')
    c.requires(ne(total(m, n), num(0)), 'total mass not zero')
    f = com_of(xyz, m, n)
    c.returns_array('R', [3], f)


@contract(P + 'recentreObject', 'xyz:R[n,3] L_BOX:R', level='top')
def recentreObject(c, xyz, L):
    c.requires(L >= 0, 'box size not negative')
    c.returns_array('R', xyz.dims, lambda k, a: recentred(xyz(k, a), L))


def recentred(x, L):
    """coordinate moved into [0, L) by one box length (positions at most one box length outside)"""
    y = ite(x >= L, x - L, x)
    return ite(y < 0, y + L, y)


def pdist(x, k, center):
    return sqrt((x(k, 0) - center(0)) ** 2 + (x(k, 1) - center(1)) ** 2 + (x(k, 2) - center(2)) ** 2)


def mode(n, X, M, rad, a):
    """coordinate a of the mode of the first n particles (X, M: content lambdas), by the recursion of mode_unfold"""
    return t.opq('#MODE', (n, X, M, rad, t.lift(a, 'I')))


def mode_unfold(n, x, m, rad):
    com = com_of(x, m, n)
    inside = lambda k: pdist(x, k, com) < rad
    cnt = Count(ZERO_I, n, inside)
    k0 = t.fresh('k', 'I')
    coincide = t.forall([k0], or_(not_(and_(le(ZERO_I, k0), lt(k0, n))), pdist(x, k0, com) <= 0))
    sel = lambda k: t.filt(ZERO_I, k, t.mklam(1, inside))
    X = t.mklam(2, lambda k, a: x(sel(k), a))
    M = t.mklam(1, lambda k: m(sel(k)))
    return lambda a: ite(or_(lt(cnt, num(5, 'I')), coincide), com(a), mode(cnt, X, M, rad * Fraction(83, 100), a))


def mode_measure(c, outer, inner):
    x0, m0, r0 = outer
    x, m, r = inner
    n0, n = x0.dims[0], x.dims[0]
    com = com_of(x0, m0, n0)
    k = t.fresh('k', 'I')
    yield 'no more particles than before', le(n, n0)
    yield 'the radius shrinks by 17 per cent', eq(r, r0 * Fraction(83, 100))
    yield 'some particle is away from the centre of mass', not_(t.forall([k], or_(not_(and_(le(ZERO_I, k), lt(k, n0))), pdist(x0, k, com) <= 0)))


def calcMode(c, xyz, m, rad):
    n = xyz.dims[0]
    if c.mode == 'verify':
        f = mode_unfold(n, xyz, m, rad)
    else:
        X, M = xyz.lam(), m.lam()
        f = lambda a: mode(n, X, M, rad, a)
    c.returns_array('R', [3], f)


for _p in (P, 'cosmic_profiles/common/cosmo_tools.py::'):
    contract(_p + 'calcMode', 'xyz:R[n,3] masses:R[n] rad:R', level='top', measure=mode_measure)(calcMode)


@contract('cosmic_profiles/common/cosmo_tools.py::respectPBC', 'xyz:R[n,3] L_BOX:R', level='top')
def respectPBC(c, xyz, L):
    c.requires(L > 0, 'box size positive')
    c.returns_array('R', xyz.dims, lambda k, a: wrapped(xyz(k, a), xyz(0, a), L))


# ---- selections and settings ---------------------------------------------------------------------------------
def valid_selection(numbers, nb):
    """non-empty, distinct non-negative integers below nb"""
    n = numbers.dims[0]
    i, j = t.fresh('i', 'I'), t.fresh('j', 'I')
    integer = lambda x: t.TRUE if x.sort == 'I' else eq(to_real(t.uf('round', (x,), 'I')), x)
    dup = and_(le(ZERO_I, i), lt(i, j), lt(j, n), eq(numbers(i), numbers(j)))
    ok = lambda k: and_(integer(numbers(k)), to_real(numbers(k)) >= 0, lt(to_real(numbers(k)), to_real(nb)))
    return and_(lt(ZERO_I, n), t.forall([i], or_(not_(and_(le(ZERO_I, i), lt(i, n))), ok(i))), t.forall([i, j], not_(dup)))


def selection(sort):
    def make(eng, st, env):
        n = t.var('n_sel', 'I')
        st.assume(le(ZERO_I, n))
        return eng.new_store(st, 'obj_numbers', [n], sort, t.mklam(1, lambda k: t.uf('p_obj_numbers', (k,), sort)))
    return make


@contract(P + 'isValidSelection', 'obj_numbers:* nb_objects:I', level='top',
          variants=[{'obj_numbers': selection('I')}, {'obj_numbers': selection('R')}])
def isValidSelection(c, numbers, nb):
    c.raises_when(not_(valid_selection(numbers, nb)), 'ValueError')
    c.returns(t.TRUE)


def segment_of(k, L):
    """(i, j): position k lies at j of the i-th of consecutive segments with lengths L(0), L(1), ..."""
    s = t.seg(ZERO_I, k, t.mklam(1, L))
    return s, k - Sum(ZERO_I, s, L)


def subset(idx, size, numbers):
    """(length, position -> particle) of the selected objects' particles, one object after the other"""
    L = lambda i: size(numbers(i))

    def f(k):
        s, j = segment_of(k, L)
        return idx(Sum(ZERO_I, numbers(s), size) + j)
    return Sum(ZERO_I, numbers.dims[0], L), f


def consistent(c, idx, size):
    """preconditions: a catalogue and the sizes of its objects"""
    m = size.dims[0]
    c.requires(c.forall(m, lambda p: size(p) >= 0), 'sizes are not negative')
    c.requires(eq(idx.dims[0], Sum(ZERO_I, m, size)), 'one index per particle of an object')


@contract(P + 'getSubSetIdxCat', 'idx_cat:I[n] obj_size:I[m] obj_numbers:I[k]', level='top')
def getSubSetIdxCat(c, idx, size, numbers):
    consistent(c, idx, size)
    c.requires(c.forall(numbers.dims[0], lambda i: and_(numbers(i) >= 0, lt(numbers(i), size.dims[0]))), 'objects exist')
    n, f = subset(idx, size, numbers)
    c.returns_array('I', [n], f)
    # the i-th selected object keeps its own particles, in order
    i, k = t.fresh('i', 'I'), t.fresh('k', 'I')
    off = Sum(ZERO_I, i, lambda x: size(numbers(x)))
    c.lemma(t.forall([i, k], or_(not_(and_(le(ZERO_I, i), lt(i, numbers.dims[0]), le(ZERO_I, k), lt(k, size(numbers(i))))),
                                 eq(f(off + k), idx(Sum(ZERO_I, numbers(i), size) + k)))))


MODES = ('REDUCED', 'SHELL_BASED')


def some_array(name, sort='R', islist=False):
    def make(eng, st, env):
        n = t.var('n_' + name, 'I')
        st.assume(le(ZERO_I, n))
        a = eng.new_store(st, name, [n], sort, t.mklam(1, lambda k: t.uf('p_' + name, (k,), sort)))
        a.islist = islist
        return a
    return make


def katz_variants():
    good = {'IT_TOL': t.var('p_IT_TOL', 'R'), 'IT_WALL': t.var('p_IT_WALL', 'I'), 'IT_MIN': t.var('p_IT_MIN', 'I'),
            'REDUCED': t.var('p_REDUCED', 'B'), 'SHELL_BASED': t.var('p_SHELL_BASED', 'B')}
    radii = [some_array('ROverR200'), some_array('ROverR200', islist=True), lambda eng, st, env: t.var('p_R', 'R')]
    for r in radii:
        yield r, good
    for k in MODES:
        for v in (t.var('p_x', 'I'), t.var('p_x', 'S'), t.var('p_x', 'R')):
            yield radii[0], dict(good, **{k: v})
    for k in good:
        yield radii[0], {x: v for x, v in good.items() if x != k}


def katz_dict(radii, rest):
    return lambda eng, st, env: DictV(dict(rest, ROverR200=radii(eng, st, env)))


@contract(P + 'checkKatzConfig', 'katz_config:*', level='top',
          variants=[{'katz_config': katz_dict(r, d)} for r, d in katz_variants()])
def checkKatzConfig(c, cfg):
    d = {k: c.view(v) for k, v in cfg.d.items()}
    missing = [k for k in ('IT_TOL', 'IT_WALL', 'IT_MIN') + MODES if k not in d]
    bad = missing or any(d[k].sort != 'B' for k in MODES) or isinstance(d['ROverR200'], T)
    c.raises_when(t.TRUE if bad else t.FALSE, 'AssertionError', 'KeyError')
    if not bad:
        R = d['ROverR200']
        c.returns((c.array('R', R.dims, lambda k: R(k)), d['IT_TOL'], d['IT_WALL'], d['IT_MIN'], d['REDUCED'], d['SHELL_BASED']))


MODEL_PARS = {'einasto': ('rho_s', 'alpha', 'r_s'), 'alpha_beta_gamma': ('rho_s', 'alpha', 'beta', 'gamma', 'r_s'),
              'nfw': ('rho_s', 'r_s'), 'hernquist': ('rho_s', 'r_s')}
OPTIMISERS = ('Nelder-Mead', 'L-BFGS-B', 'TNC', 'SLSQP', 'Powell', 'trust-constr')


def fit_methods():
    keys = ('rho_s', 'alpha', 'beta', 'gamma', 'r_s', 'min_method', 'other')
    for bits in range(2 ** len(keys)):
        d = {k: t.var('p_' + k, 'S' if k == 'min_method' else 'R') for i, k in enumerate(keys) if bits >> i & 1}
        yield DictV(dict(d, profile=t.var('p_profile', 'S')))
    yield DictV({'r_s': t.var('p_r_s', 'R')})
    yield TupleV([t.strc('profile'), t.strc('nfw')], 'list')


@contract(P + 'checkDensFitMethod', 'method:*', level='top', variants=[{'method': m} for m in fit_methods()])
def checkDensFitMethod(c, method):
    ok = t.FALSE
    if isinstance(method, DictV) and 'profile' in method.d:
        m = method.d
        ok = or_(*[eq(m['profile'], t.strc(p)) for p, names in MODEL_PARS.items() if set(m) <= {'profile', 'min_method'} | set(names)])
        if 'min_method' in m:
            ok = and_(ok, or_(*[eq(m['min_method'], t.strc(x)) for x in OPTIMISERS]))
    c.raises_when(not_(ok), 'AssertionError', 'ValueError', 'KeyError', 'TypeError')
    c.returns(None)

"""Contracts of cosmic_profiles/dens_profs/dens_profs_algos.pyx (Python-callable drivers over all objects)."""
from ..terms import *
from .. import terms as t
from fractions import Fraction
from ..contract import contract
from .helpers import total, com_of, wrapped, sph_shell_density, ell_shell_density, ktilde
from . import helpers, routines
from .routines import mode, recentred, pdist

P = 'cosmic_profiles/dens_profs/dens_profs_algos.pyx::'


class Cat:
    """the objects of a catalogue: object p consists of particles idx_cat[off(p)], ..., idx_cat[off(p)+size(p)-1]"""
    def __init__(self, xyz, masses, idx_cat, obj_size, L):
        self.xyz, self.masses, self.idx, self.sizes, self.L = xyz, masses, idx_cat, obj_size, L
        self.nb = obj_size.dims[0]

    def off(self, p):
        return Sum(ZERO_I, t.lift(p, 'I'), lambda k: self.sizes(k))

    def size(self, p):
        return self.sizes(p)

    def pid(self, p, k):
        return self.idx(self.off(p) + k)

    def x(self, p):
        """positions of object p in one piece: images nearest to its first particle"""
        return lambda k, a: wrapped(self.xyz(self.pid(p, k), a), self.xyz(self.pid(p, ZERO_I), a), self.L)

    def m(self, p):
        return lambda k: self.masses(self.pid(p, k))

    def require(self, c, least=1, mass=True):
        q = self.idx.dims[0]
        n = self.xyz.dims[0]
        c.requires(self.L >= 0, 'box size not negative')
        c.requires(c.forall(self.nb, lambda p: t.le(t.lift(least, 'I'), self.sizes(p))), 'every object has particles')
        c.requires(le(self.off(self.nb), q), 'catalogue covers the objects')
        c.requires(c.forall(self.nb, lambda p: and_(le(ZERO_I, self.off(p)), le(self.off(p) + self.sizes(p), q))), 'every object lies inside the catalogue')
        c.requires(c.forall(q, lambda j: and_(le(ZERO_I, self.idx(j)), lt(self.idx(j), n))), 'particle indices in range')
        if mass:
            c.requires(c.forall(self.nb, lambda p: ne(total(self.m(p), self.size(p)), num(0))), 'objects have mass')


def center(cat, p, CENTER, rad=1000):
    X = t.mklam(2, cat.x(p))
    M = t.mklam(1, cat.m(p))
    com = com_of(cat.x(p), cat.m(p), cat.size(p))
    return lambda a: ite(t.eq(CENTER, t.strc('mode')), mode(cat.size(p), X, M, t.lift(rad, 'R'), a), com(a))


CAT = 'idx_cat:I[q] obj_size:I[b]'


@contract(P + 'calcMassesCenters', 'xyz:R[n,3] masses:R[n] %s L_BOX:R CENTER:S' % CAT, level='top')
def calcMassesCenters(c, xyz, masses, idx_cat, obj_size, L, CENTER):
    cat = Cat(xyz, masses, idx_cat, obj_size, L)
    cat.require(c)
    c.returns((c.array('R', [cat.nb, 3], lambda p, a: recentred(center(cat, p, CENTER)(a), L)),
               c.array('R', [cat.nb], lambda p: total(cat.m(p), cat.size(p)))))


def sph_edges(R, nr):
    """shell boundaries in units of R200: 1e-8, the midpoints of neighbouring radii, the last radius"""
    def e(i):
        i = t.lift(i, 'I')
        return ite(eq(i, ZERO_I), num(Fraction(1, 10 ** 8)), ite(lt(i, nr), (R(i - 1) + R(i)) / 2, R(nr - 1)))
    return e


@contract(P + 'calcDensProfsSphDirectBinning', 'xyz:R[n,3] masses:R[n] r200s:R[b] r_over_r200:R[r] %s L_BOX:R CENTER:S' % CAT, level='top')
def calcDensProfsSphDirectBinning(c, xyz, masses, r200s, R, idx_cat, obj_size, L, CENTER):
    cat = Cat(xyz, masses, idx_cat, obj_size, L)
    cat.require(c)
    nr = R.dims[0]
    c.requires(lt(ZERO_I, cat.nb), 'at least one object')
    c.requires(lt(ZERO_I, nr), 'at least one radius')
    e = sph_edges(R, nr)
    c.returns_array('R', [cat.nb, nr], lambda p, r: sph_shell_density(
        cat.x(p), cat.m(p), cat.size(p), center(cat, p, CENTER), e(r) * r200s(p), e(r + 1) * r200s(p)))


def interp(n, X, Y, x):
    """linear interpolation / extrapolation of the points (X(k), Y(k)), k < n, at x (scipy interp1d, fill_value='extrapolate')"""
    return t.opq('#interp_extrapolate', (n, X, Y, x))


def ell_edges(R, nr):
    """shell boundaries of the ellipsoidal profile in units of R200"""
    mid = lambda i: (R(i) + R(i + 1)) / 2

    def e(i):
        i = t.lift(i, 'I')
        return ite(eq(i, ZERO_I), mid(0) * mid(0) / mid(1), ite(lt(i, nr), mid(i - 1), R(nr - 1)))
    return e


SHAPES = 'a:R[b,s] b_:R[b,s] c_:R[b,s] major:R[b,s,3] inter:R[b,s,3] minor:R[b,s,3]'


def interpolated(a, q, edges, nr, R, r200s, p, vec=False):
    n = a.dims[1]
    X = a.row(p)
    if not vec:
        return lambda i: interp(n, X, q.row(p), edges(i) * r200s(p))
    k = t.fresh('k', 'I')
    return lambda i, ax: interp(n, X, t.lam([k], q(p, k, ax)), R(i) * r200s(p))


@contract(P + 'calcDensProfsEllDirectBinning', 'xyz:R[n,3] masses:R[n] r200s:R[b] r_over_r200:R[r] %s %s L_BOX:R CENTER:S' % (SHAPES, CAT), level='top')
def calcDensProfsEllDirectBinning(c, xyz, masses, r200s, R, a, b, c_, major, inter, minor, idx_cat, obj_size, L, CENTER):
    cat = Cat(xyz, masses, idx_cat, obj_size, L)
    cat.require(c)
    nr = R.dims[0]
    c.requires(lt(ZERO_I, cat.nb), 'at least one object')
    c.requires(le(t.lift(3, 'I'), nr), 'at least three radii')
    e = ell_edges(R, nr)

    def f(p, r):
        f1 = [interpolated(a, q, e, nr, R, r200s, p) for q in (a, b, c_)]
        f2 = [interpolated(a, q, e, nr, R, r200s, p, True) for q in (major, inter, minor)]
        cnt, d = ell_shell_density(cat.x(p), cat.m(p), cat.size(p), center(cat, p, CENTER), r, *f1, *f2)
        return ite(eq(cnt, ZERO_I), NAN, d)
    c.returns_array('R', [cat.nb, nr], f)


@contract(P + 'calcDensProfsKernelBased', 'xyz:R[n,3] masses:R[n] r200s:R[b] r_over_r200:R[r] %s L_BOX:R CENTER:S' % CAT, level='top')
def calcDensProfsKernelBased(c, xyz, masses, r200s, R, idx_cat, obj_size, L, CENTER):
    cat = Cat(xyz, masses, idx_cat, obj_size, L)
    cat.require(c)
    nr = R.dims[0]
    c.requires(lt(ZERO_I, cat.nb), 'at least one object')

    def f(p, r):
        ctr = center(cat, p, CENTER)
        d = lambda k: pdist(cat.x(p), k, ctr)
        h = lambda k: num(Fraction(5, 1000)) * r200s(p) * gpow(d(k) / (num(Fraction(1, 10)) * r200s(p)), num(Fraction(1, 2)))
        return Sum(ZERO_I, cat.size(p), lambda k: cat.m(p)(k) * ktilde(R(r) * r200s(p), d(k), h(k)) / h(k) ** 3)
    c.returns_array('R', [cat.nb, nr], f)

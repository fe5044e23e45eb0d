"""Contracts of cosmic_profiles/cython_helpers/helper_class.pyx."""
from ..terms import *
from .. import terms as t
from fractions import Fraction
from ..contract import contract
from ..terms import Sum, Count

P = 'cosmic_profiles/cython_helpers/helper_class.pyx::CythonHelpers.'


def total(m, n, lo=0):
    return Sum(t.lift(lo, 'I'), n, lambda k: m(k))


def com_of(x, m, n):
    """centre of mass of n particles: x(k, a) positions, m(k) masses"""
    M = total(m, n)
    return lambda a: Sum(ZERO_I, n, lambda k: m(k) * x(k, a) / M)


def tensor(x, m, sel, center, nb, reduced, r_ell):
    """mass-weighted second moment tensor of the selected particles about center"""
    M = Sum(ZERO_I, nb, lambda k: m(sel(k)))

    def e(i, j):
        base = lambda k: m(sel(k)) * (x(sel(k), i) - center(i)) * (x(sel(k), j) - center(j)) / M
        plain = Sum(ZERO_I, nb, base)
        if r_ell is None:
            return plain
        red = Sum(ZERO_I, nb, lambda k: base(k) / r_ell(sel(k)) ** 2)
        return ite(reduced, red, plain)
    return e


def no_r(eng, st, env):
    from ..engine import NONE
    return NONE


@contract(P + 'calcShapeTensor', 'nns:R[n,3] select:I[>=nb_pts] shape_tensor:R[3,3] masses:R[n] center:R[3] nb_pts:I reduced:B r_ell:R[>=n]?',
          variants=[{}, {'r_ell': no_r, 'reduced': FALSE}])
def calcShapeTensor(c, nns, select, shape_tensor, masses, center, nb_pts, reduced, r_ell):
    c.requires(le(ZERO_I, nb_pts), 'the number of selected particles is not negative')
    c.requires(c.forall(nb_pts, lambda k: and_(le(ZERO_I, select(k)), lt(select(k), nns.dims[0]))), 'selected indices in range')
    if r_ell is None:
        c.requires(not_(reduced), 'reduced tensor only with radii')
    e = tensor(nns, masses, select, center, nb_pts, reduced, r_ell)
    c.sets(shape_tensor, e)
    c.returns(shape_tensor)


def spread(nns, n):
    """mean distance of the points from their mean"""
    nr = to_real(n)
    mean = lambda a: Sum(ZERO_I, n, lambda k: nns(k, a) / nr)
    return Sum(ZERO_I, n, lambda k: sqrt((nns(k, 0) - mean(0)) ** 2 + (nns(k, 1) - mean(1)) ** 2 + (nns(k, 2) - mean(2)) ** 2) / nr)


@contract(P + 'calcLocalSpread', 'nns:R[n,3]')
def calcLocalSpread(c, nns):
    c.returns(spread(nns, nns.dims[0]))


@contract(P + 'calcCoM', 'nns:R[n,3] masses:R[n] com:R[3]')
def calcCoM(c, nns, masses, com):
    f = com_of(nns, masses, nns.dims[0])
    c.sets(com, lambda a: f(a))
    c.returns(com)


@contract(P + 'cython_abs', 'x:R')
def cython_abs(c, x):
    c.returns(ite(x >= 0, x, -x))


def wrapped(x, ref, L):
    """image of coordinate x nearest to ref in a box of length L (x and ref within one box length of each other)"""
    d = x - ref
    return ite(eq(L, num(0)), x, ite(d > L / 2, x - L, ite(d < -L / 2, x + L, x)))


@contract(P + 'respectPBCNoRef', 'xyz:R[n,3] L_BOX:R')
def respectPBCNoRef(c, xyz, L):
    c.requires(L >= 0, 'box size not negative')
    c.sets(xyz, lambda k, a: wrapped(xyz(k, a), xyz(0, a), L))
    c.returns(xyz)


def dist2(x, k, center):
    return (center(0) - x(k, 0)) ** 2 + (center(1) - x(k, 1)) ** 2 + (center(2) - x(k, 2)) ** 2


def sph_shell_density(x, m, n, center, lo, hi):
    """mass of the particles with lo <= distance < hi over the volume of the shell"""
    vol = num(Fraction(4, 3)) * PI * (hi ** 3 - lo ** 3)
    return Sum(ZERO_I, n, lambda k: ite(and_(dist2(x, k, center) < hi ** 2, dist2(x, k, center) >= lo ** 2), m(k) / vol, num(0)))


@contract(P + 'calcDensProfBruteForceSph', 'xyz:R[n,3] masses:R[n] center:R[3] r_200:R bin_edges:R[b+1] dens_prof:R[b] shell:I[>=n]')
def calcDensProfBruteForceSph(c, xyz, masses, center, r_200, bin_edges, dens_prof, shell):
    n = xyz.dims[0]
    c.havoc(shell)
    c.sets(dens_prof, lambda r: dens_prof(r) + sph_shell_density(xyz, masses, n, center, bin_edges(r) * r_200, bin_edges(r + 1) * r_200))
    c.returns(dens_prof)


def princ(x, k, center, axis):
    """coordinate of particle k along the (normalised) axis"""
    nrm = sqrt(axis(0) ** 2 + axis(1) ** 2 + axis(2) ** 2)
    return axis(0) / nrm * (x(k, 0) - center(0)) + axis(1) / nrm * (x(k, 1) - center(1)) + axis(2) / nrm * (x(k, 2) - center(2))


def ell2(x, k, center, ax3, abc):
    return (princ(x, k, center, ax3[0]) / abc[0]) ** 2 + (princ(x, k, center, ax3[1]) / abc[1]) ** 2 + (princ(x, k, center, ax3[2]) / abc[2]) ** 2


def ell_shell_density(x, m, n, center, r, a, b, c_, major, inter, minor):
    ax3 = [lambda q: major(r, q), lambda q: inter(r, q), lambda q: minor(r, q)]
    r1 = r + 1
    vol = num(Fraction(4, 3)) * PI * (a(r1) * b(r1) * c_(r1) - a(r) * b(r) * c_(r))
    inside = lambda k: and_(ell2(x, k, center, ax3, (a(r1), b(r1), c_(r1))) < 1, ell2(x, k, center, ax3, (a(r), b(r), c_(r))) >= 1)
    cnt = Count(ZERO_I, n, inside)
    return cnt, Sum(ZERO_I, n, lambda k: ite(inside(k), m(k) / vol, num(0)))


@contract(P + 'calcDensProfBruteForceEll', 'xyz:R[n,3] xyz_princ:R[n,3] masses:R[n] center:R[3] r_200:R a:R[b+1] b_:R[b+1] c_:R[b+1] major:R[b,3] inter:R[b,3] minor:R[b,3] dens_prof:R[b] shell:I[>=n]')
def calcDensProfBruteForceEll(c, xyz, xyz_princ, masses, center, r_200, a, b, c_, major, inter, minor, dens_prof, shell):
    n = xyz.dims[0]
    c.havoc(shell)
    c.havoc(xyz_princ)

    def f(r):
        cnt, d = ell_shell_density(xyz, masses, n, center, r, a, b, c_, major, inter, minor)
        return ite(eq(cnt, ZERO_I), NAN, dens_prof(r) + d)
    c.sets(dens_prof, f)
    c.returns(dens_prof)


@contract(P + 'calcMenclsBruteForceSph', 'xyz:R[n,3] masses:R[n] center:R[3] r_200:R ROverR200:R[b] Mencl:R[b] ellipsoid:I[>=n]')
def calcMenclsBruteForceSph(c, xyz, masses, center, r_200, rs, Mencl, ell):
    n = xyz.dims[0]
    c.havoc(ell)
    c.sets(Mencl, lambda r: Mencl(r) + Sum(ZERO_I, n, lambda k: ite(dist2(xyz, k, center) < (rs(r) * r_200) ** 2, masses(k), num(0))))
    c.returns(Mencl)


@contract(P + 'calcMenclsBruteForceEll', 'xyz:R[n,3] xyz_princ:R[n,3] masses:R[n] center:R[3] a:R[b+1] b_:R[b+1] c_:R[b+1] major:R[b,3] inter:R[b,3] minor:R[b,3] Mencl:R[b] ellipsoid:I[>=n]')
def calcMenclsBruteForceEll(c, xyz, xyz_princ, masses, center, a, b, c_, major, inter, minor, Mencl, ell):
    n = xyz.dims[0]
    c.havoc(ell)
    c.havoc(xyz_princ)

    def f(r):
        ax3 = [lambda q: major(r, q), lambda q: inter(r, q), lambda q: minor(r, q)]
        ins = lambda k: ell2(xyz, k, center, ax3, (a(r + 1), b(r + 1), c_(r + 1))) < 1
        return ite(eq(Count(ZERO_I, n, ins), ZERO_I), NAN, Mencl(r) + Sum(ZERO_I, n, lambda k: ite(ins(k), masses(k), num(0))))
    c.sets(Mencl, f)
    c.returns(Mencl)


def ktilde(r, ri, h):
    """angle-averaged Gaussian kernel of Reed et al. (2005), eq. 4 (without the 1/h^3)"""
    return 1 / (2 * gpow(2 * PI, num(Fraction(3, 2)))) * (r * ri / h ** 2) ** -1 * (uf('exp', (-((ri - r) ** 2) / (2 * h ** 2),)) - uf('exp', (-((ri + r) ** 2) / (2 * h ** 2),)))


@contract(P + 'calcKTilde', 'r:R r_i:R h_i:R')
def calcKTilde(c, r, r_i, h_i):
    c.returns(ktilde(r, r_i, h_i))


def eigval(k, H):
    """k-th smallest eigenvalue of the symmetric 3x3 matrix with lower triangle H"""
    return opq('#eigval', (t.lift(k, 'I'),) + tuple(H))


def eigvec(i, k, H):
    """i-th component of the eigenvector that belongs to it"""
    return opq('#eigvec', (t.lift(i, 'I'), t.lift(k, 'I')) + tuple(H))


def lower(H):
    return [H(i, j) for i in range(3) for j in range(i + 1)]


@contract(P + 'ZHEEVR', 'H:R[3,3] eigvals:P[3] Z:R[3,3] nrows:I')
def ZHEEVR(c, H, eigvals, Z, nrows):
    c.requires(eq(nrows, t.lift(3, 'I')), 'three rows')
    A = lower(H)
    c.havoc(H)
    c.sets(eigvals, lambda k: eigval(k, A))
    c.sets(Z, lambda i, k: eigvec(i, k, A))

"""Contracts of the mock halo generator: shells of a mock halo and its particle numbers and masses."""
from ..terms import *
from .. import terms as t
from ..contract import contract
from ..engine import DictV
from .dens_tools import PARS, density
from fractions import Fraction

R = 'cosmic_profiles/common/python_routines.py::'
M = 'cosmic_profiles/mock_tools/mock_halo_gen.py::'


def radius2(x, axes, k):
    """the squared ellipsoidal radius of a point in units of the k-th ellipsoid"""
    return add(*[t.ipow(t.div(v, ax(k)), 2) for v, ax in zip(x, axes)])


def growing(c, axes, n):
    k = t.fresh('k', 'I')
    for ax in axes:
        c.requires(t.forall([k], or_(lt(k, ZERO_I), le(n, k), lt(t.ZERO, ax(k)))), 'semi-axes are positive')
        c.requires(t.forall([k], or_(lt(k, ZERO_I), le(n, add(k, ONE_I)), lt(ax(k), ax(add(k, ONE_I))))), 'semi-axes grow')


@contract(R + 'drawUniformFromShell', 'dims:* a:R[n] b:R[n] c:R[n] Nptc:I[n] shell_nb:I', level='top', variants=[{'dims': num(3, 'I')}])
def drawUniformFromShell(c, dims, a, b, c_, N, shell):
    n = a.dims[0]
    axes = (a, b, c_)
    c.requires(and_(le(ZERO_I, shell), lt(shell, n)), 'an existing shell')
    c.requires(le(ZERO_I, N(shell)), 'a number of particles')
    growing(c, axes, n)
    p = t.fresh('p', 'I')

    def such(y):
        x = [y(p, num(d, 'I')) for d in range(3)]
        rng = [lt(p, ZERO_I), le(N(shell), p)]
        return [('every particle lies within the outer ellipsoid of its shell', t.forall([p], or_(*rng, le(radius2(x, axes, shell), num(1))))),
                ('no particle lies within the inner ellipsoid of its shell',
                 t.forall([p], or_(*rng, le(shell, ZERO_I), le(num(1), radius2(x, axes, sub(shell, ONE_I))))))]
    c.returns(c.some_array('R', [N(shell), num(3, 'I')], such))


def mock_pars(profile):
    return DictV({k: t.var('par_' + k, 'R') for k in PARS[profile] if k != 'rho_s'})


@contract(M + 'genHalo', 'tot_mass:R res:I model_pars:* profile:S a:R[n] b:R[n] c:R[n]', level='top',
          variants=[{'model_pars': lambda eng, st, env, p=p: mock_pars(p), 'profile': t.strc(p)} for p in PARS])
def genHalo(c, tot_mass, res, model_pars, profile, a, b, c_):
    n = a.dims[0]
    p = dict(model_pars.d, rho_s=num(1, 'R'))
    for v in model_pars.d.values():
        c.requires(lt(t.ZERO, v), 'positive parameters')
    c.requires(lt(t.ZERO, tot_mass), 'a positive mass')
    c.requires(lt(ZERO_I, res), 'a positive resolution')
    c.requires(le(num(2, 'I'), n), 'at least two shells')
    growing(c, (a, b, c_), n)
    r = t.fresh('r', 'R')
    tiny = num(Fraction(1, 10**8), 'R')
    c.requires(le(a(ONE_I), a(sub(n, ONE_I))), 'semi-axes grow')
    c.requires(lt(tiny, a(ZERO_I)), 'semi-axes that are not tiny')
    shape = lambda lo, hi: t.integral(r, mul(num(4), t.PI, t.ipow(r, 2), density(profile.data, r, p)), lo, hi)
    rho_s = t.div(tot_mass, shape(tiny, a(sub(n, ONE_I))))
    mass = lambda k: shape(a(sub(k, ONE_I)), a(k))
    first = t.uf('round', (t.div(mul(t.to_real(res), rho_s, mass(ONE_I)), tot_mass),), 'I')
    c.requires(not_(eq(first, ZERO_I)), 'a resolution that puts particles into the first proper shell')
    share = lambda m: t.uf('round', (t.div(mul(t.to_real(first), m), mass(ONE_I)),), 'I')
    number = lambda k: t.ite(eq(k, ZERO_I), share(shape(tiny, a(ZERO_I))), share(mass(k)))
    N = t.mklam(1, number)
    total = t.sum_(ZERO_I, n, N)
    i = t.fresh('i', 'I')

    def such(x, y, z, *_):
        k = t.seg(ZERO_I, i, N)                      # the particles come shell after shell
        out = or_(lt(i, ZERO_I), le(total, i))
        q = [x(i), y(i), z(i)]
        return [('every particle lies within the outer ellipsoid of its shell', t.forall([i], or_(out, le(radius2(q, (a, b, c_), k), num(1))))),
                ('no particle lies within the inner ellipsoid of its shell',
                 t.forall([i], or_(out, le(k, ZERO_I), le(num(1), radius2(q, (a, b, c_), sub(k, ONE_I))))))]
    c.returns(c.jointly([c.some_array('R', [total]) for _ in range(3)] + [t.div(tot_mass, t.to_real(total)), rho_s], such))

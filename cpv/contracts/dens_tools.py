"""Contracts of cosmic_profiles/dens_profs/dens_profs_tools.py (density models and their fits)."""
from fractions import Fraction
from ..terms import *
from .. import terms as t
from ..contract import contract
from ..engine import DictV, TupleV

P = 'cosmic_profiles/dens_profs/dens_profs_tools.py::'

PARS = {'einasto': ('rho_s', 'alpha', 'r_s'),
        'alpha_beta_gamma': ('rho_s', 'alpha', 'beta', 'gamma', 'r_s'),
        'nfw': ('rho_s', 'r_s'),
        'hernquist': ('rho_s', 'r_s')}


def power(x, y):
    return t.gpow(x, y)


def density(profile, r, p):
    """the published formulas; p: parameter name -> value"""
    x = r / p['r_s']
    if profile == 'einasto':
        return p['rho_s'] * t.uf('exp', (-num(2) / p['alpha'] * (power(x, p['alpha']) - 1),))
    if profile == 'alpha_beta_gamma':
        return p['rho_s'] / (power(x, p['gamma']) * power(1 + power(x, p['alpha']), (p['beta'] - p['gamma']) / p['alpha']))
    return p['rho_s'] / (x * (1 + x) ** (2 if profile == 'nfw' else 3))


def pars(profile):
    return DictV({k: t.var('par_' + k, 'R') for k in PARS[profile]})


SPECIAL = {(1, 3, 1): 'nfw', (1, 4, 1): 'hernquist'}      # (alpha, beta, gamma) -> the model it reduces to


def special(abc):
    return DictV(dict(zip(('alpha', 'beta', 'gamma'), [num(k) for k in abc]), rho_s=t.var('par_rho_s', 'R'), r_s=t.var('par_r_s', 'R')))


def model(name, profile):
    choices = [pars(profile)] + ([special(k) for k in SPECIAL] if profile == 'alpha_beta_gamma' else [])

    @contract(P + name, 'r:* model_pars:*', level='top',
              variants=[{'r': x, 'model_pars': p} for p in choices
                        for x in (t.var('r', 'R'), lambda eng, st, env: symbolic_array(eng, st, env, 'r'))])
    def spec(c, r, model_pars):
        p = model_pars.d
        known = [v for k, v in SPECIAL.items() if profile == 'alpha_beta_gamma' and all(p[nm] is num(x) or p[nm] == num(x) for nm, x in zip(('alpha', 'beta', 'gamma'), k))]
        f = lambda x: density(known[0] if known else profile, x, p)
        if isinstance(r, T):
            c.returns(f(t.to_real(r)))
        else:
            c.returns_array('R', r.dims, lambda *k: f(r(*k)))


def symbolic_array(eng, st, env, name):
    n = t.var('n_' + name, 'I')
    st.assume(le(ZERO_I, n))
    return eng.new_store(st, name, [n], 'R', t.mklam(1, lambda k: t.uf('p_' + name, (k,), 'R')))


model('getEinastoProf', 'einasto')
model('getAlphaBetaGammaProf', 'alpha_beta_gamma')
model('getNFWProf', 'nfw')
model('getHernquistProf', 'hernquist')


def by_profile(make):
    return [dict(make(p), profile=t.strc(p)) for p in PARS]


@contract(P + 'getModelParsDict', 'model_pars_arr:R[_] profile:S', level='internal',
          variants=by_profile(lambda p: {'model_pars_arr': lambda eng, st, env: vector(eng, st, len(PARS[p]))}))
def getModelParsDict(c, v, profile):
    c.returns({k: v(i) for i, k in enumerate(PARS[profile.data])})


def vector(eng, st, n, name='pars'):
    return eng.new_store(st, name, [num(n, 'I')], 'R', t.mklam(1, lambda k: t.uf('p_' + name, (k,), 'R')))


@contract(P + 'toMinimize', 'model_pars_arr:R[_] median:R[n] rbin_centers:R[n] profile:S', level='top',
          variants=by_profile(lambda p: {'model_pars_arr': lambda eng, st, env: vector(eng, st, len(PARS[p]))}))
def toMinimize(c, v, median, r, profile):
    n = r.dims[0]
    p = {k: v(i) for i, k in enumerate(PARS[profile.data])}
    ln = lambda x: t.uf('log', (x,))
    c.returns(Sum(ZERO_I, n, lambda i: (ln(median(i)) - ln(density(profile.data, r(i), p))) ** 2) / to_real(n))


# ---- fits ----------------------------------------------------------------------------------------------------
GUESS = {'einasto': ('0.1', '0.18'), 'alpha_beta_gamma': ('0.1', '1', '1', '1'), 'nfw': ('0.1',), 'hernquist': ('0.1',)}
SMALLEST = {'einasto': {'rho_s': '1e-7', 'alpha': '1e-10', 'r_s': '1e-5'},
            'alpha_beta_gamma': {'rho_s': '1e-7', 'alpha': '1e-5', 'beta': '1e-5', 'gamma': '1e-5', 'r_s': '1e-5'},
            'nfw': {'rho_s': '1e-7', 'r_s': '1e-5'}, 'hernquist': {'rho_s': '1e-7', 'r_s': '1e-5'}}


def best_fit(R, method, median, r200):
    """the fitted parameter vector of one profile (R, median: views or functions of the bin), as a function of the component"""
    m = method.d
    profile = m['profile'].data
    n = R.dims[0]
    k = t.fresh('k', 'I')
    P = lam([k], not_(t.isnan(median(k))))
    cnt = t.count_of(ZERO_I, n, P)
    kept = lambda j: t.filt(ZERO_I, j, P)
    mean = Sum(ZERO_I, cnt, lambda j: median(kept(j))) / to_real(cnt)
    data = (t.mklam(1, lambda j: median(kept(j)) / mean), t.mklam(1, lambda j: R(kept(j)) * r200), t.strc(profile))
    guess = [num(x) for x in map(Fraction, GUESS[profile])] + [r200 / 5]
    bounds = []
    for p in PARS[profile]:
        if p in m:
            fixed = to_real(m[p]) / mean if p == 'rho_s' else to_real(m[p])
            bounds += [fixed, fixed]
        else:
            bounds += [num(Fraction(SMALLEST[profile][p])), t.INF]
    sig = (cnt, t.strc(P_MIN), m.get('min_method', t.strc('Powell'))) + data + tuple(guess) + tuple(bounds)
    rejected = t.opq('#minimize_rejects', sig, 'B')
    x = lambda j: t.opq('#minimize', sig + (t.lift(j, 'I'),), 'R')
    return lambda j: ite(rejected, t.NAN, ite(eq(j, ZERO_I), x(j) * mean, x(j)))


P_MIN = P + 'toMinimize'


def methods():
    out = []
    for p in PARS:
        for bits in range(2 ** len(PARS[p])):
            d = {'profile': t.strc(p)}
            d.update({k: t.var('fixed_' + k, 'R') for i, k in enumerate(PARS[p]) if bits >> i & 1})
            out.append(DictV(d))
            if bits in (0, 2 ** len(PARS[p]) - 1):
                out.append(DictV(dict(d, min_method=t.var('p_min_method', 'S'))))
    return out


def one_object(eng, st, env):
    a = eng.new_store(st, 'median', [env['n']], 'R', t.mklam(1, lambda k: t.uf('p_median', (k,), 'R')))
    return TupleV([a, t.var('p_r200', 'R'), t.var('p_obj_nb', 'I')])


@contract(P + 'fitDensProf', 'ROverR200:R[n] method:* median_r200_obj_nb:*', level='top',
          variants=[{'method': m, 'median_r200_obj_nb': one_object} for m in methods()])
def fitDensProf(c, R, method, mrn):
    median, r200, obj_nb = [c.view(x) for x in mrn.items]
    c.requires(eq(median.dims[0], R.dims[0]), 'one radius per value')
    f = best_fit(R, method, median, t.to_real(r200))
    c.returns((c.array('R', [len(PARS[method.d['profile'].data])], f), obj_nb))


@contract(P + 'fitDensProfHelper', 'dens_profs:R[n_obj,n] ROverR200:R[n] r200s:R[n_obj] method:*', level='top',
          variants=[{'method': m} for m in methods()])
def fitDensProfHelper(c, dens_profs, R, r200s, method):
    c.returns_array('R', [dens_profs.dims[0], len(PARS[method.d['profile'].data])],
                    lambda i, j: best_fit(R, method, Row(dens_profs, i), r200s(i))(j))


class Row:
    def __init__(self, view, i):
        self.view, self.i, self.dims = view, i, view.dims[1:]

    def __call__(self, *k):
        return self.view(self.i, *k)

from common import *
from cosmic_profiles.dens_profs import dens_profs_tools as T

PARS = {'einasto': ['rho_s', 'alpha', 'r_s'], 'alpha_beta_gamma': ['rho_s', 'alpha', 'beta', 'gamma', 'r_s'], 'nfw': ['rho_s', 'r_s'], 'hernquist': ['rho_s', 'r_s']}
FN = {'einasto': T.getEinastoProf, 'alpha_beta_gamma': T.getAlphaBetaGammaProf, 'nfw': T.getNFWProf, 'hernquist': T.getHernquistProf}
LOW = {'einasto': [1e-7, 1e-10, 1e-5], 'alpha_beta_gamma': [1e-7, 1e-5, 1e-5, 1e-5, 1e-5], 'nfw': [1e-7, 1e-5], 'hernquist': [1e-7, 1e-5]}


def want(prof, r, p):
    x = r / p['r_s']
    if prof == 'einasto':
        return p['rho_s'] * np.exp(-2 / p['alpha'] * (x ** p['alpha'] - 1))
    if prof == 'alpha_beta_gamma':
        return p['rho_s'] / (x ** p['gamma'] * (1 + x ** p['alpha']) ** ((p['beta'] - p['gamma']) / p['alpha']))
    return p['rho_s'] / (x * (1 + x) ** (2 if prof == 'nfw' else 3))


def draw(prof):
    p = dict(rho_s=10 ** rng.uniform(-2, 6), alpha=rng.uniform(0.1, 1.2), beta=rng.uniform(0.5, 4.5), gamma=rng.uniform(0, 2.5), r_s=10 ** rng.uniform(-2, 1))
    return {k: p[k] for k in PARS[prof]}


def models():
    for prof in PARS:
        p = draw(prof)
        r = p['r_s'] * 10 ** rng.uniform(-2, 1.5, int(rng.integers(1, 9)))
        if rng.random() < 0.2:
            r[0] = p['r_s']
        inp = dict(profile=prof, r=r, model_pars=p)
        before = dict(p), r.copy()
        got = guarded(FN[prof], 'model', r, p, **inp)
        if not same(got, want(prof, r, p), 1e-8, 0):
            found('density model %s' % prof, got=got, want=want(prof, r, p), **inp)
        one = guarded(FN[prof], 'model', float(r[0]), p, **inp)
        if not same(one, want(prof, r[0], p), 1e-8, 0):
            found('density model %s at one radius' % prof, got=one, **inp)
        if before[0] != p or not np.array_equal(before[1], r):
            found('density model %s changed its arguments' % prof, **inp)
        v = np.array([p[k] for k in PARS[prof]])
        d = guarded(T.getModelParsDict, 'getModelParsDict', v, prof, **inp)
        if {k: float(x) for k, x in d.items()} != p:
            found('getModelParsDict', got=d, **inp)
        data = want(prof, r, draw(prof)) * 10 ** rng.normal(0, 0.3, len(r))
        got = guarded(T.toMinimize, 'toMinimize', v, data, r, prof, data=data, **inp)
        w = np.mean((np.log(data) - np.log(want(prof, r, p))) ** 2)
        if not same(got, w, 1e-7, 1e-12):
            found('fit objective', got=got, want=w, data=data, **inp)
    for x, prof in ((3, 'nfw'), (4, 'hernquist')):
        p = draw('nfw')
        r = p['r_s'] * 10 ** rng.uniform(-2, 1.5, 5)
        got = guarded(T.getAlphaBetaGammaProf, 'getAlphaBetaGammaProf', r, dict(p, alpha=1, beta=x, gamma=1), r=r, p=p)
        if not same(got, want(prof, r, p), 1e-8, 0):
            found('alpha_beta_gamma does not reduce to %s' % prof, got=got, r=r, p=p)


def objective(prof, v, data, r):
    with np.errstate(all='ignore'):
        return np.mean((np.log(data) - np.log(want(prof, r, dict(zip(PARS[prof], v))))) ** 2)


def reference(prof, method, data, r, r200):
    from scipy import optimize
    guess = {'einasto': [0.1, 0.18, r200 / 5], 'alpha_beta_gamma': [0.1, 1.0, 1.0, 1.0, r200 / 5]}.get(prof, [0.1, r200 / 5])
    m = data.mean()
    b = []
    for k, lo in zip(PARS[prof], LOW[prof]):
        if k in method:
            x = method[k] / m if k == 'rho_s' else method[k]
            b.append((x, x))
        else:
            b.append((lo, np.inf))
    res = optimize.minimize(lambda v: objective(prof, v, data / m, r), guess, method='Powell', bounds=b)
    return np.array([res.x[0] * m] + list(res.x[1:]))


def fits():
    for prof in ('nfw', 'hernquist', 'einasto', 'alpha_beta_gamma'):
        n = int(rng.integers(2, 4))
        R = np.logspace(-1.5, 0, int(rng.integers(6, 12)))
        r200 = rng.uniform(0.3, 4.0, n)
        true = [dict(draw(prof), r_s=float(r200[i] * rng.uniform(0.1, 0.5))) for i in range(n)]
        dens = np.array([want(prof, R * r200[i], true[i]) for i in range(n)]) * 10 ** rng.normal(0, 0.02, (n, len(R)))
        holes = rng.random(dens.shape) < (0.2 if rng.random() < 0.5 else 0)
        holes[:, :2] = holes[:, -2:] = False
        dens[holes] = np.nan
        method = {'profile': prof}
        for k in PARS[prof]:
            if rng.random() < 0.25:
                method[k] = float(true[0][k]) * (8.0 if rng.random() < 0.3 and k == 'r_s' else 1.0)
        if rng.random() < 0.3:
            method['min_method'] = str(rng.choice(['Powell', 'Nelder-Mead', 'L-BFGS-B']))
        inp = dict(dens_profs=dens, ROverR200=R, r200s=r200, method=method)
        before = dens.copy(), R.copy(), r200.copy(), dict(method)

        def call(i, d=None, m=None, RR=None):
            return guarded(T.fitDensProf, 'fitDensProf', R if RR is None else RR, method if m is None else m, (dens[i] if d is None else d, r200[i], i), **inp)
        rows = guarded(T.fitDensProfHelper, 'fitDensProfHelper', dens, R, r200, method, **inp)
        if not (np.array_equal(before[0], dens, equal_nan=True) and np.array_equal(before[1], R) and np.array_equal(before[2], r200) and before[3] == method):
            found('a fit changed its arguments', **inp)
        if np.shape(rows) != (n, len(PARS[prof])):
            found('shape of the fits', got=rows, **inp)
        for i in range(n):
            one, nb = call(i)
            if nb != i:
                found('object number of a fit', got=nb, want=i, **inp)
            if not same(rows[i], one, 1e-6, 1e-12):
                found('row of a fit', row=i, got=rows, want=one, **inp)
            if np.isnan(one).any():
                found('fit rejected although the optimiser accepts it', row=i, got=one, **inp)
            for j, k in enumerate(PARS[prof]):
                if k in method and abs(one[j] / method[k] - 1) > 1e-6:
                    found('fixed parameter %s' % k, row=i, got=one, **inp)
                if k not in method and one[j] < (LOW[prof][j] * (1 - 1e-9) if k != 'rho_s' else 0):
                    found('bound of parameter %s' % k, row=i, got=one, **inp)
            ok = ~np.isnan(dens[i])
            if not ok.all():
                less, _ = call(i, dens[i][ok], None, R[ok])
                if not same(less, one, 1e-6, 1e-12):
                    found('undefined bins are not ignored', row=i, got=one, want=less, **inp)
            f = 2.0 ** int(rng.integers(-30, 30))
            m = dict(method)
            if 'rho_s' in m:
                m['rho_s'] *= f
            big, _ = call(i, dens[i] * f, m)
            if not same(big / np.array([f] + [1] * (len(one) - 1)), one, 1e-6, 1e-12):
                found('fit does not scale with the profile', row=i, factor=f, got=big, want=one, **inp)
            if 'min_method' not in method:
                ref = reference(prof, method, dens[i][ok], R[ok] * r200[i], r200[i])
                a, b = [objective(prof, v, dens[i][ok], R[ok] * r200[i]) for v in (one, ref)]
                if np.isfinite(b) and not a <= 2 * b + 0.02:
                    found('fit is far from the minimum of the objective', row=i, got=one, want=ref, objective=a, reference=b, **inp)
        bad, _ = guarded(T.fitDensProf, 'fitDensProf with an unknown optimiser', R, dict(method, min_method='unknown'), (dens[0], r200[0], 0), **inp)
        if not np.isnan(bad).all():
            found('fit rejected by the optimiser', got=bad, **inp)


k = 0
while more() and k < 3000:
    k += 1
    if PROP in ('C10',):
        models()
    else:
        fits()
print('no difference in %d cases' % k)

"""Mock halos: particles against the shells they belong to, their numbers and masses against the integrated profile."""
from common import *
import contextlib
import io
from scipy.integrate import quad
from cosmic_profiles.common.python_routines import drawUniformFromShell
from cosmic_profiles.mock_tools import mock_halo_gen as M


class Serial:
    """the interface of a process pool without processes"""
    def __init__(self, *a, **k):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def map(self, f, *xs, **k):
        return [f(*x) for x in zip(*xs)]

    imap = map

    def close(self):
        pass
    join = terminate = clear = restart = close


REAL = getattr(M, 'Pool', None)
TOL = 1e-9


def axes(n):
    a = np.cumsum(rng.uniform(0.05, 1.0, n)) * 10**rng.uniform(-2, 1)
    if rng.random() < 0.3:
        a = np.logspace(-2, rng.uniform(-0.5, 0.5), n)
    q, s = rng.uniform(0.3, 1.0, 2)
    return a, a * q, a * q * s


def radius2(x, ax, k):
    return sum((x[:, d] / ax[d][k])**2 for d in range(3))


def shell():
    n = int(rng.integers(1, 6))
    ax = axes(n)
    N = rng.integers(0, 200, n).astype(np.int32)
    k = int(rng.integers(0, n))
    inp = dict(a=ax[0], b=ax[1], c=ax[2], Nptc=N, shell_nb=k)
    before = [x.copy() for x in ax] + [N.copy()]
    x = np.asarray(guarded(drawUniformFromShell, 'drawUniformFromShell', 3, *ax, N, k, **inp))
    if x.shape != (N[k], 3) or not np.isfinite(x).all():
        found('drawUniformFromShell: not one position per particle', shape=list(x.shape), **inp)
    if np.any(radius2(x, ax, k) > 1 + TOL) or (k and np.any(radius2(x, ax, k - 1) < 1 - TOL)):
        found('drawUniformFromShell: a particle outside its shell', result=x, **inp)
    y = np.asarray(drawUniformFromShell(3, *ax, N, k))
    if not np.array_equal(x, y):
        found('drawUniformFromShell: the same call yields other particles', **inp)
    if any(not np.array_equal(p, q) for p, q in zip(before, list(ax) + [N])):
        found('drawUniformFromShell changed its arguments', **inp)


def density(profile, p, r):
    x = r / p['r_s']
    if profile == 'einasto':
        return np.exp(-2 / p['alpha'] * (x**p['alpha'] - 1))
    if profile == 'alpha_beta_gamma':
        return 1 / (x**p['gamma'] * (1 + x**p['alpha'])**((p['beta'] - p['gamma']) / p['alpha']))
    return 1 / (x * (1 + x)**(3 if profile == 'hernquist' else 2))


def halo(real):
    n = int(rng.integers(2, 30))
    ax = axes(n)
    profile = str(rng.choice(['einasto', 'alpha_beta_gamma', 'nfw', 'hernquist']))
    p = {'r_s': float(ax[0][-1] / rng.uniform(1, 8))}
    if profile == 'einasto':
        p['alpha'] = float(rng.uniform(0.15, 0.3))
    if profile == 'alpha_beta_gamma':
        p.update(alpha=float(rng.uniform(0.7, 1.5)), beta=float(rng.uniform(2.5, 3.5)), gamma=float(rng.uniform(0.3, 1.2)))
    tot, res = float(10**rng.uniform(0, 14)), int(rng.integers(50, 4000))
    inp = dict(tot_mass=tot, res=res, model_pars=dict(p), profile=profile, a=ax[0], b=ax[1], c=ax[2])
    before, pb = [x.copy() for x in ax], dict(p)
    I = lambda lo, hi: quad(lambda r: 4 * np.pi * r**2 * density(profile, p, r), lo, hi)[0]
    whole = I(0, ax[0][-1])
    m = [I(0, ax[0][0])] + [I(ax[0][k - 1], ax[0][k]) for k in range(1, n)]
    share = res * m[1] / whole
    if REAL is not None:
        M.Pool = REAL if real else Serial
    with contextlib.redirect_stdout(io.StringIO()):
        r = guarded(M.genHalo, 'genHalo', tot, res, p, profile, *ax, ok=(ValueError,) if share < 0.51 else (), **inp)
    if r is None:
        return
    x = np.column_stack([np.asarray(v) for v in r[:3]])
    mass, rho = float(r[3]), float(r[4])
    bad = lambda what, **kw: found('genHalo: ' + what, **kw, **inp)
    if not np.isfinite(x).all() or np.any(radius2(x, ax, n - 1) > 1 + TOL):
        bad('a particle outside the outermost ellipsoid')
    if abs(mass * len(x) / tot - 1) > 1e-4:
        bad('particle mass times particle number is not the requested mass', mass=mass, number=len(x))
    if abs(rho * whole / tot - 1) > 1e-4:
        bad('the model mass is not the requested mass', rho_s=rho)
    if share > 0.51:
        first = [k for k in (np.floor(share), np.ceil(share)) if abs(k - share) < 0.51]
        inner = lambda k: int(np.sum(radius2(x, ax, k) <= 1))
        at = [inner(k) for k in range(n)]
        num = np.diff([0] + at)
        if not any(all(abs(num[k] - f * m[k] / m[1]) < 0.52 + 1e-3 * num[k] for k in range(n)) for f in first):
            bad('particle numbers are not proportional to the mass of the shells', numbers=num, masses=m)
    if any(not np.array_equal(u, v) for u, v in zip(before, ax)) or p != pb:
        bad('arguments changed', now=dict(p))
    if rng.random() < 0.3:
        with contextlib.redirect_stdout(io.StringIO()):
            s = M.genHalo(tot, res, dict(pb), profile, *ax)
        if any(not np.array_equal(u, v) for u, v in zip(r, s)):
            bad('the same call yields another halo')


k = 0
while more() and k < 4000:
    k += 1
    shell() if k % 2 else halo(k % 200 == 2)
print('no difference in %d cases' % k)

"""Searches for an input on which the public methods of the profile classes differ from the properties."""
import tempfile
import glob
from common import *
import gen
import oracle as O
from cosmic_profiles import DensShapeProfs, updateInUnitSystem, updateOutUnitSystem
from cosmic_profiles.common import config
from cosmic_profiles.common.python_routines import isValidSelection, checkKatzConfig, checkDensFitMethod, getSubSetIdxCat
from cosmic_profiles.dens_profs import dens_profs_tools as T

CM = {'kpc': 3.085678e21, 'Mpc': 3.085678e24, 'Gpc': 3.085678e27, 'pc': 3.085678e18}
G = {'Msun': 1.989e33, 'E+10Msun': 1.989e43}
H = 0.6774


def cm(u):
    return u if not isinstance(u, str) else CM[u.split('/')[0]] / (H if '/h' in u else 1)


def gr(u):
    return u if not isinstance(u, str) else G[u.split('/')[0]] / (H if '/h' in u else 1)


def units():
    def l():
        return rng.choice(['kpc', 'Mpc', 'kpc/h', 'Mpc/h', 'pc/h']).item() if rng.random() < 0.7 else 3.085678e24 * float(rng.uniform(0.3, 3))

    def m():
        return rng.choice(['Msun', 'E+10Msun', 'Msun/h', 'E+10Msun/h']).item() if rng.random() < 0.7 else 1.989e43 * float(rng.uniform(0.3, 3))
    return l(), m()


def settings():
    n = int(rng.integers(3, 7))
    return {'ROverR200': np.sort(rng.uniform(0.3, 1.5, n)), 'IT_TOL': 1e-2, 'IT_WALL': 100, 'IT_MIN': 5, 'REDUCED': bool(rng.integers(0, 2)), 'SHELL_BASED': False}


def setup(In=('Mpc/h', 'E+10Msun/h'), Out=('Mpc/h', 'E+10Msun/h')):
    updateInUnitSystem(In[0], In[1], 1e5, H)
    updateOutUnitSystem(Out[0], Out[1], 1e5, H)


def new(world, least=5, In=('Mpc/h', 'E+10Msun/h')):
    """the same world (in internal units), handed over in the units In"""
    l, m = cm('Mpc/h') / cm(In[0]), gr('E+10Msun/h') / gr(In[1])
    xyz, masses, cat, r200, L, CENTER = world
    d = tempfile.mkdtemp(dir=WORK)
    args = [xyz * l, masses * m, [list(x) for x in cat], r200 * l]
    p = DensShapeProfs(args[0], args[1], args[2], args[3], L * l, '025', d, d, MIN_NUMBER_PTCS=least, CENTER=CENTER)
    return p, d, args


def world():
    L = float(rng.choice([0.0, 20.0]))
    n = int(rng.integers(2, 6))
    sizes = rng.integers(30, 200, n)
    if rng.random() < 0.4:
        sizes[int(rng.integers(0, n))] = int(rng.integers(0, 5))
    if (sizes >= 5).sum() < 2:
        sizes[:2] = 60
    xyz = []
    for s in sizes:
        c = rng.uniform(0, 20, 3)
        q = np.linalg.qr(rng.normal(size=(3, 3)))[0]
        p = c + (rng.normal(size=(s, 3)) * np.array([1, 0.8, 0.6]) * 0.5) @ q
        xyz.append(np.mod(p, L) if L else p)
    xyz = np.concatenate(xyz)
    tot = len(xyz)
    perm = rng.permutation(tot)
    out = np.empty_like(xyz)
    out[perm] = xyz
    cat, o = [], 0
    for s in sizes:
        cat.append(perm[o:o + s].tolist())
        o += s
    return out, rng.uniform(0.5, 2, tot), cat, rng.uniform(0.5, 1.5, n), L, str(rng.choice(['com', 'mode']))


def kept(w, least=5):
    return [i for i, c in enumerate(w[2]) if len(c) >= least]


def pick(n):
    k = int(rng.integers(1, n + 1))
    s = rng.permutation(n)[:k]
    return s.tolist() if rng.random() < 0.5 else s.astype(np.int32 if rng.random() < 0.5 else np.int64)


def info(w, **kw):
    return dict(xyz=w[0], masses=w[1], idx_cat=w[2], r200=w[3], L_BOX=w[4], CENTER=w[5], **kw)


def densities(p, R, sel, kz):
    yield 'direct binning', 1e-6, lambda: p.estDensProfs(R, sel, direct_binning=True, spherical=True)
    yield 'ellipsoidal binning', 1e-4, lambda: p.estDensProfs(R, sel, direct_binning=True, spherical=False, katz_config=kz)
    yield 'kernel', 1e-3, lambda: p.estDensProfs(R, sel, direct_binning=False)


def mc(p, sel):
    r = p.getMassesCenters(sel)
    return r['centre'], r['mass']


def close(a, b, rtol):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return False
    f = np.isfinite(b)
    s = np.abs(b[f]).max() if f.any() else 0
    return same(a, b, rtol, rtol * s * 1e-3)


# ---- C09: the same world in other units ----------------------------------------------------------------------
def check_units():
    w = world()
    In, Out = units(), units()
    l, m = cm('Mpc/h') / cm(Out[0]), gr('E+10Msun/h') / gr(Out[1])
    kz, R = settings(), np.sort(rng.uniform(0.2, 1.5, 5))
    setup(In, Out)
    p, _, _ = new(w, In=In)
    n = len(kept(w))
    sel = pick(n)
    ids = [kept(w)[int(i)] for i in sel]
    inp = info(w, In=In, Out=Out, selection=sel, katz_config=kz, R=R, note='particles and radii are in Mpc/h and E+10Msun/h')
    r = guarded(p.getR200, 'getR200', **inp)
    if not close(r, w[3][kept(w)] * l, 1e-5):
        found('getR200: R200 in outgoing units', got=r, want=w[3][kept(w)] * l, **inp)
    x, mm = guarded(p.getXYZMasses, 'getXYZMasses', **inp)
    if not close(x, w[0] * l, 1e-5) or not close(mm, w[1] * m, 1e-5):
        found('getXYZMasses: particles in outgoing units', **inp)
    c, ms = guarded(mc, 'getMassesCenters', p, sel, **inp)
    if not close(ms, [w[1][w[2][i]].sum() * m for i in ids], 1e-5):
        found('getMassesCenters: masses in outgoing units', got=ms, **inp)
    got = {nm: (tol, guarded(f, 'estDensProfs ' + nm, **inp)) for nm, tol, f in densities(p, R, sel, kz)}
    sh = guarded(p.getShapeCatLocal, 'getShapeCatLocal', sel, kz, **inp), guarded(p.getShapeCatGlobal, 'getShapeCatGlobal', sel, kz, **inp)
    setup()
    q, _, _ = new(w)
    c0, _ = mc(q, sel)
    if not close(c, c0 * l, 1e-5):
        found('getMassesCenters: centres in outgoing units', got=c, want=c0 * l, **inp)
    loc = q.getShapeCatLocal(sel, kz)
    stable = all(close(sh[0][k], loc[k], 1e-6) for k in ('q', 's', 'minor', 'inter', 'major'))     # axes have no orientation of their own
    for nm, tol, f in densities(q, R, sel, kz):
        if nm == 'ellipsoidal binning' and not stable:
            continue
        if not close(got[nm][1], f() * m / l ** 3, tol * 10):
            found('estDensProfs %s: densities in outgoing units' % nm, got=got[nm][1], want=f() * m / l ** 3, **inp)
    for a, b, nm in zip(sh, (loc, q.getShapeCatGlobal(sel, kz)), ('local', 'global')):
        if not close(a['d'], b['d'] * l, 1e-5):
            found('shape catalogue (%s): distances in outgoing units' % nm, got=a['d'], want=b['d'] * l, **inp)
        for k in ('q', 's'):
            if not close(a[k], b[k], 1e-4):
                found('shape catalogue (%s): %s depends on units' % (nm, k), got=a[k], want=b[k], **inp)
    # fits: normalisation and scale radius in outgoing units; a world in which the fit is exact
    setup(In, Out)
    check_fits(w, p, sel, ids, l, inp)


def check_fits(w, p, sel, ids, l, inp):
    prof = str(rng.choice(list(T_PARS)))
    names = T_PARS[prof]
    r0, rho = rng.uniform(0.1, 0.4), 10 ** rng.uniform(-1, 2, len(sel))
    pars = [dict(rho_s=rho[i], alpha=0.25 if prof == 'einasto' else 1.0, beta=3.0, gamma=1.0, r_s=r0) for i in range(len(sel))]
    R = np.logspace(-1.2, 0, 25)
    g = gr('E+10Msun/h') / gr(inp.get('Out', ('Mpc/h', 'E+10Msun/h'))[1])
    dens = np.array([FNS[prof](R * w[3][i], pars[k]) for k, i in enumerate(ids)]) * g / l ** 3
    if rng.random() < 0.5:
        dens[:, int(rng.integers(0, 25))] = np.nan
    # only the normalisation is free: the problem has a single optimum
    method = {k: pars[0][k] for k in names if k not in ('rho_s', 'r_s')}
    method.update(profile=prof, r_s=float(r0 * l), min_method=str(rng.choice(['Nelder-Mead', 'L-BFGS-B', 'SLSQP'])))
    if rng.random() < 0.2:
        method['rho_s'] = float(rho[0] * g / l ** 3)
        rho[:] = rho[0]
    inp = dict(inp, method=method, dens_profs=dens, radii=R)
    before = dict(method)
    best = guarded(p.fitDensProfs, 'fitDensProfs', dens, R, method, sel, **inp)
    if before != method:
        found('fitDensProfs changed the settings', **inp)
    if not close(best['r_s'], np.full(len(sel), r0 * l), 1e-6) or not same(best['rho_s'], rho * g / l ** 3, 0.1, 0):
        found('fitDensProfs: parameters of an exact profile in outgoing units', got={k: best[k] for k in names}, want=pars, **inp)
    for k in names:
        if k in method and not close(best[k], np.full(len(sel), method[k]), 1e-9):
            found('fitDensProfs: fixed parameter %s' % k, got=best[k], **inp)
    if 'rho_s' not in method and rng.random() < 0.5:
        f = 10 ** rng.uniform(-3, 3)
        b2 = guarded(p.fitDensProfs, 'fitDensProfs', dens * f, R, method, sel, **inp)
        if not same(b2['rho_s'], best['rho_s'] * f, 0.2, 0):
            found('fitDensProfs: normalisation of the profiles times %g' % f, got=b2['rho_s'], want=best['rho_s'] * f, **inp)
    k = int(rng.integers(0, len(sel)))
    b1 = guarded(p.fitDensProfs, 'fitDensProfs', dens[k:k + 1], R, method, [int(sel[k])], **inp)
    if not same(b1['rho_s'], best['rho_s'][k:k + 1], 0.2, 0):
        found('fitDensProfs: fit %d alone' % k, got=b1['rho_s'], want=best['rho_s'][k], **inp)
    c = guarded(p.estConcentrations, 'estConcentrations', dens, R, method, sel, **inp)
    if not close(c, [w[3][i] / r0 for i in ids], 1e-6):
        found('estConcentrations: R200 over scale radius', got=c, **inp)


T_PARS = {'einasto': ['rho_s', 'alpha', 'r_s'], 'alpha_beta_gamma': ['rho_s', 'alpha', 'beta', 'gamma', 'r_s'], 'nfw': ['rho_s', 'r_s'], 'hernquist': ['rho_s', 'r_s']}


def einasto(r, p):
    return p['rho_s'] * np.exp(-2 / p['alpha'] * ((r / p['r_s']) ** p['alpha'] - 1))


def abg(r, p):
    x = r / p['r_s']
    return p['rho_s'] / (x ** p['gamma'] * (1 + x ** p['alpha']) ** ((p['beta'] - p['gamma']) / p['alpha']))


FNS = {'einasto': einasto, 'alpha_beta_gamma': abg, 'nfw': lambda r, p: p['rho_s'] / (r / p['r_s'] * (1 + r / p['r_s']) ** 2),
       'hernquist': lambda r, p: p['rho_s'] / (r / p['r_s'] * (1 + r / p['r_s']) ** 3)}


# ---- C21: selections and settings ----------------------------------------------------------------------------
def odd_selection(n):
    k = int(rng.integers(0, 5))
    s = rng.integers(-1, n + 2, k) if rng.random() < 0.7 else rng.permutation(n + 1)[:k]
    s = s.astype(float) if rng.random() < 0.4 else s
    if s.dtype == float and len(s) and rng.random() < 0.6:
        s[int(rng.integers(0, len(s)))] += float(rng.choice([0.5, -0.3, 0.25]))
    return s


def valid(s, n):
    s = [float(x) for x in s]
    return len(s) > 0 and all(x == int(x) and 0 <= x < n for x in s) and len(set(s)) == len(s)


def accepted(f, *a):
    try:
        f(*a)
        return True
    except Exception:
        return False


def check_settings():
    for _ in range(200):
        n = int(rng.integers(1, 6))
        s = odd_selection(n)
        if accepted(isValidSelection, s, n) != valid(s, n):
            found('isValidSelection', selection=s, nb_objects=n, want=valid(s, n))
    for _ in range(300):
        names = ['einasto', 'alpha_beta_gamma', 'nfw', 'hernquist']
        prof = str(rng.choice(names + ['burkert', 'NFW', '']))
        m = {'profile': prof}
        for k in ('rho_s', 'alpha', 'beta', 'gamma', 'r_s', 'delta'):
            if rng.random() < 0.2:
                m[k] = float(rng.uniform(0.1, 3))
        opt = ['Nelder-Mead', 'L-BFGS-B', 'TNC', 'SLSQP', 'Powell', 'trust-constr']
        if rng.random() < 0.4:
            m['min_method'] = str(rng.choice(opt + ['CG', 'BFGS', 'newton', '']))
        if rng.random() < 0.05:
            del m['profile']
        want = m.get('profile') in T_PARS and set(m) <= set(T_PARS.get(m.get('profile'), [])) | {'profile', 'min_method'} and m.get('min_method', 'TNC') in opt
        if accepted(checkDensFitMethod, m) != want:
            found('checkDensFitMethod', method=m, want=want)
    for _ in range(100):
        k = dict(settings(), REDUCED=[True, False, 1, 0, 'yes', None][int(rng.integers(0, 6))], SHELL_BASED=[True, False, 1, 0, 'no', None][int(rng.integers(0, 6))])
        if rng.random() < 0.2:
            k['ROverR200'] = 0.7
        elif rng.random() < 0.3:
            k['ROverR200'] = list(k['ROverR200'])
        want = type(k['REDUCED']) == bool and type(k['SHELL_BASED']) == bool and hasattr(k['ROverR200'], '__len__')
        if accepted(checkKatzConfig, k) != want:
            found('checkKatzConfig', katz_config=k, want=want)
        if want:
            r = checkKatzConfig(k)
            if not same(r[0], k['ROverR200']) or r[1] != k['IT_TOL'] or r[2] != k['IT_WALL'] or r[3] != k['IT_MIN'] or r[4] is not k['REDUCED'] or r[5] is not k['SHELL_BASED']:
                found('checkKatzConfig: settings changed', katz_config=k, got=list(r))
    w = world()
    setup()
    p, _, _ = new(w)
    n, kz, R = len(kept(w)), settings(), np.array([0.3, 0.6, 0.9, 1.2])
    for _ in range(6):
        s = odd_selection(n)
        s = s.tolist() if rng.random() < 0.5 else s
        v = valid(s, n)
        if v and np.asarray(s).dtype == float:
            continue
        d = np.ones((len(s), 4)) * np.array([8.0, 4.0, 2.0, 1.0])
        for nm, f in (('getMassesCenters', lambda: p.getMassesCenters(s)), ('estDensProfs', lambda: p.estDensProfs(R, s)),
                      ('getShapeCatLocal', lambda: p.getShapeCatLocal(s, kz)), ('getShapeCatGlobal', lambda: p.getShapeCatGlobal(s, kz)),
                      ('fitDensProfs', lambda: p.fitDensProfs(d, R, {'profile': 'nfw'}, s)), ('estConcentrations', lambda: p.estConcentrations(d, R, {'profile': 'nfw'}, s))):
            if accepted(f) != v:
                found('%s and a selection that is %svalid' % (nm, '' if v else 'not '), selection=s, nb_objects=n, **info(w))
    for nm, f in (('dumpShapeCatLocal', p.dumpShapeCatLocal), ('dumpShapeCatGlobal', p.dumpShapeCatGlobal)):
        for _ in range(6):
            s = odd_selection(n)
            if not valid(s, n) and accepted(f, s, kz):
                found('%s and a selection that is not valid' % nm, selection=s, nb_objects=n, **info(w))


# ---- C18: dumped catalogues ----------------------------------------------------------------------------------
def check_dumps():
    w = world()
    Out = units()
    setup(Out=Out)
    l, m = cm('Mpc/h') / cm(Out[0]), gr('E+10Msun/h') / gr(Out[1])
    n, kz = len(kept(w)), settings()
    sel = pick(n)
    for scope in ('Local', 'Global'):
        p, d, _ = new(w)
        inp = info(w, Out=Out, selection=sel, katz_config=kz, scope=scope)
        want = guarded(getattr(p, 'getShapeCat' + scope), 'getShapeCat' + scope, sel, kz, **inp)
        c, ms = guarded(mc, 'getMassesCenters', p, sel, **inp)
        if glob.glob(d + '/*'):
            found('getShapeCat%s wrote files' % scope, **inp)
        guarded(getattr(p, 'dumpShapeCat' + scope), 'dumpShapeCat' + scope, sel, kz, **inp)
        have = sorted(os.path.basename(f) for f in glob.glob(d + '/*'))
        names = {k: '%s_%s_025.txt' % (k, scope.lower()) for k in ('d', 'q', 's', 'minor', 'inter', 'major', 'centers', 'm')}
        if have != sorted(names.values()):
            found('dumpShapeCat%s: files' % scope, got=have, **inp)
        got = {k: np.loadtxt(os.path.join(d, f), ndmin=2) for k, f in names.items()}
        k = len(sel)
        for nm in ('d', 'q', 's', 'minor', 'inter', 'major'):
            if not same(got[nm].reshape(k, -1), np.asarray(want[nm]).reshape(k, -1), 2e-6, 1e-7):
                found('dumpShapeCat%s: %s' % (scope, nm), got=got[nm], want=np.asarray(want[nm]), **inp)
        if w[5] == 'com' and not same(got['centers'].reshape(k, 3), c, 2e-6, 2e-6 * np.abs(c).max()):
            found('dumpShapeCat%s: centres' % scope, got=got['centers'], want=c, **inp)
        if not same(got['m'].ravel(), ms, 2e-6, 0):
            found('dumpShapeCat%s: masses' % scope, got=got['m'], want=ms, **inp)
        back = guarded(getattr(p, 'getShapeCat' + scope), 'getShapeCat' + scope + ' after the dump', sel, kz, **inp)
        for nm in ('d', 'q', 's', 'minor', 'inter', 'major', 'is_conv'):
            if not same(np.asarray(back[nm], float), np.asarray(want[nm], float), 3e-6, 2e-7):
                found('dumpShapeCat%s: reading back %s' % (scope, nm), got=back[nm], want=np.asarray(want[nm]), **inp)


# ---- C19, C06: purity and independence -----------------------------------------------------------------------
def calls(p, R, sel, kz, dens, method):
    yield 'getMassesCenters', 1e-12, lambda: np.concatenate([np.asarray(x, float).ravel() for x in mc(p, sel)])
    yield from (('estDensProfs ' + nm, 1e-9, f) for nm, _, f in densities(p, R, sel, kz))
    for sc in ('Local', 'Global'):
        yield 'getShapeCat' + sc, 1e-9, lambda sc=sc: (lambda s: np.concatenate([np.asarray(s[k], float).ravel() for k in ('d', 'q', 's')]))(getattr(p, 'getShapeCat' + sc)(sel, kz))
    yield 'fitDensProfs', 1e-9, lambda: (lambda b: np.concatenate([b[k] for k in ('rho_s', 'r_s')]))(p.fitDensProfs(dens, R, method, sel))
    yield 'estConcentrations', 1e-9, lambda: p.estConcentrations(dens, R, method, sel)


def frozen(x):
    if isinstance(x, np.ndarray):
        return (x.dtype.str, x.shape, x.tobytes())
    if isinstance(x, dict):
        return tuple((k, frozen(v)) for k, v in x.items())
    if isinstance(x, (list, tuple)):
        return tuple(frozen(v) for v in x)
    return x


def check_pure():
    w = world()
    In, Out = units(), units()
    setup(In, Out)
    p, _, args = new(w, In=In)
    fr = frozen(args)
    n = len(kept(w))
    sel = pick(n)
    kz, R = settings(), np.sort(rng.uniform(0.2, 1.5, 6))
    dens = np.array([R ** -1.5 * (1 + i) for i in range(len(sel))])
    method = {'profile': str(rng.choice(['nfw', 'hernquist', 'einasto', 'alpha_beta_gamma']))}
    if rng.random() < 0.5:
        method['r_s'] = 0.3 * cm('Mpc/h') / cm(Out[0])
    inp = info(w, In=In, Out=Out, selection=sel, katz_config=kz, R=R, method=method)
    mine = frozen([R, sel, kz, dens, method])
    state = lambda: frozen([p.getR200(), list(p.getXYZMasses()), [np.asarray(x) for x in p.getIdxCat()]])
    s0 = state()
    cs = list(calls(p, R, sel, kz, dens, method))
    first = {}
    for rnd in range(2):
        for j in rng.permutation(len(cs)):
            nm, tol, f = cs[j]
            r = guarded(f, nm, **inp)
            if frozen([R, sel, kz, dens, method]) != mine or frozen(args) != fr:
                found('%s changed its arguments' % nm, **inp)
            if state() != s0:
                found('%s changed the stored particles, catalogue or radii' % nm, **inp)
            if nm in first and not same(first[nm], r, 1e-7, 1e-12):
                found('%s gives another answer when repeated' % nm, first=first[nm], second=r, **inp)
            first.setdefault(nm, r)


def check_rows():
    """row i of the results is the result for the i-th selected object alone"""
    w = world()
    setup()
    k = kept(w)
    p, _, _ = new(w)
    sel = pick(len(k))
    kz, R = settings(), np.sort(rng.uniform(0.2, 1.5, 6))
    inp = info(w, selection=sel, katz_config=kz, R=R)
    for i, s in enumerate(sel):
        j = k[int(s)]
        one, _, _ = new((w[0], w[1], [w[2][j]], w[3][j:j + 1], w[4], w[5]))
        if i == 0:
            all_ = {nm: guarded(f, nm, **inp) for nm, _, f in densities(p, R, sel, kz)}
            sh = {sc: guarded(getattr(p, 'getShapeCat' + sc), 'getShapeCat' + sc, sel, kz, **inp) for sc in ('Local', 'Global')}
            c, ms = guarded(mc, 'getMassesCenters', p, sel, **inp)
        c1, m1 = mc(one, [0])
        if not close(c1[0], c[i], 1e-7) or not close(m1[0], ms[i], 1e-7):
            found('getMassesCenters: row %d' % i, got=c[i], want=c1[0], **inp)
        for nm, tol, f in densities(one, R, [0], kz):
            if not close(all_[nm][i], f()[0], tol):
                found('estDensProfs %s: row %d' % (nm, i), got=all_[nm][i], want=f()[0], **inp)
        for sc in sh:
            s1 = getattr(one, 'getShapeCat' + sc)([0], kz)
            for nm in ('d', 'q', 's'):
                if not close(sh[sc][nm][i], s1[nm][0], 1e-6):
                    found('getShapeCat%s: %s of row %d' % (sc, nm, i), got=sh[sc][nm][i], want=s1[nm][0], **inp)
        x = w[0][w[2][j]]
        if w[4] > 0:
            x = O.wrap(x, w[4])
        cc = O.center(x, w[1][w[2][j]], w[5])
        d = O.sph_profile(x, w[1][w[2][j]], cc, R, w[3][j])
        if not close(all_['direct binning'][i], d, 1e-4):
            found('estDensProfs direct binning: object %d' % j, got=all_['direct binning'][i], want=d, **inp)
        if not close(ms[i], w[1][w[2][j]].sum(), 1e-7):
            found('getMassesCenters: mass of object %d' % j, got=ms[i], **inp)


def check_fit_rows():
    w = world()
    setup()
    k = kept(w)
    p, _, _ = new(w)
    sel = pick(len(k))
    check_fits(w, p, sel, [k[int(i)] for i in sel], 1.0, info(w, selection=sel))


DO = {'C09': [check_units], 'C21': [check_settings], 'C18': [check_dumps], 'C19': [check_pure], 'C06': [check_rows], 'C11': [check_fit_rows]}
if __name__ == '__main__':
    n = 0
    while more():
        for f in DO.get(PROP, [check_rows]):
            f()
        n += 1
    print('no difference in %d cases' % n)

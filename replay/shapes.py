from common import *
import os
import oracle as O
import gen
from cosmic_profiles.shape_profs import shape_profs_algos as A

os.dup2(os.open(os.devnull, os.O_WRONLY), 1)        # the kernels print a line per object


def frame(x, c, ax):
    return (x - c) if ax is None else (x - c) @ np.array(ax).T


def iteration(x, v, m, c, vc, d, delta, tol, wall, least, reduced, exact):
    """(d, q, s, major, inter, minor), None if not converged, False if rounding decides"""
    q = s = 1.0
    ax, it = None, 0
    while True:
        y = frame(x, c, ax)
        r2 = y[:, 0] ** 2 + (y[:, 1] / q) ** 2 + (y[:, 2] / s) ** 2
        near = [np.abs(r2 - d * d) / (d * d)]
        sel = r2 < d * d
        if delta is not None and ax is None:
            e = d - delta
            sel &= r2 >= e * e
            near.append(np.abs(r2 - e * e) / (d * d))
        elif delta is not None and d != delta:
            with np.errstate(all='ignore'):
                h = (y[:, 0] / (d - delta)) ** 2 + (y[:, 1] / (q * d - delta)) ** 2 + (y[:, 2] / (s * d - delta)) ** 2
            sel &= h >= 1
            near.append(np.abs(h - 1))
        near = np.array(near)
        if near.size and near.min() < (1e-9 if ax is None else 1e-6) and not (exact and ax is None):
            return False
        if it >= wall or sel.sum() < least:
            return None
        if sel.sum() == 0:
            return False
        u = (v - vc)[sel]
        w = m[sel] / m[sel].sum()
        if reduced:
            if r2[sel].min() < 1e-20:
                return False
            w = w / r2[sel]
        T = (u * w[:, None]).T @ u
        ev, ec = np.linalg.eigh(T)
        if ev[0] < 1e-9 * ev[2] or ev[2] <= 0:
            return False
        nq, ns = np.sqrt(ev[1] / ev[2]), np.sqrt(ev[0] / ev[2])
        eq, es = abs(nq - q) / q, abs(ns - s) / s
        q, s = nq, ns
        gap = min(ev[1] - ev[0], ev[2] - ev[1]) / ev[2]
        if gap < 1e-3:
            return False
        ax = [ec[:, 2], ec[:, 1], ec[:, 0]]
        it += 1
        if abs(max(eq, es) - tol) < 1e-6 * max(1, 1 / q, 1 / s) :
            return False
        if max(eq, es) <= tol:
            return d, q, s, ax[0], ax[1], ax[2]


def judge(what, fn, args, want, inp):
    """calls the code; want: entry -> specified result"""
    hits[0] += sum(w is False for w in want.values())
    hits[1] += sum(w is None for w in want.values())
    hits[2] += sum(isinstance(w, tuple) for w in want.values())
    soft = any(w is False for w in want.values())       # degenerate tensors divide by zero
    r = guarded(fn, what, *args, ok=(ZeroDivisionError,) if soft else (), **inp)
    unchanged(what)
    if r is None:
        return
    tail(what, r, inp)
    sh = (n,) if 'Global' in what else (n, len(R))
    if any(a.shape != sh for a in r[:3]) or any(a.shape != sh + (3,) for a in r[3:6]):
        found('%s: shape of the result' % what, got=r[0], **inp)
    for e, w in want.items():
        check(what, [a[e] for a in r[:6]], w, inp, e)


def check(what, got, want, inp, *where):
    """got: (d, q, s, minor, inter, major) of one entry"""
    if want is False:
        return
    if want is None:
        if not all(np.isnan(g).all() for g in got):
            found('%s: an entry that did not converge is not NaN throughout' % what, entry=where, got=list(got), **inp)
        return
    d, q, s, ma, im, mi = want
    if not (same(got[0], d, 1e-9) and same(got[1], q, 1e-4) and same(got[2], s, 1e-4)):
        found('%s: distance or axis ratios' % what, entry=where, got=list(got), want=list(want), **inp)
    for g, w, nm in zip(got[3:], (mi, im, ma), ('minor', 'intermediate', 'major')):
        g, w = np.asarray(g), np.asarray(w)
        if g.shape != w.shape or not min(np.abs(g - w).max(), np.abs(g + w).max()) < 1e-2:
            found('%s: %s axis' % (what, nm), entry=where, got=list(got), want=list(want), **inp)


def exact(p, x, m):
    """the centre and the first comparison are free of rounding"""
    return dy


k = 0
hits = [0, 0, 0]
while more() and k < 20000:
    k += 1
    dy = rng.random() < 0.35
    few = rng.random() < 0.15
    xyz, m, idx, sizes, L = gen.catalogue(dy, most=4 if few else 60, least=1 if rng.random() < 0.3 else 12 if not few else 1,
                                       choice=[8, 16, 32, 32, 64] if dy and not few else None)
    n = len(sizes)
    if rng.random() < 0.1:          # an object whose particles coincide
        o = int(rng.integers(0, n))
        i = idx[sizes[:o].sum():sizes[:o + 1].sum()]
        xyz[i] = xyz[i[0]]
    for o in range(n):              # elongate some objects
        if rng.random() < 0.5 and not dy:
            i = idx[sizes[:o].sum():sizes[:o + 1].sum()]
            x = O.wrap(xyz[i], L)
            c = x.mean(axis=0)
            U = np.linalg.qr(rng.normal(size=(3, 3)))[0]
            x = c + (x - c) @ (U * np.array([1.0, rng.uniform(0.4, 1), rng.uniform(0.2, 1)])) @ U.T
            xyz[i] = np.mod(x, L) if L > 0 else x
    vxyz = rng.normal(size=xyz.shape) * rng.uniform(0.3, 3, 3) + rng.normal(size=3) * 5
    CENTER = str(rng.choice(['mode', 'com', 'com']))
    r200 = rng.choice([1.0, 2.0, 4.0], n) if dy else rng.uniform(0.3, 5.0, n)
    if rng.random() < 0.15:
        r200[rng.integers(0, n)] = 0.0
    R = gen.radii(dyadic=dy) * (1 if rng.random() < 0.5 else 2)
    tol = float(rng.choice([0.01, 0.05, 0.2, 0.5]))
    wall = int(rng.choice([0, 1, 2, 3, 5, 20, 100]))
    least = int(rng.integers(1, 8)) if not few else int(rng.integers(1, 4))
    reduced = bool(rng.random() < 0.5)
    shell = bool(rng.random() < 0.5)
    safe = float(rng.choice([0.0, 0.5, 2.0, 6.0]))
    base = dict(xyz=xyz, vxyz=vxyz, masses=m, idx_cat=idx, obj_size=sizes, L_BOX=L, CENTER=CENTER, r200=r200, IT_TOL=tol, IT_WALL=wall,
                IT_MIN=least, reduced=reduced)
    keep = [v.copy() for v in (xyz, vxyz, m, idx, sizes, r200, R)]

    def unchanged(what):
        for a, b, nm in zip((xyz, vxyz, m, idx, sizes, r200, R), keep, ('xyz', 'vxyz', 'masses', 'idx_cat', 'obj_size', 'r200', 'r_over_r200')):
            if not np.array_equal(a, b):
                found('%s changed its argument %s' % (what, nm), **base)
    objs = [(p, x, mm) for p, x, mm in O.objects(xyz, m, idx, sizes, L)]
    off = np.concatenate([[0], np.cumsum(sizes)])
    cs = [O.center(x, mm, CENTER, (x.max(axis=0) - x.min(axis=0)).max()) for _, x, mm in objs]
    cs = [O.code_center(c, x, mm, CENTER, (x.max(axis=0) - x.min(axis=0)).max()) for c, (_, x, mm) in zip(cs, objs)]
    vs = [vxyz[idx[off[p]:off[p + 1]]] for p in range(n)]
    vcs = [O.com(v, mm) for v, (_, _, mm) in zip(vs, objs)]

    def tail(what, r, inp):
        w = np.array([O.recentre(c, L) for c in cs])
        e = np.abs(r[6] - w)
        if r[6].shape != w.shape or not (np.minimum(e, np.abs(e - L)) < 1e-7).all() or (L > 0 and not ((r[6] >= 0) & (r[6] <= L)).all()):
            found('%s: centres' % what, got=r[6], want=w, **inp)
        if not same(r[7], [mm.sum() for _, _, mm in objs]):
            found('%s: masses' % what, got=r[7], **inp)

    todo = []
    if PROP in ('C04', 'C05', 'C06', 'C07', 'C19', 'C20'):
        todo.append(False)
    if PROP in ('C17', 'C05', 'C06', 'C07', 'C19', 'C20'):
        todo.append(True)
    for vel in todo:
        V = lambda p: (vs[p], vcs[p]) if vel else (objs[p][1], cs[p])
        pos = (xyz, vxyz) if vel else (xyz,)
        want = {}
        if rng.random() < 0.6:
            what = 'calcMorphLocalVelDisp' if vel else 'calcMorphLocal'
            for p, x, mm in objs:
                for j in range(len(R)):
                    d = r200[p] * R[j]
                    dl = None if not shell else (d if j == 0 else d - r200[p] * R[j - 1])
                    want[p, j] = None if d == 0 or (x == x[0]).all() else \
                        iteration(x, V(p)[0], mm, cs[p], V(p)[1], d, dl, tol, wall, least, reduced, exact(p, x, mm))
            judge(what, getattr(A, what), pos + (m, r200, idx, sizes, L, R, tol, wall, least, CENTER, reduced, shell), want,
                  dict(base, r_over_r200=R, shell_based=shell))
        else:
            what = 'calcMorphGlobalVelDisp' if vel else 'calcMorphGlobal'
            if safe == 0 and (r200 == 0).any():
                continue
            for p, x, mm in objs:
                want[p] = None if (x == x[0]).all() else \
                    iteration(x, V(p)[0], mm, cs[p], V(p)[1], r200[p] + safe, None, tol, wall, least, reduced, exact(p, x, mm))
            judge(what, getattr(A, what), pos + (m, r200, idx, sizes, L, tol, wall, least, CENTER, safe, reduced), want, dict(base, SAFE=safe))
sys.stderr.write('no difference in %d cases (undecided, not converged, converged entries: %s)\n' % (k, hits))

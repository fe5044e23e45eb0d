import numpy as np
from common import rng


def catalogue(dyadic=False, L=None, nobj=None, least=1, most=30, spare=True, choice=None):
    """random particles and objects; objects cluster anywhere in the box, also across its faces"""
    if L is None:
        L = float(rng.choice([8.0, 16.0, 50.0, 0.0]))
    nobj = nobj or int(rng.integers(1, 5))
    sizes = rng.integers(least, most + 1, nobj).astype(np.int32)
    if choice is not None:
        sizes = rng.choice(np.array(choice, dtype=np.int32), nobj)
    tot = int(sizes.sum())
    n = tot + int(rng.integers(0, 10))
    box = L if L > 0 else 16.0
    xyz = rng.uniform(0, box, (n, 3))
    masses = rng.uniform(0.5, 2.0, n)
    idx = rng.permutation(n)[:tot + (int(rng.integers(0, n - tot + 1)) if spare else 0)].astype(np.int32)
    o = 0
    for s in sizes:
        c = rng.uniform(0, box, 3)
        if rng.random() < 0.5:
            c = np.where(rng.random(3) < 0.6, rng.choice([0.01, box - 0.01]), c)
        w = box / 40 * (1 + 3 * rng.random())
        p = c + rng.normal(0, w, (s, 3))
        if dyadic:
            o2 = rng.integers(-4, 5, (s, 3)) * 0.25
            if rng.random() < 0.7:      # symmetric pairs: the centre of mass is a grid point, distances tie with bin edges
                o2[s // 2:2 * (s // 2)] = -o2[:s // 2]
                o2[2 * (s // 2):] = 0
                if rng.random() < 0.5:
                    o2[:, 1:] = 0
            p = np.round(c * 2) / 2 + o2
        if L > 0:
            p = np.mod(p, box)
        xyz[idx[o:o + s]] = p
        o += s
    if dyadic:
        masses = rng.choice([0.5, 1.0, 2.0], n) if rng.random() < 0.4 else np.ones(n)
    if rng.random() < 0.2:
        masses = np.ones(n) * 1.5
    return xyz, masses, idx, sizes, L


def radii(r=None, dyadic=False):
    r = r or int(rng.integers(3, 9))
    if dyadic:
        return np.sort(rng.choice(np.arange(1, 33), r, replace=False)) / 8.0
    return np.sort(rng.uniform(0.02, 1.5, r))


def frames(*sh):
    q = np.linalg.qr(rng.normal(size=sh + (3, 3)))[0]
    return q[..., 0, :], q[..., 1, :], q[..., 2, :]


def shapes(nobj, s, r200s):
    a = np.sort(rng.uniform(0.05, 1.6, (nobj, s)), axis=1) * r200s[:, None]
    b = a * rng.uniform(0.5, 1.0, (nobj, s))
    c = b * rng.uniform(0.5, 1.0, (nobj, s))
    maj, inn, mnr = frames(nobj, s)
    return a, b, c, np.ascontiguousarray(maj), np.ascontiguousarray(inn), np.ascontiguousarray(mnr)

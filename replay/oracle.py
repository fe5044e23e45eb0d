"""Independent numpy statements of what the kernels compute."""
import numpy as np


def wrap(x, L):
    """images nearest to the first particle"""
    x = np.array(x, dtype=float)
    if L == 0 or len(x) == 0:
        return x
    d = x - x[:1]
    x = np.where(d > L / 2, x - L, np.where(d < -L / 2, x + L, x))
    return x


def com(x, m):
    return (x * m[:, None]).sum(axis=0) / m.sum()


def mode(x, m, rad):
    c = com(x, m)
    d = np.sqrt(((x - c) ** 2).sum(axis=1))
    k = d < rad
    if k.sum() < 5 or not (d > 0).any():
        return c
    return mode(x[k], m[k], 0.83 * rad)


def objects(xyz, masses, idx, sizes, L):
    off = np.concatenate([[0], np.cumsum(sizes)])
    for p in range(len(sizes)):
        i = idx[off[p]:off[p + 1]]
        yield p, wrap(xyz[i], L), masses[i]


def center(x, m, CENTER, rad=1000):
    return mode(x, m, rad) if CENTER == 'mode' else com(x, m)


def recentre(x, L):
    x = np.array(x, dtype=float)
    x = np.where(x >= L, x - L, x)
    return np.where(x < 0, x + L, x)


def sph_profile(x, m, c, R, r200):
    e = np.concatenate([[1e-8], (R[:-1] + R[1:]) / 2, [R[-1]]]) * r200
    d2 = ((x - c) ** 2).sum(axis=1)
    return np.array([m[(d2 < e[k + 1] ** 2) & (d2 >= e[k] ** 2)].sum() / (4 / 3 * np.pi * (e[k + 1] ** 3 - e[k] ** 3)) for k in range(len(R))])


def lin(X, Y, x):
    """linear interpolation with extrapolation"""
    X, Y = np.asarray(X), np.asarray(Y)
    o = np.argsort(X, kind='stable')
    X, Y = X[o], Y[o]
    k = np.clip(np.searchsorted(X, x) - 1, 0, len(X) - 2)
    return Y[k] + (x - X[k]) * (Y[k + 1] - Y[k]) / (X[k + 1] - X[k])


def ell_profile(x, m, c, R, r200, a, b, cc, maj, inn, mnr):
    mid = (R[:-1] + R[1:]) / 2
    e = np.concatenate([[mid[0] ** 2 / mid[1]], mid, [R[-1]]]) * r200
    A, B, C = [lin(a, q, e) for q in (a, b, cc)]
    out = np.zeros(len(R))
    for k in range(len(R)):
        ax = []
        for v in (maj, inn, mnr):
            w = np.array([lin(a, v[:, i], R[k] * r200) for i in range(3)])
            ax.append(w / np.sqrt((w ** 2).sum()))
        y = np.stack([((x - c) * w).sum(axis=1) for w in ax], axis=1)
        g = lambda i: (y[:, 0] / A[i]) ** 2 + (y[:, 1] / B[i]) ** 2 + (y[:, 2] / C[i]) ** 2
        s = (g(k + 1) < 1) & (g(k) >= 1)
        if not s.any():
            out[k] = np.nan
            continue
        out[k] = m[s].sum() / (4 / 3 * np.pi * (A[k + 1] * B[k + 1] * C[k + 1] - A[k] * B[k] * C[k]))
    return out


def kernel_profile(x, m, c, R, r200):
    d = np.sqrt(((x - c) ** 2).sum(axis=1))
    h = 0.005 * r200 * np.sqrt(d / (0.1 * r200))
    out = []
    for r in R * r200:
        kt = 1 / (2 * (2 * np.pi) ** 1.5) / (r * d / h ** 2) * (np.exp(-(d - r) ** 2 / (2 * h ** 2)) - np.exp(-(d + r) ** 2 / (2 * h ** 2)))
        out.append((m * kt / h ** 3).sum())
    return np.array(out)


def code_center(c, x, m, CENTER, rad):
    """the code's own rounding of a centre that agrees with the specified one: decides particles that lie on a bin edge"""
    try:
        from cosmic_profiles.common import python_routines as P
        g = np.asarray(P.calcMode(x, m, rad) if CENTER == 'mode' else P.calcCoM(x, m), dtype=float)
        return g if g.shape == c.shape and np.allclose(g, c, rtol=1e-12, atol=1e-12) else c
    except Exception:
        return c

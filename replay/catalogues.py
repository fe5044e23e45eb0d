"""Central subhalo catalogue against a direct reading of the group and subhalo tables."""
from common import *
from cosmic_profiles.gadget.gen_catalogues import calcObjCat


def tables():
    h = int(rng.integers(1, 9))
    nb = rng.integers(0, 4, h)
    if rng.random() < 0.3:
        nb[rng.integers(0, h)] = 0
    least = int(rng.integers(1, 6))
    sh = rng.integers(0, 9, int(nb.sum()) + int(rng.integers(0, 3)))
    if len(sh) and rng.random() < 0.5:
        sh[rng.integers(0, len(sh))] = least
    fof = np.zeros(h, np.int64)
    s = 0
    for p in range(h):
        fof[p] = sh[s:s + nb[p]].sum() + rng.integers(0, 4)
        s += nb[p]
    return nb.astype(np.int32), sh.astype(np.int32), fof.astype(np.int32), rng.uniform(0.1, 3, h), least


def want(nb, sh, fof, r200, least):
    cat, rr, size = [], [], []
    for p in range(len(nb)):
        first, start = int(nb[:p].sum()), int(fof[:p].sum())
        if nb[p] > 0 and sh[first] >= least:
            cat += list(range(start, start + int(sh[first])))
            rr.append(r200[p])
            size.append(int(sh[first]))
    return cat, rr, size


def once():
    a = tables()
    before = [x.copy() for x in a[:4]]
    names = ('nb_shs', 'sh_len', 'fof_sizes', 'group_r200', 'MIN_NUMBER_PTCS')
    inp = dict(zip(names, a))
    got = guarded(calcObjCat, 'calcObjCat', *a[:4], np.int32(a[4]), **inp)
    w = want(*a)
    for k, x, y in zip(('particles', 'radii', 'sizes'), got, w):
        if np.shape(x) != np.shape(y) or not same(x, y, 0, 0):
            found('%s of the halo catalogue' % k, got=x, want=y, **inp)
    for x, y in zip(before, a):
        if not np.array_equal(x, y):
            found('calcObjCat changed its arguments', **inp)


k = 0
while more() and k < 3000:
    k += 1
    once()
print('no difference in %d cases' % k)

"""Mass groups against the definition: ascending blocks that together hold every object once."""
from common import *
from cosmic_profiles.common.cosmo_tools import M_split


def once():
    n = int(rng.integers(0, 14))
    bins = int(rng.integers(1, 8))
    m = rng.uniform(1, 100, n)
    if n and rng.random() < 0.4:
        m = np.round(m / 25) * 25
    center = rng.uniform(0, 9, (n, 3))
    v = rng.normal(size=(n, 3)) if rng.random() < 0.5 else None
    inp = dict(m=m, center=center, v=v, NB_BINS=bins)
    before = [m.copy(), center.copy(), None if v is None else v.copy()]
    r = guarded(M_split, 'M_split', m, center, 0.0, v, bins, **inp)
    bad = lambda what: found('M_split: ' + what, result=[list(map(np.array, x)) if isinstance(x, list) else x for x in r], **inp)
    if len(r) != (4 if v is None else 5):
        bad('number of results')
    edges, mg, cg, ids = r[0], r[1], r[2], r[-1]
    vg = None if v is None else r[3]
    if len(ids) != len(mg) or len(cg) != len(mg) or (vg is not None and len(vg) != len(mg)):
        bad('different numbers of groups')
    flat = [int(i) for g in ids for i in g]
    if sorted(flat) != list(range(n)):
        bad('the groups do not contain every object exactly once')
    sizes = [len(g) for g in ids]
    if sizes and (min(sizes) == 0 or any(s != sizes[0] for s in sizes[:-1]) or sizes[-1] > sizes[0]):
        bad('group sizes')
    if len(sizes) > bins:
        bad('more groups than bins')
    if any(m[a] > m[b] for a, b in zip(flat, flat[1:])):
        bad('masses do not ascend')
    for k, g in enumerate(ids):
        g = np.array(g, dtype=int)
        if not np.array_equal(np.asarray(mg[k], float), m[g]) or not np.array_equal(np.asarray(cg[k], float), center[g]):
            bad('masses or centres belong to other objects')
        if vg is not None and not np.array_equal(np.asarray(vg[k], float), v[g]):
            bad('vectors belong to other objects')
    want = [m[g].min() for g in ids] + ([m.max()] if n else [])
    if not np.array_equal(np.asarray(edges, float), np.asarray(want, float)):
        bad('edges')
    if any(x is not None and not np.array_equal(x, y) for x, y in zip(before, (m, center, v))):
        found('M_split changed its arguments', **inp)


k = 0
while more() and k < 5000:
    k += 1
    once()
print('no difference in %d cases' % k)

from common import *
import oracle as O
import gen
from cosmic_profiles.dens_profs import dens_profs_algos as A

k = 0
while more() and k < 1500:
    k += 1
    dy = rng.random() < 0.4
    xyz, m, idx, sizes, L = gen.catalogue(dy, most=30 if rng.random() < 0.8 else 4)
    CENTER = str(rng.choice(['mode', 'com', 'com']))
    n = len(sizes)
    r200 = rng.choice([1.0, 2.0, 4.0], n) if dy else np.float64(np.float32(rng.uniform(0.5, 6.0, n)))  # the code takes r200 in single precision
    R = gen.radii(dyadic=dy)
    inp = dict(xyz=xyz, masses=m, idx_cat=idx, obj_size=sizes, L_BOX=L, CENTER=CENTER, r200s=r200, r_over_r200=R)
    keep = [v.copy() for v in (xyz, m, idx, sizes, r200, R)]

    def unchanged(what):
        for a, b, nm in zip((xyz, m, idx, sizes, r200, R), keep, ('xyz', 'masses', 'idx_cat', 'obj_size', 'r200s', 'r_over_r200')):
            if not np.array_equal(a, b):
                found('%s changed its argument %s' % (what, nm), **inp)
    objs = list(O.objects(xyz, m, idx, sizes, L))
    cs = [O.center(x, mm, CENTER) for _, x, mm in objs]
    if PROP in ('C06', 'C07', 'C08', 'C19', 'C20'):
        r = guarded(A.calcMassesCenters, 'calcMassesCenters', xyz, m, idx, sizes, L, CENTER, **inp)
        unchanged('calcMassesCenters')
        w = np.array([O.recentre(c, L) for c in cs])
        d = np.abs(r[0] - w)
        if r[0].shape != w.shape or not (np.minimum(d, np.abs(d - L)) < 1e-7).all() or (L > 0 and not ((r[0] >= 0) & (r[0] <= L)).all()):
            found('calcMassesCenters: centres', got=r[0], want=np.array([O.recentre(c, L) for c in cs]), **inp)
        if not same(r[1], [mm.sum() for _, _, mm in objs]):
            found('calcMassesCenters: masses', got=r[1], **inp)
    if PROP in ('C01', 'C06', 'C07', 'C19', 'C20'):
        r = guarded(A.calcDensProfsSphDirectBinning, 'calcDensProfsSphDirectBinning', xyz, m, r200, R, idx, sizes, L, CENTER, **inp)
        unchanged('calcDensProfsSphDirectBinning')
        w = np.array([O.sph_profile(x, mm, cs[p], R, r200[p]) for p, x, mm in objs])
        if not same(r, w, 1e-5):
            found('calcDensProfsSphDirectBinning', got=r, want=w, **inp)
    if PROP in ('C03', 'C06', 'C07', 'C19', 'C20') and min(sizes) > 1:
        ok = all(np.sqrt(((x - cs[p]) ** 2).sum(axis=1)).min() > 1e-3 for p, x, mm in objs)
        if ok:
            r = guarded(A.calcDensProfsKernelBased, 'calcDensProfsKernelBased', xyz, m, r200, R, idx, sizes, L, CENTER, **inp)
            unchanged('calcDensProfsKernelBased')
            w = np.array([O.kernel_profile(x, mm, cs[p], R, r200[p]) for p, x, mm in objs])
            if not same(r, w, 1e-3, 1e-5 * np.abs(w).max() + 1e-20):
                found('calcDensProfsKernelBased', got=r, want=w, **inp)
    if PROP in ('C02', 'C06', 'C07', 'C19', 'C20'):
        sh = gen.shapes(n, int(rng.integers(2, 7)), r200)
        r = guarded(A.calcDensProfsEllDirectBinning, 'calcDensProfsEllDirectBinning', xyz, m, r200, R, *sh, idx, sizes, L, CENTER, **inp)
        unchanged('calcDensProfsEllDirectBinning')
        w = np.array([O.ell_profile(x, mm, cs[p], R, r200[p], *[q[p] for q in sh]) for p, x, mm in objs])
        if not same(r, w, 1e-5):
            found('calcDensProfsEllDirectBinning', got=r, want=w, a=sh[0], b=sh[1], c=sh[2], major=sh[3], inter=sh[4], minor=sh[5], **inp)
print('no difference in %d cases' % k)

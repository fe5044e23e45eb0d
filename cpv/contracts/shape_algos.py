"""Contracts of cosmic_profiles/shape_profs/shape_profs_algos.pyx."""
from ..terms import *
from .. import terms as t
from ..contract import contract, Sim
from .helpers import total, com_of, lower, eigval, eigvec, spread
from .routines import recentred
from .dens_algos import Cat, CAT, center

P = 'cosmic_profiles/shape_profs/shape_profs_algos.pyx::'
COLS = ((3, 2), (6, 1), (9, 0))           # first row of an axis in morph_info, number of its eigenvalue (ascending)


def absr(x):
    return ite(x >= 0, x, -x)


def maxr(a, b):
    return ite(a >= b, a, b)


class Shape:
    """the iteration: state = eigenvalues and eigenvectors of the tensor of the particles selected in the last step"""
    def __init__(self, X, V, m, n, center, vcenter, d, delta, tol, wall, least, reduced):
        self.X, self.V, self.m, self.n, self.center, self.vcenter = X, V, m, n, center, vcenter
        self.d, self.delta, self.tol, self.wall, self.least, self.reduced = d, delta, tol, wall, least, reduced

    # state -> ratios, axes
    def qs(self, sg):
        if sg is None:
            return num(1), num(1)
        return sqrt(sg.val('#eigval', 1) / sg.val('#eigval', 2)), sqrt(sg.val('#eigval', 0) / sg.val('#eigval', 2))

    def axis(self, sg, col):
        e = [sg.val('#eigvec', a, col) for a in range(3)]
        nrm = sqrt(e[0] ** 2 + e[1] ** 2 + e[2] ** 2)
        return [x / nrm for x in e]

    def coords(self, sg, k):
        """coordinates of particle k in the frame of the axes (of the box, at first)"""
        r = [self.X(k, a) - self.center(a) for a in range(3)]
        if sg is None:
            return r
        out = []
        for _, col in COLS:
            u = self.axis(sg, col)
            out.append(u[0] * r[0] + u[1] * r[1] + u[2] * r[2])
        return out

    def ell_radius2(self, sg, k):
        x, y, z = self.coords(sg, k)
        q, s = self.qs(sg)
        return x ** 2 + y ** 2 / q ** 2 + z ** 2 / s ** 2

    def inside(self, sg, k):
        d, dl = self.d, self.delta
        r2 = self.ell_radius2(sg, k)
        ins = r2 < d ** 2
        if dl is None:
            return ins
        if sg is None:
            return and_(ins, r2 >= (d - dl) ** 2)
        x, y, z = self.coords(sg, k)
        q, s = self.qs(sg)
        hole = x ** 2 / (d - dl) ** 2 + y ** 2 / (q * d - dl) ** 2 + z ** 2 / (s * d - dl) ** 2
        return and_(ins, or_(eq(d, dl), hole >= 1))

    def count(self, sg):
        return Count(ZERO_I, self.n, lambda k: self.inside(sg, k))

    def tensor(self, sg, i, j):
        M = Sum(ZERO_I, self.n, lambda k: ite(self.inside(sg, k), self.m(k), num(0)))
        base = lambda k: self.m(k) * (self.V(k, i) - self.vcenter(i)) * (self.V(k, j) - self.vcenter(j)) / M
        plain = Sum(ZERO_I, self.n, lambda k: ite(self.inside(sg, k), base(k), num(0)))
        red = Sum(ZERO_I, self.n, lambda k: ite(self.inside(sg, k), base(k) / sqrt(self.ell_radius2(sg, k)) ** 2, num(0)))
        return ite(self.reduced, red, plain)

    def row(self, q, s, ax):
        """(d, q, s, major, intermediate, minor axis)"""
        def f(j):
            out = ax[2][2]
            vals = [self.d, q, s] + list(ax[0]) + list(ax[1]) + list(ax[2])
            for k in range(10, -1, -1):
                out = ite(eq(j, t.lift(k, 'I')), vals[k], out)
            return out
        return f

    def sim(self, name):
        H = lambda sg: lower(lambda i, j: self.tensor(sg, i, j))
        cols = lambda Y: tuple(t.mklam(1, lambda k, a=a: Y(k, t.lift(a, 'I'))) for a in range(3))
        par = cols(self.X) + cols(self.V) + (t.mklam(1, lambda k: self.m(k)),
               self.center(0), self.center(1), self.center(2), self.vcenter(0), self.vcenter(1), self.vcenter(2),
               self.d, num(-1) if self.delta is None else self.delta, self.tol, self.wall, self.least, self.reduced)
        if self.delta is not None:
            par = par + (TRUE,)

        def again(sg):
            ev = [sg.val('#eigval', k) for k in range(3)]
            ec = [sg.val('#eigvec', a, k) for a in range(3) for k in range(3)]
            return lambda j: opq('#%s' % name, (self.n, t.lift(j, 'I'), sg.it) + tuple(ev) + tuple(ec) + par)

        class Step:
            pass

        def unfold(sg):
            it = ZERO_I if sg is None else sg.it
            h = H(sg)
            new = Step()
            new.it = it + 1
            new.val = lambda head, *ix: opq(head, tuple(t.lift(k, 'I') for k in ix) + tuple(h))
            q0, s0 = self.qs(sg)
            q, s = self.qs(new)
            err = maxr(absr(q - q0) / q0, absr(s - s0) / s0)
            done = self.row(q, s, [self.axis(new, col) for _, col in COLS])
            more = again(new)
            give_up = or_(t.le(self.wall, it), lt(self.count(sg), self.least))
            flat = not_(new.val('#eigval', 0) > 0)      # a degenerate tensor has no axis ratios
            return lambda j: ite(or_(give_up, flat), num(0), ite(err > self.tol, more(j), done(j)))

        def start():
            return lambda j: opq('#%s_start' % name, (self.n, t.lift(j, 'I')) + par)
        return Sim(name, [t.lift(12, 'I')], {'#eigval': 1, '#eigvec': 2}, unfold, again, start, self.wall, 'at most IT_WALL iterations')


def scratch(c, *vs):
    for v in vs:
        c.havoc(v)


SCR = 'shape_tensor:R[3,3] eigval:R[3] eigvec:R[3,3]'
CTL = 'IT_TOL:R IT_WALL:I IT_MIN:I'


def run(c, sh, info, name):
    c.requires(sh.tol < 1, 'relative tolerance below one')
    c.requires(le(ZERO_I, sh.wall), 'iteration limit not negative')
    c.simulate(info, sh.sim(name))
    c.returns(info)


@contract(P + 'runShellAlgo', 'morph_info:R[12] xyz:R[n,3] xyz_princ:R[n,3] masses:R[n] shell:I[>=n] r_ell:R[>=n] center:R[3] %s d:R delta_d:R %s reduced:B' % (SCR, CTL))
def runShellAlgo(c, info, xyz, xyz_princ, masses, shell, r_ell, ctr, st, ev, ec, d, delta, tol, wall, least, reduced):
    scratch(c, xyz_princ, shell, r_ell, st, ev, ec)
    run(c, Shape(xyz, xyz, masses, xyz.dims[0], ctr, ctr, d, delta, tol, wall, least, reduced), info, 'shape')


@contract(P + 'runEllAlgo', 'morph_info:R[12] xyz:R[n,3] xyz_princ:R[n,3] masses:R[n] ellipsoid:I[>=n] r_ell:R[>=n] center:R[3] %s d:R %s reduced:B' % (SCR, CTL))
def runEllAlgo(c, info, xyz, xyz_princ, masses, shell, r_ell, ctr, st, ev, ec, d, tol, wall, least, reduced):
    scratch(c, xyz_princ, shell, r_ell, st, ev, ec)
    run(c, Shape(xyz, xyz, masses, xyz.dims[0], ctr, ctr, d, None, tol, wall, least, reduced), info, 'shape')


@contract(P + 'runEllVDispAlgo', 'morph_info:R[12] xyz:R[n,3] vxyz:R[n,3] xyz_princ:R[n,3] masses:R[n] ellipsoid:I[>=n] r_ell:R[>=n] center:R[3] vcenter:R[3] %s d:R %s reduced:B' % (SCR, CTL))
def runEllVDispAlgo(c, info, xyz, vxyz, xyz_princ, masses, shell, r_ell, ctr, vctr, st, ev, ec, d, tol, wall, least, reduced):
    scratch(c, xyz_princ, shell, r_ell, st, ev, ec)
    run(c, Shape(xyz, vxyz, masses, xyz.dims[0], ctr, vctr, d, None, tol, wall, least, reduced), info, 'shape')


@contract(P + 'runShellVDispAlgo', 'morph_info:R[12] xyz:R[n,3] vxyz:R[n,3] xyz_princ:R[n,3] masses:R[n] shell:I[>=n] r_ell:R[>=n] center:R[3] vcenter:R[3] %s d:R delta_d:R %s reduced:B' % (SCR, CTL))
def runShellVDispAlgo(c, info, xyz, vxyz, xyz_princ, masses, shell, r_ell, ctr, vctr, st, ev, ec, d, delta, tol, wall, least, reduced):
    scratch(c, xyz_princ, shell, r_ell, st, ev, ec)
    run(c, Shape(xyz, vxyz, masses, xyz.dims[0], ctr, vctr, d, delta, tol, wall, least, reduced), info, 'shape')


def result(x, v, m, n, ctr, vctr, d, delta, tol, wall, least, reduced):
    """j -> element j of the result of the iteration"""
    sh = Shape(x, v, m, n, ctr, vctr, d, delta, tol, wall, least, reduced)
    return sh.sim('shape').start()


def control(c, tol, wall):
    c.requires(tol < 1, 'relative tolerance below one')
    c.requires(le(ZERO_I, wall), 'iteration limit not negative')


def local_result(x, v, m, n, ctr, vctr, r200, R, r, tol, wall, least, reduced, shell_based):
    """column r of the profile: 0 if the object has no extent or no R200, otherwise the iteration at r200*R(r)"""
    d = lambda k: r200 * R(k)
    args = lambda delta: (x, v, m, n, ctr, vctr, d(r), delta, tol, wall, least, reduced)
    first = result(*args(d(r)))
    later = result(*args(d(r) - d(r - 1)))
    ell = result(*args(None))
    none = or_(eq(spread(x, n), num(0)), eq(r200, num(0)))
    return lambda j: ite(none, num(0), ite(shell_based, ite(eq(r, ZERO_I), first(j), later(j)), ell(j)))


def global_result(x, v, m, n, ctr, vctr, r200, safe, tol, wall, least, reduced):
    ell = result(x, v, m, n, ctr, vctr, r200 + safe, None, tol, wall, least, reduced)
    return lambda j: ite(eq(spread(x, n), num(0)), num(0), ell(j))


@contract(P + 'calcObjMorphLocal', 'morph_info:R[12,r] r200:R log_d:R[r] xyz:R[n,3] xyz_princ:R[n,3] masses:R[n] shell:I[>=n] r_ell:R[>=n] center:R[3] %s %s reduced:B shell_based:B' % (SCR, CTL))
def calcObjMorphLocal(c, info, r200, R, xyz, xyz_princ, masses, shell, r_ell, ctr, st, ev, ec, tol, wall, least, reduced, shell_based):
    scratch(c, xyz_princ, shell, r_ell, st, ev, ec)
    control(c, tol, wall)
    c.sets(info, lambda j, r: local_result(xyz, xyz, masses, xyz.dims[0], ctr, ctr, r200, R, r, tol, wall, least, reduced, shell_based)(j))
    c.returns(info)


@contract(P + 'calcObjMorphLocalVelDisp', 'morph_info:R[12,r] r200:R log_d:R[r] xyz:R[n,3] vxyz:R[n,3] xyz_princ:R[n,3] masses:R[n] shell:I[>=n] r_ell:R[>=n] center:R[3] vcenter:R[3] %s %s reduced:B shell_based:B' % (SCR, CTL))
def calcObjMorphLocalVelDisp(c, info, r200, R, xyz, vxyz, xyz_princ, masses, shell, r_ell, ctr, vctr, st, ev, ec, tol, wall, least, reduced, shell_based):
    scratch(c, xyz_princ, shell, r_ell, st, ev, ec)
    control(c, tol, wall)
    c.sets(info, lambda j, r: local_result(xyz, vxyz, masses, xyz.dims[0], ctr, vctr, r200, R, r, tol, wall, least, reduced, shell_based)(j))
    c.returns(info)


@contract(P + 'calcObjMorphGlobal', 'morph_info:R[12] r200:R xyz:R[n,3] xyz_princ:R[n,3] masses:R[n] ellipsoid:I[>=n] r_ell:R[>=n] center:R[3] %s %s SAFE:R reduced:B' % (SCR, CTL))
def calcObjMorphGlobal(c, info, r200, xyz, xyz_princ, masses, shell, r_ell, ctr, st, ev, ec, tol, wall, least, safe, reduced):
    scratch(c, xyz_princ, shell, r_ell, st, ev, ec)
    control(c, tol, wall)
    c.sets(info, global_result(xyz, xyz, masses, xyz.dims[0], ctr, ctr, r200, safe, tol, wall, least, reduced))
    c.returns(info)


@contract(P + 'calcObjMorphGlobalVelDisp', 'morph_info:R[12] r200:R xyz:R[n,3] vxyz:R[n,3] xyz_princ:R[n,3] masses:R[n] ellipsoid:I[>=n] r_ell:R[>=n] center:R[3] vcenter:R[3] %s %s SAFE:R reduced:B' % (SCR, CTL))
def calcObjMorphGlobalVelDisp(c, info, r200, xyz, vxyz, xyz_princ, masses, shell, r_ell, ctr, vctr, st, ev, ec, tol, wall, least, safe, reduced):
    scratch(c, xyz_princ, shell, r_ell, st, ev, ec)
    control(c, tol, wall)
    c.sets(info, global_result(xyz, vxyz, masses, xyz.dims[0], ctr, vctr, r200, safe, tol, wall, least, reduced))
    c.returns(info)


# ---- drivers over all objects --------------------------------------------------------------------------------

def extent(x, n):
    """largest coordinate extent of the particles"""
    def ext(a):
        f = t.mklam(1, lambda k: x(k, a))
        return sub(t.opq('max', (n, f)), t.opq('min', (n, f)))
    return maxr(maxr(ext(0), ext(1)), ext(2))


def shape_center(cat, p, CENTER):
    return center(cat, p, CENTER, extent(cat.x(p), cat.size(p)))


def masked(v):
    return ite(eq(v, num(0)), NAN, v)


def outputs(c, cat, col, L, CENTER, extra):
    """d, q, s, minor, intermediate, major axes, centres, masses; extra: dimension of the radial axis or None"""
    dims = [cat.nb] + ([extra] if extra is not None else [])

    def scalar(j):
        return c.array('R', dims, lambda p, *r: masked(col(p, *r)(t.lift(j, 'I'))))

    def axis(first):
        def f(p, *rest):
            a = rest[-1]
            f = col(p, *rest[:-1])
            v = ite(eq(a, ZERO_I), f(t.lift(first, 'I')), ite(eq(a, t.lift(1, 'I')), f(t.lift(first + 1, 'I')), f(t.lift(first + 2, 'I'))))
            return ite(or_(eq(f(ZERO_I), num(0)), t.isnan(f(ZERO_I))), NAN, v)
        return c.array('R', dims + [t.lift(3, 'I')], f)
    c.returns((scalar(0), scalar(1), scalar(2), axis(9), axis(6), axis(3),
               c.array('R', [cat.nb, t.lift(3, 'I')], lambda p, a: recentred(shape_center(cat, p, CENTER)(a), L)),
               c.array('R', [cat.nb], lambda p: total(cat.m(p), cat.size(p)))))


def velocities(cat, vxyz, p):
    return lambda k, a: vxyz(cat.pid(p, k), a)


def driver(c, xyz, vxyz, masses, r200, idx_cat, obj_size, L, tol, wall, CENTER):
    cat = Cat(xyz, masses, idx_cat, obj_size, L)
    cat.require(c)
    control(c, tol, wall)
    c.requires(lt(ZERO_I, cat.nb), 'at least one object')
    return cat


def centers_of(cat, vxyz, p, CENTER):
    ctr = shape_center(cat, p, CENTER)
    if vxyz is None:
        return cat.x(p), ctr, ctr
    v = velocities(cat, vxyz, p)
    return v, ctr, com_of(v, cat.m(p), cat.size(p))


def local_spec(c, xyz, vxyz, masses, r200, idx_cat, obj_size, L, R, tol, wall, least, CENTER, reduced, shell_based):
    cat = driver(c, xyz, vxyz, masses, r200, idx_cat, obj_size, L, tol, wall, CENTER)

    def col(p, r):
        v, ctr, vctr = centers_of(cat, vxyz, p, CENTER)
        return local_result(cat.x(p), v, cat.m(p), cat.size(p), ctr, vctr, r200(p), R, r, tol, wall, least, reduced, shell_based)
    outputs(c, cat, col, L, CENTER, R.dims[0])


def global_spec(c, xyz, vxyz, masses, r200, idx_cat, obj_size, L, tol, wall, least, CENTER, safe, reduced):
    cat = driver(c, xyz, vxyz, masses, r200, idx_cat, obj_size, L, tol, wall, CENTER)

    def col(p):
        v, ctr, vctr = centers_of(cat, vxyz, p, CENTER)
        return global_result(cat.x(p), v, cat.m(p), cat.size(p), ctr, vctr, r200(p), safe, tol, wall, least, reduced)
    outputs(c, cat, col, L, CENTER, None)


@contract(P + 'calcMorphLocal', 'xyz:R[n,3] masses:R[n] r200:R[b] %s L_BOX:R r_over_r200:R[r] %s CENTER:S reduced:B shell_based:B' % (CAT, CTL), level='top')
def calcMorphLocal(c, xyz, masses, r200, idx_cat, obj_size, L, R, tol, wall, least, CENTER, reduced, shell_based):
    local_spec(c, xyz, None, masses, r200, idx_cat, obj_size, L, R, tol, wall, least, CENTER, reduced, shell_based)


@contract(P + 'calcMorphLocalVelDisp', 'xyz:R[n,3] vxyz:R[n,3] masses:R[n] r200:R[b] %s L_BOX:R r_over_r200:R[r] %s CENTER:S reduced:B shell_based:B' % (CAT, CTL), level='top')
def calcMorphLocalVelDisp(c, xyz, vxyz, masses, r200, idx_cat, obj_size, L, R, tol, wall, least, CENTER, reduced, shell_based):
    local_spec(c, xyz, vxyz, masses, r200, idx_cat, obj_size, L, R, tol, wall, least, CENTER, reduced, shell_based)


@contract(P + 'calcMorphGlobal', 'xyz:R[n,3] masses:R[n] r200:R[b] %s L_BOX:R %s CENTER:S SAFE:R reduced:B' % (CAT, CTL), level='top')
def calcMorphGlobal(c, xyz, masses, r200, idx_cat, obj_size, L, tol, wall, least, CENTER, safe, reduced):
    global_spec(c, xyz, None, masses, r200, idx_cat, obj_size, L, tol, wall, least, CENTER, safe, reduced)


@contract(P + 'calcMorphGlobalVelDisp', 'xyz:R[n,3] vxyz:R[n,3] masses:R[n] r200:R[b] %s L_BOX:R %s CENTER:S SAFE:R reduced:B' % (CAT, CTL), level='top')
def calcMorphGlobalVelDisp(c, xyz, vxyz, masses, r200, idx_cat, obj_size, L, tol, wall, least, CENTER, safe, reduced):
    global_spec(c, xyz, vxyz, masses, r200, idx_cat, obj_size, L, tol, wall, least, CENTER, safe, reduced)


from ..contract import REGISTRY     # noqa: E402
for _k, _n in (('runShellAlgo', 3), ('runShellVDispAlgo', 3), ('runEllAlgo', 2), ('runEllVDispAlgo', 2)):
    REGISTRY[P + _k].parts = _n

"""Contracts of the halo catalogue (cosmic_profiles/gadget/gen_catalogues.pyx)."""
from ..terms import *
from .. import terms as t
from ..contract import contract
from . import routines

P = 'cosmic_profiles/gadget/gen_catalogues.pyx::'


def selected(nb, sh, least):
    """the halos with a subhalo whose first subhalo is large enough"""
    first = lambda p: sh(Sum(ZERO_I, p, nb))
    return first, t.mklam(1, lambda p: and_(lt(ZERO_I, nb(p)), le(least, first(p))))


@contract(P + 'calcObjCat', 'nb_shs:I[h] sh_len:I[s] fof_sizes:I[h] group_r200:R[h] MIN_NUMBER_PTCS:I', level='top')
def calcObjCat(c, nb, sh, fof, r200, least):
    h = nb.dims[0]
    c.requires(lt(ZERO_I, h), 'at least one halo')
    c.requires(le(t.ONE_I, least), 'a positive minimum number of particles')
    c.requires(c.forall(h, lambda p: le(ZERO_I, nb(p))), 'numbers of subhalos are not negative')
    c.requires(c.forall(h, lambda p: le(ZERO_I, fof(p))), 'sizes are not negative')
    c.requires(c.forall(sh.dims[0], lambda p: le(ZERO_I, sh(p))), 'sizes are not negative')
    c.requires(le(Sum(ZERO_I, h, nb), sh.dims[0]), 'the subhalos of every halo are listed')
    first, ok = selected(nb, sh, least)
    cnt = t.count_of(ZERO_I, h, ok)
    kept = lambda k: t.filt(ZERO_I, k, ok)
    start = lambda p: Sum(ZERO_I, p, fof)
    size = lambda k: first(kept(k))

    def content(j):
        k, off = routines.segment_of(j, size)
        return start(kept(k)) + off
    c.returns((c.array('I', [Sum(ZERO_I, cnt, size)], content), c.array('R', [cnt], lambda k: r200(kept(k))), c.array('I', [cnt], size)))

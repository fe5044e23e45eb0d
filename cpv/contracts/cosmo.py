"""Contracts of cosmic_profiles/common/cosmo_tools.py: splitting objects by mass.

The order of the objects by mass is argsort's, known only as a permutation that puts the masses in ascending order (the
axioms of numpy's argsort, asserted where the body calls it and proved again here as facts about what is returned)."""
from ..terms import *
from .. import terms as t
from ..contract import contract
from ..engine import NONE

P = 'cosmic_profiles/common/cosmo_tools.py::'


def least(a, b):
    return ite(le(a, b), a, b)


def ceil_div(a, b):
    return uf('idiv', (sub(add(a, b), ONE_I), b), 'I')


@contract(P + 'getBlocks', 'lst:R[l] n:I', level='internal', inline_at_calls=True)
def getBlocks(c, lst, n):
    l = lst.dims[0]
    c.requires(lt(ZERO_I, n), 'blocks have a positive size')
    width = lambda k: sub(least(mul(n, add(k, ONE_I)), l), mul(n, k))
    c.returns(c.ragged('R', ceil_div(l, n), lambda k: [width(k)], lambda k, j: lst(add(mul(n, k), j))))


def vectors(eng, st, env):
    return eng.new_store(st, 'v', (env['n'], env.setdefault('x', t.var('n_x', 'I'))), 'R', t.mklam(2, lambda *ix: uf('p_v', ix, 'R')))


@contract(P + 'M_split', 'm:R[n] center:R[n,w] start_time:R v:* NB_BINS:I', level='top',
          variants=[{'v': NONE}, {'v': vectors}])
def M_split(c, m, center, start_time, v, bins):
    n = m.dims[0]
    c.requires(lt(ZERO_I, bins), 'at least one bin')
    # every group but the last holds the same number of objects; no more groups than bins
    size = ite(eq(uf('mod', (n, bins), 'I'), ZERO_I), uf('idiv', (n, bins), 'I'), add(uf('idiv', (n, bins), 'I'), ONE_I))
    G = ite(eq(n, ZERO_I), ZERO_I, ceil_div(n, size))
    first = lambda g: mul(size, g)
    width = lambda g: sub(least(first(add(g, ONE_I)), n), first(g))
    place = lambda k: opq('argsort', (n, m.lam(), k), 'I')
    ranked = lambda k: m(place(k))
    edges = c.array('R', [ite(eq(n, ZERO_I), ZERO_I, add(G, ONE_I))], lambda g: ite(lt(g, G), ranked(first(g)), ranked(sub(n, ONE_I))))
    m_groups = c.ragged('R', G, lambda g: [width(g)], lambda g, k: ranked(add(first(g), k)), islist=True)
    centres = c.ragged('R', G, lambda g: [width(g), center.dims[1]], lambda g, k, d: center(place(add(first(g), k)), d))
    ids = c.ragged('I', G, lambda g: [width(g)], lambda g, k: place(add(first(g), k)), islist=True)
    if v is None:
        c.returns((edges, m_groups, centres, ids))
    else:
        c.returns((edges, m_groups, centres, c.ragged('R', G, lambda g: [width(g), v.dims[1]], lambda g, k, d: v(place(add(first(g), k)), d)), ids))
    # no object is lost or listed twice, masses ascend, no group is empty, at most as many groups as bins
    g, k, i, j = (t.fresh(x, 'I') for x in 'gkij')
    inn = lambda x: and_(le(ZERO_I, x), lt(x, n))
    rank = lambda k: opq('argsort_inv', (n, m.lam(), k), 'I')
    c.fact(t.forall([k], or_(not_(inn(k)), and_(inn(place(k)), eq(rank(place(k)), k)))))
    c.fact(t.forall([k], or_(not_(inn(k)), and_(inn(rank(k)), eq(place(rank(k)), k)))))
    c.fact(t.forall([i, j], or_(not_(inn(i)), not_(inn(j)), lt(j, i), le(ranked(i), ranked(j)))))
    c.lemma(t.forall([g], or_(lt(g, ZERO_I), le(G, g), lt(ZERO_I, width(g)))))
    c.lemma(t.forall([g], or_(lt(g, ZERO_I), le(sub(G, ONE_I), g), eq(size, width(g)))))
    c.lemma(le(n, mul(bins, size)))
    c.lemma(or_(eq(n, ZERO_I), eq(n, add(first(sub(G, ONE_I)), width(sub(G, ONE_I))))))

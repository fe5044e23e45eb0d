"""Normal forms: guarded polynomials over atoms, with rules for finite sums.

A term of numeric sort becomes  sum of c * [g1]...[gm] * a1^e1 ... an^en  with 0/1 indicators of atomic conditions.
Rules used for sums (all valid identities over the reals):
  linearity; factors and guards independent of the index move outside; sum_k [k == e] f(k) = [lo <= e < hi] f(e);
  sum_{n < #P} g(n-th index with P) = sum_k [P(k)] g(k);  sum up to e+1 = sum up to e plus the last term;
  the sum of a constant c is c * max(hi - lo, 0).
"""
from fractions import Fraction
from . import terms as t
from .terms import (T, TRUE, FALSE, ZERO_I, ONE_I, num, var, and_, or_, not_, ite, eq, le, lt, add, sub, mul, ipow,
                    lam, app, subst, sum_)

LIMIT = 600


class TooBig(Exception):
    pass


def atoms_of(c):
    """conjunction as list of conditions"""
    return c.args if c.op == 'and' else (c,)


class Norm:
    def __init__(self, hyps=(), parent=None):
        self.hyps = tuple(hyps)
        self.memo = {}
        self.cheapmemo = {}
        self.le_h = [h.args[0] for h in self.hyps if h.op == 'le' and h.args[0].sort == 'I']
        eqs = [h.args[0] for h in self.hyps if h.op == 'eq' and h.args[0].sort == 'I']
        for p in eqs:
            self.le_h.append(p)
            self.le_h.append(mul(num(-1, 'I'), p))
        self.hset = set(self.hyps)
        self.children = {}
        self.depth = 0 if parent is None else parent.depth + 1

    def child(self, extra):
        c = self.children.get(extra)
        if c is None:
            c = Norm(self.hyps + tuple(x for x in extra if x is not TRUE), self)
            c.hset |= self.hset
            self.children[extra] = c
        return c

    # ---- cheap entailment ---------------------------------------------------------------------------------
    def cheap(self, g):
        if g is TRUE or g is FALSE:
            return g
        r = self.cheapmemo.get(g)
        if r is None:
            r = self._cheap(g)
            self.cheapmemo[g] = r
        return None if r is Norm else r

    def _cheap(self, g):
        if g in self.hset:
            return TRUE
        if not_(g) in self.hset:
            return FALSE
        if g.op == 'le' and g.args[0].sort == 'I':
            if self.lin(g.args[0]):
                return TRUE
            n = not_(g)
            if n.op == 'le' and self.lin(n.args[0]):
                return FALSE
        if g.op == 'eq' and g.args[0].sort == 'I':
            p = g.args[0]
            if self.lin(add(p, ONE_I)) or self.lin(add(mul(num(-1, 'I'), p), ONE_I)):
                return FALSE
            if self.lin(p) and self.lin(mul(num(-1, 'I'), p)):
                return TRUE
        return Norm

    def lin(self, p):
        """p <= 0 follows from one or two of the hypotheses by addition"""
        cand = []
        for h in self.le_h:
            d = sub(p, h)
            if d.op == 'num':
                if d.data <= 0:
                    return True
            else:
                cand.append(d)
        pv = p._fv
        for h, d in zip([h for h in self.le_h if sub(p, h).op != 'num'], cand):
            if not (h._fv & pv) and h._fv:
                continue
            for h2 in self.le_h:
                e = sub(d, h2)
                if e.op == 'num' and e.data <= 0:
                    return True
        return False

    # ---- guarded polynomials ------------------------------------------------------------------------------
    def norm(self, x):
        """canonical term equal to x"""
        r = self.memo.get(x)
        if r is not None:
            return r
        if x.sort in ('I', 'R'):
            try:
                r = self.build(self.gp(x), x.sort)
            except TooBig:
                r = t.rebuild(x, tuple(self.norm(a) for a in x.args)) if x.args else x
        elif x.sort == 'B':
            r = self.nbool(x)
        elif x.op == 'lam':
            r = self.nlam(x)
        else:
            r = t.rebuild(x, tuple(self.norm(a) for a in x.args)) if x.args else x
        self.memo[x] = r
        self.memo.setdefault(r, r)
        return r

    def binder(self, sort, j=0):
        return var('~%s%d_%d' % (sort, self.depth, j), sort)

    def nlam(self, x, extra=lambda vs: ()):
        vs = [self.binder(a.sort, j) for j, a in enumerate(x.args[:-1])]
        b = app(x, vs)
        b = self.child(tuple(extra(vs)) + (eq_marker(self.depth),)).norm(b)
        return lam(vs, b)

    def nbool(self, x):
        if x is TRUE or x is FALSE:
            return x
        c = self.cheap(x)
        if c is not None:
            return c
        if x.op in ('le', 'lt', 'eq'):
            p = self.norm(x.args[0])
            if p.op == 'ite' and (p.args[1].op == 'num' or p.args[2].op == 'num'):
                return self.nbool(ite(p.args[0], t.rebuild(x, (p.args[1],)), t.rebuild(x, (p.args[2],))))
            r = t.rebuild(x, (p,))
            c = self.cheap(r)
            return r if c is None else c
        if x.op == 'and':
            return and_(*[self.norm(a) for a in x.args])
        if x.op == 'or':
            return or_(*[self.norm(a) for a in x.args])
        if x.op == 'uf' and x.data == 'isnan':
            r = t.isnan(self.norm(x.args[0]))
            if r is not x and r.op != 'uf':
                return self.nbool(r)
        if x.op in ('not', 'iff', 'ite', 'seq', 'uf', 'opq', 'forall', 'fold'):
            r = t.rebuild(x, tuple(self.norm(a) for a in x.args))
            c = self.cheap(r)
            return r if c is None else c
        return x

    def ind(self, c):
        """indicator polynomial of a condition: {guards: coefficient}"""
        c = self.norm(c)
        if c is TRUE:
            return {frozenset(): Fraction(1)}
        if c is FALSE:
            return {}
        if c.op == 'and':
            acc = {frozenset(): Fraction(1)}
            for a in c.args:
                acc = self.imul(acc, self.ind(a))
            return acc
        if c.op == 'or':
            return self.ineg(self.ind(and_(*[not_(a) for a in c.args])))
        if c.op == 'not':
            return self.ineg(self.ind(c.args[0]))
        if c.op == 'iff':
            a, b = self.ind(c.args[0]), self.ind(c.args[1])
            r = {frozenset(): Fraction(1)}
            ab = self.imul(a, b)
            for m, k in ((a, -1), (b, -1), (ab, 2)):
                for g, v in m.items():
                    r[g] = r.get(g, 0) + k * v
            return {g: v for g, v in r.items() if v}
        if c.op == 'ite':
            a, b, d = [self.ind(z) for z in c.args]
            r = dict(self.imul(a, b))
            for g, v in self.imul(self.ineg(a), d).items():
                r[g] = r.get(g, 0) + v
            return {g: v for g, v in r.items() if v}
        if c.op == 'le' and c.args[0].sort == 'R':
            return self.ineg({frozenset([not_(c)]): Fraction(1)})
        n = not_(c)
        if n.op != 'not' and n.id < c.id:
            return self.ineg({frozenset([n]): Fraction(1)})
        return {frozenset([c]): Fraction(1)}

    def ineg(self, m):
        r = {frozenset(): Fraction(1)}
        for g, v in m.items():
            r[g] = r.get(g, 0) - v
        return {g: v for g, v in r.items() if v}

    def imul(self, a, b):
        r = {}
        for g, v in a.items():
            for h, w in b.items():
                k = self.gunion(g, h)
                r[k] = r.get(k, 0) + v * w
        r = {g: v for g, v in r.items() if v}
        if len(r) > LIMIT:
            raise TooBig()
        return r

    def gunion(self, g, h):
        return g | h

    def gp(self, x):
        """{(guards, monomial): coefficient}; monomial = tuple of (atom, exponent)"""
        key = ('gp', x)
        r = self.memo.get(key)
        if r is None:
            r = self._gp(x)
            if len(r) > LIMIT:
                raise TooBig()
            self.memo[key] = r
        return r

    def atom(self, a, e=1):
        return {(frozenset(), ((a, e),)): Fraction(1)}

    def _gp(self, x):
        op = x.op
        if op == 'num':
            return {(frozenset(), ()): x.data} if x.data else {}
        if op == 'add':
            r = {}
            for a in x.args:
                for k, v in self.gp(a).items():
                    r[k] = r.get(k, 0) + v
            return {k: v for k, v in r.items() if v}
        if op == 'mul':
            r = {(frozenset(), ()): Fraction(1)}
            for a in x.args:
                r = self.pmul(r, self.gp(a))
            return r
        if op == 'ipow':
            b = x.args[0]
            n = x.data
            if n > 0:
                g = self.gp(b)
                if n <= 4 or len(g) == 1:
                    r = {(frozenset(), ()): Fraction(1)}
                    for _ in range(n):
                        r = self.pmul(r, g)
                    return r
                return self.atom(self.norm(b), n)
            g = self.gp(b)
            if len(g) == 1:
                (gs, m), c = next(iter(g.items()))
                if not gs:
                    return {(gs, tuple((a, e * n) for a, e in m)): c ** n}
            if b.op == 'ite':
                return self.gp(ite(b.args[0], ipow(b.args[1], n), ipow(b.args[2], n)))
            # ites with few cases are moved out of the denominator
            gg = set()
            for gs, m in g:
                gg |= gs
            if gg and len(gg) <= 3:
                c = sorted(gg, key=lambda z: z.id)[0]
                b1 = self.child((c,)).norm(b)
                b2 = self.child((not_(c),)).norm(b)
                if b1 is not b2 and b1 is not b and b2 is not b:
                    return self.gp(ite(c, ipow(b1, n), ipow(b2, n)))
            bb = self.build(g, 'R')
            if bb.op == 'num':
                return self.gp(ipow(bb, n))
            z = ipow(bb, n)
            c, at = t._coef(z)
            if at is None:
                return self.gp(z)
            if at.op == 'ipow':
                return {(frozenset(), ((at.args[0], at.data),)): c}
            return {(frozenset(), ((at, 1),)): c}
        if op == 'ite':
            i1 = self.ind(x.args[0])
            a, b = self.gp(x.args[1]), self.gp(x.args[2])
            d = dict(a)
            for k, v in b.items():
                d[k] = d.get(k, 0) - v
            r = dict(b)
            for g, v in i1.items():
                for (h, m), w in d.items():
                    if not w:
                        continue
                    k = (self.gunion(g, h), m)
                    r[k] = r.get(k, 0) + v * w
            return {k: v for k, v in r.items() if v}
        if op == 'toreal':
            r = {}
            for (g, m), c in self.gp(x.args[0]).items():
                m2 = tuple((t.to_real(a), e) for a, e in m)
                r[(g, tuple(sorted(m2, key=lambda z: z[0].id)))] = c
            return r
        if op == 'sum':
            return self.gp_sum(x)
        if op == 'fold':
            lo, n, init, f = x.args
            if n is lo:
                return self.gp(init)
        if op == 'seg':
            r = self.rw_seg(x)
            if r is not None:
                return self.gp(r)
        if op == 'filt':
            r = self.rw_filt(x)
            if r is not None:
                return self.gp(r)
        if not x.args:
            return self.atom(x)
        y = t.rebuild(x, tuple(self.norm(a) for a in x.args))
        if y is not x and y.op in ('num', 'add', 'mul', 'ite', 'ipow', 'sum'):
            return self.gp(y)
        return self.atom(y)

    def rw_seg(self, x):
        return None

    def rw_filt(self, x):
        lo, n, P = x.args
        n2 = self.norm(n)
        # the sum_{k<i}[P(k)]-th selected index is i itself when P(i)
        if n.op == 'sum' and n.args[0] is lo and indicator(n.args[2]) is P:
            i = n.args[1]
            c = self.norm(app(P, [i]))
            if c is TRUE and self.cheap(le(lo, i)) is TRUE:
                return i
        return None

    def pmul(self, a, b):
        r = {}
        for (g, m), v in a.items():
            for (h, n), w in b.items():
                k = (self.gunion(g, h), mono_mul(m, n))
                r[k] = r.get(k, 0) + v * w
                if len(r) > LIMIT:
                    raise TooBig()
        out = {}
        for (g, m), v in r.items():
            if not v:
                continue
            # sqrt(x)^2 = x
            sq = [(a_, e) for a_, e in m if a_.op == 'uf' and a_.data == 'sqrt' and abs(e) >= 2]
            if sq:
                rest = tuple((a_, e) for a_, e in m if (a_, e) not in sq)
                acc = {(g, rest): v}
                for a_, e in sq:
                    h = int(e / 2)
                    acc = self.pmul(acc, self.gp(ipow(a_.args[0], h)))
                    if e - 2 * h:
                        acc = self.pmul(acc, self.atom(a_, e - 2 * h))
                for k, w in acc.items():
                    out[k] = out.get(k, 0) + w
            else:
                out[(g, m)] = out.get((g, m), 0) + v
        return {k: v for k, v in out.items() if v}

    def gp_sum(self, x):
        lo, hi, L = x.args
        sort = x.sort
        if hi.op == 'ite':
            cd = hi.args[0]
            br = [sum_(t.replace(lo, {cd: v}), t.replace(h, {cd: v}), t.replace(L, {cd: v}))
                  for v, h in ((TRUE, hi.args[1]), (FALSE, hi.args[2]))]
            return self.gp(ite(cd, *br))
        # sums over the selected indices
        P = None
        if hi.op == 'sum' and lo.op == 'num' and lo.data == 0:
            P = indicator(hi.args[2])
        if P is not None:
            k = self.binder('I', 7)
            b = app(L, [k])
            f = [z for z in t.subterms(b, True) if z.op == 'filt' and z.args[1] is k and z.args[2] is P and z.args[0] is hi.args[0]]
            if f:
                j = self.binder('I', 8)
                b3 = t.replace(b, {f[0]: j})
                if k in b3._fv:
                    ch = self.child((le(lo, k), lt(k, hi), eq_marker(self.depth)))
                    b3 = t.replace(decide_ites(ch, b), {f[0]: j})
                if k not in b3._fv:
                    return self.gp(sum_(hi.args[0], hi.args[1], lam([j], ite(app(P, [j]), b3, num(0, b3.sort)))))
        lo2, hi2 = self.norm(lo), self.norm(hi)
        if lo2 is not lo or hi2 is not hi:
            y = sum_(lo2, hi2, L)
            if y is not x:
                return self.gp(y)
        # unfold the last terms of sum(lo, e + c)
        if hi.op == 'add':
            c, at = t._coef(hi.args[-1])
            if at is None and 1 <= c <= 3:
                e = sub(hi, num(c, 'I'))
                if self.cheap(le(lo, e)) is TRUE:
                    return self.gp(add(sum_(lo, e, L), *[app(L, [add(e, num(j, 'I'))]) for j in range(int(c))]))
        k = self.binder('I')
        ch = self.child((le(lo, k), lt(k, hi), eq_marker(self.depth)))
        try:
            body = ch.gp(app(L, [k]))
        except TooBig:
            b = ch.norm(app(L, [k]))
            return self.atom(t.mk('sum', (lo, hi, lam([k], b)), sort))
        r = {}

        def emit(d, c):
            for kk, v in d.items():
                r[kk] = r.get(kk, 0) + v * c
        for (g, m), c in body.items():
            gi = frozenset(z for z in g if k not in z._fv)
            gd = [z for z in g if k in z._fv]
            mi = tuple((a, e) for a, e in m if k not in a._fv)
            md = tuple((a, e) for a, e in m if k in a._fv)
            # delta
            done = False
            for z in gd:
                if z.op == 'eq' and z.args[0].sort == 'I':
                    s = solve1(z.args[0], k)
                    if s is not None:
                        rest = and_(*[w for w in gd if w is not z])
                        val = ite(and_(le(lo, s), lt(s, hi), subst(rest, {k: s})),
                                  subst(self.mono_term(md, sort), {k: s}), num(0, sort))
                        d = self.pmul(self.gp(val), {(gi, mi): Fraction(1)})
                        emit(d, c)
                        done = True
                        break
            if done:
                continue
            if not gd and not md:
                w = sub(hi, lo)
                w = w if sort == 'I' else t.to_real(w)
                cz = self.cheap(le(lo, hi))
                w = w if cz is TRUE else ite(le(lo, hi), w, num(0, sort))
                emit(self.pmul(self.gp(w), {(gi, mi): Fraction(1)}), c)
                continue
            b = ite(and_(*gd), self.mono_term(md, sort), num(0, sort))
            s = sum_(lo, hi, lam([k], b))
            if s.op == 'sum':
                d = self.atom(s)
            else:
                d = self.gp(s)
            emit(self.pmul(d, {(gi, mi): Fraction(1)}), c)
        return {k_: v for k_, v in r.items() if v}

    def mono_term(self, m, sort):
        if not m:
            return num(1, sort)
        return mul(*[ipow(a, e) for a, e in m]) if sort == 'R' else mul(num(1, 'I'), *[ipow(a, e) for a, e in m])

    def build(self, g, sort):
        by = {}
        for (gs, m), c in g.items():
            by.setdefault(gs, []).append(mul(num(c, sort), self.mono_term(m, sort)))
        out = []
        for gs, ms in by.items():
            s = add(num(0, sort), *ms)
            out.append(s if not gs else ite(and_(*gs), s, num(0, sort)))
        if not out:
            return num(0, sort)
        return add(num(0, sort), *out)

    def zero(self, p):
        """p == 0 by normalisation, clearing denominators"""
        try:
            g = self.gp(p)
        except TooBig:
            return False
        for _ in range(4):
            if not g:
                return True
            den = {}
            for (gs, m), c in g.items():
                for a, e in m:
                    if e < 0:
                        den[a] = max(den.get(a, 0), -e)
            if not den:
                return False
            mult = {(frozenset(), tuple(sorted(den.items(), key=lambda z: z[0].id))): Fraction(1)}
            try:
                g2 = {}
                for (gs, m), c in g.items():
                    m2 = mono_mul(m, next(iter(mult))[1])
                    # expand bases with positive exponent
                    cur = {(gs, ()): c}
                    for a, e in m2:
                        if a in den and e > 0 and a.op == 'add' and e <= 4:
                            for _i in range(e):
                                cur = self.pmul(cur, self.gp(a))
                        else:
                            cur = self.pmul(cur, {(frozenset(), ((a, e),)): Fraction(1)})
                    for k, v in cur.items():
                        g2[k] = g2.get(k, 0) + v
                g = {k: v for k, v in g2.items() if v}
            except TooBig:
                return False
        return not g


_marks = {}


def decide_ites(n, b):
    """conditional terms whose condition follows from the hypotheses of n (not under binders)"""
    memo = {}

    def go(x):
        r = memo.get(x)
        if r is not None:
            return r
        if not x.args or x.op == 'lam':
            r = x
        elif x.op == 'ite':
            c = x.args[0]
            d = [n.cheap(z) for z in atoms_of(c)]
            if all(z is TRUE for z in d):
                r = go(x.args[1])
            elif any(z is FALSE for z in d):
                r = go(x.args[2])
            else:
                r = t.rebuild(x, tuple(go(a) for a in x.args))
        else:
            r = t.rebuild(x, tuple(go(a) for a in x.args))
        memo[x] = r
        return r
    return go(b)


def eq_marker(d):
    """harmless hypothesis that separates the memo tables of different binding depths"""
    return TRUE


def indicator(L):
    """P with L = \\k. [P(k)]"""
    b = L.args[-1]
    if b.op == 'ite' and b.args[1].op == 'num' and b.args[2].op == 'num':
        if b.args[1].data == 1 and b.args[2].data == 0:
            k = t.fresh('k', 'I')
            return lam([k], app_b(L, k, b.args[0]))
        if b.args[1].data == 0 and b.args[2].data == 1:
            k = t.fresh('k', 'I')
            return lam([k], app_b(L, k, not_(b.args[0])))
    return None


def app_b(L, k, c):
    return subst(c, {L.args[0]: k})


def ctx_simp(n, x, memo=None):
    """decides conditions that follow from the context by linear arithmetic (index ranges); nothing else changes"""
    if memo is None:
        memo = {}
    key = (n, x)
    r = memo.get(key)
    if r is None:
        r = _ctx_simp(n, x, memo)
        memo[key] = r
    return r


def context(hyps, instances):
    """Norm for hyps and the consequences of the instances by modus ponens on linear conditions"""
    hyps = [z for y in hyps for z in (y.args if y.op == 'and' else (y,))]
    n = Norm(tuple(hyps))

    def ev(d):
        if d.op == 'and':
            return and_(*[ev(a) for a in d.args])
        if d.op == 'or':
            return or_(*[ev(a) for a in d.args])
        if d.op == 'not':
            return not_(ev(d.args[0]))
        r = n.cheap(d)
        return d if r is None else r
    flat = []
    for _ in range(2):
        flat = []
        for x in instances:
            y = ev(x)
            flat.extend(y.args if y.op == 'and' else (y,))
        n = Norm(tuple(hyps) + tuple(f for f in flat if f is not TRUE and f.op != 'or'))
    return n


def _int_cond(c):
    return all(a.op in ('le', 'eq') and a.args[0].sort == 'I' for a in (c.args if c.op == 'and' else (c,)))


def _ctx_simp(n, x, memo):
    if not x.args:
        return x
    if not any(y.op == 'ite' for y in t.subterms(x, True)):
        return x
    if x.op == 'ite':
        c = ctx_cond(n, x.args[0], memo)
        if c is TRUE:
            return ctx_simp(n, x.args[1], memo)
        if c is FALSE:
            return ctx_simp(n, x.args[2], memo)
        n1 = n2 = n
        if _int_cond(c):
            n1 = n.child(c.args if c.op == 'and' else (c,))
            nc = not_(c)
            if _int_cond(nc):
                n2 = n.child((nc,))
        return ite(c, ctx_simp(n1, x.args[1], memo), ctx_simp(n2, x.args[2], memo))
    if x.sort == 'B' and x.op in ('le', 'lt', 'eq', 'and', 'or', 'not'):
        return ctx_cond(n, x, memo)
    rng = None
    if x.op in ('sum', 'fold'):
        rng = (x.args[0], x.args[1])
    elif x.op == 'opq' and str(x.data).startswith('#') and x.args[0].sort == 'I':
        rng = (ZERO_I, x.args[0])
    out = []
    for a in x.args:
        if a.op == 'lam':
            vs, b = t.open_lam(a, 'c')
            m = n
            if rng is not None and vs and vs[0].sort == 'I':
                m = n.child((le(rng[0], vs[0]), lt(vs[0], rng[1])))
            out.append(lam(vs, ctx_simp(m, b, memo)))
        else:
            out.append(ctx_simp(n, a, memo))
    return t.rebuild(x, tuple(out))


def ctx_cond(n, c, memo):
    r = n.cheap(c)
    if r is not None:
        return r
    if c.op == 'and':
        return and_(*[ctx_cond(n, a, memo) for a in c.args])
    if c.op == 'or':
        return or_(*[ctx_cond(n, a, memo) for a in c.args])
    if c.op == 'not':
        return not_(ctx_cond(n, c.args[0], memo))
    r = t.rebuild(c, tuple(ctx_simp(n, a, memo) for a in c.args)) if c.args else c
    s = n.cheap(r)
    if s is not None:
        return s
    if r.op == 'le' and r.args[0].sort == 'I':
        p = r.args[0]
        m = mul(num(-1, 'I'), p)
        if n.lin(m):
            return eq(p, ZERO_I)                    # p <= 0 where p >= 0
        if n.lin(add(m, num(-1, 'I'))):
            return not_(eq(add(p, ONE_I), ZERO_I))   # p <= 0 where p >= -1
    return r


def solve1(p, k):
    args = p.args if p.op == 'add' else (p,)
    for a in args:
        c, at = t._coef(a)
        if at is k and abs(c) == 1:
            rest = sub(p, a)
            if k in rest._fv:
                return None
            return mul(num(-c, p.sort), rest)
    return None


def mono_mul(m, n):
    if not m:
        return n
    if not n:
        return m
    d = dict(m)
    for a, e in n:
        v = d.get(a, 0) + e
        if v:
            d[a] = v
        else:
            d.pop(a, None)
    return tuple(sorted(d.items(), key=lambda z: z[0].id))

"""Abstraction of conditions: every condition over real quantities becomes an application of a named predicate to the
integer variables it mentions (two instances of one template share the predicate). Proving the abstracted goal from
the abstracted hypotheses proves the original one; when that fails the original is tried as it is."""
from . import terms as t
from .terms import TRUE, FALSE, not_, and_, or_, uf, lam, subst, mul, num, lt


def real_atom(x):
    return (x.op in ('le', 'lt', 'eq') and x.args[0].sort == 'R') or x.op == 'seq' or (x.op in ('uf', 'opq') and x.sort == 'B')


class Abstractor:
    def __init__(self, level):
        self.level = level
        self.memo = {}
        self.tmpl = {}
        self.realonly_memo = {}

    def realonly(self, x):
        r = self.realonly_memo.get(x)
        if r is None:
            if real_atom(x):
                r = True
            elif x.op in ('and', 'or', 'not', 'iff'):
                r = all(self.realonly(a) for a in x.args)
            else:
                r = False
            self.realonly_memo[x] = r
        return r

    def role_key(self, x, vs):
        occ = {v: [] for v in vs}
        first = {}

        def go(y, ctx, seen):
            if y in occ:
                occ[y].append(ctx)
                first.setdefault(y, len(first))
                return
            if not any(v in y._fv for v in vs):
                return
            k = (y, ctx)
            if k in seen:
                return
            seen.add(k)
            for pos, a in enumerate(y.args):
                if y.op in ('uf', 'opq'):
                    c = (str(y.data), pos)
                elif y.op in ('add', 'mul', 'and', 'or'):
                    c = ctx
                else:
                    c = (y.op, pos)
                go(a, c, seen)
        go(x, ('', 0), set())
        return {v: (sorted(set(occ[v])), first.get(v, 0)) for v in vs}

    def predicate(self, x):
        if x in (TRUE, FALSE):
            return x
        vs = [v for v in x._fv if v.sort == 'I']
        if len(vs) > 1:
            rk = self.role_key(x, vs)
            vs.sort(key=lambda v: (rk[v][0], rk[v][1]))
        L = lam(vs, x) if vs else x
        name = self.tmpl.get(L)
        if name is None:
            name = 'Q%d' % len(self.tmpl)
            self.tmpl[L] = name
        return uf('~' + name, tuple(vs), 'B')

    def canon_atom(self, x):
        if x.op == 'le':
            return not_(self.predicate(not_(x)))
        if x.op == 'uf':
            return x
        return self.predicate(x)

    def cond(self, x):
        """x: real-only condition"""
        if self.level == 1 or x.op not in ('and', 'or', 'not', 'iff'):
            if x.op in ('and', 'or', 'not', 'iff'):
                return self.rebuild(x)
            return self.canon_atom(x)
        if x.op == 'not':
            return not_(self.cond(x.args[0]))
        if x.op == 'or':
            return not_(self.cond(and_(*[not_(a) for a in x.args])))
        if x.op == 'iff':
            return self.rebuild(x)
        return self.predicate(x)

    def rebuild(self, x):
        return t.rebuild(x, tuple(self.go(a) for a in x.args))

    def go(self, x):
        r = self.memo.get(x)
        if r is not None:
            return r
        if x.sort == 'B' and self.realonly(x):
            r = self.cond(x)
        elif x.op == 'and':
            ro = [a for a in x.args if self.realonly(a)]
            rest = [a for a in x.args if not self.realonly(a)]
            r = and_(*([self.cond(and_(*ro))] if ro else []), *[self.go(a) for a in rest])
        elif x.op == 'or':
            ro = [a for a in x.args if self.realonly(a)]
            rest = [a for a in x.args if not self.realonly(a)]
            r = or_(*([self.cond(or_(*ro))] if ro else []), *[self.go(a) for a in rest])
        elif x.op == 'lam':
            vs, b = t.open_lam(x, 'b')
            r = lam(vs, self.go(b))
        elif not x.args:
            r = x
        else:
            r = self.rebuild(x)
        self.memo[x] = r
        return r

    def top(self, x):
        """an equation between reals to be proved stays an equation"""
        if x.op in ('eq', 'le', 'lt') and x.args[0].sort == 'R':
            return t.rebuild(x, tuple(self.go(a) for a in x.args))
        if x.op in ('and', 'or', 'not'):
            return t.rebuild(x, tuple(self.top(a) for a in x.args))
        return self.go(x)


def abstract(hyps, goal, level):
    a = Abstractor(level)
    g = a.top(goal)
    hs = []
    for h in hyps:
        r = a.go(h)
        hs.append(r)
        if h.op == 'eq' and h.args[0].sort == 'R':
            hs.append(a.top(h))
    return tuple(hs), g, a

"""Discharges obligations: propositional splitting, the normaliser, lemma instances for sums, counts, filters and
segments, congruence of binder terms proved pointwise, then z3 (cvc5 as a second back end)."""
import os
import re
import subprocess
import tempfile
import time
from fractions import Fraction
import z3
from . import terms as t
from .terms import (T, TRUE, FALSE, ZERO_I, ONE_I, num, var, fresh, and_, or_, not_, ite, eq, le, lt, add, sub, mul,
                    lam, app, subst, sum_)
from .absn import abstract
from .norm import TooBig
from .norm import Norm, indicator, solve1, ctx_simp, context

z3.set_param('memory_max_size', 6000)
BINDERS = ('sum', 'filt', 'fold', 'seg', 'opq')


class Enc:
    """translation to z3; products of variables are uninterpreted unless nl"""
    def __init__(self, nl=False):
        self.nl = nl
        self.m = {}
        self.fs = {}
        self.S = z3.DeclareSort('Str')
        self.strs = {}
        self.consts = {}

    def sort(self, s):
        return {'I': z3.IntSort(), 'R': z3.RealSort(), 'B': z3.BoolSort(), 'S': self.S}[s]

    def fn(self, name, args, res):
        k = (name, tuple(args), res)
        f = self.fs.get(k)
        if f is None:
            nm = '%s/%s' % (name, len(self.fs))
            f = z3.Function(nm, *[self.sort(a) for a in args], self.sort(res)) if args else z3.Const(nm, self.sort(res))
            self.fs[k] = f
        return f

    def const(self, x, tag='c'):
        c = self.consts.get(x)
        if c is None:
            c = z3.Const('%s!%d' % (tag, x.id), self.sort(x.sort))
            self.consts[x] = c
        return c

    def __call__(self, x):
        r = self.m.get(x)
        if r is None:
            r = self.enc(x)
            self.m[x] = r
        return r

    def enc(self, x):
        op = x.op
        if op == 'num':
            if x.sort == 'I':
                return z3.IntVal(int(x.data))
            return z3.RealVal('%d/%d' % (x.data.numerator, x.data.denominator))
        if op == 'true':
            return z3.BoolVal(True)
        if op == 'false':
            return z3.BoolVal(False)
        if op == 'str':
            c = self.strs.get(x.data)
            if c is None:
                c = z3.Const('str_%d' % len(self.strs), self.S)
                self.strs[x.data] = c
            return c
        if op == 'var':
            return z3.Const('v!%s!%s' % (x.data, x.sort), self.sort(x.sort))
        if op == 'add':
            return z3.Sum([self(a) for a in x.args])
        if op == 'mul':
            c, fs = None, list(x.args)
            if fs[0].op == 'num':
                c = self(fs[0])
                fs = fs[1:]
            if len(fs) == 1:
                p = self(fs[0])
            elif self.nl:
                p = z3.Product([self(a) for a in fs])
            else:
                p = self(fs[0])
                for a in fs[1:]:
                    p = self.fn('mul', (x.sort, x.sort), x.sort)(p, self(a))
            return p if c is None else c * p
        if op == 'ipow':
            b = self(x.args[0])
            n = x.data
            if self.nl:
                if n > 0:
                    return z3.Product([b] * n)
                return self.fn('inv', ('R',), 'R')(z3.Product([b] * (-n)) if n < -1 else b)
            return self.fn('pow_%d' % n, (x.sort,), x.sort)(b)
        if op == 'toreal':
            return z3.ToReal(self(x.args[0]))
        if op in ('lt', 'le', 'eq'):
            p = self(x.args[0])
            z = z3.IntVal(0) if x.args[0].sort == 'I' else z3.RealVal(0)
            return p < z if op == 'lt' else p <= z if op == 'le' else p == z
        if op in ('seq', 'iff'):
            return self(x.args[0]) == self(x.args[1])
        if op == 'not':
            return z3.Not(self(x.args[0]))
        if op == 'and':
            return z3.And([self(a) for a in x.args])
        if op == 'or':
            return z3.Or([self(a) for a in x.args])
        if op == 'ite':
            return z3.If(self(x.args[0]), self(x.args[1]), self(x.args[2]))
        if op == 'uf':
            if x.data == 'idiv' and x.args[1].op == 'num' and x.args[1].data > 0:
                return self(x.args[0]) / self(x.args[1])
            if x.data == 'mod' and x.args[1].op == 'num' and x.args[1].data > 0:
                return self(x.args[0]) % self(x.args[1])
            if x.data == 'floor':
                return z3.ToReal(z3.ToInt(self(x.args[0])))
            if x.data == 'trunc':
                a = self(x.args[0])
                return z3.If(a >= 0, z3.ToInt(a), -z3.ToInt(-a))
            if any(a.op == 'lam' for a in x.args):
                return self.const(x, x.data)
            f = self.fn(str(x.data), [a.sort for a in x.args], x.sort)
            return f(*[self(a) for a in x.args]) if x.args else f
        if op == 'opq' and not any(a.op == 'lam' for a in x.args):
            f = self.fn('opq_' + str(x.data), [a.sort for a in x.args], x.sort)
            return f(*[self(a) for a in x.args]) if x.args else f
        # binders: a constant per distinct term
        return self.const(x, op)

    def extra(self):
        if len(self.strs) > 1:
            return [z3.Distinct(list(self.strs.values()))]
        return []


def ground(ts):
    """sub-terms outside binders"""
    seen = set()
    stack = list(ts)
    while stack:
        x = stack.pop()
        if x in seen or x.op == 'lam' or x.op == 'forall':
            continue
        seen.add(x)
        stack.extend(x.args)
    return seen


def generalised(hyps, goal):
    """angles of which nothing is known as variables: equal ones get the same"""
    m = {}
    for x in ground(tuple(hyps) + (goal,)):
        if x.op == 'uf' and x.data == 'arctan2':
            m[x] = t.var('angle!%d' % x.id, 'R')
    if not m:
        return hyps, goal
    # the outermost ones
    return tuple(t.replace(h, m) for h in hyps), t.replace(goal, m)


def iff_le(a, b):
    return and_(or_(not_(a), b), or_(not_(b), a))


def scaled_squares(x):
    """w*(a/b)^2 against w for a product w of squares; w*sin^2 + w*cos^2 = w"""
    fs = [a for a in x.args if a.op != 'num']
    if len(fs) < 2 or x.sort != 'R' or any(a.op != 'ipow' or abs(a.data) != 2 for a in fs):
        return []
    out = []
    one = num(1)
    m = mul(*fs)
    for b in fs:
        y = b.args[0]
        if b.data == -2:
            for a in fs:
                z = a.args[0]
                if a.data == 2:
                    w = mul(one, *[q for q in fs if q is not a and q is not b])
                    out.append(or_(le(y, t.ZERO), lt(z, t.ZERO), lt(y, z), le(m, w)))
                    out.append(or_(le(y, t.ZERO), lt(z, y), le(w, m)))
                    out.extend(scaled_squares(w) if w.op == 'mul' else [])
        elif y.op == 'uf' and y.data in ('sin', 'cos') and not any(q.data == -2 for q in fs):
            w = mul(one, *[q for q in fs if q is not b])
            o = t.uf('cos' if y.data == 'sin' else 'sin', y.args, 'R')
            out.append(eq(add(m, mul(w, t.ipow(o, 2))), w))
    return out


def named_lengths(hyps, goal):
    """segment lengths that are composed of other terms get a name, with its definition as a hypothesis"""
    Ls = {x.args[2] for x in t.subterms(goal, True) if x.op == 'seg' and not x.args[2]._fv & bound_vars(x.args[2]) and x.args[2].args[-1].op not in ('uf', 'var', 'num')}
    Ls = [L for L in Ls if not any(str(v.data).startswith('#') for v in L._fv)]
    if not Ls:
        return None, None
    m, defs = {}, []
    for L in Ls:
        nm = t.fresh_name('len')
        k = t.fresh('k', 'I')
        m[L] = t.lam([k], t.uf(nm, (k,), 'I'))
        defs.append(t.forall([k], eq(t.uf(nm, (k,), 'I'), app(L, [k]))))
    return tuple(t.replace(h, m) for h in hyps) + tuple(defs), t.replace(goal, m)


def bound_vars(L):
    return set(L.args[:-1])


def positive_on(x, r, conds):
    """x > 0 for every r > 0 under the conditions collected; False if x is of another form"""
    if x is r:
        return True
    if x.op in ('add', 'mul'):
        return all(positive_on(a, r, conds) for a in x.args)
    if x.op in ('ipow', 'inv') or x.op == 'uf' and x.data == 'pow':
        return positive_on(x.args[0], r, conds)
    if x.op == 'uf' and x.data == 'exp':
        return True
    if r in x._fv:
        return False
    if not (x.op == 'num' and x.data > 0):
        conds.append(le(x, num(0, x.sort)))
    return True


def lemmas(ts, norm):
    """instances of valid facts about the terms that occur"""
    g = ground(ts)
    out = []
    sums = {}
    for x in g:
        if x.op == 'sum':
            sums.setdefault((x.args[0], x.args[2]), []).append(x)
    for (lo, L), xs in sums.items():
        P = indicator(L)
        body = L.args[-1]
        nonneg = P is not None or (body.op == 'num' and body.data >= 0)
        if body.op == 'ite' and body.args[1].op == 'num' and body.args[2].op == 'num' and min(body.args[1].data, body.args[2].data) >= 0:
            nonneg = True
        z = num(0, xs[0].sort)
        for x in xs:
            hi = x.args[1]
            out.append(or_(lt(lo, hi), eq(x, z)))
            if nonneg:
                out.append(le(z, x))
            if P is not None:
                w = sub(hi, lo) if x.sort == 'I' else t.to_real(sub(hi, lo))
                out.append(or_(lt(hi, lo), le(x, w)))
        for a in range(len(xs)):
            for b in range(len(xs)):
                if a == b:
                    continue
                x, y = xs[a], xs[b]
                d = sub(x.args[1], y.args[1])
                if d.op == 'num' and 1 <= d.data <= 3:
                    s = y
                    for j in range(int(d.data)):
                        s = add(s, app(L, [add(y.args[1], num(j, 'I'))]))
                    out.append(or_(lt(y.args[1], lo), eq(x, s)))
                if nonneg and (d.op != 'num' or d.data > 0):
                    out.append(or_(lt(x.args[1], y.args[1]), le(y, x)))
                    if P is not None:
                        # strictly more if the index in between is selected
                        i = y.args[1]
                        c = app(P, [i])
                        out.append(or_(le(x.args[1], i), lt(i, lo), not_(c), le(add(y, num(1, y.sort)), x)))
                        out.append(or_(lt(x.args[1], y.args[1]), lt(y.args[1], lo), le(sub(x, y), sub(x.args[1], y.args[1]) if x.sort == 'I' else t.to_real(sub(x.args[1], y.args[1])))))
    # an empty selection has zero sums
    inds = [(x, indicator(x.args[2])) for xs in sums.values() for x in xs]
    for x, P in inds:
        if P is None:
            continue
        for y, _ in inds:
            if y is x or y.args[0] is not x.args[0] or y.args[1] is not x.args[1]:
                continue
            vs, b = t.open_lam(y.args[2], 'z')
            if b.op == 'ite' and b.args[2].op == 'num' and b.args[2].data == 0:
                p = app(P, vs)
                pc = set(p.args if p.op == 'and' else (p,))
                c = b.args[0]
                if pc <= set(c.args if c.op == 'and' else (c,)):
                    out.append(or_(not_(eq(x, num(0, x.sort))), eq(y, num(0, y.sort))))
    fils = {}
    for x in g:
        if x.op == 'filt':
            fils.setdefault((x.args[0], x.args[2]), []).append(x)
    for (lo, P), xs in fils.items():
        cs = []
        for (slo, L), ss in sums.items():
            if slo is lo and indicator(L) is P:
                cs.extend(ss)
        for x in xs:
            n = x.args[1]
            for c in cs:
                inr = and_(le(ZERO_I, n), lt(n, c))
                out.append(or_(not_(inr), and_(le(lo, x), lt(x, c.args[1]), app(P, [x]))))
            cx = t.count_of(lo, x, P)
            for c in cs:
                out.append(or_(not_(and_(le(ZERO_I, n), lt(n, c))), eq(cx, n)))
                # the count(i)-th is i
                if n is c:
                    i = c.args[1]
                    out.append(or_(lt(i, lo), not_(app(P, [i])), eq(x, i)))
            for y in xs:
                if y is not x:
                    out.append(or_(not_(and_(le(ZERO_I, n), lt(n, y.args[1]))), lt(x, y)))
                    out.append(or_(not_(eq(n, y.args[1])), eq(x, y)))
    for x in g:
        if x.op == 'opq' and x.data == '#integral':
            l, lo, hi = x.args
            r = t.fresh('r', 'R')
            conds = []
            if positive_on(app(l, [r]), r, conds):
                out.append(or_(lt(lo, t.ZERO), le(hi, lo), *conds, lt(t.ZERO, x)))
        elif x.op == 'uf':
            if x.data == 'sqrt':
                a = x.args[0]
                out.append(le(t.ZERO, x))
                out.append(or_(le(a, t.ZERO), lt(t.ZERO, x)))
                out.append(or_(not_(eq(a, t.ZERO)), eq(x, t.ZERO)))
            elif x.data in ('idiv', 'mod') and not (x.args[1].op == 'num'):
                a, b = x.args
                q, r = t.uf('idiv', (a, b), 'I'), t.uf('mod', (a, b), 'I')
                out.append(or_(le(b, ZERO_I), and_(le(ZERO_I, r), lt(r, b), eq(a, add(mul(q, b), r)))))
                out.append(or_(le(b, ZERO_I), lt(a, ZERO_I), and_(le(ZERO_I, q), le(q, a))))
                out.append(or_(le(b, ZERO_I), lt(a, ZERO_I), le(b, a), and_(eq(q, ZERO_I), eq(r, a))))
                out.append(or_(le(b, ZERO_I), lt(a, b), lt(ZERO_I, q)))
            elif x.data == 'exp':
                out.append(lt(t.ZERO, x))
            elif x.data == 'round':
                half = num(Fraction(1, 2))
                a = x.args[0]
                if a.op == 'mul':
                    out.append(or_(le(t.ZERO, a), *[le(y.args[0], t.ZERO) if y.op in ('inv', 'ipow') and y.args[0].sort == 'R' else lt(y, num(0, y.sort)) for y in a.args]))
                out.append(and_(le(sub(x.args[0], half), t.to_real(x)), le(t.to_real(x), add(x.args[0], half))))
            elif x.data in ('sin', 'cos') and len(x.args) == 1:
                si, co = [t.uf(f, x.args, 'R') for f in ('sin', 'cos')]
                out.append(eq(add(t.ipow(si, 2), t.ipow(co, 2)), num(1)))
            elif x.data == 'pi':
                out.append(and_(lt(num(Fraction(314, 100)), x), lt(x, num(Fraction(315, 100)))))
        elif x.op == 'ipow':
            b = x.args[0]
            z = num(0, b.sort)
            if x.data % 2 == 0:
                out.append(le(z, x))
                if x.data > 0:
                    out.append(t.iff(eq(x, z), eq(b, z)))
                else:
                    out.append(or_(eq(b, z), lt(z, x)))
            else:
                out.append(or_(le(b, z), lt(z, x)))
                out.append(or_(le(z, b), lt(x, z)))
        elif x.op == 'mul':
            out.extend(scaled_squares(x))
            for q in x.args:
                if q.op == 'ipow' and q.data == -1 and q.sort == 'R':
                    # w/b and (w + 1)/b against 1
                    b, w, m = q.args[0], mul(num(1), *[a for a in x.args if a is not q and a.op != 'num']), mul(*[a for a in x.args if a.op != 'num'])
                    out.append(or_(le(b, t.ZERO), iff_le(le(w, b), le(m, num(1)))))
                    out.append(or_(le(b, t.ZERO), iff_le(le(add(w, num(1)), b), le(add(m, q), num(1)))))
            fs = [a for a in x.args if a.op != 'num']
            c = x.args[0].data if x.args[0].op == 'num' else 1
            if len(fs) >= 2:
                z = num(0, x.sort)
                y = x if c > 0 else mul(num(-1, x.sort), x)
                out.append(or_(*[le(f, z) for f in fs], lt(z, y)))
                out.append(or_(*[lt(f, z) for f in fs], le(z, y)))
                out.append(or_(*[not_(eq(f, z)) for f in fs[:1]], eq(x, z)))
        elif x.op == 'fold':
            lo, n, init, f = x.args
            out.append(or_(lt(lo, n), eq(x, init)) if x.sort != 'S' else TRUE)
            if n.op == 'add' and t._coef(n.args[-1])[1] is None and t._coef(n.args[-1])[0] >= 1:
                e = sub(n, ONE_I)
                out.append(or_(lt(e, lo), eq(x, app(f, [e, t.mk('fold', (lo, e, init, f), x.sort)]))))
            for y in g:
                if y.op == 'fold' and y.args[0] is lo and y.args[2] is init and y.args[3] is f:
                    d = sub(n, y.args[1])
                    if d.op == 'num' and d.data == 1:
                        out.append(or_(lt(y.args[1], lo), eq(x, app(f, [y.args[1], y]))))
        elif x.op == 'seg':
            lo, p, L = x.args
            for (slo, SL), ss in sums.items():
                if slo is lo and SL is L:
                    for s in ss:
                        e = s.args[1]
                        # the first segment that reaches beyond p (that it is the only one: see unique_segments)
                        out.append(or_(lt(e, lo), lt(p, ZERO_I), not_(and_(le(s, p), lt(p, add(s, app(L, [e]))))), le(x, e)))
                        out.append(or_(not_(and_(le(ZERO_I, p), lt(p, s))), and_(le(lo, x), lt(x, e))))
            # the same total written as a sum over the positions that a filter keeps
            vs, b = t.open_lam(L, 'z')
            for z in t.subterms(b):
                if z.op == 'filt' and z.args[0] is lo and z.args[1] is vs[0] and not (z.args[2]._fv & set(vs)):
                    i, P = t.fresh('z', 'I'), z.args[2]
                    kept = t.replace(b, {z: i})
                    if vs[0] in kept._fv:
                        continue
                    M = t.lam([i], t.ite(app(P, [i]), kept, num(0, 'I')))
                    for s in sums.get((lo, M), ()):
                        e = t.count_of(lo, s.args[1], P)
                        out.append(or_(not_(and_(le(ZERO_I, p), lt(p, s))), and_(le(lo, x), lt(x, e))))
            sx = sum_(lo, x, L)
            out.append(or_(lt(p, ZERO_I), le(sx, p)))
            for s in sums.get((lo, L), ()):
                out.append(or_(not_(and_(le(ZERO_I, p), lt(p, s))), lt(p, add(sx, app(L, [x])))))
    return [z for z in out if z is not TRUE]


NONNEG = {}


def nonneg_below(fas, hyps, lo, L, end):
    """L(k) >= 0 for all lo <= k < end follows from the hypotheses"""
    hyps = tuple(h for h in hyps if h.op in ('eq', 'le', 'lt'))
    key = (tuple(fas), hyps, lo, L, end)
    r = NONNEG.get(key)
    if r is None:
        k = t.fresh('k', 'I')
        x = app(L, [k])
        inst = instantiate(fas, [x, le(lo, k), lt(k, end)], 2, 60)
        enc = Enc()
        s = z3.Solver()
        s.set('timeout', 300)
        rng = [le(lo, k), lt(k, end), lt(x, ZERO_I)]
        filtered = any(y.op == 'filt' for y in t.subterms(x))
        atoms = [h for h in hyps if h.op in ('eq', 'le', 'lt') and (filtered or not any(y.op in BINDERS for y in t.subterms(h, True)))]
        for h in inst + atoms + rng + (lemmas(atoms + rng, None) if filtered else []):
            s.add(enc(h))
        for h in enc.extra():
            s.add(h)
        r = NONNEG[key] = s.check() == z3.unsat
    return r


def monotone(fas, hyps, ts):
    """sums of terms that the quantified hypotheses make nonnegative grow with their upper end"""
    out = []
    groups = {}
    for x in ground(ts):
        if x.op == 'sum' and x.sort == 'I' and indicator(x.args[2]) is None:
            groups.setdefault((x.args[0], x.args[2]), set()).add(x.args[1])
    for (lo, L), ends in groups.items():
        if lo.op != 'num' or lo.data < 0:
            continue
        ends = sorted(ends, key=t.size)[:12]
        for E in ends:
            if not nonneg_below(fas, hyps, lo, L, E):
                continue
            sE = sum_(lo, E, L)
            out.append(le(ZERO_I, sE))
            for e in ends:
                if e is not E:
                    se = sum_(lo, e, L)
                    out.append(or_(lt(E, e), and_(le(ZERO_I, se), le(se, sE))))
                    e1 = add(e, ONE_I)
                    if e1 not in ends and e1 is not E:
                        out.append(or_(lt(E, e1), lt(e, lo), and_(le(ZERO_I, app(L, [e])), le(add(se, app(L, [e])), sE))))
                    for e2 in ends:
                        if e2 is not E and e2 is not e:
                            out.append(or_(lt(E, e2), lt(e2, e), le(se, sum_(lo, e2, L))))
    return out


def unique_segments(fas, hyps, ts):
    """where lengths are not negative, the segment containing a position is the only one"""
    out = []
    g = ground(ts)
    sums = {}
    for x in g:
        if x.op == 'sum' and x.sort == 'I':
            sums.setdefault((x.args[0], x.args[2]), []).append(x)
    for x in g:
        if x.op != 'seg':
            continue
        lo, p, L = x.args
        for s in sums.get((lo, L), ()):
            e = s.args[1]
            if nonneg_below(fas, hyps, lo, L, add(e, ONE_I)):
                out.append(or_(lt(e, lo), not_(and_(le(s, p), lt(p, add(s, app(L, [e]))))), eq(x, e)))
    return out


def instantiate(foralls, ts, rounds=2, cap=400):
    """instances of quantified facts by matching uninterpreted applications and bounds"""
    out = []
    seen = set()
    cur = list(ts)
    for _ in range(rounds):
        g = [x for x in ground(cur + out) if x.op in ('uf', 'opq', 'sum') and x.args]
        byname = {}
        for x in g:
            byname.setdefault((x.op, x.data, len(x.args)), []).append(x)
        ints = None
        new = []
        for fa in foralls:
            L = fa.args[0]
            bvs = L.args[:-1]
            body = L.args[-1]
            pats = [x for x in t.subterms(body) if x.op in ('uf', 'opq', 'sum') and x.args and (x._fv & set(bvs)) and
                    not any(a.op == 'lam' and (a._fv & set(bvs)) for a in x.args) and
                    all(a.op == 'lam' or not (a._fv & set(bvs)) or linear_in(a, bvs) for a in x.args)]
            subs = []
            full = [p for p in pats if set(bvs) <= covered(p, bvs)]
            if full:
                for p in full:
                    for x in byname.get((p.op, p.data, len(p.args)), []):
                        m = match(p, x, bvs)
                        if m is not None and len(m) == len(bvs):
                            subs.append(m)
            else:
                part = [{}]
                for p in pats:
                    nxt = list(part)
                    for x in byname.get((p.op, p.data, len(p.args)), []):
                        m = match(p, x, bvs)
                        if m:
                            for q in part:
                                if all(q.get(k, v) is v for k, v in m.items()):
                                    nxt.append({**q, **m})
                    part = nxt[:cap]
                subs = [m for m in part if len(m) == len(bvs)]
                if not pats:
                    if ints is None:
                        ints = [x for x in ground(cur) if x.sort == 'I' and x.op in ('var', 'uf', 'filt')][:12]
                    if len(bvs) == 1:
                        subs = [{bvs[0]: x} for x in ints]
            for m in subs:
                inst = subst(body, m)
                if inst is not TRUE and inst not in seen:
                    seen.add(inst)
                    new.append(inst)
                    if len(seen) > cap:
                        return out + new
        if not new:
            break
        out.extend(new)
    return out


def linear_in(a, bvs):
    if a in bvs:
        return True
    fvs = [b for b in bvs if b in a._fv]
    if len(fvs) == 1 and a.sort == 'I' and a.op in ('add', 'mul'):
        return solve1(a, fvs[0]) is not None
    return False


def covered(p, bvs):
    out = set()
    for a in p.args:
        if a.op != 'lam':
            out |= {b for b in bvs if b in a._fv and linear_in(a, bvs)}
    return out


def match(p, x, bvs):
    m = {}
    for a, b in zip(p.args, x.args):
        if a.op == 'lam' or b.op == 'lam':
            if a is not b:
                return None
            continue
        fvs = [v for v in bvs if v in a._fv]
        if not fvs:
            if a is not b and not (a.sort in 'IR'):
                return None
            continue
        v = fvs[0]
        if a is v:
            val = b
        else:
            val = solve1(sub(a, b), v)
            if val is None:
                return None
        if v in m and m[v] is not val:
            return None
        if val.sort != v.sort:
            return None
        m[v] = val
    return m


def quantified(x):
    """has a quantifier among its Boolean parts"""
    if x.op == 'forall':
        return True
    return x.op in ('and', 'or', 'not', 'iff') and any(quantified(y) for y in x.args)


def none_of(x, memo):
    """[count == 0] as 'for all: not'"""
    r = memo.get(x)
    if r is not None:
        return r
    r = x
    if x.op in ('and', 'or', 'not', 'iff'):
        r = t.rebuild(x, [none_of(y, memo) for y in x.args])
    elif x.op == 'eq':
        c, at = t._coef(x.args[0])
        if at is not None and at.op == 'sum' and at.sort == 'I':
            lo, L, hi = None, None, None
            for y in at.args:
                if y.op == 'lam':
                    L = y
            ends = [y for y in at.args if y is not L]
            if L is not None and len(ends) == 2:
                vs, b = t.open_lam(L, 'n')
                if b.op == 'ite' and {b.args[1], b.args[2]} == {t.ZERO_I, t.ONE_I}:
                    p = not_(b.args[0]) if b.args[1] is t.ONE_I else b.args[0]
                    r = t.forall(vs, or_(not_(and_(t.le(ends[0], vs[0]), t.lt(vs[0], ends[1]))), p))
    memo[x] = r
    return r


class Result:
    def __init__(self, ok, backend='', detail=''):
        self.ok, self.backend, self.detail = ok, backend, detail


class Prover:
    def __init__(self, budget=60.0):
        self.stats = {'z3': 0, 'cvc5': 0, 'normaliser': 0, 'quick': 0}
        self.time = {'z3': 0.0, 'cvc5': 0.0, 'normaliser': 0.0, 'quick': 0.0}
        self.qcache = {}
        self.solvers = {}
        self.norms = {}
        self.budget = budget
        self.deadline = None
        self.use_cvc5 = True
        self.thorough = False

    # ---- quick entailment (during symbolic execution) ------------------------------------------------------
    def norm_for(self, hyps):
        n = self.norms.get(hyps)
        if n is None:
            if len(self.norms) > 400:
                self.norms.clear()
            n = self.norms[hyps] = Norm(hyps)
            if hyps and len(hyps) <= 60:
                n0 = self.norm_for(())
                for h in hyps:
                    if h.op in ('not', 'forall', 'le', 'lt', 'eq', 'uf', 'opq', 'or'):
                        n.hset.add(n0.norm(h))
        return n

    def quick(self, hyps, goal, ms=300):
        key = (hyps, goal)
        r = self.qcache.get(key)
        if r is not None:
            return r
        t0 = time.time()
        r = self._quick(hyps, goal, ms)
        self.time['quick'] += time.time() - t0
        self.stats['quick'] += 1
        self.qcache[key] = r
        return r

    def _quick(self, hyps, goal, ms):
        flat = tuple(x for h in hyps for x in (h.args if h.op == 'and' else (h,)))
        n = self.norm_for(flat)
        g = n.norm(goal)
        if g is TRUE:
            return True
        if g is FALSE:
            return FALSE in flat
        if g.op == 'and':
            return all(self.quick(hyps, x, ms) for x in g.args)
        st = self.solvers.get(flat)
        if st is None:
            if len(self.solvers) > 60:
                self.solvers.clear()
            enc = Enc()
            s = z3.Solver()
            s.set('timeout', ms)
            hs = [h for h in flat if h.op != 'forall']
            for h in hs:
                s.add(enc(h))
            for l in lemmas(hs, n):
                s.add(enc(l))
            st = self.solvers[flat] = (enc, s, hs, [h for h in flat if h.op == 'forall'])
        enc, s, hs, fas = st
        s.push()
        ts = [g]
        inst = instantiate(fas, hs + [g], 2, 60) if fas else []
        for l in lemmas(hs + [g] + inst, n):
            s.add(enc(l))
        for l in monotone(fas, hs, hs + [g] + inst) + unique_segments(fas, hs, hs + [g] + inst) if fas else ():
            s.add(enc(l))
        for x in inst:
            s.add(enc(x))
        s.add(z3.Not(enc(g)))
        for x in enc.extra():
            s.add(x)
        r = s.check() == z3.unsat
        s.pop()
        return r

    # ---- full proof ------------------------------------------------------------------------------------------
    def prove(self, hyps, goal, budget=None):
        t0 = time.time()
        if quantified(goal):
            memo = {}
            hyps, goal = [none_of(h, memo) for h in hyps], none_of(goal, memo)
        self.deadline = t0 + (budget or self.budget)
        self.used = set()
        self.detail = ''
        self.cong_cache = {}
        total = budget or self.budget
        ok = self.cases(tuple(hyps), goal, t0, total, 0)
        if not ok and self.left() > 0:
            h2, g2 = named_lengths(hyps, goal)
            ok = g2 is not None and self.cases(h2, g2, t0, total, 0)
        be = '+'.join(sorted(self.used)) if self.used else 'normaliser'
        return Result(ok, be if ok else '', self.detail)

    def cases(self, hyps, goal, t0, total, depth):
        """cases on equations between scalars that occur in the conditions of sums over particles"""
        c = None
        if depth < 3:
            c = self.scalar_case(goal)
            if c is None:       # the same in the opaque arguments of a hypothesis: they have to match those of the goal
                for h in hyps:
                    if h.op != 'forall' and c is None and any(x.op == 'opq' for x in t.subterms(h, False)):
                        c = self.scalar_case(h)
        if c is not None:
            for v in (TRUE, FALSE):
                m = {c: v, not_(c): not_(v)}
                h1 = tuple(t.replace(h, m) for h in hyps) + (c if v is TRUE else not_(c),)
                if FALSE not in h1 and not self.cases(h1, t.replace(goal, m), t0, total, depth + 1):
                    return False
            return True
        goal = self.tidy(hyps, goal)
        if goal is TRUE:
            self.stats['normaliser'] += 1
            return True
        h2, g2 = self.fold_opaque(hyps, goal)
        if h2 is not None and self.split_prove(h2, g2, t0 + total * 0.6, 0):
            return True
        return self.split_prove(hyps, goal, t0 + total, 0)

    def scalar_case(self, goal):
        """an equation between scalars that decides how many particles a sum runs over"""
        for x in t.subterms(goal, True):
            if x.op == 'sum' and x.args[1].op == 'ite':
                y = x.args[1].args[0]
                if y.op == 'eq' and y.args[0].sort == 'R' and y._fv and len(y._fv) <= 3 \
                        and not any(z.op in ('sum', 'opq', 'lam', 'uf') or z.op == 'var' and str(z.data)[:1] in '#~' for z in t.subterms(y, True)):
                    return y
        return None

    def fold_opaque(self, hyps, goal):
        """unspecified functions of large arguments become functions named after the normal form of those arguments"""
        big = {}

        def isbig(a):
            r = big.get(a)
            if r is None:
                r = big[a] = a.op != 'lam' and any(x.op == 'sum' for x in t.subterms(a, True))
            return r
        roots = [goal] + list(hyps)
        if not any(x.op == 'opq' and any(isbig(a) for a in x.args) for r in roots for x in t.subterms(r, True)):
            return None, None
        n = self.norm_for(tuple(h for h in hyps if h.op != 'forall' and h.sort == 'B' and not any(x.op == 'opq' for x in t.subterms(h, True))))
        memo, names = {}, {}

        def go(x, bound):
            key = (x, bound)
            r = memo.get(key)
            if r is not None:
                return r
            if not x.args:
                r = x
            elif x.op == 'lam':
                vs, b = t.open_lam(x, 'o')
                b2 = go(b, bound | set(vs))
                r = x if b2 is b else lam(vs, b2)
            else:
                args = tuple(go(a, bound) for a in x.args)
                r = None
                if x.op == 'opq':
                    p = tuple(k for k, a in enumerate(args) if isbig(x.args[k]) and not (bound & a._fv))
                    if p:
                        k = (x.data, p, tuple(n.norm(args[q]) for q in p))
                        nm = names.setdefault(k, '~O%d_%s' % (len(names), x.data.strip('#')))
                        r = t.uf(nm, tuple(a for q, a in enumerate(args) if q not in p), x.sort)
                if r is None:
                    r = x if all(a is b for a, b in zip(args, x.args)) else t.rebuild(x, args)
            memo[key] = r
            return r
        try:
            return tuple(go(h, frozenset()) for h in hyps), go(goal, frozenset())
        except (TooBig, RecursionError):
            return None, None

    def split_prove(self, hyps, goal, end, depth):
        """index conditions decided from the ranges, then cases on equations between indices"""
        goal = self.tidy(hyps, goal)
        if goal is TRUE:
            self.stats['normaliser'] += 1
            return True
        if goal.op == 'and':
            return all(self.split_prove(hyps, g, end, depth) for g in goal.args)
        if goal.op == 'forall':
            vs, b = t.open_lam(goal.args[0], 'q')
            return self.split_prove(hyps, b, end, depth)
        if goal.op == 'or':
            pick = next((g for g in goal.args if g.op in ('forall', 'and')), None)
            if pick is not None:
                rest = tuple(not_(g) for g in goal.args if g is not pick)
                return self.split_prove(hyps + rest, pick, end, depth)
        if depth < 6 and time.time() < end:
            c = self.index_case(goal)
            if c is not None:
                h1, g1 = self.simp_hyps(hyps + (c,), goal)
                if FALSE not in h1 and not self.split_prove(tuple(h1), g1, end, depth + 1):
                    return False
                return self.split_prove(hyps + (not_(c),), goal, end, depth + 1)
        return self.levels(hyps, goal, end)

    def index_case(self, goal):
        out = {}
        for x in ground([goal]):
            if x.op == 'ite':
                for c in (x.args[0].args if x.args[0].op in ('and', 'or') else (x.args[0],)):
                    if c.op == 'not':
                        c = c.args[0]
                    if c.op == 'eq' and c.args[0].sort == 'I' and any(t._coef(a)[1] is not None and t._coef(a)[1].op == 'var' for a in
                                                                     (c.args[0].args if c.args[0].op == 'add' else (c.args[0],))):
                        out[c] = out.get(c, 0) + 1
        return min(out, key=lambda c: (-out[c], c.id)) if out else None

    def levels(self, hyps, goal, end):
        total = max(0.5, end - time.time())
        t0 = time.time()
        ok = False
        for level, share in ((2, 0.3), (1, 0.3), (0, 1.0)):
            if level:
                hs, g, a = abstract(hyps, goal, level)
                if not a.tmpl:
                    continue
            else:
                hs, g = tuple(hyps), goal
            self.deadline = min(t0 + total, time.time() + total * share)
            self.cong_cache = {}
            try:
                ok = self.go(hs, g, 0)
            except z3.Z3Exception as e:
                self.detail = 'z3: %s' % e
            except (RecursionError, TooBig):
                self.detail = 'recursion'
            if ok or time.time() > t0 + total:
                break
        return ok

    def tidy(self, hyps, goal):
        if not any(x.op == 'ite' for x in t.subterms(goal, True)):
            return goal
        while goal.op == 'or' and False:
            pass
        inst = instantiate([h for h in hyps if h.op == 'forall'], [goal], 2, 150)
        key = ('ctx', hyps, tuple(inst))
        n = self.norms.get(key)
        if n is None:
            n = self.norms[key] = context(hyps, inst)
        return ctx_simp(n, goal)

    def left(self):
        return self.deadline - time.time()

    def flat(self, hyps):
        out = []
        seen = set()
        stack = list(reversed(hyps))
        while stack:
            h = stack.pop()
            if h is TRUE or h in seen:
                continue
            if h.op == 'and':
                stack.extend(reversed(h.args))
                continue
            if h.op == 'not' and h.args[0].op == 'or':
                stack.extend(not_(x) for x in h.args[0].args)
                continue
            if h.op == 'not' and h.args[0].op == 'and':
                stack.append(or_(*[not_(x) for x in h.args[0].args]))
                continue
            if h.op == 'not' and h.args[0].op == 'forall':
                L = h.args[0].args[0]
                vs, b = t.open_lam(L, 'sk')
                stack.append(not_(b))
            seen.add(h)
            out.append(h)
        return out

    def simp_hyps(self, hyps, goal):
        """eliminate variables defined by equations"""
        hyps = self.flat(hyps)
        for _ in range(30):
            done = True
            for h in hyps:
                if h.op == 'eq':
                    p = h.args[0]
                    args = p.args if p.op == 'add' else (p,)
                    for a in args:
                        c, at = t._coef(a)
                        if at is not None and at.op == 'var' and (abs(c) == 1 or at.sort == 'R'):
                            rest = sub(p, a)
                            if at in rest._fv:
                                continue
                            v = mul(num(-1 / c, p.sort), rest)
                            m = {at: v}
                            hyps = self.flat([subst(x, m) for x in hyps if x is not h])
                            goal = subst(goal, m)
                            done = False
                            break
                        if at is not None and at.op == 'toreal' and at.args[0].op == 'var':
                            pass
                    if not done:
                        break
            if done:
                break
        return hyps, goal

    def go(self, hyps, goal, depth):
        if self.left() < 0:
            self.detail = 'time budget'
            return False
        if goal is TRUE:
            return True
        if goal.op == 'and':
            return all(self.go(hyps, g, depth) for g in goal.args)
        if goal.op == 'forall':
            vs, b = t.open_lam(goal.args[0], 'q')
            return self.go(hyps, b, depth)
        if goal.op == 'or':
            pick = next((g for g in goal.args if g.op == 'forall'), None) or next((g for g in goal.args if g.op in ('eq', 'iff') and self.rich(g)), None)
            if pick is None:
                pick = FALSE
            rest = [g for g in goal.args if g is not pick]
            return self.go(hyps + tuple(not_(g) for g in rest), pick, depth)
        if goal.op == 'not':
            return self.go(hyps + (goal.args[0],), FALSE, depth)
        if goal.op == 'ite':
            return self.go(hyps + (goal.args[0],), goal.args[1], depth) and self.go(hyps + (not_(goal.args[0]),), goal.args[2], depth)
        hyps, goal = self.simp_hyps(hyps, goal)
        hyps = tuple(hyps)
        if FALSE in hyps or goal is TRUE:
            return True
        if goal.op in ('and', 'or', 'forall', 'not', 'ite'):
            return self.go(hyps, goal, depth)
        hyps, goal = generalised(hyps, goal)
        n = self.norm_for(hyps)
        t0 = time.time()
        if goal.op == 'eq':
            p = goal.args[0]
            ok = n.zero(p)
            self.time['normaliser'] += time.time() - t0
            if ok:
                self.stats['normaliser'] += 1
                return True
            g = n.norm(goal)
        else:
            g = n.norm(goal)
            self.time['normaliser'] += time.time() - t0
        if g is TRUE:
            self.stats['normaliser'] += 1
            return True
        if g.op in ('and', 'or', 'not', 'ite') and g is not goal:
            return self.go(hyps, g, depth)
        hn = [n2 for n2 in (self.norm_hyp(hyps, h) for h in hyps) if n2 is not TRUE]
        if FALSE in hn:
            return True
        if self.smt(hyps, hn, g, depth, n):
            return True
        if g.op == 'iff' and depth < 40:
            a, b = g.args
            return self.go(hyps + (a,), b, depth + 1) and self.go(hyps + (b,), a, depth + 1)
        # case split on a hypothesis with a quantifier inside
        h = next((h for h in hyps if h.op in ('or', 'iff') and quantified(h)), None)
        if h is not None and depth < 12:
            rest = tuple(x for x in hyps if x is not h)
            if h.op == 'iff':
                a, b = h.args
                return self.go(rest + (a, b), goal, depth + 1) and self.go(rest + (not_(a), not_(b)), goal, depth + 1)
            a = next(x for x in h.args if quantified(x))
            return self.go(rest + (a,), goal, depth + 1) and self.go(rest + (not_(a), or_(*[x for x in h.args if x is not a])), goal, depth + 1)
        # case split on a condition of the goal
        if depth < 12:
            cs = self.split_conds(g)
            for c in cs:
                if self.left() < 0:
                    return False
                return self.go(hyps + (c,), goal, depth + 1) and self.go(hyps + (not_(c),), goal, depth + 1)
        if not self.detail:
            self.detail = 'unproved: %s' % t.show(g)[:1500]
        return False

    def norm_hyp(self, hyps, h):
        if len(hyps) > 60:
            return h
        return self.norm_for(()).norm(h)

    def rich(self, g):
        return any(x.op in BINDERS for x in t.subterms(g))

    def split_conds(self, g):
        """conditions of ites at ground level"""
        out = {}
        for x in ground([g]):
            if x.op == 'ite':
                for c in (x.args[0].args if x.args[0].op in ('and', 'or') else (x.args[0],)):
                    out[c] = out.get(c, 0) + 1
        return sorted(out, key=lambda c: (-out[c], c.id))

    def binder_terms(self, ts):
        return [x for x in ground(ts) if x.op in BINDERS and any(a.op == 'lam' for a in x.args) or
                (x.op == 'uf' and any(a.op == 'lam' for a in x.args))]

    def congruences(self, hyps, g, hn, depth, n):
        bt = self.binder_terms([g])
        hb = [x for x in self.binder_terms(hn) if x not in bt]
        out = []
        if depth > 6:
            return out
        groups = {}
        for x in bt:
            groups.setdefault((x.op, x.data, x.sort, len(x.args)), []).append(x)
        pairs = []
        for k, xs in groups.items():
            for a in range(len(xs)):
                for b in range(a + 1, len(xs)):
                    pairs.append((xs[a], xs[b]))
            for y in hb:
                if (y.op, y.data, y.sort, len(y.args)) == k:
                    for x in xs:
                        pairs.append((x, y))
        pairs.sort(key=lambda p: (p[0].dep + p[1].dep))
        for x, y in pairs[:80]:
            if self.left() < 0:
                break
            if self.congruent(hyps, x, y, depth):
                out.append(eq(x, y) if x.sort != 'B' else t.iff(x, y))
        return out

    def congruent(self, hyps, x, y, depth):
        key = (hyps, x, y)
        r = self.cong_cache.get(key)
        if r is not None:
            return r
        self.cong_cache[key] = False
        r = self._congruent(hyps, x, y, depth)
        self.cong_cache[key] = r
        return r

    def _congruent(self, hyps, x, y, depth):
        for a, b in zip(x.args, y.args):
            if a.op == 'lam' and len(a.args) != len(b.args):
                return False
            if a.op != b.op and 'lam' in (a.op, b.op):
                return False
        sv = self.detail
        try:
            for a, b in zip(x.args, y.args):
                if a is b or a.op == 'lam':
                    continue
                if a.sort != b.sort:
                    return False
                if not self.quick(hyps, eq(a, b)) and not self.sub_go(hyps, eq(a, b), depth):
                    return False
            for a, b in zip(x.args, y.args):
                if a is b or a.op != 'lam':
                    continue
                vs = [fresh('g', v.sort) for v in a.args[:-1]]
                ea, eb = app(a, vs), app(b, vs)
                extra = ()
                if x.op == 'sum':
                    extra = (le(x.args[0], vs[0]), lt(vs[0], x.args[1]))
                elif x.op == 'fold':
                    extra = (le(x.args[0], vs[0]), lt(vs[0], x.args[1]))
                elif x.op == 'filt':
                    extra = (le(x.args[0], vs[0]),)
                elif x.op == 'seg':
                    extra = (le(x.args[0], vs[0]),)
                elif x.op == 'opq' and x.data.startswith('#') and x.args[0].sort == 'I':
                    # functions of the first n elements only
                    extra = (le(ZERO_I, vs[0]), lt(vs[0], x.args[0]))
                if ea.sort != eb.sort:
                    return False
                goal = eq(ea, eb) if ea.sort != 'B' else t.iff(ea, eb)
                if goal is TRUE:
                    continue
                if not self.refutable(hyps + extra, goal) and self.sub_go(hyps + extra, goal, depth):
                    continue
                return False
            return True
        finally:
            self.detail = sv

    def refutable(self, hyps, goal):
        return False

    def sub_go(self, hyps, goal, depth):
        return self.go(hyps, goal, depth + 4)

    def smt(self, hyps, hn, g, depth, n):
        base = [h for h in hn if h.op != 'forall']
        fas = [h for h in hn if h.op == 'forall']
        def attempt(extra, nl, ms, two=True):
            enc = Enc(nl)
            s = z3.Solver()
            s.set('timeout', int(max(50, min(ms, self.left() * 1000))))
            ts = base + [g] + list(extra)
            inst = instantiate(fas, ts) if fas else []
            inst += [y for x in inst for y in (t.distribute(x),) if y is not x]
            for x in list(inst):
                if any(y.op == 'opq' and y.data.startswith('#') for y in ground([x])):
                    inst.append(ctx_simp(n, x, {}))
            ts2 = ts + inst
            ls = lemmas(ts2, n)
            ls2 = lemmas(ls + ts2, n) if two else ls
            if fas:
                ls2 = ls2 + monotone(fas, base, ts2) + unique_segments(fas, base, ts2)
            for x in base + list(extra) + inst + ls2:
                if x.op != 'forall':
                    s.add(enc(x))
            ng = not_(g)
            s.add(z3.Not(enc(g)))
            if nl:
                for x in ground(ts2):
                    if x.op == 'uf' and x.data == 'sqrt':
                        a, q = enc(x.args[0]), enc(x)
                        s.add(z3.Implies(a >= 0, q * q == a), q >= 0)
                    if x.op == 'ipow' and x.data < 0:
                        b = enc(x.args[0])
                        s.add(z3.Implies(b != 0, enc(x) * (z3.Product([b] * -x.data) if x.data < -1 else b) == 1))
            for x in enc.extra():
                s.add(x)
            t0 = time.time()
            r = s.check()
            self.time['z3'] += time.time() - t0
            if r == z3.unsat:
                self.stats['z3'] += 1
                self.used.add('z3')
                return True
            self.last = (s, r)
            return False
        if attempt((), False, 3000 if depth == 0 else 1500):
            return True
        cong = self.congruences(hyps, g, hn, depth, n)
        if cong:
            if attempt(cong, False, 5000):
                return True
        if g.op != 'iff' and depth < 12 and self.split_conds(g):
            return False
        if self.nonlinear(g, base):
            if attempt(cong, True, 6000 if not self.thorough else 20000):
                return True
            s, r = self.last
            if self.use_cvc5 and r == z3.unknown and self.left() > 1:
                if self.cvc5(s):
                    return True
        return False

    def nonlinear(self, g, base):
        return any((x.op == 'mul' and len([a for a in x.args if a.op != 'num']) > 1) or x.op == 'ipow' or (x.op == 'uf' and x.data in ('sqrt', 'trunc', 'floor'))
                   for x in ground([g] + base))

    def cvc5(self, s):
        txt = '(set-logic ALL)\n' + s.to_smt2()
        t0 = time.time()
        with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
            f.write(txt)
        try:
            r = subprocess.run(['cvc5', '--tlimit=8000', f.name], capture_output=True, text=True, timeout=15)
            ok = r.stdout.strip().startswith('unsat')
        except Exception:
            ok = False
        finally:
            os.unlink(f.name)
        self.time['cvc5'] += time.time() - t0
        if ok:
            self.stats['cvc5'] += 1
            self.used.add('cvc5')
        return ok

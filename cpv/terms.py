"""Hash-consed symbolic terms: integers, reals, booleans, strings, lambdas, finite sums, filters.

Arithmetic is kept as sums of (coefficient * product of powers); booleans over normalised comparisons.
A 'lam' binds canonical variables named by nesting depth, so alpha-equivalent terms are identical objects.
"""
import sys
from fractions import Fraction
sys.setrecursionlimit(100000)

_table = {}
_counter = [0]


class T:
    __slots__ = ('op', 'args', 'sort', 'data', 'id', '_fv', 'dep', '_ufs')

    def __repr__(self):
        return show(self)

    def __bool__(self):
        raise TypeError("truth value of a term: %s" % show(self)[:200])

    # arithmetic sugar (used by contracts)
    def __add__(s, o): return add(s, lift(o, s.sort))
    def __radd__(s, o): return add(lift(o, s.sort), s)
    def __sub__(s, o): return sub(s, lift(o, s.sort))
    def __rsub__(s, o): return sub(lift(o, s.sort), s)
    def __mul__(s, o): return mul(s, lift(o, s.sort))
    def __rmul__(s, o): return mul(lift(o, s.sort), s)
    def __truediv__(s, o): return div(s, lift(o, 'R'))
    def __rtruediv__(s, o): return div(lift(o, 'R'), s)
    def __neg__(s): return mul(num(-1, s.sort), s)
    def __pow__(s, n): return ipow(s, n) if isinstance(n, int) else gpow(s, n)
    def __lt__(s, o): return lt(s, lift(o, s.sort))
    def __le__(s, o): return le(s, lift(o, s.sort))
    def __gt__(s, o): return lt(lift(o, s.sort), s)
    def __ge__(s, o): return le(lift(o, s.sort), s)


def lift(x, sort='R'):
    if isinstance(x, T):
        return x
    if isinstance(x, bool):
        return TRUE if x else FALSE
    if isinstance(x, int):
        return num(x, 'I' if sort == 'I' else 'R' if sort == 'R' else 'I')
    if isinstance(x, (float, Fraction)):
        return num(Fraction(str(x)) if isinstance(x, float) else x, 'R')
    if isinstance(x, str):
        return strc(x)
    raise TypeError("cannot lift %r" % (x,))


EMPTY = frozenset()


def mk(op, args=(), sort='R', data=None):
    key = (op, data, sort) + tuple(a.id for a in args)
    t = _table.get(key)
    if t is not None:
        return t
    t = T.__new__(T)
    t.op = op
    t.args = tuple(args)
    t.sort = sort
    t.data = data
    _counter[0] += 1
    t.id = _counter[0]
    if op == 'var':
        t._fv = frozenset([t])
        t._ufs = EMPTY
    elif not args:
        t._fv = EMPTY
        t._ufs = frozenset([data]) if op == 'uf' else EMPTY
    else:
        s = args[0]._fv
        u = args[0]._ufs
        for a in args[1:]:
            if a._fv and not (a._fv <= s):
                s = s | a._fv
            if a._ufs and not (a._ufs <= u):
                u = u | a._ufs
        if op == 'lam':
            s = s - frozenset(args[:-1])
        if op == 'uf':
            u = u | frozenset([data])
        t._fv = s
        t._ufs = u
    if op == 'lam':
        t.dep = args[-1].dep + 1
    else:
        t.dep = max((a.dep for a in args), default=0)
    _table[key] = t
    return t


def fv(t):
    return t._fv


def num(v, sort='R'):
    if isinstance(v, float):
        v = Fraction(repr(v))
    return mk('num', (), sort, Fraction(v))


def strc(s):
    return mk('str', (), 'S', s)


TRUE = mk('true', (), 'B')
FALSE = mk('false', (), 'B')
ZERO_I = num(0, 'I')
ONE_I = num(1, 'I')
ZERO = num(0, 'R')
ONE = num(1, 'R')
PI = mk('uf', (), 'R', 'pi')
NAN = mk('uf', (), 'R', 'nan')
INF = mk('uf', (), 'R', 'inf')

_fresh = [0]


def var(name, sort='R'):
    return mk('var', (), sort, name)


def fresh(name, sort='R'):
    _fresh[0] += 1
    return var('%s!%d' % (name.split('!')[0], _fresh[0]), sort)


def fresh_name(name):
    _fresh[0] += 1
    return '%s!%d' % (name.split('!')[0], _fresh[0])


def uf(name, args, sort='R'):
    return mk('uf', tuple(args), sort, name)


def is_num(t):
    return t.op == 'num'


def to_real(t):
    if t.sort == 'R':
        return t
    if t.sort == 'I':
        if t.op == 'num':
            return num(t.data, 'R')
        if t.op == 'add':
            return add(*[to_real(a) for a in t.args])
        if t.op == 'mul':
            return mul(*[to_real(a) for a in t.args])
        if t.op == 'ite':
            return ite(t.args[0], to_real(t.args[1]), to_real(t.args[2]))
        return mk('toreal', (t,), 'R')
    if t.sort == 'B':
        return ite(t, ONE, ZERO)
    raise TypeError("to_real of %s" % t.sort)


def to_int(t):
    if t.sort == 'I':
        return t
    if t.sort == 'B':
        return ite(t, ONE_I, ZERO_I)
    if t.op == 'num' and t.data.denominator == 1:
        return num(t.data, 'I')
    if t.op == 'toreal':
        return t.args[0]
    raise TypeError("to_int of %s %s" % (t.sort, show(t)[:80]))


def unify(a, b):
    if a.sort == b.sort:
        if a.sort == 'B':
            return to_int(a), to_int(b)
        return a, b
    if a.sort == 'B':
        a = to_int(a)
    if b.sort == 'B':
        b = to_int(b)
    if a.sort == b.sort:
        return a, b
    return to_real(a), to_real(b)


def _coef(t):
    """t = c * atom"""
    if t.op == 'num':
        return t.data, None
    if t.op == 'mul' and t.args[0].op == 'num':
        rest = t.args[1:]
        return t.args[0].data, (rest[0] if len(rest) == 1 else mk('mul', rest, t.sort))
    return Fraction(1), t


def add(*ts):
    sort = 'I'
    for t in ts:
        if t.sort == 'R':
            sort = 'R'
    if sort == 'R':
        ts = [to_real(t) for t in ts]
    else:
        ts = [to_int(t) for t in ts]
    acc = {}
    const = Fraction(0)
    stack = list(reversed(ts))
    while stack:
        t = stack.pop()
        if t.op == 'add':
            stack.extend(reversed(t.args))
            continue
        c, a = _coef(t)
        if a is None:
            const += c
        else:
            acc[a] = acc.get(a, 0) + c
    out = []
    for a in sorted((a for a in acc if acc[a] != 0), key=lambda x: x.id):
        c = acc[a]
        if c == 1:
            out.append(a)
        else:
            out.append(mk('mul', (num(c, sort),) + (a.args if a.op == 'mul' else (a,)), sort))
    if const != 0 or not out:
        out.append(num(const, sort))
    if len(out) == 1:
        return out[0]
    return mk('add', out, sort)


def _base_exp(t):
    if t.op == 'ipow':
        return t.args[0], t.data
    return t, 1


def mul(*ts):
    sort = 'I'
    for t in ts:
        if t.sort == 'R':
            sort = 'R'
    if sort == 'R':
        ts = [to_real(t) for t in ts]
    else:
        ts = [to_int(t) for t in ts]
    c = Fraction(1)
    acc = {}
    stack = list(reversed(ts))
    adds = 0
    while stack:
        t = stack.pop()
        if t.op == 'mul':
            stack.extend(reversed(t.args))
            continue
        if t.op == 'num':
            c *= t.data
            continue
        b, e = _base_exp(t)
        if b.op == 'uf' and b.data == 'sqrt' and abs(acc.get(b, 0) + e) >= 2:
            # sqrt(x)^2 = x (arguments of sqrt are non-negative)
            n = acc.pop(b, 0) + e
            h = n // 2 if n >= 0 else -((-n) // 2)
            r = n - 2 * h
            if r:
                acc[b] = r
            stack.append(ipow(b.args[0], h))
            continue
        acc[b] = acc.get(b, 0) + e
    if c == 0:
        return num(0, sort)
    factors = []
    for b in sorted((b for b in acc if acc[b] != 0), key=lambda x: x.id):
        e = acc[b]
        factors.append(b if e == 1 else mk('ipow', (b,), sort, e))
    if not factors:
        return num(c, sort)
    if len(factors) == 1 and factors[0].op == 'add' and c != 1:
        return add(*[mul(num(c, sort), a) for a in factors[0].args])
    if c != 1:
        factors = [num(c, sort)] + factors
    if len(factors) == 1:
        return factors[0]
    return mk('mul', factors, sort)


def ipow(t, n):
    if n == 0:
        return num(1, t.sort)
    if n < 0:
        t = to_real(t)
    if t.op == 'num':
        if t.data == 0 and n < 0:
            return uf('inf', ())
        return num(t.data ** n, t.sort)
    if n == 1:
        return t
    if t.op == 'ipow':
        return ipow(t.args[0], t.data * n)
    if t.op == 'mul':
        return mul(*[ipow(a, n) for a in t.args])
    if t.op == 'uf' and t.data == 'sqrt':
        return mul(mk('ipow', (t,), t.sort, n))
    if t.op == 'add':
        # pull out the leading coefficient so that scaled sums share a base
        lead = _coef(t.args[0])[0]
        if lead != 1 and t.sort == 'R':
            inner = mul(num(1 / lead, 'R'), t)
            return mul(num(lead ** n, 'R'), mk('ipow', (inner,), 'R', n))
    return mk('ipow', (t,), t.sort, n)


def sub(a, b):
    return add(a, mul(num(-1, 'R' if b.sort == 'R' else 'I'), b))


def div(a, b):
    return mul(to_real(a), ipow(to_real(b), -1))


def sqrt(t):
    t = to_real(t)
    if t.op == 'num' and t.data >= 0:
        import math
        p, q = t.data.numerator, t.data.denominator
        rp, rq = math.isqrt(p), math.isqrt(q)
        if rp * rp == p and rq * rq == q:
            return num(Fraction(rp, rq))
    return uf('sqrt', (t,))


def gpow(a, b):
    a = to_real(a)
    b = lift(b, 'R')
    if b.op == 'num':
        if b.data.denominator == 1 and abs(b.data) <= 12:
            return ipow(a, int(b.data))
        if b.data == Fraction(1, 2):
            return sqrt(a)
        if b.data.denominator == 2:
            return ipow(sqrt(a), int(b.data * 2))
    return uf('pow', (a, to_real(b)))


# ---- booleans -------------------------------------------------------------------------------------------

def _norm_cmp(p):
    """scale p so that its leading coefficient is +-1; returns (p', sign)"""
    if p.op == 'num':
        return p, 1
    lead = _coef(p.args[0])[0] if p.op == 'add' else _coef(p)[0]
    s = abs(lead)
    if s != 1:
        if p.sort == 'I':
            # divide by the gcd of coefficients only
            from math import gcd
            g = 0
            for a in (p.args if p.op == 'add' else (p,)):
                c = _coef(a)[0]
                g = gcd(g, int(abs(c)))
            if g > 1:
                p = mul_const_int(p, Fraction(1, g))
            return p, 1
        p = mul(num(1 / s, 'R'), p)
    return p, 1


def mul_const_int(p, c):
    out = []
    for a in (p.args if p.op == 'add' else (p,)):
        k, at = _coef(a)
        if at is None:
            out.append(num(k * c, 'I'))
        else:
            out.append(mul(num(k * c, 'I'), at))
    return add(*out)


def lt(a, b):
    a, b = unify(a, b)
    p = sub(a, b)
    if p.op == 'num':
        return TRUE if p.data < 0 else FALSE
    if p.sort == 'I':
        return le(add(p, ONE_I), ZERO_I)
    p, _ = _norm_cmp(p)
    return mk('lt', (p,), 'B')


def le(a, b):
    a, b = unify(a, b)
    p = sub(a, b)
    if p.op == 'num':
        return TRUE if p.data <= 0 else FALSE
    if p.sort == 'I':
        # floor-normalise p <= 0
        from math import gcd, floor
        g = 0
        const = Fraction(0)
        for x in (p.args if p.op == 'add' else (p,)):
            c, at = _coef(x)
            if at is None:
                const = c
            else:
                g = gcd(g, int(abs(c)))
        if g > 1:
            # g*q + const <= 0  <=>  q <= floor(-const/g)
            q = mul_const_int(sub(p, num(const, 'I')), Fraction(1, g))
            p = add(q, num(-floor(-const / g), 'I'))
        return mk('le', (p,), 'B')
    p, _ = _norm_cmp(p)
    return mk('le', (p,), 'B')


def gt(a, b):
    return lt(b, a)


def ge(a, b):
    return le(b, a)


def eq(a, b):
    if a is b:
        return TRUE
    if a.sort == 'S' or b.sort == 'S':
        if a.op == 'str' and b.op == 'str':
            return TRUE if a.data == b.data else FALSE
        if a.id > b.id:
            a, b = b, a
        return mk('seq', (a, b), 'B')
    if a.sort == 'B' and b.sort == 'B':
        return iff(a, b)
    a, b = unify(a, b)
    if a is b:
        return TRUE
    if b.op == 'ite' and a.op == 'num':
        a, b = b, a
    if a.op == 'ite' and b.op == 'num' and a.args[1].op == 'num' and a.args[2].op == 'num':
        x, y = a.args[1].data == b.data, a.args[2].data == b.data
        return a.args[0] if x and not y else not_(a.args[0]) if y and not x else TRUE if x else FALSE
    p = sub(a, b)
    if p.op == 'num':
        return TRUE if p.data == 0 else FALSE
    p, _ = _norm_cmp(p)
    lead = _coef(p.args[0])[0] if p.op == 'add' else _coef(p)[0]
    if lead < 0:
        p = mul(num(-1, p.sort), p)
    return mk('eq', (p,), 'B')


def ne(a, b):
    return not_(eq(a, b))


NOTS = {}


def not_(a):
    r = NOTS.get(a)
    if r is None:
        r = NOTS[a] = _not(a)
    return r


def _not(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == 'not':
        return a.args[0]
    if a.op == 'le':
        return lt(num(0, a.args[0].sort), a.args[0])
    if a.op == 'lt':
        return le(num(0, a.args[0].sort), a.args[0])
    return mk('not', (a,), 'B')


def and_(*xs):
    out = []
    seen = set()
    stack = list(reversed(xs))
    while stack:
        x = stack.pop()
        if x is TRUE:
            continue
        if x is FALSE:
            return FALSE
        if x.op == 'and':
            stack.extend(reversed(x.args))
            continue
        if x in seen:
            continue
        if not_(x) in seen:
            return FALSE
        seen.add(x)
        out.append(x)
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    out.sort(key=lambda x: x.id)
    return mk('and', out, 'B')


def or_(*xs):
    out = []
    seen = set()
    stack = list(reversed(xs))
    while stack:
        x = stack.pop()
        if x is FALSE:
            continue
        if x is TRUE:
            return TRUE
        if x.op == 'or':
            stack.extend(reversed(x.args))
            continue
        if x in seen:
            continue
        if not_(x) in seen:
            return TRUE
        seen.add(x)
        out.append(x)
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    out.sort(key=lambda x: x.id)
    return mk('or', out, 'B')


def implies(a, b):
    return or_(not_(a), b)


def iff(a, b):
    if a is b:
        return TRUE
    if a is TRUE:
        return b
    if b is TRUE:
        return a
    if a is FALSE:
        return not_(b)
    if b is FALSE:
        return not_(a)
    if a.id > b.id:
        a, b = b, a
    return mk('iff', (a, b), 'B')


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a.sort != b.sort:
        if 'S' in (a.sort, b.sort):
            raise TypeError("ite of sorts %s %s" % (a.sort, b.sort))
        a, b = unify(a, b)
        if a is b:
            return a
    if c.op == 'not':
        return ite(c.args[0], b, a)
    if a.op == 'ite' and a.args[0] is c:
        a = a.args[1]
    if b.op == 'ite' and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    if a.sort == 'B':
        if a is TRUE:
            return or_(c, b)
        if a is FALSE:
            return and_(not_(c), b)
        if b is TRUE:
            return or_(not_(c), a)
        if b is FALSE:
            return and_(c, a)
    # ite(c, x, ite(d, x, y)) -> ite(c or d, x, y)
    if b.op == 'ite' and b.args[1] is a:
        return ite(or_(c, b.args[0]), a, b.args[2])
    # ite(c, ite(d, x, y), y) -> ite(c and d, x, y)
    if a.op == 'ite' and a.args[2] is b:
        return ite(and_(c, a.args[0]), a.args[1], b)
    if not_(c).id < c.id and not_(c).op != 'not':
        return mk('ite', (not_(c), b, a), a.sort)
    return mk('ite', (c, a, b), a.sort)


# ---- binders ---------------------------------------------------------------------------------------------

def lam(bvs, body):
    """bvs: list of variable terms (free in body)."""
    d = body.dep
    cn = [var('#%d_%d' % (d, j), v.sort) for j, v in enumerate(bvs)]
    body2 = subst(body, dict(zip(bvs, cn)))
    # substitution of variables by canonical variables never changes the depth
    return mk('lam', tuple(cn) + (body2,), 'L')


def lam_arity(l):
    return len(l.args) - 1


def app(l, args):
    assert l.op == 'lam' and len(args) == len(l.args) - 1, (l, args)
    return subst(l.args[-1], dict(zip(l.args[:-1], args)))


def open_lam(l, hint='k'):
    vs = [fresh(hint, a.sort) for a in l.args[:-1]]
    return vs, app(l, vs)


def mklam(n, f, sorts=None):
    """build a lam from a python function of n index terms"""
    vs = [fresh('x', 'I' if sorts is None else sorts[j]) for j in range(n)]
    return lam(vs, f(*vs))


def distribute(x, memo=None):
    """products of sums written as sums of products (outside binders)"""
    if not x.args or x.op in ('lam', 'forall'):
        return x
    memo = {} if memo is None else memo
    r = memo.get(x)
    if r is not None:
        return r
    args = tuple(distribute(a, memo) for a in x.args)
    r = None
    if x.op == 'mul':
        for k, a in enumerate(args):
            if a.op == 'add':
                rest = args[:k] + args[k + 1:]
                r = add(*[distribute(mul(b, *rest), memo) for b in a.args])
                break
    memo[x] = r = rebuild(x, args) if r is None else r
    return r


def telescopes(L):
    """D with L(k) = D(k + 1) - D(k) for every k, where L is written so: the sum of L from lo below hi >= lo is D(hi) - D(lo)"""
    body = L.args[-1]
    if body.op != 'add':
        return None
    (k,), b = open_lam(L, 'z')
    if b.op != 'add':
        return None
    minus = [a for a in b.args if (a.data if a.op == 'num' else _coef(a)[0]) < 0]
    if not minus or len(minus) == len(b.args):
        return None
    d = sub(num(0, b.sort), add(*minus))
    if k not in d._fv or distribute(add(b, d)) is not distribute(subst(d, {k: add(k, ONE_I)})):
        return None
    return lam([k], d)


def sum_(lo, hi, l):
    """sum_{k=lo}^{hi-1} l(k); 0 if hi<=lo"""
    body = l.args[-1]
    sort = body.sort
    if sort == 'B':
        k = fresh('k', 'I')
        l = lam([k], to_int(app(l, [k])))
        sort = 'I'
        body = l.args[-1]
    if body.op == 'num' and body.data == 0:
        return body
    d = sub(hi, lo)
    if d.op == 'num':
        if d.data <= 0:
            return num(0, sort)
        if d.data <= 4:
            return add(*[app(l, [add(lo, num(j, 'I'))]) for j in range(int(d.data))])
    D = telescopes(l)
    if D is not None:
        return ite(lt(lo, hi), sub(app(D, [hi]), app(D, [lo])), num(0, sort))
    return mk('sum', (lo, hi, l), sort)


def Sum(lo, hi, f):
    k = fresh('k', 'I')
    return sum_(lift(lo, 'I'), lift(hi, 'I'), lam([k], lift(f(k))))


def Count(lo, hi, f):
    k = fresh('k', 'I')
    return sum_(lift(lo, 'I'), lift(hi, 'I'), lam([k], ite(f(k), ONE_I, ZERO_I)))


def count_of(lo, hi, P):
    k = fresh('k', 'I')
    return sum_(lo, hi, lam([k], ite(app(P, [k]), ONE_I, ZERO_I)))


def filt(lo, n, P):
    """index of the n-th (from 0) k >= lo with P(k)"""
    return mk('filt', (lo, n, P), 'I')


def seg(lo, t, L):
    """index j>=lo of the segment containing position t when segment j has length L(j)"""
    return mk('seg', (lo, t, L), 'I')


def opq(name, args, sort='R'):
    """opaque function application; args may be lams (compared pointwise)"""
    return mk('opq', tuple(args), sort, name)


def integral(r, body, lo, hi):
    """of body over r from lo to hi; factors without r are taken out"""
    out, ins = [], []
    for x in (body.args if body.op == 'mul' else (body,)):
        (ins if r in x._fv else out).append(x)
    return mul(*out, opq('#integral', (lam([r], mul(*ins) if ins else num(1, 'R')), lo, hi)))


def forall(bvs, body, trig=None):
    if body is TRUE:
        return TRUE
    return mk('forall', (lam(bvs, body),), 'B')


def exists(bvs, body):
    return not_(forall(bvs, not_(body)))


# ---- traversal --------------------------------------------------------------------------------------------

def rebuild(t, args):
    op = t.op
    if args == t.args:
        return t
    if op == 'add':
        return add(*args)
    if op == 'mul':
        return mul(*args)
    if op == 'ipow':
        return ipow(args[0], t.data)
    if op == 'toreal':
        return to_real(args[0])
    if op == 'lt':
        return lt(args[0], num(0, args[0].sort))
    if op == 'le':
        return le(args[0], num(0, args[0].sort))
    if op == 'eq':
        return eq(args[0], num(0, args[0].sort))
    if op == 'seq':
        return eq(args[0], args[1])
    if op == 'not':
        return not_(args[0])
    if op == 'and':
        return and_(*args)
    if op == 'or':
        return or_(*args)
    if op == 'iff':
        return iff(*args)
    if op == 'ite':
        return ite(*args)
    if op == 'sum':
        return sum_(*args)
    if op == 'uf':
        if t.data == 'sqrt':
            return sqrt(args[0])
        if t.data == 'pow':
            return gpow(args[0], args[1])
        return mk('uf', args, t.sort, t.data)
    return mk(op, args, t.sort, t.data)


def subst(t, m, memo=None):
    """substitute free variables (dict var->term)"""
    if not m:
        return t
    keys = frozenset(m)
    memo = {}

    def go(t):
        if not (t._fv & keys):
            return t
        r = memo.get(t)
        if r is not None:
            return r
        if t.op == 'var':
            r = m.get(t, t)
        elif t.op == 'lam':
            # the canonical bound variables never occur free in substituted terms (terms are closed under
            # canonical names), but the depth of the body may change, so reopen and rebuild
            vs = [fresh('b', a.sort) for a in t.args[:-1]]
            m2 = dict(m)
            for a, v in zip(t.args[:-1], vs):
                m2[a] = v
            r = lam(vs, subst(t.args[-1], m2))
        else:
            r = rebuild(t, tuple(go(a) for a in t.args))
        memo[t] = r
        return r
    return go(t)


def subst_uf(t, m):
    """replace uninterpreted functions: m: name -> python function of argument terms"""
    names = frozenset(m)
    memo = {}

    def go(t):
        if not (t._ufs & names):
            return t
        r = memo.get(t)
        if r is not None:
            return r
        if t.op == 'lam':
            vs = [fresh('b', a.sort) for a in t.args[:-1]]
            body = subst(t.args[-1], dict(zip(t.args[:-1], vs)))
            r = lam(vs, subst_uf(body, m))
        else:
            args = tuple(go(a) for a in t.args)
            if t.op == 'uf' and t.data in m:
                r = m[t.data](*args)
            else:
                r = rebuild(t, args)
        memo[t] = r
        return r
    return go(t)


def map_opq(t, f):
    """f(name, args) -> replacement of an opaque application or None"""
    memo = {}

    def go(t):
        r = memo.get(t)
        if r is not None:
            return r
        if t.op == 'lam':
            body = go(t.args[-1])
            if body is t.args[-1]:
                r = t
            else:
                vs = [fresh('b', a.sort) for a in t.args[:-1]]
                r = lam(vs, map_opq(subst(t.args[-1], dict(zip(t.args[:-1], vs))), f))
        else:
            r = f(t.data, t.args) if t.op == 'opq' else None
            if r is None:
                args = tuple(go(a) for a in t.args)
                r = t if all(a is b for a, b in zip(args, t.args)) else rebuild(t, args)
        memo[t] = r
        return r
    return go(t)


def isnan(x):
    if x is NAN:
        return TRUE
    if x.sort in ('I', 'B') or x.op == 'num':
        return FALSE
    if x.op == 'ite':
        return ite(x.args[0], isnan(x.args[1]), isnan(x.args[2]))
    if x.op in ('add', 'mul') and any(a is NAN for a in x.args):
        return TRUE
    return uf('isnan', (x,), 'B')


def replace(t, m):
    """replace sub-terms (dict term->term), not under binders that capture"""
    memo = {}

    def go(t):
        if t in m:
            return m[t]
        r = memo.get(t)
        if r is not None:
            return r
        if not t.args:
            r = t
        elif t.op == 'lam':
            vs = [fresh('b', a.sort) for a in t.args[:-1]]
            body = subst(t.args[-1], dict(zip(t.args[:-1], vs)))
            b2 = replace(body, m)
            r = t if b2 is body else lam(vs, b2)
        else:
            r = rebuild(t, tuple(go(a) for a in t.args))
        memo[t] = r
        return r
    return go(t)


SIZES = {}


def size(x):
    """number of distinct sub-terms"""
    r = SIZES.get(x)
    if r is None:
        r = SIZES[x] = len(subterms(x, True))
    return r


def subterms(t, into_lams=False):
    seen = set()
    out = []
    stack = [t]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        out.append(x)
        if x.op == 'lam' and not into_lams:
            continue
        stack.extend(x.args)
    return out


def mentions_uf(t, name):
    return name in t._ufs


def show(t, depth=0):
    if depth > 60:
        return '...'
    s = lambda x: show(x, depth + 1)
    op = t.op
    if op == 'num':
        return str(t.data)
    if op == 'str':
        return repr(t.data)
    if op == 'var':
        return str(t.data)
    if op in ('true', 'false'):
        return op
    if op == 'uf':
        return '%s(%s)' % (t.data, ', '.join(map(s, t.args))) if t.args else str(t.data)
    if op == 'add':
        return '(' + ' + '.join(map(s, t.args)) + ')'
    if op == 'mul':
        return '*'.join(map(s, t.args))
    if op == 'ipow':
        return '%s^%d' % (s(t.args[0]), t.data)
    if op == 'toreal':
        return 'real(%s)' % s(t.args[0])
    if op in ('lt', 'le', 'eq'):
        return '[%s %s 0]' % (s(t.args[0]), {'lt': '<', 'le': '<=', 'eq': '=='}[op])
    if op == 'seq':
        return '[%s == %s]' % (s(t.args[0]), s(t.args[1]))
    if op == 'not':
        return '!(%s)' % s(t.args[0])
    if op == 'and':
        return '(' + ' & '.join(map(s, t.args)) + ')'
    if op == 'or':
        return '(' + ' | '.join(map(s, t.args)) + ')'
    if op == 'iff':
        return '(%s <=> %s)' % (s(t.args[0]), s(t.args[1]))
    if op == 'ite':
        return 'ite(%s, %s, %s)' % tuple(map(s, t.args))
    if op == 'lam':
        return '\\%s. %s' % (' '.join(str(a.data) for a in t.args[:-1]), s(t.args[-1]))
    return '%s%s(%s)' % (op, ':' + str(t.data) if t.data else '', ', '.join(map(s, t.args)))

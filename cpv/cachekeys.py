"""Verification conditions for the keys of the cache (caching.py: _make_key, _HashedSeq, the wrappers of np_cache_factory).

Sequences of values are pairs (length, element function); loops over them must change position j only from position j (a map) or
append one value per pass, which makes their effect a closed form for every length."""
import ast
import z3
from .frontend import Unsupported

V = z3.DeclareSort('Value')
I = z3.IntSort()
MARK = z3.Const('kwd_mark', V)
FLAT, SHAPE, DTYPE, TUPLES, TYPE = (z3.Function(n, V, V) for n in ('flat_values', 'shape', 'dtype', 'tuple_of_tuples', 'type_of'))
TUPLE1, LIST1 = z3.Function('as_tuple', V, V), z3.Function('as_list', V, V)
BUILD = z3.Function('array_of', V, V, V, V)        # values, type, shape
SIZE = z3.Function('length_of', V, I)
ITEM = z3.Function('item_of', V, I, V)


class Seq:
    def __init__(self, n, at):
        self.n, self.at = n, at

    def cat(self, o):
        return Seq(z3.simplify(self.n + o.n), lambda i, s=self, o=o: z3.If(i < s.n, s.at(i), o.at(i - s.n)))

    def app(self, v):
        return self.cat(Seq(z3.IntVal(1), lambda i: v))


class Val:
    def __init__(self, t):
        self.t = t


class Num(Val):
    pass


class Bool(Val):
    pass


class Sym:
    def __init__(self, w, data=None):
        self.w, self.data = w, data


class St:
    def __init__(self):
        self.path, self.v = [], {}

    def copy(self):
        s = St()
        s.path, s.v = list(self.path), dict(self.v)
        return s


class Eval:
    """one function body over the environment env (name -> value)"""
    def __init__(self, env, flags):
        self.env, self.flags = env, flags
        self.calls = []
        self.line = 0

    def run(self, body):
        st = St()
        st.v.update(self.env)
        done, live = [], [st]
        for s in body:
            nxt = []
            for x in live:
                for y, r in self.stmt(x, s):
                    (done if r is not None else nxt).append((y, r) if r is not None else y)
            live = nxt
        return done + [(x, None) for x in live]

    def block(self, st, stmts):
        done, live = [], [st]
        for s in stmts:
            nxt = []
            for x in live:
                for y, r in self.stmt(x, s):
                    (done if r is not None else nxt).append((y, r) if r is not None else y)
            live = nxt
        return done + [(x, None) for x in live]

    def stmt(self, st, s):
        self.line = getattr(s, 'lineno', self.line)
        if isinstance(s, ast.Pass) or isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
            return [(st, None)]
        if isinstance(s, ast.Return):
            return [(st, self.expr(st, s.value))]
        if isinstance(s, ast.Expr) and self.append(st, s.value):
            return [(st, None)]
        if isinstance(s, ast.Assign) and len(s.targets) == 1:
            t, v = s.targets[0], self.expr(st, s.value)
            self.assign(st, t, v)
            return [(st, None)]
        if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name) and isinstance(s.op, ast.Add):
            a, b = self.expr(st, s.target), self.expr(st, s.value)
            if isinstance(a, Seq) and isinstance(b, Seq):
                st.v[s.target.id] = a.cat(b)
                return [(st, None)]
        if isinstance(s, ast.If):
            c = z3.simplify(self.truth(st, s.test))
            out = []
            for cond, body in ((c, s.body), (z3.simplify(z3.Not(c)), s.orelse)):
                if not z3.is_false(cond):
                    x = st.copy()
                    x.path.append(cond)
                    sol = z3.Solver()
                    sol.add(*[c for c in x.path if not z3.is_quantifier(c)])
                    if sol.check() == z3.unsat:
                        continue
                    out.extend(self.block(x, body))
            return out
        if isinstance(s, ast.For):
            self.loop(st, s)
            return [(st, None)]
        if isinstance(s, ast.FunctionDef):
            st.v[s.name] = Sym('function', s)
            return [(st, None)]
        raise Unsupported('statement %s in the cache' % type(s).__name__)

    def append(self, st, e):
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr == 'append' and isinstance(e.func.value, ast.Name):
            nm = e.func.value.id
            a, v = st.v.get(nm), self.expr(st, e.args[0])
            if isinstance(a, Seq) and isinstance(v, Val):
                st.v[nm] = a.app(v.t)
                return True
        return False

    def assign(self, st, t, v):
        if isinstance(t, ast.Name):
            st.v[t.id] = v
            return
        if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name):
            a, j = st.v.get(t.value.id), self.expr(st, t.slice)
            if isinstance(a, Seq) and isinstance(j, Num) and isinstance(v, Val):
                st.v[t.value.id] = Seq(a.n, lambda i, a=a, j=j.t, v=v.t: z3.If(i == j, v, a.at(i)))
                return
        raise Unsupported('assignment in the cache')

    def loop(self, st, s):
        it = self.expr(st, s.iter)
        if s.orelse or not isinstance(s.target, ast.Name):
            raise Unsupported('loop in the cache')
        if isinstance(it, Sym) and it.w == 'items':
            # for item in sorted_items: key += item
            b = s.body
            if len(b) == 1 and isinstance(b[0], ast.AugAssign) and isinstance(b[0].op, ast.Add) and isinstance(b[0].target, ast.Name) and \
                    isinstance(b[0].value, ast.Name) and b[0].value.id == s.target.id and isinstance(st.v.get(b[0].target.id), Seq):
                st.v[b[0].target.id] = st.v[b[0].target.id].cat(it.data['flat'])
                return
            raise Unsupported('loop over the keyword arguments')
        j = z3.FreshConst(I, 'j')
        if isinstance(it, Sym) and it.w == 'range':
            lo, hi = it.data
            el = Num(j)
        elif isinstance(it, Seq):
            lo, hi = z3.IntVal(0), it.n
            el = Val(it.at(j))
        else:
            raise Unsupported('loop in the cache')
        n = z3.If(hi > lo, hi - lo, 0)
        x = st.copy()
        x.v[s.target.id] = el
        olds = {k: v for k, v in st.v.items() if isinstance(v, Seq)}
        generic = {k: Seq(v.n, (lambda i, v=v: v.at(i))) for k, v in olds.items()}
        x.v.update(generic)
        outs = self.block(x, s.body)
        if len(outs) != 1 or outs[0][1] is not None:
            raise Unsupported('branches in a loop of the cache')
        y = outs[0][0]
        for k, v in y.v.items():
            if k == s.target.id:
                continue
            if k not in st.v:
                continue
            g = generic.get(k)
            if v is (g if g is not None else st.v[k]):
                continue
            if g is None or not isinstance(v, Seq):
                raise Unsupported('variable %s changed in a loop' % k)
            grow = z3.simplify(v.n - g.n)
            if z3.is_int_value(grow) and grow.as_long() == 1:
                last = v.at(g.n)
                self.only_appends(v, g, y)
                old = olds[k]
                st.v[k] = old.cat(Seq(n, lambda i, last=last, lo=lo: z3.substitute(last, (j, lo + i))))
            elif z3.is_int_value(grow) and grow.as_long() == 0:
                # position j only
                old = olds[k]
                q = z3.FreshConst(I, 'q')
                sol = z3.Solver()
                sol.add(q != j, v.at(q) != old.at(q))
                if sol.check() != z3.unsat:
                    raise Unsupported('a loop of the cache writes more than its own position')
                new = v.at(j)
                st.v[k] = Seq(old.n, lambda i, old=old, new=new, lo=lo, hi=hi: z3.If(z3.And(lo <= i, i < hi), z3.substitute(new, (j, i)), old.at(i)))
            else:
                raise Unsupported('loop of the cache')
        # sound only if no pass reads what another one wrote
        self.reads(s, [k for k, v in y.v.items() if k in generic and v is not generic[k]], s.target.id, isinstance(it, Seq))

    def only_appends(self, v, g, st):
        q = z3.FreshConst(I, 'q')
        sol = z3.Solver()
        sol.add(q >= 0, q < g.n, v.at(q) != g.at(q))
        if sol.check() != z3.unsat:
            raise Unsupported('loop of the cache')

    def reads(self, s, changed, idx, over_seq):
        for b in s.body:
            for x in ast.walk(b):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and x.id in changed:
                    ok = False
                    for p in ast.walk(b):
                        if isinstance(p, ast.Subscript) and p.value is x and isinstance(p.slice, ast.Name) and p.slice.id == idx and not over_seq:
                            ok = True
                        if isinstance(p, ast.Attribute) and p.value is x and p.attr == 'append':
                            ok = True
                    if not ok:
                        raise Unsupported('a loop of the cache reads what it changes')

    # ---- expressions
    def truth(self, st, e):
        if isinstance(e, ast.BoolOp):
            xs = [self.truth(st, x) for x in e.values]
            return z3.And(*xs) if isinstance(e.op, ast.And) else z3.Or(*xs)
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return z3.Not(self.truth(st, e.operand))
        if isinstance(e, ast.Compare) and len(e.ops) == 1:
            op = e.ops[0]
            if isinstance(op, (ast.In, ast.NotIn)):
                v = self.expr(st, e.left)
                c = self.expr(st, e.comparators[0])
                if isinstance(v, Val) and isinstance(c, Sym) and c.w == 'fasttypes':
                    r = self.flags['fast'](v.t)
                    return r if isinstance(op, ast.In) else z3.Not(r)
            a, b = self.expr(st, e.left), self.expr(st, e.comparators[0])
            if isinstance(a, Num) and isinstance(b, Num):
                return {ast.Eq: a.t == b.t, ast.NotEq: a.t != b.t, ast.Lt: a.t < b.t, ast.LtE: a.t <= b.t, ast.Gt: a.t > b.t, ast.GtE: a.t >= b.t}[type(op)]
            raise Unsupported('comparison in the cache')
        v = self.expr(st, e)
        if isinstance(v, Bool):
            return v.t
        if isinstance(v, Seq):
            return v.n > 0
        if isinstance(v, Sym) and v.w == 'kwds':
            return v.data['m'] > 0
        if isinstance(v, Sym) and v.w == 'items':
            return v.data['m'] > 0
        raise Unsupported('condition in the cache')

    def expr(self, st, e):
        if isinstance(e, ast.Name):
            if e.id in st.v:
                return st.v[e.id]
            return Sym(e.id)
        if isinstance(e, ast.Constant) and isinstance(e.value, int) and not isinstance(e.value, bool):
            return Num(z3.IntVal(e.value))
        if isinstance(e, ast.Constant) and isinstance(e.value, bool):
            return Bool(z3.BoolVal(e.value))
        if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.Add, ast.Sub)):
            a, b = self.expr(st, e.left), self.expr(st, e.right)
            if isinstance(a, Num) and isinstance(b, Num):
                return Num(a.t + b.t if isinstance(e.op, ast.Add) else a.t - b.t)
            if isinstance(a, Seq) and isinstance(b, Seq) and isinstance(e.op, ast.Add):
                return a.cat(b)
        if isinstance(e, (ast.List, ast.Tuple)):
            r = Seq(z3.IntVal(0), lambda i: MARK)
            for x in e.elts:
                v = self.expr(st, x.value if isinstance(x, ast.Starred) else x)
                if isinstance(x, ast.Starred) and isinstance(v, Seq):
                    r = r.cat(v)
                elif isinstance(v, Val):
                    r = r.app(v.t)
                else:
                    raise Unsupported('list in the cache')
            return r
        if isinstance(e, ast.Subscript):
            v = self.expr(st, e.value)
            if isinstance(v, Seq) and isinstance(e.slice, ast.Slice):
                if e.slice.lower is e.slice.upper is e.slice.step is None:
                    return v
                raise Unsupported('slice in the cache')
            j = self.expr(st, e.slice)
            if isinstance(v, Seq) and isinstance(j, Num):
                return Val(v.at(j.t))
            if isinstance(v, Val) and isinstance(j, Num):
                return Val(ITEM(v.t, j.t))
        if isinstance(e, ast.Attribute):
            v = self.expr(st, e.value)
            if type(v) is Val and e.attr in ('shape', 'dtype'):
                return Val((SHAPE if e.attr == 'shape' else DTYPE)(v.t))
            if isinstance(v, Sym) and v.w == 'np':
                return Sym('np.' + e.attr)
            return Sym('method', (v, e.attr))
        if isinstance(e, (ast.ListComp, ast.GeneratorExp)):
            return self.comprehension(st, e)
        if isinstance(e, ast.Call):
            return self.call(st, e)
        raise Unsupported('expression %s in the cache' % type(e).__name__)

    def comprehension(self, st, e):
        if len(e.generators) != 1 or e.generators[0].ifs:
            raise Unsupported('comprehension in the cache')
        g = e.generators[0]
        it = self.expr(st, g.iter)
        x = st.copy()
        j = z3.FreshConst(I, 'j')
        if isinstance(it, Sym) and it.w == 'items':
            t = it.data['types']
            if isinstance(g.target, ast.Tuple) and isinstance(e.elt, ast.Call) and getattr(e.elt.func, 'id', '') == 'type' and \
                    getattr(e.elt.args[0], 'id', '') == g.target.elts[1].id:
                return t
            raise Unsupported('comprehension over the keyword arguments')
        if isinstance(it, Sym) and it.w == 'range':
            lo, hi = it.data
            x.v[g.target.id] = Num(j)
        elif isinstance(it, Seq):
            lo, hi = z3.IntVal(0), it.n
            x.v[g.target.id] = Val(it.at(j))
        elif type(it) is Val:
            lo, hi = z3.IntVal(0), SIZE(it.t)
            x.v[g.target.id] = Val(ITEM(it.t, j))
        else:
            raise Unsupported('comprehension in the cache')
        v = self.expr(x, e.elt)
        if not isinstance(v, Val):
            raise Unsupported('comprehension in the cache')
        return Seq(z3.If(hi > lo, hi - lo, 0), lambda i, v=v.t, lo=lo: z3.substitute(v, (j, lo + i)))

    def call(self, st, e):
        f = self.expr(st, e.func)
        kws = {k.arg: self.expr(st, k.value) for k in e.keywords}
        if isinstance(f, Sym) and f.w in self.flags.get('record', ()):
            args = self.expr(st, ast.Tuple(elts=e.args, ctx=ast.Load()))
            self.calls.append((f.w, args, kws, list(st.path), self.line))
            return Val(self.flags['result'](f.w, args, kws))
        args = [self.expr(st, a) for a in e.args]
        w = f.w if isinstance(f, Sym) else None
        if w == 'len':
            if isinstance(args[0], Seq):
                return Num(args[0].n)
            if type(args[0]) is Val:
                return Num(SIZE(args[0].t))
        if w == 'type' and isinstance(args[0], Val):
            return Val(TYPE(args[0].t))
        if w in ('tuple', 'list') and len(args) == 1:
            if isinstance(args[0], Seq):
                return args[0] if w == 'tuple' or not self.nested(args[0]) else args[0]
            if type(args[0]) is Val:
                if args[0].t.decl().name() == 'flat_values':
                    return args[0]
                return Val((TUPLE1 if w == 'tuple' else LIST1)(args[0].t))
        if w == 'sorted' and isinstance(args[0], Sym) and args[0].w == 'items':
            return args[0]
        if w in ('range', 'np.arange') and all(isinstance(a, Num) for a in args) and 1 <= len(args) <= 2:
            return Sym('range', (args[0].t if len(args) == 2 else z3.IntVal(0), args[-1].t))
        if w == '_HashedSeq':
            return Sym('hashed', args[0])
        if w == 'hash':
            return Sym('hash', args[0])
        if w == 'np.array' and type(args[0]) is Val:
            d = args[1] if len(args) > 1 else kws.get('dtype')
            return Val(BUILD(args[0].t, d.t if isinstance(d, Val) else z3.Const('guessed_type', V), z3.Const('flat_shape', V)))
        if w == 'method':
            o, a = f.data
            if type(o) is Val:
                if a in ('flatten', 'ravel') and not args and not kws:
                    return Val(FLAT(o.t))
                if a == 'reshape' and len(args) == 1 and isinstance(args[0], Val) and o.t.decl().name() == 'array_of':
                    return Val(BUILD(o.t.arg(0), o.t.arg(1), args[0].t))
            if isinstance(o, Sym) and o.w == 'kwds' and a == 'items':
                return Sym('items', o.data)
        raise Unsupported('call of %s in the cache' % ast.unparse(e.func)[:50])

    def nested(self, s):
        return False


def seq(name):
    f = z3.Function(name, I, V)
    return Seq(z3.Const('len_' + name, I), lambda i: f(i))


def equal_seq(a, b):
    i = z3.FreshConst(I, 'i')
    return z3.And(a.n == b.n, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < a.n), a.at(i) == b.at(i))))


def same_at(a, b, i):
    return z3.And(a.n == b.n, z3.Implies(z3.And(0 <= i, i < a.n), a.at(i) == b.at(i)))


def instance(tag):
    i = z3.Int('i')
    a, fl, ty = seq('args' + tag), seq('items' + tag), seq('types' + tag)
    m = z3.Const('number_of_keywords' + tag, I)
    hyps = [a.n >= 0, m >= 0, fl.n == 2 * m, ty.n == m]
    for s in (a, fl, ty):
        hyps.append(z3.ForAll([i], s.at(i) != MARK))
    return a, dict(m=m, flat=fl, types=ty), hyps


def make_key(tree):
    """equal keys belong to equal arguments"""
    fn = [x for x in tree.body if isinstance(x, ast.FunctionDef) and x.name == '_make_key']
    if not fn:
        raise Unsupported('_make_key not found')
    fn = fn[0]
    names = [a.arg for a in fn.args.args]
    fast = z3.Function('is_fast_type', V, z3.BoolSort())
    typed = z3.Const('typed', z3.BoolSort())
    v = z3.Const('v', V)
    base = [z3.ForAll([v], TYPE(v) != MARK)]
    runs = []
    for tag in ('1', '2'):
        a, kw, hyps = instance(tag)
        ev = Eval({names[0]: a, names[1]: Sym('kwds', kw), names[2]: Bool(typed), 'kwd_mark': Seq(z3.IntVal(1), lambda i: MARK)}, {'fast': fast})
        for n, d in zip(names[::-1], fn.args.defaults[::-1]):
            if isinstance(d, ast.Set):
                # all of them hashable values whose equality is decided by their value
                if not all(isinstance(x, ast.Name) and x.id in ('int', 'str', 'frozenset', 'float', 'bytes') or isinstance(x, ast.Call) for x in d.elts):
                    raise Unsupported('types that are their own keys')
        runs.append((a, kw, hyps, ev.run(fn.body)))
    obls = []
    (a1, k1, h1, o1), (a2, k2, h2, o2) = runs
    i = z3.FreshConst(I, 'i')
    ta = lambda a, k: z3.And(z3.Implies(z3.And(0 <= k, k < a.n), True))
    for x, r in o1:
        for y, q in o2:
            path = base + h1 + h2 + x.path + y.path
            if isinstance(r, Sym) and r.w == 'hashed' and isinstance(q, Sym) and q.w == 'hashed':
                r_, q_ = r.data, q.data
                if not isinstance(r_, Seq) or not isinstance(q_, Seq):
                    raise Unsupported('key')
                # instances of the equality of both keys
                hyp = [r_.n == q_.n]
                for at in (a1.n, a2.n, i, a1.n + i, a1.n + 1 + i, a1.n + 1 + k1['flat'].n + i, a1.n + 1 + k1['flat'].n + a1.n + i):
                    hyp.append(z3.Implies(z3.And(0 <= at, at < r_.n), r_.at(at) == q_.at(at)))
            elif isinstance(r, Val) and isinstance(q, Val):
                hyp = [r.t == q.t]
            elif isinstance(r, Val) and isinstance(q, Sym) or isinstance(q, Val) and isinstance(r, Sym):
                # a value of a fast type never equals a _HashedSeq, which is a list
                one = r.t if isinstance(r, Val) else q.t
                obls.append(('a bare key is a value of a simple type', path, fast(TYPE(one)), fn.lineno, 'post'))
                continue
            else:
                raise Unsupported('key')
            for nm, g in (('positional arguments', same_at(a1, a2, i)), ('keyword arguments', z3.And(k1['m'] == k2['m'], same_at(k1['flat'], k2['flat'], i))),
                          ('types of typed positional arguments', z3.Implies(z3.And(typed, 0 <= i, i < a1.n), TYPE(a1.at(i)) == TYPE(a2.at(i)))),
                          ('types of typed keyword arguments', z3.Implies(typed, same_at(k1['types'], k2['types'], i)))):
                obls.append(('equal keys have equal %s' % nm, path + hyp, g, fn.lineno, 'post'))
    return obls


def hashed_seq(tree):
    cl = [x for x in tree.body if isinstance(x, ast.ClassDef) and x.name == '_HashedSeq']
    if not cl or [getattr(b, 'id', '') for b in cl[0].bases] != ['list']:
        raise Unsupported('_HashedSeq is no list')
    fns = {f.name: f for f in cl[0].body if isinstance(f, ast.FunctionDef)}
    if set(fns) - {'__init__', '__hash__'} or '__init__' not in fns or '__hash__' not in fns:
        raise Unsupported('methods of _HashedSeq')
    init, hsh = fns['__init__'], fns['__hash__']
    names = [a.arg for a in init.args.args]
    tup = seq('tup')
    ev = Eval({names[1]: tup}, {})
    st = St()
    st.v.update(ev.env)
    content, hashed = None, None
    for s in init.body:
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
            continue
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Subscript) and getattr(s.targets[0].value, 'id', '') == names[0]:
            content = ev.expr(st, s.value)
            continue
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Attribute) and s.targets[0].attr == 'hashvalue':
            hashed = ev.expr(st, s.value)
            continue
        ev.stmt(st, s)
    i = z3.FreshConst(I, 'i')
    ret = [s for s in hsh.body if isinstance(s, ast.Return)]
    ok = hashed is not None and isinstance(hashed, Sym) and hashed.w == 'hash' and isinstance(hashed.data, Seq)
    return [('a key holds the values it is made of', [tup.n >= 0], same_at(content, tup, i) if isinstance(content, Seq) else z3.BoolVal(False), init.lineno, 'post'),
            ('the hash of a key is that of its values', [tup.n >= 0], same_at(hashed.data, tup, i) if ok else z3.BoolVal(False), init.lineno, 'post'),
            ('the hash of a key is the stored one', [], z3.BoolVal(len(ret) == 1 and isinstance(ret[0].value, ast.Attribute) and ret[0].value.attr == 'hashvalue'), hsh.lineno, 'post')]


def np_cache(tree):
    """the cached function is called with what its wrapper was called with, and the key contains all of it"""
    fac = [x for x in tree.body if isinstance(x, ast.FunctionDef) and x.name == 'np_cache_factory']
    if not fac:
        raise Unsupported('np_cache_factory not found')
    deco = [x for x in fac[0].body if isinstance(x, ast.FunctionDef)]
    if len(deco) != 1:
        raise Unsupported('decorator of np_cache_factory')
    inner = [x for x in deco[0].body if isinstance(x, ast.FunctionDef)]
    cached = [x for x in inner if any(isinstance(d, ast.Call) and getattr(d.func, 'id', '') == 'lru_cache' for d in x.decorator_list)]
    plain = [x for x in inner if x not in cached]
    if len(cached) != 1 or len(plain) != 1:
        raise Unsupported('closures of np_cache_factory')
    cached, plain = cached[0], plain[0]
    pn = [a.arg for a in fac[0].args.args]
    fname = deco[0].args.args[0].arg
    na, nl = z3.Const('nb_arrs', I), z3.Const('nb_lists', I)
    args = seq('args')
    hyps = [na >= 0, nl >= 0, args.n >= na + nl]
    x, i, j = z3.Const('x', V), z3.Int('i'), z3.Int('j')
    # numpy: an array is determined by its values, its type and its shape; nested lists by their items
    hyps += [z3.ForAll([x], BUILD(FLAT(x), DTYPE(x), SHAPE(x)) == x, patterns=[FLAT(x)]),
             z3.ForAll([x], ROUND(NEST(x)) == ROUND(x), patterns=[NEST(x)])]
    env = {pn[0]: Num(na), pn[1]: Num(nl), plain.args.vararg.arg: args}
    obls = []
    ev = Eval(env, {'record': (cached.name,), 'result': lambda w, a, k: z3.Const('result', V)})
    ev = NpEval(env, ev.flags)
    outs = ev.run(plain.body)
    if len(ev.calls) != 1 or len(outs) != 1:
        raise Unsupported('calls of the cached function')
    _, ca, kw, path, line = ev.calls[0]
    obls.append(('the result of the cached function is returned', hyps + path,
                 outs[0][1].t == z3.Const('result', V) if isinstance(outs[0][1], Val) else z3.BoolVal(False), plain.lineno, 'post'))
    if any(not isinstance(v, Seq) for v in kw.values()):
        raise Unsupported('keyword arguments of the cached function')
    ev2 = NpEval({**{pn[0]: Num(na), pn[1]: Num(nl), cached.args.vararg.arg: ca}, **kw}, {'record': (fname,), 'result': lambda w, a, k: z3.Const('result', V)})
    if {a.arg for a in cached.args.kwonlyargs} != set(kw):
        raise Unsupported('keyword arguments of the cached function')
    outs = ev2.run(cached.body)
    if len(ev2.calls) != 1 or len(outs) != 1:
        raise Unsupported('calls of the function')
    _, fa, fk, path2, line2 = ev2.calls[0]
    k = z3.FreshConst(I, 'k')
    rng = [0 <= k, k < args.n]
    h = hyps + path + path2
    obls.append(('the function is called with as many arguments', h, z3.And(fa.n == args.n, z3.BoolVal(not fk)), line2, 'post'))
    obls.append(('arrays reach the function with their values, shape and type', h + rng + [k < na], fa.at(k) == args.at(k), line2, 'post'))
    obls.append(('lists of lists reach the function', h + rng + [na <= k, k < na + nl], fa.at(k) == ROUND(args.at(k)), line2, 'post'))
    obls.append(('other arguments reach the function', h + rng + [na + nl <= k], fa.at(k) == args.at(k), line2, 'post'))
    obls.append(('the result of the function is returned', h, outs[0][1].t == z3.Const('result', V) if isinstance(outs[0][1], Val) else z3.BoolVal(False), line2, 'post'))
    # the key: hashable, hence tuples of values and not the arrays themselves
    obls.append(('keys hold the values of arrays', h + rng + [k < na], z3.And(ca.at(k) == FLAT(args.at(k))), line, 'post'))
    return obls


ROUND = z3.Function('as_list_of_lists', V, V)
NEST = z3.Function('as_tuple_of_tuples', V, V)


class NpEval(Eval):
    """additionally: tuple([tuple(x[run]) for run in range(len(x))]) and [list(x[run]) for run in range(len(x))]"""
    def expr(self, st, e):
        m = self.nest(st, e)
        return m if m is not None else super().expr(st, e)

    def nest(self, st, e):
        outer = None
        c = e
        if isinstance(c, ast.Call) and getattr(c.func, 'id', '') in ('tuple', 'list') and len(c.args) == 1:
            outer, c = c.func.id, c.args[0]
        if not isinstance(c, (ast.ListComp, ast.GeneratorExp)) or len(c.generators) != 1 or c.generators[0].ifs:
            return None
        outer = outer or ('list' if isinstance(c, ast.ListComp) else None)
        el, g = c.elt, c.generators[0]
        if not (isinstance(el, ast.Call) and getattr(el.func, 'id', '') in ('tuple', 'list') and len(el.args) == 1 and isinstance(g.target, ast.Name)):
            return None
        src = None
        if isinstance(el.args[0], ast.Name) and el.args[0].id == g.target.id:
            src = g.iter
        elif isinstance(el.args[0], ast.Subscript) and isinstance(el.args[0].slice, ast.Name) and el.args[0].slice.id == g.target.id:
            it = g.iter
            if isinstance(it, ast.Call) and getattr(it.func, 'id', '') == 'range' and len(it.args) == 1 and isinstance(it.args[0], ast.Call) and \
                    getattr(it.args[0].func, 'id', '') == 'len' and ast.dump(it.args[0].args[0]) == ast.dump(el.args[0].value):
                src = el.args[0].value
        if src is None or outer != el.func.id:
            return None
        v = super().expr(st, src)
        if type(v) is not Val:
            return None
        if outer == 'tuple':
            return Val(NEST(v.t))
        return Val(ROUND(v.t))

"""Contracts: one specification, used in two ways.

verify(contract): parameters become symbolic, `requires` is assumed, the real body is executed symbolically and the
  result, every array that existed before (frame included) and every exception are proved to agree with the spec.
use (at a call):  `requires` becomes an obligation, the arrays listed in `sets`/`havoc` change as specified, nothing
  else changes, the specified value is returned.
"""
import re
from . import terms as t
from .terms import (T, TRUE, FALSE, ZERO_I, ONE_I, num, var, fresh, uf, and_, or_, not_, ite, eq, le, lt, add, sub,
                    mul, lam, app, subst, opq)
from .frontend import Unsupported
from . import frontend as F
from .numpy_model import mutable_global
from .engine import (Arr, FuncV, Store, TupleV, DictV, NONE, NoneV, Opaque, State, Obl, Undef, is_scalar, Engine, same_value,
                     ObjV, StructV)

SORTS = {'R': 'R', 'I': 'I', 'B': 'B', 'S': 'S'}


def fresh_copy(v):
    """containers among the values of a variant are created anew for every use"""
    if isinstance(v, DictV):
        return DictV({k: fresh_copy(x) for k, x in v.d.items()})
    if isinstance(v, TupleV):
        return TupleV([fresh_copy(x) for x in v.items], v.kind)
    return v


def containers(name, v, out):
    """(name, container, its entries) of every dictionary and list within v"""
    if isinstance(v, DictV):
        out.append((name, v, dict(v.d)))
        for k, x in v.d.items():
            containers('%s[%r]' % (name, k), x, out)
    elif isinstance(v, TupleV):
        out.append((name, v, list(v.items)))
        for k, x in enumerate(v.items):
            containers('%s[%d]' % (name, k), x, out)
    return out


class View:
    """pre-state content of an array argument"""
    def __init__(self, eng, st, arr):
        self.eng, self.st, self.arr = eng, st, arr
        self.dims = arr.dims

    def __call__(self, *idx):
        return self.eng.read(self.st, self.arr, [t.lift(i, 'I') for i in idx])

    def lam(self):
        return self.eng.content(self.st, self.arr)

    def row(self, *idx):
        """lambda over the remaining axes"""
        n = len(self.dims) - len(idx)
        vs = [fresh('x', 'I') for _ in range(n)]
        return lam(vs, self(*(list(idx) + vs)))


class LamView:
    """array argument given by a function of its indices"""
    def __init__(self, dims, f, dtype='R'):
        self.dims, self.f, self.dtype = dims, f, dtype

    def __call__(self, *idx):
        return self.f(*[t.lift(i, 'I') for i in idx])

    def lam(self):
        return t.mklam(len(self.dims), self.f)

    row = View.row


class PSpec:
    def __init__(self, txt):
        self.txt = txt
        name, _, ty = txt.partition(':')
        self.name = name
        self.optional = ty.endswith('?')
        ty = ty.rstrip('?')
        m = re.match(r'^([RIBS*])(?:\[(.*)\])?$', ty)
        self.ptr = ty.startswith('P')
        if self.ptr:
            m = re.match(r'^P()\[(.*)\]$', ty)
        if not m:
            raise ValueError('parameter spec %r' % txt)
        self.sort = m.group(1) or 'R'
        self.dims = [x.strip() for x in m.group(2).split(',')] if m.group(2) is not None else None


class Sig:
    def __init__(self, txt):
        self.ps = [PSpec(x) for x in txt.split()]

    def __len__(self):
        return len(self.ps)


def dim_expr(txt, env):
    """value of 'n', '3', 'n+1', 'n-1' under env; None if the name is unbound"""
    m = re.match(r'^(\w+)([+-]\d+)?$', txt)
    if not m:
        raise ValueError(txt)
    b, k = m.group(1), int(m.group(2) or 0)
    if b.isdigit():
        return num(int(b) + k, 'I')
    if b not in env:
        return None
    return add(env[b], num(k, 'I'))


def bind_dim(txt, d, env):
    m = re.match(r'^(\w+)([+-]\d+)?$', txt)
    b, k = m.group(1), int(m.group(2) or 0)
    env[b] = sub(d, num(k, 'I'))


class Ctx:
    """what a spec function sees"""
    def __init__(self, eng, pre, mode, env, contract, func):
        self.eng, self.pre, self.mode, self.env, self.contract, self.func = eng, pre, mode, env, contract, func
        self.reqs = []
        self.setl = []
        self.havocs = []
        self.ret = None
        self.retkind = None
        self.raises = []
        self.facts = []
        self.dec = None
        self.gl = []
        self.attrs = []
        self.sim = None

    def __getattr__(self, n):
        if n in self.__dict__.get('env', {}):
            return self.__dict__['env'][n]
        raise AttributeError(n)

    def requires(self, cond, name='precondition'):
        self.reqs.append((name, cond))

    def sets(self, view, f, cond=None):
        self.setl.append((view.arr, f, cond))

    def simulate(self, view, sim):
        """view ends up with the content the recursion sim computes"""
        if self.mode == 'verify':
            self.sim = sim
            sim.arr = view.arr
            self.sets(view, sim.unfold(None))
        else:
            self.sets(view, sim.start())

    def havoc(self, view):
        self.havocs.append(view.arr)

    def returns(self, v):
        self.ret = v
        self.retkind = 'value'

    def array(self, dtype, dims, f):
        return RetArr(dtype, [t.lift(d, 'I') for d in dims], f)

    def some_array(self, dtype, dims, such=lambda y: []):
        return RetSuch(dtype, [t.lift(d, 'I') for d in dims], such)

    def jointly(self, items, such):
        return RetJoint(items, such)

    def ragged(self, dtype, n, dims, f, islist=False):
        return RetRagged(dtype, n, dims, f, islist)

    def returns_array(self, dtype, dims, f):
        self.ret = self.array(dtype, dims, f)
        self.retkind = 'value'

    def returns_like(self, view, f, cond=None):
        """an array shaped like view with content f: a new one, or view itself"""
        r = self.array(view.arr.dtype, view.dims, f)
        r.may_be = view
        self.ret = r
        self.retkind = 'value'

    def returns_any(self):
        self.retkind = 'any'

    def raises_when(self, cond, *excs):
        self.raises.append((cond, excs))

    def fact(self, cond):
        """consequence of the postcondition callers may use (proved as a lemma in verify mode)"""
        self.facts.append(cond)

    def lemma(self, cond):
        """consequence of the postcondition, proved but not used by callers"""
        if self.mode == 'verify':
            self.facts.append(cond)

    def get_global(self, modpath, name):
        k = (modpath, name)
        return self.pre.globals[k] if k in self.pre.globals else mutable_global(modpath, name)

    def set_global(self, modpath, name, v):
        self.gl.append((modpath, name, v))

    def call(self, key, *args):
        """the specified result of another function under contract for these arguments (views or functions of indices);
        its exceptions become exceptions of this one"""
        con = REGISTRY[key]
        env = {}
        for s, a in zip(con.sig.ps, args):
            if s.dims is None:
                if isinstance(a, T):
                    env[s.name] = a
                continue
            for d, x in zip(s.dims, a.dims):
                if d != '_' and not d.startswith('>=') and dim_expr(d, env) is None:
                    bind_dim(d, x, env)
        sub_ = Ctx(self.eng, self.pre, 'use', env, con, None)
        con.spec(sub_, *args)
        if sub_.setl or sub_.havocs or sub_.gl or sub_.attrs:
            raise Unsupported('%s has effects' % key)
        self.raises.extend(sub_.raises)
        return sub_.ret

    def lam(self, dims, f, dtype='R'):
        return LamView([t.lift(d, 'I') for d in dims], f, dtype)

    def writes(self, path, a, **opts):
        """the text file path holds the array a, printed with the given options"""
        def same(eng, s, got, f, what, sfx):
            if not isinstance(got, Opaque) or got.tag != 'file' or any(got.opts.get(k) != v for k, v in opts.items()):
                eng.obls.append(Obl('%s: %s is written as specified%s' % (f.qual, what, sfx), s.hyps(), FALSE, f.key, 0, 'post'))
                return
            self.contract.match(eng, s, got.arr, a, self.pre, f, 'the content of the file', sfx)
        self.gl.append(('<files>', path, same))

    def strcat(self, *parts):
        return self.eng.np.strcat([t.strc(p) if isinstance(p, str) else p for p in parts])

    def returns_records(self, dims, fields):
        """fields: name -> (element type, trailing axes, function of all indices)"""
        self.ret = RetStruct([t.lift(d, 'I') for d in dims], {k: self.array(ty, list(dims) + list(tail), g) for k, (ty, tail, g) in fields.items()})
        self.retkind = 'value'

    def view(self, v):
        return View(self.eng, self.pre, v) if isinstance(v, Arr) else v

    def attr(self, obj, name):
        """value of an attribute before the call (arrays as views)"""
        v = self.pre.objs.get((obj.oid, name))
        if v is None:
            raise Unsupported('attribute %s is not described' % name)
        return View(self.eng, self.pre, v) if isinstance(v, Arr) else v

    def set_attr(self, obj, name, v):
        self.attrs.append((obj, name, v))

    def forall(self, n, f, lo=0):
        k = fresh('q', 'I')
        return t.forall([k], or_(not_(and_(le(t.lift(lo, 'I'), k), lt(k, n))), f(k)))


def index_cases(dims, cap=12):
    """index tuples covering the array: short constant axes are enumerated, others symbolic"""
    import itertools
    opts = []
    size = 1
    for d in dims:
        if d.op == 'num' and 0 < d.data <= 4 and size * d.data <= cap:
            opts.append([num(k, 'I') for k in range(int(d.data))])
            size *= int(d.data)
        else:
            opts.append([fresh('j', 'I')])
    for js in itertools.product(*opts):
        rng = tuple(x for j, d in zip(js, dims) for x in (le(ZERO_I, j), lt(j, d)) if x is not TRUE)
        yield list(js), rng


class Sim:
    """recursion an iterative function is compared with: unfold(None) is its result by one unfolding from the initial state,
    unfold(sigma) from the state sigma reached after some iterations, again(sigma) the same left folded, start() the
    folded result from the initial state. heads: functions whose values make up the state -> number of index arguments"""
    def __init__(self, name, dims, heads, unfold, again, start, limit, limit_name):
        self.name, self.dims, self.heads = name, dims, heads
        self.unfold, self.again, self.start, self.limit, self.limit_name = unfold, again, start, limit, limit_name


class RetArr:
    def __init__(self, dtype, dims, f, islist=False):
        self.dtype, self.dims, self.f, self.islist = dtype, dims, f, islist
        self.may_be = None


class RetRagged:
    """a list of n arrays of different lengths"""

    def __init__(self, dtype, n, dims, f, islist=False):
        self.dtype, self.n, self.dims, self.f, self.islist = dtype, n, dims, f, islist


class RetSuch:
    """an array of which only a property of its content is specified: such(read) is a list of (name, formula)"""

    def __init__(self, dtype, dims, such):
        self.dtype, self.dims, self.such = dtype, dims, such


class RetJoint:
    """a tuple of values with a property of them together: such(*values) is a list of (name, formula); arrays are given as readers"""

    def __init__(self, items, such):
        self.items, self.such = items, such


class RetStruct:
    def __init__(self, dims, fields):
        self.dims, self.fields = dims, fields


class Contract:
    def __init__(self, key, sig, spec, props=(), inline_at_calls=False, variants=None, make=None, level='internal',
                 note='', optional=False, measure=None, setup=None):
        self.key, self.spec, self.props, self.inline_at_calls = key, spec, tuple(props), inline_at_calls
        self.sig = Sig(sig)
        self.variants = variants or [{}]
        self.make = make or {}
        self.level = level          # 'internal' or 'top'
        self.note = note
        self.setup = setup
        self.measure = measure

    @property
    def path(self):
        return self.key.split('::')[0]

    def func(self):
        try:
            m = F.load(self.path)
        except FileNotFoundError:
            return None
        return m.funcs.get(self.key.split('::')[1])

    def applies(self, f):
        ps = self.sig.ps
        if len(f.params) != len(ps):
            return False
        for p, s in zip(f.params, ps):
            ct = f.types.get(p)
            if ct is None or s.sort == '*':
                continue
            nd = len(s.dims) if s.dims is not None and not s.ptr else 0
            if ct.ndim != nd and ct.base not in ('object', 'str', 'list', 'dict'):
                return False
        return True

    # ---- arguments ---------------------------------------------------------------------------------------
    def symbolic_args(self, eng, st, f, variant):
        env = {}
        vals = {}
        args = []
        for s in self.sig.ps:
            if s.dims is not None:
                for d in s.dims:
                    b = re.match(r'^(?:>=)?(\w+)', d).group(1)
                    if not b.isdigit() and b != '_' and b not in env and not any(q.name == b and q.dims is None for q in self.sig.ps):
                        env[b] = var('n_' + b, 'I')
        for p, s in zip(f.params, self.sig.ps):
            if s.dims is None and s.sort in SORTS and not (s.name in variant):
                v = var('p_' + s.name, s.sort)
                env[s.name] = v
                vals[p] = v
        for p, s in zip(f.params, self.sig.ps):
            if s.name in variant:
                v = variant[s.name]
                vals[p] = v(eng, st, env) if callable(v) else fresh_copy(v)
                if is_scalar(vals[p]):
                    env[s.name] = vals[p]
            elif s.dims is not None:
                dims = []
                for d in s.dims:
                    if d == '_':
                        x = fresh('n', 'I')
                        st.assume(le(ZERO_I, x))
                    elif d.startswith('>='):
                        x = fresh('n', 'I')
                        st.assume(le(dim_expr(d[2:], env), x))
                        st.assume(le(ZERO_I, x))
                    else:
                        x = dim_expr(d, env)
                        if x.op != 'num':
                            st.assume(le(ZERO_I, x))
                    dims.append(x)
                nm = 'p_' + s.name
                a = eng.new_store(st, s.name, dims, s.sort, t.mklam(len(dims), lambda *ix: uf(nm, ix, s.sort)))
                ct = f.types.get(p)
                if ct is not None and ct.ndim:
                    a = eng.as_mv(a)
                vals[p] = a
            elif s.name in self.make:
                vals[p] = self.make[s.name](eng, st, env)
            elif p not in vals:
                raise Unsupported('no symbolic value for parameter %s' % s.name)
        for p, s in zip(f.params, self.sig.ps):
            args.append(self.wrap(eng, st, vals[p]))
        return vals, args, env

    def wrap(self, eng, st, v):
        if isinstance(v, Arr):
            return View(eng, st, v)
        if isinstance(v, NoneV):
            return None
        return v

    def actual_args(self, eng, st, f, vals, node):
        """bind the shape variables to the actual arguments; shape mismatches become obligations"""
        env = {}
        checks = []
        later = []
        for p, s in zip(f.params, self.sig.ps):
            v = vals[p]
            if s.dims is None and is_scalar(v):
                if s.sort in ('R', 'I', 'B') and v.sort != s.sort and v.sort != 'S':
                    v = eng.coerce(v, s.sort)
                    vals[p] = v
                env[s.name] = v
        for p, s in zip(f.params, self.sig.ps):
            v = vals[p]
            if s.dims is None:
                if s.sort in SORTS and not is_scalar(v) and not (s.optional and isinstance(v, NoneV)):
                    raise Unsupported('argument %s of %s: %r' % (s.name, self.key, v))
                continue
            if isinstance(v, NoneV) and s.optional:
                continue
            if s.ptr and isinstance(v, Opaque) and v.tag == 'ptr' and v.arr is not None and v.arr.ndim == 1:
                ix = v.idx
                if isinstance(ix, TupleV) and len(ix.items) == 1:
                    ix = ix.items[0]
                if isinstance(ix, (tuple, list)) and len(ix) == 1:
                    ix = ix[0]
                if ix is not ZERO_I:
                    raise Unsupported('pointer into the middle of an array')
                v = vals[p] = v.arr
            if not isinstance(v, Arr):
                if isinstance(v, TupleV) or isinstance(v, Opaque):
                    v = eng.np.to_arr(st, v, node)
                    vals[p] = v
                else:
                    raise Unsupported('argument %s of %s is %r' % (s.name, self.key, v))
            if v.ndim != len(s.dims):
                raise Unsupported('argument %s of %s has %d axes' % (s.name, self.key, v.ndim))
            if v.dtype != s.sort and not (s.sort == 'R' and v.dtype in ('I', 'B') and not v.mv):
                raise Unsupported('argument %s of %s has element type %s' % (s.name, self.key, v.dtype))
            for d, x in zip(s.dims, v.dims):
                if d == '_':
                    continue
                if d.startswith('>='):
                    later.append((s.name, d[2:], x))
                    continue
                e = dim_expr(d, env)
                if e is None:
                    bind_dim(d, x, env)
                elif e is not x:
                    checks.append((s.name, eq(e, x)))
        for nm, d, x in later:
            checks.append((nm, le(dim_expr(d, env), x)))
        for nm, c in checks:
            if c is not TRUE and not eng.entails(st, c):
                eng.oblige(st, c, 'call of %s: shape of %s' % (f.qual, nm), node, 'pre')
            st.assume(c)
        args = [self.wrap(eng, st, vals[p]) for p in f.params]
        return args, env

    # ---- use ---------------------------------------------------------------------------------------------
    def use(self, eng, st, f, vals, node):
        args, env = self.actual_args(eng, st, f, vals, node)
        pre = st.copy()
        for a in args:
            if isinstance(a, View):
                a.st = pre
        c = Ctx(eng, pre, 'use', env, self, f)
        self.spec(c, *args)
        if self.measure is not None and eng.verifying == self.key:
            for nm, cond in self.measure(c, eng.verify_args, args):
                eng.oblige(st, cond, 'recursive call of %s: %s' % (f.qual, nm), node, 'measure')
        for nm, cond in c.reqs:
            if cond is not TRUE:
                if not eng.entails(st, cond):
                    eng.oblige(st, cond, 'call of %s: %s' % (f.qual, nm), node, 'pre')
                st.assume(cond)
        for cond, excs in c.raises:
            eng.raise_if(st, cond, excs[0] if excs else 'Exception', node)
        if FALSE in st.path:
            return NONE
        written = [a.store for a, _, _ in c.setl] + [a.store for a in c.havocs]
        arrs = [v for v in vals.values() if isinstance(v, Arr)]
        for w in set(written):
            if sum(1 for a in arrs if a.store is w) > 1:
                raise Unsupported('aliased arguments in call of %s' % f.key)
        for a in c.havocs:
            nm = t.fresh_name('hv')
            ctx = list(eng.iters)
            eng.write_region(st, a, lambda *ix: uf(nm, tuple(ctx) + ix, a.dtype))
        for a, g, cond in c.setl:
            eng.write_region(st, a, g, cond)
        for mp, nm, v in c.gl:
            st.globals[(mp, nm)] = v
        for o, nm, v in c.attrs:
            st.objs[(o.oid, nm)] = self.realise(eng, st, v, f)
        if c.retkind == 'any':
            raise Unsupported('contract of %s does not determine its result' % f.key)
        r = self.realise(eng, st, c.ret, f)
        for g in c.facts:
            st.assume(g)
        if f.rettype is not None and f.rettype.ndim:
            r = eng.as_mv(r)
        return r

    def realise(self, eng, st, v, f):
        if v is None:
            return NONE
        if isinstance(v, View):
            return v.arr
        if isinstance(v, RetArr):
            a = eng.alloc(st, f.name + '_result', v.dims, v.dtype, v.f)
            a.islist = v.islist
            if v.may_be is not None:
                a.store.readonly = 'may be shared with an argument of %s' % f.qual
            return a
        if isinstance(v, RetSuch):
            nm = t.fresh_name('some')
            it = tuple(eng.iters)
            a = eng.alloc(st, f.name + '_result', v.dims, v.dtype, lambda *ks: uf(nm, it + ks, v.dtype))
            for _, x in v.such(lambda *ks: uf(nm, it + ks, v.dtype)):
                st.assume(x)
            return a
        if isinstance(v, RetJoint):
            r = TupleV([self.realise(eng, st, x, f) for x in v.items], 'tuple')
            for _, x in v.such(*[self.reader(eng, st, x) for x in r.items]):
                st.assume(x)
            return r
        if isinstance(v, RetRagged):
            k = fresh('k', 'I')
            js = [fresh('j', 'I') for _ in v.dims(k)]
            ds = [t.lam([k], d) for d in v.dims(k)]
            return Opaque('ragged', n=v.n, lens=ds[0] if len(ds) == 1 else None, dimf=ds, body=t.lam([k] + js, v.f(k, *js)), dtype=v.dtype,
                          islist=v.islist)
        if isinstance(v, RetStruct):
            return StructV(v.dims, {k: self.realise(eng, st, x, f) for k, x in v.fields.items()})
        if isinstance(v, (tuple, list)):
            return TupleV([self.realise(eng, st, x, f) for x in v], 'tuple' if isinstance(v, tuple) else 'list')
        if isinstance(v, dict):
            return DictV({k: self.realise(eng, st, x, f) for k, x in v.items()})
        if isinstance(v, (int, float, str, bool)):
            return t.lift(v) if not isinstance(v, bool) else (TRUE if v else FALSE)
        return v

    def reader(self, eng, st, x):
        return (lambda *ks: eng.read(st, x, list(ks))) if isinstance(x, Arr) else x

    # ---- verify ------------------------------------------------------------------------------------------
    def verify(self, eng):
        """returns the obligations (list of Obl)"""
        f = self.func()
        if f is None:
            raise Unsupported('function %s not found' % self.key)
        if not self.applies(f):
            raise Unsupported('signature of %s changed' % self.key)
        out = []
        for vi, variant in enumerate(self.variants):
            out.extend(self.verify_variant(eng, f, variant, vi))
        return out

    def verify_variant(self, eng, f, variant, vi):
        eng.obls = []
        st = State()
        vals, args, env = self.symbolic_args(eng, st, f, variant)
        if self.setup is not None:
            self.setup(eng, st, vals, env)
        pre = st.copy()
        for a in args:
            if isinstance(a, View):
                a.st = pre
        boxes = []
        for nm, v in list(vals.items()) + [('%s of the object' % k[1], v) for k, v in st.objs.items()]:
            containers(nm, v, boxes)
        c = Ctx(eng, pre, 'verify', env, self, f)
        c.boxes = boxes
        eng.verifying = self.key
        eng.verify_args = args
        self.spec(c, *args)
        eng.sim = c.sim
        for nm, cond in c.reqs:
            st.assume(cond)
        c.pre.facts = st.facts
        reqs = st.facts
        # the preconditions must be satisfiable: an obligation that has to fail
        eng.vacuity.append((self.key, vi, st.hyps()))
        body = st.copy()
        body.vars = dict(vals)
        body.raised = []
        outs = eng.run_body(body, f)
        tag = f.qual
        sfx = '' if len(self.variants) == 1 else ' [case %d]' % vi
        eng.funcstack = eng.funcstack + [f]
        raised_any = or_(*[cond for cond, _ in c.raises]) if c.raises else FALSE
        try:
            for path, exc, rs in body.raised:
                ok = [cond for cond, excs in c.raises if not excs or exc in excs]
                goal = or_(*ok) if ok else FALSE
                eng.obls.append(Obl('%s: raises %s only when specified%s' % (tag, exc, sfx), rs.hyps(), goal, f.key, 0, 'raise'))
            if outs:
                for o in outs:
                    self.post(eng, c, o, f, pre, st, sfx, raised_any)
            elif not c.raises:
                eng.obls.append(Obl('%s: returns%s' % (tag, sfx), st.hyps(), FALSE, f.key, 0, 'post'))
        finally:
            eng.funcstack = eng.funcstack[:-1]
        obls = [o for o in eng.obls]
        eng.obls = []
        return obls

    def post(self, eng, c, o, f, pre, st, sfx, raised_any):
        tag = f.qual
        s = o.st
        h = s.hyps()
        if raised_any is not FALSE:
            eng.obls.append(Obl('%s: must raise when specified%s' % (tag, sfx), h, not_(raised_any), f.key, 0, 'raise'))
        # expected heap
        spec = pre.copy()
        hav = {a.store.sid for a in c.havocs}
        for a, g, cond in c.setl:
            if s.phase is not None and a is c.sim.arr:
                g = c.sim.unfold(s.phase)
            eng.write_region(spec, a, g, cond)
        for sid in pre.heap:
            if sid in hav:
                continue
            want, got = spec.heap[sid], s.heap.get(sid)
            from .loops import STORES
            store = STORES[sid]
            if got is want:
                if want is pre.heap[sid]:       # no path to the end writes to it
                    eng.obls.append(Obl('%s: %s is left unchanged%s' % (tag, store.name, sfx), h, TRUE, f.key, 0, 'frame'))
                continue
            changed = want is not pre.heap[sid]
            what = '%s holds its specified content' % store.name if changed else '%s is left unchanged' % store.name
            for js, rng in index_cases(store.dims):
                eng.obls.append(Obl('%s: %s%s' % (tag, what, sfx), h + rng, eq(app(got, js), app(want, js)), f.key, 0,
                                    'post' if changed else 'frame'))
        for nm, box, was in c.boxes:
            now = box.d if isinstance(box, DictV) else box.items
            if len(now) != len(was) or any(a is not b for a, b in (zip(now, was) if isinstance(was, list) else [(now.get(k), was[k]) for k in was])):
                eng.obls.append(Obl('%s: %s is left unchanged%s' % (tag, nm, sfx), h, FALSE, f.key, 0, 'frame'))
        for ob, nm, v in c.attrs:
            self.match(eng, s, s.objs.get((ob.oid, nm)), v, pre, f, 'attribute %s' % nm, sfx)
        told = {(ob.oid, nm) for ob, nm, _ in c.attrs}
        for k, v in pre.objs.items():
            if k not in told and not same_value(s.objs.get(k), v):
                got = s.objs.get(k)
                goal = eq(got, v) if is_scalar(v) and is_scalar(got) and v.sort == got.sort else FALSE
                eng.obls.append(Obl('%s: attribute %s is left unchanged%s' % (tag, k[1], sfx), h, goal, f.key, 0, 'frame'))
        for (mp, nm, v) in c.gl:
            got = s.globals.get((mp, nm))
            self.match(eng, s, got, v, pre, f, 'module variable %s' % nm, sfx)
        setg = {(mp, nm) for mp, nm, _ in c.gl}
        for k, v in s.globals.items():
            if k == eng.np.RNG or isinstance(v, FuncV) and k not in pre.globals:
                continue                # an attribute of a function holding its cached inner function (see TRUSTED)
            if k not in setg and is_scalar(v) and k not in pre.globals and is_mutable(k) and v is mutable_global(*k):
                continue
            if k not in setg and not same_value(v, pre.globals.get(k)) and not (is_scalar(v) and is_scalar(pre.globals.get(k)) and v is pre.globals.get(k)):
                eng.obls.append(Obl('%s: module variable %s is left unchanged%s' % (tag, k[1], sfx), h, FALSE, f.key, 0, 'frame'))
        if c.retkind == 'value':
            self.match(eng, s, o.value, c.ret, pre, f, 'result', sfx)
        for g in c.facts:
            eng.obls.append(Obl('%s: stated consequence%s' % (tag, sfx), h, g, f.key, 0, 'post'))

    def match(self, eng, s, got, want, pre, f, what, sfx):
        """obligations: the value got (in state s) is the specified one"""
        h = s.hyps()
        tag = '%s: %s' % (f.qual, what)

        def fail(why):
            eng.obls.append(Obl('%s %s%s' % (tag, why, sfx), h, FALSE, f.key, 0, 'post'))
        if got is None or isinstance(got, Undef):
            return fail('is defined')
        if callable(want) and not isinstance(want, View):
            return want(eng, s, got, f, what, sfx)
        if want is None or isinstance(want, NoneV):
            if not isinstance(got, NoneV):
                fail('is None')
            return
        if isinstance(want, (int, float, str, bool)):
            want = self.realise(eng, s, want, f)
        if isinstance(want, T):
            if isinstance(got, Arr) and got.ndim == 0:
                got = eng.read(s, got, [])
            if not is_scalar(got):
                return fail('is a scalar')
            if want.sort != got.sort:
                if 'S' in (want.sort, got.sort) or 'B' in (want.sort, got.sort):
                    return fail('has the specified type')
            eng.obls.append(Obl('%s is the specified value%s' % (tag, sfx), h, t.iff(got, want) if want.sort == 'B' else eq(got, want), f.key, 0, 'post'))
            return
        if isinstance(want, View):
            if not isinstance(got, Arr):
                return fail('is an array')
            if got.same(want.arr):
                return
            return fail('is the given array')
        if isinstance(want, RetArr):
            if isinstance(got, TupleV) or isinstance(got, Opaque):
                try:
                    got = eng.np.to_arr(s, got)
                except Unsupported:
                    return fail('is an array')
            if not isinstance(got, Arr) or got.ndim != len(want.dims):
                return fail('is an array with %d axes' % len(want.dims))
            if got.dtype != want.dtype and not (want.dtype == 'R' and got.dtype == 'I' and got.store.name == 'empty'):
                return fail('has the specified element type')
            if got.store.sid in pre.heap and not (want.may_be is not None and got.same(want.may_be.arr)):
                return fail('is a new array')
            for k, (a, b) in enumerate(zip(got.dims, want.dims)):
                if a is not b:
                    eng.obls.append(Obl('%s has the specified length on axis %d%s' % (tag, k, sfx), h, eq(a, b), f.key, 0, 'post'))
            for js, rng in index_cases(want.dims):
                w = eng.coerce(want.f(*js), want.dtype)
                g = eng.coerce(eng.read(s, got, js), want.dtype)
                eng.obls.append(Obl('%s has the specified content%s' % (tag, sfx), h + rng, t.iff(g, w) if w.sort == 'B' else eq(g, w), f.key, 0, 'post'))
            return
        if isinstance(want, RetSuch):
            if isinstance(got, (TupleV, Opaque)):
                try:
                    got = eng.np.to_arr(s, got)
                except Unsupported:
                    return fail('is an array')
            if not isinstance(got, Arr) or got.ndim != len(want.dims) or got.dtype != want.dtype:
                return fail('is an array with %d axes' % len(want.dims))
            if got.store.sid in pre.heap:
                return fail('is a new array')
            for k, (a, b) in enumerate(zip(got.dims, want.dims)):
                eng.obls.append(Obl('%s has the specified length on axis %d%s' % (tag, k, sfx), h, eq(a, b), f.key, 0, 'post'))
            for nm, x in want.such(lambda *ks: eng.read(s, got, list(ks))):
                eng.obls.append(Obl('%s: %s%s' % (tag, nm, sfx), h, x, f.key, 0, 'post'))
            return
        if isinstance(want, RetJoint):
            if not isinstance(got, TupleV) or len(got.items) != len(want.items):
                return fail('is a tuple of %d values' % len(want.items))
            n = len(eng.obls)
            for k, (a, b) in enumerate(zip(got.items, want.items)):
                self.match(eng, s, a, b, pre, f, '%s %d' % (what, k), sfx)
            if not any(o.goal is FALSE for o in eng.obls[n:]):
                for nm, x in want.such(*[self.reader(eng, s, x) for x in got.items]):
                    eng.obls.append(Obl('%s: %s%s' % (tag, nm, sfx), h, x, f.key, 0, 'post'))
            return
        if isinstance(want, RetRagged):
            return self.match_ragged(eng, s, got, want, f, what, sfx, fail)
        if isinstance(want, RetStruct):
            if not isinstance(got, StructV) or got.dims is None or len(got.dims) != len(want.dims) or set(got.d) != set(want.fields):
                return fail('has the specified fields')
            for k in want.fields:
                self.match(eng, s, got.d[k], want.fields[k], pre, f, '%s[%r]' % (what, k), sfx)
            return
        if isinstance(want, (tuple, list)):
            if not isinstance(got, TupleV) or len(got.items) != len(want):
                return fail('has %d components' % len(want))
            for k, (x, y) in enumerate(zip(got.items, want)):
                self.match(eng, s, x, y, pre, f, '%s[%d]' % (what, k), sfx)
            return
        if isinstance(want, dict):
            if not isinstance(got, DictV) or set(got.d) != set(want):
                return fail('has the keys %s' % sorted(map(str, want)))
            for k in want:
                self.match(eng, s, got.d[k], want[k], pre, f, '%s[%r]' % (what, k), sfx)
            return
        raise Unsupported('cannot match %r' % (want,))


    def match_ragged(self, eng, s, got, want, f, what, sfx, fail):
        h = s.hyps()
        tag = '%s: %s' % (f.qual, what)
        if isinstance(got, TupleV) and not got.items:
            eng.obls.append(Obl('%s has the specified length%s' % (tag, sfx), h, eq(want.n, t.ZERO_I), f.key, 0, 'post'))
            return
        k = fresh('k', 'I')
        wd = want.dims(k)
        if isinstance(got, Arr) and got.ndim == 1 + len(wd):
            n, ds, item = got.dims[0], list(got.dims[1:]), lambda js: eng.read(s, got, [k] + js)
        elif isinstance(got, Opaque) and got.tag == 'ragged':
            n, ds = got.n, [t.app(d, [k]) for d in (got.dimf if getattr(got, 'dimf', None) is not None else [got.lens])]
            item = lambda js: t.app(got.body, [k] + js)
        else:
            return fail('is a list of arrays')
        if len(ds) != len(wd) or got.dtype != want.dtype:
            return fail('is a list of arrays of the specified kind')
        eng.obls.append(Obl('%s has the specified length%s' % (tag, sfx), h, eq(n, want.n), f.key, 0, 'post'))
        rng = [le(t.ZERO_I, k), lt(k, want.n)]
        for ax, (a, b) in enumerate(zip(ds, wd)):
            if a is not b:
                eng.obls.append(Obl('%s: item has the specified length on axis %d%s' % (tag, ax, sfx), h + tuple(rng), eq(a, b), f.key, 0, 'post'))
        js = [fresh('j', 'I') for _ in wd]
        for j, d in zip(js, wd):
            rng += [le(t.ZERO_I, j), lt(j, d)]
        eng.obls.append(Obl('%s: item has the specified content%s' % (tag, sfx), h + tuple(rng), eq(item(js), want.f(k, *js)), f.key, 0, 'post'))


def is_mutable(k):
    try:
        return k[1] in F.load(k[0]).mutable()
    except (OSError, KeyError):
        return False


REGISTRY = {}


def contract(key, sig, **kw):
    def deco(fn):
        c = Contract(key, sig, fn, **kw)
        REGISTRY[key] = c
        return fn
    return deco

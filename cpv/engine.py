"""Symbolic executor producing proof obligations from the extracted functions.

State: variables of the current activation, a heap of array contents (lambda terms), path conditions and facts.
Branches are merged at joins; calls use the callee's contract when there is one and are inlined otherwise;
loops are summarised by closed forms whose initial and step obligations are emitted (see loops.py).
"""
import ast
from fractions import Fraction
from . import terms as t
from .terms import (T, TRUE, FALSE, ZERO_I, ONE_I, num, var, fresh, uf, and_, or_, not_, ite, eq, le, lt, add, sub,
                    mul, div, lam, app, subst, opq, to_real, to_int)
from . import frontend as F
from .frontend import Unsupported


class Obl:
    __slots__ = ('name', 'hyps', 'goal', 'func', 'line', 'kind')

    def __init__(self, name, hyps, goal, func, line, kind):
        self.name, self.hyps, self.goal, self.func, self.line, self.kind = name, hyps, goal, func, line, kind


# ---- values ------------------------------------------------------------------------------------------------

class Undef:
    def __init__(self, why):
        self.why = why

    def __repr__(self):
        return 'Undef(%s)' % self.why


class NoneV:
    def __repr__(self):
        return 'None'


NONE = NoneV()


class Seq:
    """creation order of containers: one that is older than an enclosing branch or loop iteration must not change there"""
    n = 0

    @classmethod
    def next(cls):
        cls.n += 1
        return cls.n


class TupleV:
    def __init__(self, items, kind='tuple'):
        self.seq = Seq.next()
        self.items = list(items)
        self.kind = kind

    def __repr__(self):
        return '%s%r' % (self.kind, self.items)


class DictV:
    def __init__(self, d=None):
        self.seq = Seq.next()
        self.d = dict(d or {})     # python str/number key -> value

    def __repr__(self):
        return 'dict%r' % self.d


class StructV:
    """structured array: one array per field, which share the leading axes"""
    def __init__(self, dims, d):
        self.dims, self.d = dims, d


class ModV:
    def __init__(self, dotted):
        self.dotted = dotted

    def __repr__(self):
        return '<%s>' % self.dotted


class FuncV:
    def __init__(self, func, closure=None, self_=None):
        self.func, self.closure, self.self_ = func, closure, self_


class BuiltinV:
    def __init__(self, fn, name='builtin'):
        self.fn, self.name = fn, name


class ObjV:
    """instance with attributes kept in the state's object table"""
    _n = [0]

    def __init__(self, cls, attrs=None):
        ObjV._n[0] += 1
        self.oid = ObjV._n[0]
        self.cls = cls

    def __repr__(self):
        return '<obj %s>' % (self.cls,)


class SliceV:
    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step


class RangeV:
    def __init__(self, lo, hi, step, par=False):
        self.lo, self.hi, self.step, self.par = lo, hi, step, par


class Opaque:
    """a value the engine only passes around"""
    def __init__(self, tag, **kw):
        self.tag = tag
        self.__dict__.update(kw)

    def __repr__(self):
        return '<%s>' % self.tag


STORES = {}


class Store:
    _n = [0]

    def __init__(self, name, dims, dtype):
        Store._n[0] += 1
        self.sid = Store._n[0]
        self.name, self.dims, self.dtype = name, tuple(dims), dtype
        self.readonly = None
        self.scratch = False
        self.frozen = False     # a read-only numpy array
        STORES[self.sid] = self

    def __repr__(self):
        return '%s#%d' % (self.name, self.sid)


class Arr:
    """view of a store. axes: tuple of (base axis, offset, step); fixed: {base axis: index}"""
    __slots__ = ('store', 'axes', 'dims', 'fixed', 'mv', 'base', 'islist')

    def __init__(self, store, axes=None, dims=None, fixed=None, mv=False, base=None, islist=False):
        self.store = store
        if axes is None:
            axes = tuple((k, ZERO_I, 1) for k in range(len(store.dims)))
            dims = store.dims
        self.axes, self.dims, self.fixed = tuple(axes), tuple(dims), dict(fixed or {})
        self.mv, self.base = mv, base
        self.islist = islist

    @property
    def ndim(self):
        return len(self.axes)

    @property
    def dtype(self):
        return self.store.dtype

    def whole(self):
        return not self.fixed and all(a == (k, ZERO_I, 1) for k, a in enumerate(self.axes)) and self.dims == self.store.dims

    def same(self, o):
        return isinstance(o, Arr) and o.store is self.store and o.axes == self.axes and o.dims == self.dims and o.fixed == self.fixed

    def __repr__(self):
        return 'Arr(%r, dims=%s)' % (self.store, [t.show(d) for d in self.dims])


class State:
    def __init__(self):
        self.vars = {}
        self.heap = {}        # sid -> lam
        self.path = ()        # branch conditions
        self.facts = ()       # assumptions known to hold
        self.objs = {}        # (oid, attr) -> value
        self.globals = {}     # (module path, name) -> value
        self.raised = []      # (path, exc, state)
        self.phase = None     # state of the specified recursion, inside a loop compared with one

    def copy(self):
        s = State()
        s.phase = self.phase
        s.vars = dict(self.vars)
        s.heap = dict(self.heap)
        s.path, s.facts = self.path, self.facts
        s.objs = dict(self.objs)
        s.globals = dict(self.globals)
        s.raised = self.raised
        return s

    def take(self, o):
        self.vars, self.heap, self.path, self.facts = o.vars, o.heap, o.path, o.facts
        self.objs, self.globals = o.objs, o.globals
        self.phase = o.phase

    def hyps(self):
        return self.path + self.facts

    def assume(self, c):
        if c is not TRUE and c not in self.facts:
            self.facts = self.facts + (c,)

    def branch(self, c):
        if c is not TRUE and c not in self.path:
            self.path = self.path + (c,)


class Outcome:
    __slots__ = ('kind', 'value', 'st')

    def __init__(self, kind, st, value=None):
        self.kind, self.st, self.value = kind, st, value


def is_scalar(v):
    return isinstance(v, T)


def same_value(a, b):
    if a is b:
        return True
    if isinstance(a, NoneV) and isinstance(b, NoneV):
        return True
    if isinstance(a, Arr) and isinstance(b, Arr):
        return a.same(b)
    if isinstance(a, TupleV) and isinstance(b, TupleV):
        return len(a.items) == len(b.items) and all(same_value(x, y) for x, y in zip(a.items, b.items))
    if isinstance(a, ModV) and isinstance(b, ModV):
        return a.dotted == b.dotted
    if isinstance(a, FuncV) and isinstance(b, FuncV):
        return a.func is b.func and a.self_ is b.self_
    if isinstance(a, DictV) and isinstance(b, DictV):
        return a.d.keys() == b.d.keys() and all(same_value(a.d[k], b.d[k]) for k in a.d)
    return False


def iszero(x):
    return x.op == 'num' and x.data == 0


class Engine:
    MAXDEPTH = 60

    def __init__(self, contracts, prover=None):
        self.contracts = contracts      # key -> Contract
        self.obls = []
        self.sim = None           # recursion the loop of the verified function is compared with
        self.prover = prover
        self.assumptions = set()
        self.inlined = set()
        self.used_contracts = set()
        self.depth = 0
        self.funcstack = []
        self.par = []                   # stack of parallel-loop contexts
        self.iters = []                 # indices of the generic iterations being executed
        self.marks = []                 # Seq.n at entry of the enclosing branches, iterations and try blocks
        self.vacuity = []
        self.failed = {}                # key -> reason: contracts not proved; their functions are inlined instead
        self.verifying = None
        self.nomerge = False
        from . import numpy_model
        self.np = numpy_model.Model(self)

    # ---- obligations -------------------------------------------------------------------------------------
    def oblige(self, st, goal, name, node=None, kind='post'):
        if goal is TRUE:
            goal = TRUE
        f = self.funcstack[-1].key if self.funcstack else ''
        self.obls.append(Obl(name, st.hyps(), goal, f, getattr(node, 'lineno', 0), kind))

    def entails(self, st, goal):
        if goal is TRUE:
            return True
        if goal is FALSE:
            return False
        if self.prover is None:
            return False
        return self.prover.quick(st.hyps(), goal)

    def simp(self, st, x):
        """normal form of a numeric term under the current hypotheses, if that is smaller"""
        if self.prover is None:
            return x
        h = tuple(z for y in st.hyps() for z in (y.args if y.op == 'and' else (y,)))
        y = self.prover.norm_for(h).norm(x)
        return y if y.dep <= x.dep else x

    def decide(self, st, c):
        """simplify a condition under the current hypotheses"""
        if c is TRUE or c is FALSE:
            return c
        if c in st.path or c in st.facts:
            return TRUE
        n = not_(c)
        if n in st.path or n in st.facts:
            return FALSE
        if self.prover is not None and t.size(c) <= 600:
            if self.prover.quick(st.hyps(), c):
                return TRUE
            if self.prover.quick(st.hyps(), n):
                return FALSE
        return c

    # ---- arrays ------------------------------------------------------------------------------------------
    def new_store(self, st, name, dims, dtype, content, islist=False):
        s = Store(name, dims, dtype)
        st.heap[s.sid] = content
        return Arr(s, islist=islist)

    def alloc(self, st, name, dims, dtype, f):
        """f: python function of index terms"""
        vs = [fresh('x', 'I') for _ in dims]
        body = f(*vs)
        body = self.coerce(body, dtype)
        return self.new_store(st, name, dims, dtype, lam(vs, body))

    def coerce(self, v, dtype):
        if dtype == 'R':
            return to_real(v) if v.sort != 'R' else v
        if dtype == 'I':
            if v.sort == 'R':
                return self.trunc(v)
            return to_int(v)
        if dtype == 'B':
            if v.sort == 'B':
                return v
            return not_(eq(v, num(0, v.sort)))
        return v

    def trunc(self, v):
        if v.op == 'toreal':
            return v.args[0]
        if v.op == 'num':
            return num(int(v.data), 'I')
        if v.op in ('add', 'mul'):
            try:
                parts = []
                for a in v.args:
                    if a.op == 'toreal':
                        parts.append(a.args[0])
                    elif a.op == 'num' and a.data.denominator == 1:
                        parts.append(num(a.data, 'I'))
                    elif a.op == 'mul' and all(x.op == 'toreal' or (x.op == 'num' and x.data.denominator == 1) for x in a.args):
                        parts.append(mul(*[x.args[0] if x.op == 'toreal' else num(x.data, 'I') for x in a.args]))
                    else:
                        raise ValueError
                return add(*parts) if v.op == 'add' else mul(*parts)
            except ValueError:
                pass
        if v.op == 'ite':
            return ite(v.args[0], self.trunc(v.args[1]), self.trunc(v.args[2]))
        return uf('trunc', (v,), 'I')

    def base_index(self, a, idx):
        out = [None] * len(a.store.dims)
        for k, v in a.fixed.items():
            out[k] = v
        for (b, off, step), i in zip(a.axes, idx):
            out[b] = add(off, mul(num(step, 'I') if isinstance(step, int) else step, i))
        return out

    def read(self, st, a, idx):
        c = st.heap.get(a.store.sid)
        if c is None:
            raise Unsupported('read of deleted array %r' % (a,))
        v = app(c, self.base_index(a, idx))
        return self.resolve(st, v) if v.op == 'ite' else v

    def resolve(self, st, v):
        """drop outer alternatives the current hypotheses rule out"""
        if self.prover is None:
            return v
        flat = tuple(x for h in st.hyps() for x in (h.args if h.op == 'and' else (h,)))
        n = self.prover.norm_for(flat)
        while v.op == 'ite':
            c = v.args[0]
            r = None
            if c.op == 'and':
                rs = [n.cheap(a) for a in c.args]
                if FALSE in rs:
                    r = FALSE
                elif all(x is TRUE for x in rs):
                    r = TRUE
            else:
                r = n.cheap(c)
            if r is TRUE:
                v = v.args[1]
            elif r is FALSE:
                v = v.args[2]
            else:
                break
        return v

    def content(self, st, a):
        """lambda over the view's indices"""
        if a.whole():
            return st.heap[a.store.sid]
        vs = [fresh('x', 'I') for _ in a.axes]
        return lam(vs, self.read(st, a, vs))

    def check_index(self, st, a, k, i, node):
        d = a.dims[k]
        g = and_(le(ZERO_I, i), lt(i, d))
        if g is not TRUE:
            self.oblige(st, g, 'index of %s axis %d in range' % (a.store.name, k), node, 'bounds')

    def writable(self, a):
        if a.store.readonly:
            raise Unsupported('write to %s (%s)' % (a.store.name, a.store.readonly))

    def write_region(self, st, a, f, cond=None):
        """a[idx] = f(*idx) for every index of the view (where cond(*idx))"""
        self.writable(a)
        if a.store.frozen:
            self.raise_if(st, TRUE, 'ValueError')
        old = st.heap[a.store.sid]
        bs = [fresh('w', 'I') for _ in a.store.dims]
        g = []
        for k, v in a.fixed.items():
            g.append(eq(bs[k], v))
        idx = []
        for (b, off, step), d in zip(a.axes, a.dims):
            j = sub(bs[b], off)
            if step == 1:
                pass
            elif step == -1:
                j = mul(num(-1, 'I'), j)
            else:
                g.append(eq(uf('mod', (j, num(step, 'I')), 'I'), ZERO_I))
                j = uf('idiv', (j, num(step, 'I')), 'I')
            idx.append(j)
            whole_axis = (step == 1 and iszero(off) and d is a.store.dims[b])
            if not whole_axis:
                g.append(le(ZERO_I, j))
                g.append(lt(j, d))
        if cond is not None:
            g.append(cond(*idx))
        guard = and_(*g)
        val = self.coerce(f(*idx), a.dtype)
        # on whole axes the index range is implied; content outside the array is irrelevant
        new = ite(guard, val, app(old, bs))
        st.heap[a.store.sid] = lam(bs, new)
        self.note_write(a, guard)

    def note_write(self, a, guard):
        pass

    def write_elem(self, st, a, idx, val, node=None):
        self.writable(a)
        if a.store.frozen:
            self.raise_if(st, TRUE, 'ValueError', node)
        old = st.heap[a.store.sid]
        bi = self.base_index(a, idx)
        bs = [fresh('w', 'I') for _ in a.store.dims]
        guard = and_(*[eq(x, y) for x, y in zip(bs, bi)])
        val = self.coerce(val, a.dtype)
        st.heap[a.store.sid] = lam(bs, ite(guard, val, app(old, bs)))
        self.note_write(a, guard)

    def copy_arr(self, st, a, name=None):
        vs = [fresh('x', 'I') for _ in a.dims]
        r = self.new_store(st, name or a.store.name + '.copy', a.dims, a.dtype, lam(vs, self.read(st, a, vs)))
        r.islist = a.islist
        return r

    def as_mv(self, v):
        """value held by a typed memoryview variable"""
        if isinstance(v, Arr) and not v.mv:
            r = Arr(v.store, v.axes, v.dims, v.fixed, True, v)
            return r
        return v

    # ---- merging -----------------------------------------------------------------------------------------
    def merge_values(self, st, c, a, b, sa, sb, what):
        if same_value(a, b):
            return a
        if isinstance(a, Undef) or isinstance(b, Undef):
            # only defined on one side: using it later is an error unless both define it
            return Undef('%s defined in one branch only' % what)
        if is_scalar(a) and is_scalar(b):
            if 'S' in (a.sort, b.sort) and a.sort != b.sort:
                return Undef('%s of mixed type' % what)
            return ite(c, a, b)
        if isinstance(a, Arr) and isinstance(b, Arr) and a.ndim == b.ndim:
            if a.store is b.store and a.fixed.keys() == b.fixed.keys() and [x[0] for x in a.axes] == [x[0] for x in b.axes] and all(x[2] == y[2] for x, y in zip(a.axes, b.axes)):
                return Arr(a.store, [(x[0], ite(c, x[1], y[1]), x[2]) for x, y in zip(a.axes, b.axes)],
                           [ite(c, x, y) for x, y in zip(a.dims, b.dims)],
                           {k: ite(c, a.fixed[k], b.fixed[k]) for k in a.fixed}, a.mv and b.mv, None)
            dims = [ite(c, x, y) for x, y in zip(a.dims, b.dims)]
            vs = [fresh('x', 'I') for _ in dims]
            if a.dtype != b.dtype:
                if {a.dtype, b.dtype} <= {'R', 'I', 'B'}:
                    dt = 'R' if 'R' in (a.dtype, b.dtype) else 'I'
                else:
                    return Undef('%s of mixed dtype' % what)
            else:
                dt = a.dtype
            body = ite(c, self.coerce(self.read(sa, a, vs), dt), self.coerce(self.read(sb, b, vs), dt))
            r = self.new_store(st, 'phi_' + what, dims, dt, lam(vs, body))
            # aliasing with a pre-existing array is lost: forbid writes through the merged value
            r.store.readonly = 'merged view'
            r.store.phi_of = (a.store, b.store)
            if self.is_fresh_store(a.store, sb) and self.is_fresh_store(b.store, sa):
                r.store.readonly = None
            if a.mv or b.mv:
                r = self.as_mv(r)
            r.islist = a.islist
            return r
        if isinstance(a, TupleV) and isinstance(b, TupleV) and len(a.items) == len(b.items) and a.kind == b.kind:
            return TupleV([self.merge_values(st, c, x, y, sa, sb, what) for x, y in zip(a.items, b.items)], a.kind)
        if isinstance(a, DictV) and isinstance(b, DictV) and a.d.keys() == b.d.keys():
            return DictV({k: self.merge_values(st, c, a.d[k], b.d[k], sa, sb, what) for k in a.d})
        return Undef('%s merges %r and %r' % (what, a, b))

    def is_fresh_store(self, s, other):
        return s.sid not in other.heap

    def merge_states(self, c, sa, sb, base_path):
        """state equal to sa if c else sb"""
        st = State()
        st.raised = sa.raised
        if sa.phase is not sb.phase:
            raise Unsupported('paths of different phases of a loop meet')
        st.phase = sa.phase
        st.path = base_path
        fa = [f for f in sa.path[len(base_path):] if f is not c]
        common = [f for f in sa.facts if f in sb.facts]
        st.facts = tuple(common)
        na = [f for f in list(sa.facts) + fa if f not in common]
        nb = [f for f in list(sb.facts) + [g for g in sb.path[len(base_path):] if g is not not_(c)] if f not in common]
        if na:
            st.facts += tuple(x for x in (or_(not_(c), f) for f in na) if x is not TRUE)
        if nb:
            st.facts += tuple(x for x in (or_(c, f) for f in nb) if x is not TRUE)
        for sid in list(sa.heap):
            if sid in sb.heap:
                x, y = sa.heap[sid], sb.heap[sid]
                if x is y:
                    st.heap[sid] = x
                else:
                    vs = [fresh('m', a.sort) for a in x.args[:-1]]
                    st.heap[sid] = lam(vs, ite(c, app(x, vs), app(y, vs)))
            else:
                st.heap[sid] = sa.heap[sid]
        for sid in sb.heap:
            if sid not in st.heap:
                st.heap[sid] = sb.heap[sid]
        for tab in ('vars', 'objs', 'globals'):
            da, db, dd = getattr(sa, tab), getattr(sb, tab), getattr(st, tab)
            for k in da:
                nm = str(k[-1] if isinstance(k, tuple) else k)
                if k in db:
                    dd[k] = self.merge_values(st, c, da[k], db[k], sa, sb, nm)
                else:
                    dd[k] = Undef('%s defined in one branch only' % nm)
            for k in db:
                if k not in da:
                    nm = str(k[-1] if isinstance(k, tuple) else k)
                    dd[k] = Undef('%s defined in one branch only' % nm)
        return st

    # ---- statements --------------------------------------------------------------------------------------
    def exec_block(self, stmts, st):
        """returns list of outcomes; at most one 'next', except after a loop compared with a recursion"""
        out = []
        cur = st
        for n, s in enumerate(stmts):
            res = self.exec_stmt(s, cur)
            nxt = None
            nexts = [o.st for o in res if o.kind == 'next']
            if len(nexts) > 1:
                out.extend(o for o in res if o.kind != 'next')
                for x in nexts:
                    out.extend(self.exec_block(stmts[n + 1:], x))
                return out
            for o in res:
                if o.kind == 'next':
                    nxt = o.st
                else:
                    out.append(o)
            if nxt is None:
                return out
            cur = nxt
        out.append(Outcome('next', cur))
        return out

    def exec_stmt(self, s, st):
        k = type(s).__name__
        m = getattr(self, 's_' + k, None)
        if m is None:
            raise Unsupported('statement %s line %s' % (k, getattr(s, 'lineno', '?')))
        try:
            return m(s, st)
        except Unsupported as e:
            if not getattr(e, 'located', False):
                e.located = True
                f = self.funcstack[-1].key if self.funcstack else ''
                e.args = ('%s [%s:%s]' % (e.args[0], f, getattr(s, 'lineno', '?')),)
            raise

    def nx(self, st):
        return [Outcome('next', st)]

    def s_Pass(self, s, st):
        return self.nx(st)

    def s_Import(self, s, st):
        for al in s.names:
            st.vars[al.asname or al.name.split('.')[0]] = ModV(al.name)
        return self.nx(st)

    def s_ImportFrom(self, s, st):
        for al in s.names:
            st.vars[al.asname or al.name] = self.dotted_value(s.module + '.' + al.name)
        return self.nx(st)

    def s_Global(self, s, st):
        self.curglobals().update(s.names)
        return self.nx(st)

    def s_Nonlocal(self, s, st):
        raise Unsupported('nonlocal')

    def curglobals(self):
        return self.globstack[-1]

    def s_FunctionDef(self, s, st):
        f = getattr(s, 'cpv_func', None)
        if f is None:
            raise Unsupported('nested function')
        st.vars[s.name] = FuncV(f, closure=st.vars)
        return self.nx(st)

    def floor_div(self, st, a, b):
        """a // b; the two common ways to round up are written alike: (x + b - 1) // b for b > 0, and -x // b (its negative)"""
        up = lambda x: ite(eq(uf('mod', (x, b), 'I'), ZERO_I), uf('idiv', (x, b), 'I'), add(uf('idiv', (x, b), 'I'), ONE_I))
        if b.op != 'num':
            parts = a.args if a.op == 'add' else (a,)
            if all(p.op != 'num' and t._coef(p)[0] < 0 for p in parts):
                return sub(ZERO_I, up(sub(ZERO_I, a)))
            x = add(sub(a, b), ONE_I)
            if b in parts and num(-1, 'I') in parts and self.entails(st, lt(ZERO_I, b)):
                return up(x)
        return uf('idiv', (a, b), 'I')

    def append_symbolic(self, s, st):
        """X.append(e) for a list of symbolic length that only X holds"""
        c = s.value
        if not (isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr == 'append' and isinstance(c.func.value, ast.Name)
                and len(c.args) == 1 and not c.keywords):
            return False
        X = c.func.value.id
        a = st.vars.get(X)
        if not (isinstance(a, Arr) and a.islist and a.ndim == 1 and a.whole()):
            return False
        def holds(v):
            if isinstance(v, Arr):
                return v.store is a.store
            if isinstance(v, TupleV):
                return any(holds(x) for x in v.items)
            if isinstance(v, (DictV, StructV)):
                return any(holds(x) for x in v.d.values())
            return isinstance(v, (Opaque, FuncV)) and v.__class__ is Opaque and any(holds(x) for x in vars(v).values())
        if not self.funcstack or X in self.funcstack[-1].params or any(holds(v) for k, v in st.vars.items() if k != X) or \
                any(holds(v) for v in list(st.objs.values()) + list(st.globals.values())):
            return False
        x = self.eval(c.args[0], st)
        if not is_scalar(x) or x.sort != a.dtype:
            raise Unsupported('append to a symbolic list')
        n = a.dims[0]
        old = self.content(st, a)
        r = self.alloc(st, X, (add(n, ONE_I),), a.dtype, lambda k: ite(lt(k, n), app(old, [k]), x))
        r.islist = True
        st.vars[X] = r
        return True

    def s_Expr(self, s, st):
        if isinstance(s.value, ast.Constant):
            return self.nx(st)
        if self.append_symbolic(s, st):
            return self.after_expr(st)
        self.eval(s.value, st)
        return self.after_expr(st)

    def after_expr(self, st):
        if FALSE in st.path:
            return []
        return self.nx(st)

    def s_Assign(self, s, st):
        v = self.eval(s.value, st)
        for tg in s.targets:
            self.assign(tg, v, st, s)
        return self.after_expr(st)

    def s_AnnAssign(self, s, st):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, st), st, s)
        return self.after_expr(st)

    def s_AugAssign(self, s, st):
        tg = s.target
        if isinstance(tg, ast.Name):
            cur = self.lookup(tg.id, st, s)
            rhs = self.eval(s.value, st)
            if isinstance(cur, Arr) and not cur.islist:
                # in-place array update
                r = self.np.binop(st, type(s.op).__name__, cur, rhs, s)
                self.assign_into(st, cur, r, s)
                return self.after_expr(st)
            v = self.binop(st, type(s.op).__name__, cur, rhs, s)
            if isinstance(cur, (Arr, TupleV)) and getattr(cur, 'islist', True) and isinstance(v, (Arr, TupleV)):
                v.aug_of = cur if isinstance(v, TupleV) else None
            self.assign(tg, v, st, s)
            return self.after_expr(st)
        if isinstance(tg, ast.Subscript):
            base = self.eval(tg.value, st)
            idx = self.eval_index(tg.slice, st)
            cur = self.get_item(st, base, idx, s)
            rhs = self.eval(s.value, st)
            v = self.binop(st, type(s.op).__name__, cur, rhs, s)
            self.set_item(st, base, idx, v, s)
            return self.after_expr(st)
        if isinstance(tg, ast.Attribute):
            cur = self.eval(ast.copy_location(ast.Attribute(value=tg.value, attr=tg.attr, ctx=ast.Load()), tg), st)
            rhs = self.eval(s.value, st)
            self.assign(tg, self.binop(st, type(s.op).__name__, cur, rhs, s), st, s)
            return self.after_expr(st)
        raise Unsupported('augmented assignment target')

    def s_Delete(self, s, st):
        for tg in s.targets:
            self.delete(tg, st, s)
        return self.nx(st)

    def delete(self, tg, st, s):
        if isinstance(tg, ast.Name):
            if tg.id in st.vars:
                st.vars[tg.id] = Undef('deleted')
        elif isinstance(tg, ast.Tuple):
            for x in tg.elts:
                self.delete(x, st, s)
        elif isinstance(tg, ast.Subscript):
            base = self.eval(tg.value, st)
            idx = self.eval_index(tg.slice, st)
            self.del_item(st, base, idx, s)
        else:
            raise Unsupported('del target')

    def del_item(self, st, base, idx, s):
        raise Unsupported('del item')

    def s_Return(self, s, st):
        v = self.eval(s.value, st) if s.value is not None else NONE
        if FALSE in st.path:
            return []
        f = self.funcstack[-1]
        if f.rettype is not None and f.rettype.ndim:
            v = self.as_mv(v)
        if f.rettype is not None and f.rettype.ndim == 0 and is_scalar(v):
            v = self.ccast(f.rettype, v)
        return [Outcome('return', st, v)]

    def s_Raise(self, s, st):
        exc = 'Exception'
        e = s.exc
        if isinstance(e, ast.Call):
            e = e.func
        if isinstance(e, ast.Name):
            exc = e.id
        elif isinstance(e, ast.Attribute):
            exc = e.attr
        st.raised.append((st.path, exc, st.copy()))
        return []

    def raise_if(self, st, cond, exc, node=None):
        """conditional exception; execution continues under the negation"""
        cond = self.decide(st, cond)
        if cond is FALSE:
            return
        s2 = st.copy()
        s2.branch(cond)
        st.raised.append((s2.path, exc, s2))
        st.branch(not_(cond))
        if cond is TRUE:
            st.path = st.path + (FALSE,)

    def s_Assert(self, s, st):
        c = self.truth(st, self.eval(s.test, st))
        self.raise_if(st, not_(c), 'AssertionError', s)
        return self.after_expr(st)

    def s_Break(self, s, st):
        return [Outcome('break', st)]

    def s_Continue(self, s, st):
        return [Outcome('continue', st)]

    def s_If(self, s, st):
        c = self.truth(st, self.eval(s.test, st))
        if FALSE in st.path:
            return []
        return self.branch(c, lambda a: self.exec_block(s.body, a), lambda b: self.exec_block(s.orelse, b), st)

    def branch(self, c, fa, fb, st):
        c = self.decide(st, c)
        if c is TRUE:
            return fa(st)
        if c is FALSE:
            return fb(st)
        base_path = st.path
        a, b = st.copy(), st.copy()
        a.branch(c)
        b.branch(not_(c))
        self.marks.append(Seq.n)
        try:
            ra = fa(a)
            self.marks[-1] = Seq.n
            rb = fb(b)
        finally:
            self.marks.pop()
        na = [o for o in ra if o.kind == 'next']
        nb = [o for o in rb if o.kind == 'next']
        out = [o for o in ra + rb if o.kind != 'next']
        if len(na) > 1 or len(nb) > 1:
            raise Unsupported('a branch ends in several phases of a loop')
        if na and nb:
            out.append(Outcome('next', self.merge_states(c, na[0].st, nb[0].st, base_path)))
        elif na:
            out.append(na[0])
        elif nb:
            out.append(nb[0])
        return out

    def merge_outcomes(self, outs, base_path):
        """combine several states reached under mutually exclusive paths into one; value merged too"""
        if not outs:
            return None
        cur = outs[-1]
        for o in reversed(outs[:-1]):
            c = and_(*[f for f in o.st.path if f not in base_path])
            so = o.st
            vo, vc = so.copy(), cur.st.copy()
            vo.vars = {'__ret__': o.value} if o.value is not None else {}
            vc.vars = {'__ret__': cur.value} if cur.value is not None else {}
            vo.vars.update({k: v for k, v in so.vars.items()})
            vc.vars.update({k: v for k, v in cur.st.vars.items()})
            m = self.merge_states(c, vo, vc, base_path)
            val = m.vars.pop('__ret__', None)
            cur = Outcome(o.kind, m, val)
        return cur

    def s_For(self, s, st):
        from . import loops
        return loops.exec_for(self, s, st)

    def s_While(self, s, st):
        from . import loops
        return loops.exec_while(self, s, st)

    def s_With(self, s, st):
        for it in s.items:
            v = self.eval(it.context_expr, st)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, st, s)
        return self.exec_block(s.body, st)

    def s_Try(self, s, st):
        saved = st.raised
        st.raised = []
        base_path = st.path
        self.marks.append(Seq.n)
        try:
            outs = self.exec_block(s.body, st)
        finally:
            self.marks.pop()
        inner = st.raised
        # the raised list object is shared by all copies made inside
        for o in outs:
            o.st.raised = saved
        st.raised = saved
        handled = []
        for path, exc, rs in inner:
            rs.raised = saved
            for h in s.handlers:
                if self.handles(h, exc):
                    if h.name:
                        rs.vars[h.name] = Opaque('exception')
                    handled.extend(self.exec_block(h.body, rs))
                    break
            else:
                saved.append((path, exc, rs))
        res = [o for o in outs + handled if o.kind != 'next']
        nexts = [o for o in outs + handled if o.kind == 'next']
        if nexts:
            if len(nexts) == 1:
                m = nexts[0]
            else:
                m = self.merge_outcomes(nexts, base_path)
            m.st.raised = saved
            if s.orelse:
                raise Unsupported('try-else')
            m.kind = 'next'
            res.append(m)
        if s.finalbody:
            raise Unsupported('try-finally')
        return res

    def handles(self, h, exc):
        if h.type is None:
            return True
        names = [ast.unparse(x) for x in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type])]
        return exc in names or 'Exception' in names or 'BaseException' in names or (exc == 'KeyError' and 'LookupError' in names)

    # ---- assignment --------------------------------------------------------------------------------------
    def ccast(self, ct, v):
        if ct is None:
            return v
        if ct.ndim:
            if isinstance(v, Arr):
                return self.as_mv(v)
            return v
        if is_scalar(v):
            if ct.base in ('double', 'float', 'complex') and v.sort in ('I', 'B'):
                return to_real(v)
            if ct.base in ('int', 'long', 'Py_ssize_t', 'size_t'):
                if v.sort == 'R':
                    return self.trunc(v)
                if v.sort == 'B':
                    return to_int(v)
            if ct.base == 'bint' and v.sort != 'B' and v.sort != 'S':
                return not_(eq(v, num(0, v.sort)))
        return v

    def assign(self, tg, v, st, node):
        if isinstance(tg, ast.Name):
            f = self.funcstack[-1] if self.funcstack else None
            if self.globstack and tg.id in self.globstack[-1]:
                st.globals[(f.module.path, tg.id)] = v
                return
            ct = f.types.get(tg.id) if f is not None else None
            if ct is not None:
                v = self.ccast(ct, v)
                # assigning an array to a typed memoryview of another element type fails at run time
                if ct.ndim and isinstance(v, Arr):
                    want = {'double': 'R', 'float': 'R', 'int': 'I', 'complex': 'R'}.get(ct.base)
                    if want and v.dtype != want:
                        raise Unsupported('buffer dtype mismatch for %s' % tg.id)
            st.vars[tg.id] = v
            return
        if isinstance(tg, (ast.Tuple, ast.List)):
            items = self.unpack(st, v, len(tg.elts), node)
            for x, y in zip(tg.elts, items):
                self.assign(x, y, st, node)
            return
        if isinstance(tg, ast.Subscript):
            base = self.eval(tg.value, st)
            idx = self.eval_index(tg.slice, st)
            self.set_item(st, base, idx, v, node)
            return
        if isinstance(tg, ast.Attribute):
            base = self.eval(tg.value, st)
            self.set_attr(st, base, tg.attr, v, node)
            return
        raise Unsupported('assignment target %s' % type(tg).__name__)

    def unpack(self, st, v, n, node):
        if isinstance(v, TupleV):
            if len(v.items) != n:
                raise Unsupported('unpack %d of %d' % (n, len(v.items)))
            return v.items
        if isinstance(v, Arr):
            d = v.dims[0]
            self.raise_if(st, not_(eq(d, num(n, 'I'))), 'ValueError', node)
            return [self.get_item(st, v, num(k, 'I'), node) for k in range(n)]
        if FALSE in st.path:
            return [NONE] * n
        raise Unsupported('unpack of %r' % (v,))

    def set_attr(self, st, base, attr, v, node):
        if isinstance(base, ObjV):
            ft = self.attr_type(base, attr)
            if ft is not None:
                v = self.ccast(ft, v)
            st.objs[(base.oid, attr)] = v
            return
        if isinstance(base, FuncV):
            st.globals[(base.func.key, attr)] = v
            return
        if isinstance(base, ModV):
            m = F.find_module(base.dotted)
            if m is not None:
                st.globals[(m.path, attr)] = v
                return
        raise Unsupported('attribute assignment on %r' % (base,))

    def attr_type(self, obj, attr):
        """declared C type of an attribute of an extension class"""
        for m, c in self.mro(obj.cls):
            ct = m.classes[c].get('attrs', {}).get(attr)
            if ct is not None:
                return ct
        return None

    def mro(self, cls):
        """the class and its bases that lie in the repository, (module, name) each"""
        out, todo = [], [cls]
        while todo:
            m, c = todo.pop(0)
            if any(a.path == m.path and b == c for a, b in out):
                continue
            out.append((m, c))
            for b in m.classes[c]['bases']:
                r = (m, b) if b in m.classes else F.find_class(m.imports[b]) if b in m.imports else None
                if r:
                    todo.append(r)
        return out

    # ---- names -------------------------------------------------------------------------------------------
    def lookup(self, name, st, node=None):
        f = self.funcstack[-1] if self.funcstack else None
        if self.globstack and name in self.globstack[-1]:
            return self.global_value(f.module, name, st)
        if name in st.vars:
            v = st.vars[name]
            if isinstance(v, Undef):
                raise Unsupported('variable %s used while undefined: %s' % (name, v.why))
            return v
        for clo in reversed(self.closures):
            if name in clo:
                v = clo[name]
                if isinstance(v, Undef):
                    raise Unsupported('closure variable %s undefined' % name)
                return v
        if f is not None:
            return self.global_value(f.module, name, st)
        raise Unsupported('name %s' % name)

    def global_value(self, module, name, st):
        k = (module.path, name)
        if k in st.globals:
            v = st.globals[k]
            if isinstance(v, Undef):
                raise Unsupported('global %s undefined' % name)
            return v
        if name in module.funcs:
            return FuncV(module.funcs[name])
        if name in module.classes:
            return Opaque('class', module=module, cname=name)
        if name in module.imports:
            return self.dotted_value(module.imports[name])
        g = self.np.module_global(st, module, name)
        if g is not None:
            return g
        if name in module.mutable():
            from .numpy_model import mutable_global
            return mutable_global(module.path, name)
        if name in module.globals:
            save = self.funcstack
            v = self.eval(module.globals[name], st)
            return v
        b = self.np.builtin(name)
        if b is not None:
            return b
        raise Unsupported('global name %s in %s' % (name, module.path))

    def dotted_value(self, dotted):
        f = F.lookup_func(dotted)
        if f is not None:
            return FuncV(f)
        c = F.find_class(dotted) if '.' in dotted else None
        if c is not None:
            return Opaque('class', module=c[0], cname=c[1])
        k = self.np.constant(dotted)
        if k is not None:
            return k
        return ModV(dotted)

    # ---- expressions -------------------------------------------------------------------------------------
    def eval(self, e, st):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise Unsupported('expression %s' % type(e).__name__)
        return m(e, st)

    def e_Constant(self, e, st):
        v = e.value
        if v is None:
            return NONE
        if v is True:
            return TRUE
        if v is False:
            return FALSE
        if isinstance(v, int):
            return num(v, 'I')
        if isinstance(v, float):
            txt = getattr(e, 'text', None)
            return num(Fraction(txt) if txt else Fraction(repr(v)), 'R')
        if isinstance(v, str):
            return t.strc(v)
        if isinstance(v, bytes):
            return t.strc(v.decode('latin1'))
        if v is Ellipsis:
            return Opaque('ellipsis')
        raise Unsupported('constant %r' % (v,))

    def e_Name(self, e, st):
        return self.lookup(e.id, st, e)

    def e_Tuple(self, e, st):
        return TupleV(self.eval_list(e.elts, st), 'tuple')

    def e_List(self, e, st):
        return TupleV(self.eval_list(e.elts, st), 'list')

    def e_Set(self, e, st):
        return TupleV(self.eval_list(e.elts, st), 'set')

    def eval_list(self, elts, st):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                v = self.eval(x.value, st)
                if isinstance(v, TupleV):
                    out.extend(v.items)
                else:
                    raise Unsupported('star of %r' % (v,))
            else:
                out.append(self.eval(x, st))
        return out

    def e_Dict(self, e, st):
        d = {}
        for k, v in zip(e.keys, e.values):
            kk = self.eval(k, st)
            d[self.dkey(kk)] = self.eval(v, st)
        return DictV(d)

    def dkey(self, k):
        if isinstance(k, T) and k.op in ('str', 'num'):
            return k.data
        raise Unsupported('dictionary key %r' % (k,))

    def e_JoinedStr(self, e, st):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(t.strc(v.value))
            else:
                parts.append(self.np.to_str(st, self.eval(v.value, st)))
        return self.np.strcat(parts)

    def e_Attribute(self, e, st):
        base = self.eval(e.value, st)
        return self.get_attr(st, base, e.attr, e)

    def get_attr(self, st, base, attr, node):
        if isinstance(base, ModV):
            return self.dotted_or_const(base.dotted + '.' + attr, st)
        if isinstance(base, ObjV):
            k = (base.oid, attr)
            if k in st.objs:
                v = st.objs[k]
                if isinstance(v, Undef):
                    raise Unsupported('attribute %s undefined (%s)' % (attr, v.why))
                return v
            m = self.find_method(base.cls, attr)
            if m is not None:
                return FuncV(m, self_=base)
            raise Unsupported('attribute %s of %r' % (attr, base))
        if isinstance(base, Opaque) and base.tag == 'super':
            m = self.find_method(base.obj.cls, attr, base.after)
            if m is None:
                if attr == '__init__':
                    return BuiltinV(lambda st, args, kw, node: NONE)
                raise Unsupported('super().%s' % attr)
            return FuncV(m, self_=base.obj)
        if isinstance(base, Opaque) and base.tag == 'class':
            q = base.cname + '.' + attr
            if q in base.module.funcs:
                return FuncV(base.module.funcs[q])
            if q in base.module.globals:
                return self.eval(base.module.globals[q], st)
            raise Unsupported('class attribute %s' % q)
        if isinstance(base, FuncV):
            k = (base.func.key, attr)
            if k in st.globals:
                return st.globals[k]
        if is_scalar(base) and base.sort != 'S' and attr in ('real', 'imag'):
            return base if attr == 'real' else num(0, base.sort)       # complex arrays hold real values only
        return self.np.attr(st, base, attr, node)

    def dotted_or_const(self, dotted, st):
        mod, name = dotted.rsplit('.', 1)
        m = F.find_module(mod)
        if m is not None:
            return self.global_value(m, name, st)
        c = self.np.constant(dotted)
        if c is not None:
            return c
        return self.dotted_value(dotted)

    def find_method(self, cls, name, after=None):
        """cls: (module, classname); after: search only behind this class name (super)"""
        order = self.mro(cls)
        if after is not None:
            order = order[[c for _, c in order].index(after) + 1:]
        for m, c in order:
            q = c + '.' + name
            if q in m.funcs:
                return m.funcs[q]
        return None

    def e_Subscript(self, e, st):
        base = self.eval(e.value, st)
        idx = self.eval_index(e.slice, st)
        return self.get_item(st, base, idx, e)

    def eval_index(self, s, st):
        if isinstance(s, ast.Slice):
            return SliceV(*[self.eval(x, st) if x is not None else None for x in (s.lower, s.upper, s.step)])
        if isinstance(s, ast.Tuple):
            return TupleV([self.eval_index(x, st) for x in s.elts], 'tuple')
        return self.eval(s, st)

    def get_item(self, st, base, idx, node):
        if isinstance(base, Arr):
            return self.np.get_item(st, base, idx, node)
        if isinstance(base, TupleV):
            if isinstance(idx, T) and idx.op == 'num':
                k = int(idx.data)
                if -len(base.items) <= k < len(base.items):
                    return base.items[k]
                self.raise_if(st, TRUE, 'IndexError', node)
                return NONE
            if isinstance(idx, SliceV):
                def g(x):
                    if x is None or isinstance(x, NoneV):
                        return None
                    if isinstance(x, T) and x.op == 'num':
                        return int(x.data)
                    raise Unsupported('symbolic slice of a tuple')
                return TupleV(base.items[slice(g(idx.lo), g(idx.hi), g(idx.step))], base.kind)
            if isinstance(idx, T) and all(is_scalar(x) for x in base.items) and base.items:
                self.oblige(st, and_(le(ZERO_I, idx), lt(idx, num(len(base.items), 'I'))), 'index of tuple in range', node, 'bounds')
                r = base.items[-1]
                for k in range(len(base.items) - 2, -1, -1):
                    r = ite(eq(idx, num(k, 'I')), base.items[k], r)
                return r
            raise Unsupported('index %r of tuple' % (idx,))
        if isinstance(base, StructV):
            if isinstance(idx, T) and idx.op == 'str':
                if idx.data in base.d:
                    return base.d[idx.data]
                self.raise_if(st, TRUE, 'ValueError', node)
                return NONE
            idx = idx.items if isinstance(idx, TupleV) else [idx]
            return StructV(base.dims[len(idx):] if all(isinstance(x, T) and x.sort == 'I' for x in idx) else None,
                           {k: self.np.get_item(st, a, TupleV(list(idx) + [SliceV(None, None, None)] * (a.ndim - len(idx)), 'tuple'), node) for k, a in base.d.items()})
        if isinstance(base, DictV):
            if isinstance(idx, T) and idx.op in ('str', 'num'):
                if idx.data in base.d:
                    return base.d[idx.data]
                self.raise_if(st, TRUE, 'KeyError', node)
                return NONE
            if isinstance(idx, T) and idx.sort == 'S':
                return self.dict_select(st, base, idx, node)
        return self.np.get_item_other(st, base, idx, node)

    def dict_select(self, st, base, idx, node):
        keys = [k for k in base.d if isinstance(k, str)]
        conds = [eq(idx, t.strc(k)) for k in keys]
        self.raise_if(st, not_(or_(*conds)), 'KeyError', node)
        vals = [base.d[k] for k in keys]
        live = [(c, v) for c, v in zip(conds, vals) if self.decide(st, c) is not FALSE]
        if not live:
            return NONE
        if len(live) == 1:
            return live[0][1]
        if all(is_scalar(v) for _, v in live):
            r = live[-1][1]
            for c, v in reversed(live[:-1]):
                r = ite(c, v, r)
            return r
        return Opaque('choice', options=live)

    def set_item(self, st, base, idx, v, node):
        if isinstance(base, Arr):
            return self.np.set_item(st, base, idx, v, node)
        if isinstance(base, StructV):
            if isinstance(idx, T) and idx.op == 'str' and idx.data in base.d:
                a = base.d[idx.data]
                return self.np.set_item(st, a, TupleV([SliceV(None, None, None)] * a.ndim, 'tuple'), v, node)
            raise Unsupported('assignment to records')
        if isinstance(base, DictV):
            self.mutating(base)
            base.d[self.dkey(idx)] = v
            return
        if isinstance(base, TupleV) and base.kind == 'list' and isinstance(idx, T) and idx.op == 'num':
            self.mutating(base)
            base.items[int(idx.data)] = v
            return
        return self.np.set_item_other(st, base, idx, v, node)

    def mutating(self, obj):
        if self.marks and obj.seq <= self.marks[-1]:
            raise Unsupported('container changed inside a branch or loop')

    def assign_into(self, st, dst, src, node):
        """dst[...] = src elementwise"""
        self.np.assign_view(st, dst, src, node)

    def truth(self, st, v):
        if isinstance(v, T):
            if v.sort == 'B':
                return v
            if v.sort == 'S':
                return not_(eq(v, t.strc('')))
            return not_(eq(v, num(0, v.sort)))
        if isinstance(v, NoneV):
            return FALSE
        if isinstance(v, TupleV):
            return TRUE if v.items else FALSE
        if isinstance(v, DictV):
            return TRUE if v.d else FALSE
        if isinstance(v, Arr):
            if v.islist:
                return lt(ZERO_I, v.dims[0])
            if v.ndim == 0:
                return self.truth(st, self.read(st, v, []))
            raise Unsupported('truth value of an array')
        if isinstance(v, (ObjV, FuncV, ModV)):
            return TRUE
        raise Unsupported('truth of %r' % (v,))

    def e_BoolOp(self, e, st):
        isand = isinstance(e.op, ast.And)
        save = st.path
        acc = None
        vals = []
        for x in e.values:
            v = self.eval(x, st)
            c = self.truth(st, v)
            vals.append(c)
            c2 = c if isand else not_(c)
            if (isand and c is FALSE) or (not isand and c is TRUE):
                break
            st.branch(c2)
        extra = [f for f in st.path if f not in save]
        st.path = save
        # conditions added because of possible exceptions in later operands are kept as implications only when
        # they are not the operands themselves
        for f in extra:
            if f not in vals and not_(f) not in vals:
                st.assume(f) if len(vals) == 1 else None
        return and_(*vals) if isand else or_(*vals)

    def e_UnaryOp(self, e, st):
        v = self.eval(e.operand, st)
        if isinstance(e.op, ast.Not):
            return not_(self.truth(st, v))
        if isinstance(e.op, ast.USub):
            if is_scalar(v):
                v = to_int(v) if v.sort == 'B' else v
                return mul(num(-1, v.sort), v)
            return self.np.binop(st, 'Mult', num(-1, 'I'), v, e)
        if isinstance(e.op, ast.UAdd):
            return v
        if isinstance(e.op, ast.Invert):
            if is_scalar(v) and v.sort == 'B':
                return not_(v)
            return self.np.invert(st, v, e)
        raise Unsupported('unary op')

    def e_BinOp(self, e, st):
        a = self.eval(e.left, st)
        b = self.eval(e.right, st)
        return self.binop(st, type(e.op).__name__, a, b, e)

    def binop(self, st, op, a, b, node):
        if is_scalar(a) and is_scalar(b):
            return self.scalar_binop(st, op, a, b, node)
        return self.np.binop(st, op, a, b, node)

    def scalar_binop(self, st, op, a, b, node=None):
        if a.sort == 'S' or b.sort == 'S':
            if op == 'Add':
                return self.np.strcat([a, b])
            if op == 'Mod':
                return self.np.str_format(st, a, [b])
            raise Unsupported('string operator %s' % op)
        if a.sort == 'B' and b.sort == 'B' and op in ('BitAnd', 'BitOr'):
            return and_(a, b) if op == 'BitAnd' else or_(a, b)
        if a.sort == 'B':
            a = to_int(a)
        if b.sort == 'B':
            b = to_int(b)
        if t.NAN in (a, b):
            return t.NAN
        if op == 'Add':
            return add(a, b)
        if op == 'Sub':
            return sub(a, b)
        if op == 'Mult':
            return mul(a, b)
        if op == 'Div':
            return div(a, b)
        if op == 'Pow':
            if b.op == 'num' and b.data.denominator == 1:
                n = int(b.data)
                if n >= 0 and a.sort == 'I':
                    return t.ipow(a, n)
                return t.ipow(to_real(a), n) if abs(n) <= 40 else t.gpow(a, b)
            return t.gpow(a, b)
        if op == 'FloorDiv':
            if a.sort == 'I' and b.sort == 'I':
                if a.op == 'num' and b.op == 'num' and b.data != 0:
                    return num(int(a.data) // int(b.data), 'I')
                if b.op == 'num' and b.data == 1:
                    return a
                return self.floor_div(st, a, b)
            return uf('floor', (div(a, b),), 'R')
        if op == 'Mod':
            if a.sort == 'I' and b.sort == 'I':
                if a.op == 'num' and b.op == 'num' and b.data != 0:
                    return num(int(a.data) % int(b.data), 'I')
                return uf('mod', (a, b), 'I')
            return uf('fmod', (to_real(a), to_real(b)), 'R')
        raise Unsupported('operator %s' % op)

    def e_Compare(self, e, st):
        left = self.eval(e.left, st)
        res = []
        cur = left
        for op, c in zip(e.ops, e.comparators):
            r = self.eval(c, st)
            res.append(self.compare(st, type(op).__name__, cur, r, e))
            cur = r
        if len(res) == 1:
            return res[0]
        return and_(*[self.truth(st, x) for x in res])

    def compare(self, st, op, a, b, node):
        if op in ('Is', 'IsNot'):
            r = self.is_same(a, b)
            return r if op == 'Is' else not_(r)
        if op in ('In', 'NotIn'):
            r = self.contains(st, b, a, node)
            return r if op == 'In' else not_(r)
        if isinstance(a, NoneV) or isinstance(b, NoneV):
            if isinstance(a, Arr) or isinstance(b, Arr):
                if not (a.islist if isinstance(a, Arr) else b.islist):
                    return self.np.compare(st, op, a, b, node)
            r = self.is_same(a, b)
            if op == 'Eq':
                return r
            if op == 'NotEq':
                return not_(r)
            raise Unsupported('comparison with None')
        if is_scalar(a) and is_scalar(b):
            if (a.sort == 'S') != (b.sort == 'S'):
                return FALSE if op == 'Eq' else TRUE
            if op == 'Eq':
                return eq(a, b)
            if op == 'NotEq':
                return not_(eq(a, b))
            if op == 'Lt':
                return lt(a, b)
            if op == 'LtE':
                return le(a, b)
            if op == 'Gt':
                return lt(b, a)
            if op == 'GtE':
                return le(b, a)
        return self.np.compare(st, op, a, b, node)

    def is_same(self, a, b):
        if isinstance(a, NoneV) and isinstance(b, NoneV):
            return TRUE
        if isinstance(a, NoneV) or isinstance(b, NoneV):
            o = b if isinstance(a, NoneV) else a
            if isinstance(o, Opaque):
                isn = getattr(o, 'is_none', None)
                if isn is not None:
                    return isn
                if o.tag in ('class', 'exception'):
                    return FALSE
                raise Unsupported('is None of %r' % o)
            if isinstance(o, T) and o.op == 'uf' and o.data == 'maybe_none':
                raise Unsupported('maybe none')
            return FALSE
        if is_scalar(a) and is_scalar(b) and a.sort == 'B' and b.sort == 'B':
            return eq(a, b)
        if isinstance(a, ModV) and isinstance(b, ModV):
            return TRUE if a.dotted == b.dotted else FALSE
        if same_value(a, b):
            return TRUE
        if is_scalar(a) and is_scalar(b):
            return eq(a, b)
        if isinstance(a, ModV) or isinstance(b, ModV):
            raise Unsupported('type identity')
        raise Unsupported('identity of %r and %r' % (a, b))

    def contains(self, st, cont, x, node):
        if isinstance(cont, DictV):
            if isinstance(x, T) and x.op in ('str', 'num'):
                return TRUE if x.data in cont.d else FALSE
            if isinstance(x, T) and x.sort == 'S':
                return or_(*[eq(x, t.strc(k)) for k in cont.d if isinstance(k, str)])
        if isinstance(cont, TupleV):
            cs = []
            for y in cont.items:
                cs.append(self.compare(st, 'Eq', x, y, node))
            return or_(*cs)
        return self.np.contains(st, cont, x, node)

    def e_IfExp(self, e, st):
        c = self.truth(st, self.eval(e.test, st))
        c = self.decide(st, c)
        if c is TRUE:
            return self.eval(e.body, st)
        if c is FALSE:
            return self.eval(e.orelse, st)
        base_path = st.path
        a, b = st.copy(), st.copy()
        a.branch(c)
        b.branch(not_(c))
        va = self.eval(e.body, a)
        vb = self.eval(e.orelse, b)
        a.vars['__val__'] = va
        b.vars['__val__'] = vb
        m = self.merge_states(c, a, b, base_path)
        v = m.vars.pop('__val__')
        st.take(m)
        if isinstance(v, Undef):
            raise Unsupported('conditional expression: %s' % v.why)
        return v

    def e_ListComp(self, e, st):
        from . import loops
        return loops.list_comp(self, e, st)

    def e_GeneratorExp(self, e, st):
        from . import loops
        return loops.list_comp(self, e, st)

    def e_Starred(self, e, st):
        raise Unsupported('starred')

    def e_Lambda(self, e, st):
        a = e.args
        node = ast.FunctionDef(name='<lambda>', args=a, body=[ast.copy_location(ast.Return(value=e.body), e)], decorator_list=[])
        f = F.Func(self.funcstack[-1].module, self.funcstack[-1].qual + '.<lambda>', node, [x.arg for x in a.args], {}, 'def')
        return FuncV(f, closure=st.vars)

    def e_Call(self, e, st):
        # print and friends
        fn = self.eval(e.func, st) if not (isinstance(e.func, ast.Name) and e.func.id in ('__cast__', '__addr__')) else None
        if fn is None:
            if e.func.id == '__cast__':
                v = self.eval(e.args[1], st)
                ctn = e.args[0].value
                if isinstance(v, Opaque) and v.tag == 'mem' and '*' in ctn:
                    return v
                if is_scalar(v):
                    return self.ccast(F.CType(ctn.replace('*', '').strip()), v) if '*' not in ctn else v
                return v
            v = e.args[0]
            return self.address_of(st, v)
        args = self.eval_list(e.args, st)
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                d = self.eval(k.value, st)
                if isinstance(d, DictV):
                    for kk, vv in d.d.items():
                        kw[kk] = vv
                else:
                    raise Unsupported('**kwargs of %r' % (d,))
            else:
                kw[k.arg] = self.eval(k.value, st)
        if FALSE in st.path:
            return NONE
        return self.call(st, fn, args, kw, e)

    def address_of(self, st, node):
        if isinstance(node, ast.Subscript):
            base = self.eval(node.value, st)
            idx = self.eval_index(node.slice, st)
            if isinstance(base, Arr):
                return Opaque('ptr', arr=base, idx=idx)
        if isinstance(node, ast.Name):
            return Opaque('ptr', arr=None, idx=node.id)
        raise Unsupported('address-of')

    # ---- calls -------------------------------------------------------------------------------------------
    closures = ()
    globstack = ()

    def call(self, st, fn, args, kw, node):
        if isinstance(fn, FuncV):
            if fn.self_ is not None:
                args = [fn.self_] + list(args)
            return self.call_func(st, fn.func, args, kw, node, fn.closure)
        if isinstance(fn, BuiltinV):
            return fn.fn(st, args, kw, node)
        if isinstance(fn, ModV):
            return self.np.call(st, fn.dotted, args, kw, node)
        if isinstance(fn, Opaque):
            if fn.tag == 'choice':
                return self.call_choice(st, fn, args, kw, node)
            if fn.tag == 'partial':
                k2 = dict(fn.kw)
                k2.update(kw)
                return self.call(st, fn.fn, list(fn.args) + list(args), k2, node)
            if fn.tag == 'method':
                return self.np.call_method(st, fn.obj, fn.name, args, kw, node)
            if fn.tag == 'class':
                return self.instantiate(st, fn, args, kw, node)
            if fn.tag == 'callable':
                return fn.fn(st, args, kw, node)
        raise Unsupported('call of %r' % (fn,))

    def call_choice(self, st, fn, args, kw, node):
        def go(opts, s):
            if len(opts) == 1:
                return self.call(s, opts[0][1], args, kw, node)
            c = self.decide(s, opts[0][0])
            if c is TRUE:
                return self.call(s, opts[0][1], args, kw, node)
            if c is FALSE:
                return go(opts[1:], s)
            base_path = s.path
            a, b = s.copy(), s.copy()
            a.branch(c)
            b.branch(not_(c))
            a.vars['__val__'] = self.call(a, opts[0][1], args, kw, node)
            b.vars['__val__'] = go(opts[1:], b)
            m = self.merge_states(c, a, b, base_path)
            v = m.vars.pop('__val__')
            s.take(m)
            return v
        return go(fn.options, st)

    def instantiate(self, st, cls, args, kw, node):
        o = ObjV((cls.module, cls.cname))
        init = self.find_method(o.cls, '__init__')
        if init is not None:
            self.call_func(st, init, [o] + list(args), kw, node)
        return o

    def bind(self, st, f, args, kw, node):
        vals = {}
        params = f.params
        if len(args) > len(params) and f.vararg is None:
            self.raise_if(st, TRUE, 'TypeError', node)
            return None
        for p, a in zip(params, args):
            vals[p] = a
        if f.vararg is not None:
            vals[f.vararg] = TupleV(args[len(params):], 'tuple')
        extra = {}
        for k, v in kw.items():
            if k in params:
                if k in vals:
                    self.raise_if(st, TRUE, 'TypeError', node)
                    return None
                vals[k] = v
            elif f.kwarg is not None:
                extra[k] = v
            else:
                self.raise_if(st, TRUE, 'TypeError', node)
                return None
        if f.kwarg is not None:
            vals[f.kwarg] = DictV(extra)
        for p in params:
            if p not in vals:
                if p in f.defaults:
                    save = (self.funcstack, self.closures, self.globstack)
                    self.funcstack = self.funcstack + [f]
                    self.globstack = list(self.globstack) + [set()]
                    s2 = st.copy()
                    s2.vars = {}
                    vals[p] = self.eval(f.defaults[p], s2)
                    for sid in s2.heap:
                        st.heap.setdefault(sid, s2.heap[sid])
                    self.funcstack, self.closures, self.globstack = save
                else:
                    self.raise_if(st, TRUE, 'TypeError', node)
                    return None
        return vals

    def call_func(self, st, f, args, kw, node, closure=None):
        if f.key in self.TRUSTED:
            return getattr(self, self.TRUSTED[f.key])(st, f, args, kw, node)
        vals = self.bind(st, f, args, kw, node)
        if vals is None:
            return NONE
        for p in f.params:
            ct = f.types.get(p)
            if ct is not None:
                vals[p] = self.ccast(ct, vals[p])
        c = self.contracts.get(f.key)
        if c is not None and f.key not in self.failed and not c.inline_at_calls and c.applies(f):
            self.used_contracts.add(f.key)
            return c.use(self, st, f, vals, node)
        return self.inline(st, f, vals, node, closure)

    # functions of the repository that are called through an assumed contract
    TRUSTED = {'cosmic_profiles/common/caching.py::np_cache_factory': 'x_np_cache_factory'}

    def x_np_cache_factory(self, st, f, args, kw, node):
        """a cached function returns what the function returns (C13)"""
        self.assumptions.add('calls through np_cache_factory return what the cached function returns (C13), also for a cache filled by earlier calls')
        return Opaque('callable', fn=lambda st2, args2, kw2, node2: args2[0])

    def inline(self, st, f, vals, node, closure=None):
        if self.depth > self.MAXDEPTH:
            raise Unsupported('call depth (recursion in %s without contract)' % f.key)
        if sum(1 for g in self.funcstack if g is f) >= 2:
            raise Unsupported('recursion in %s without contract' % f.key)
        self.inlined.add(f.key)
        caller_vars = st.vars
        base_path = st.path
        st.vars = dict(vals)
        outs = self.run_body(st, f, closure)
        if not outs:
            st.vars = caller_vars
            st.path = st.path + (FALSE,)
            return NONE
        m = self.merge_outcomes(outs, base_path) if len(outs) > 1 else outs[0]
        raised = st.raised
        st.take(m.st)
        st.raised = raised
        st.vars = caller_vars
        v = m.value if m.value is not None else NONE
        if isinstance(v, Undef):
            raise Unsupported('return value of %s: %s' % (f.key, v.why))
        return v

    def run_body(self, st, f, closure=None):
        save = (self.funcstack, self.closures, self.globstack)
        self.funcstack = self.funcstack + [f]
        self.closures = (tuple(self.closures) + (closure,)) if closure is not None else ()
        self.globstack = list(self.globstack) + [set()]
        self.depth += 1
        try:
            outs = self.exec_block(f.body, st)
        finally:
            self.depth -= 1
            self.funcstack, self.closures, self.globstack = save
        res = []
        for o in outs:
            if o.kind == 'next':
                o = Outcome('return', o.st, NONE)
            if o.kind != 'return':
                raise Unsupported('stray %s' % o.kind)
            res.append(o)
        return res

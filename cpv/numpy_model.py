"""Model of the Python / NumPy / SciPy / C library functions the code uses (assumed contracts on dependencies)."""
import ast
from fractions import Fraction
from . import terms as t
from .terms import (T, TRUE, FALSE, ZERO_I, ONE_I, num, var, fresh, uf, and_, or_, not_, ite, eq, le, lt, add, sub,
                    mul, div, lam, app, subst, opq, sum_, to_real, to_int)
from .frontend import Unsupported
from . import frontend as F


def isconst(x):
    return isinstance(x, T) and x.op == 'num'


def ufs_of(x):
    return [y.data for y in t.subterms(x) if y.op == 'uf']


def ragged_dims(v):
    return v.dimf if getattr(v, 'dimf', None) is not None else [v.lens]


class Model:
    def __init__(self, eng):
        self.eng = eng
        self.stores = {}
        self.assumed = set()

    # ---- helpers -----------------------------------------------------------------------------------------
    def E(self):
        from . import engine
        return engine

    def simp_dim(self, st, d):
        if isconst(d) or d.op == 'var':
            return d
        return d

    def dim_eq(self, st, a, b, node, what='operands could be broadcast'):
        if a is b:
            return a
        g = eq(a, b)
        if g is TRUE:
            return a
        if self.eng.entails(st, g):
            return a
        if g is FALSE:
            self.eng.raise_if(st, TRUE, 'ValueError', node)
            return a
        self.eng.oblige(st, g, what, node, 'shape')
        return a

    def is_one(self, st, d):
        return isconst(d) and d.data == 1 or self.unit_like(d) is not None

    def unit_like(self, d):
        """n where d = min(1, n): index 0 stands for every index, and the axis broadcasts against length n"""
        if d.op == 'ite':
            c, a, b = d.args
            for c, a, b in ((c, a, b), (t.not_(c), b, a)):
                if isconst(a) and a.data == 1 and c is t.le(t.ONE_I, b):
                    return b
        return None

    def unit_ok(self, st, u, d, node):
        n = self.unit_like(u)
        if n is not None and d is not n and d is not u:
            self.dim_eq(st, u, t.ONE_I, node)

    def broadcast_dims(self, st, ds, node):
        n = max(len(d) for d in ds)
        out = []
        for k in range(n):
            cur = None
            for d in ds:
                j = k - (n - len(d))
                if j < 0:
                    continue
                x = d[j]
                if cur is None:
                    cur = x
                elif self.is_one(st, cur):
                    self.unit_ok(st, cur, x, node)
                    cur = x
                elif self.is_one(st, x):
                    self.unit_ok(st, x, cur, node)
                else:
                    cur = self.dim_eq(st, cur, x, node)
            out.append(cur)
        return out

    def elem(self, st, v, idx, dims=None):
        """value of v at broadcast index idx"""
        E = self.E()
        if isinstance(v, T):
            return v
        if isinstance(v, E.Arr):
            k = v.ndim
            sub_idx = list(idx[len(idx) - k:]) if k else []
            sub_idx = [ZERO_I if self.is_one(st, d) else i for d, i in zip(v.dims, sub_idx)]
            return self.eng.read(st, v, sub_idx)
        raise Unsupported('element of %r' % (v,))

    def to_arr(self, st, v, node=None):
        E = self.E()
        if isinstance(v, E.Arr):
            return v
        if isinstance(v, T):
            return self.eng.alloc(st, 'scalar', (), v.sort, lambda: v)
        if isinstance(v, E.TupleV):
            items = [self.to_arr(st, x, node) if not isinstance(x, T) else x for x in v.items]
            if not items:
                return self.eng.alloc(st, 'empty', (ZERO_I,), 'R', lambda k: num(0))
            if all(isinstance(x, T) for x in items):
                sorts = {x.sort for x in items}
                if sorts <= {'R', 'I', 'B'}:
                    dt = 'R' if 'R' in sorts else ('I' if 'I' in sorts else 'B')
                elif sorts == {'S'}:
                    dt = 'S'
                else:
                    raise Unsupported('array of mixed types')
                items = [self.eng.coerce(x, dt) for x in items]

                def f(k):
                    r = items[-1]
                    for j in range(len(items) - 2, -1, -1):
                        r = ite(eq(k, num(j, 'I')), items[j], r)
                    return r
                return self.eng.alloc(st, 'lit', (num(len(items), 'I'),), dt, f)
            if all(isinstance(x, E.Arr) for x in items):
                dims = items[0].dims
                for x in items[1:]:
                    for a, b in zip(dims, x.dims):
                        self.dim_eq(st, a, b, node)
                dt = 'R' if any(x.dtype == 'R' for x in items) else items[0].dtype

                def f2(k, *js):
                    r = self.eng.coerce(self.eng.read(st, items[-1], js), dt)
                    for j in range(len(items) - 2, -1, -1):
                        r = ite(eq(k, num(j, 'I')), self.eng.coerce(self.eng.read(st, items[j], js), dt), r)
                    return r
                return self.eng.alloc(st, 'lit', (num(len(items), 'I'),) + tuple(dims), dt, f2)
        if isinstance(v, E.Opaque) and v.tag == 'rows':
            cols = [self.to_arr(st, c) for c in v.cols]
            if all(c.ndim == 1 for c in cols):
                dt = 'R' if any(c.dtype == 'R' for c in cols) else cols[0].dtype
                def f3(k, j):
                    r = self.eng.coerce(self.eng.read(st, cols[-1], [k]), dt)
                    for q in range(len(cols) - 2, -1, -1):
                        r = ite(eq(j, num(q, 'I')), self.eng.coerce(self.eng.read(st, cols[q], [k]), dt), r)
                    return r
                return self.eng.alloc(st, 'rows', (v.n, num(len(cols), 'I')), dt, f3)
        if isinstance(v, E.RangeV):
            n = sub(v.hi, v.lo)
            return self.eng.alloc(st, 'range', (self.nonneg(st, n),), 'I', lambda k: add(v.lo, k))
        raise Unsupported('array from %r' % (v,))

    def nonneg(self, st, n):
        if isconst(n):
            return n if n.data >= 0 else ZERO_I
        if self.eng.entails(st, le(ZERO_I, n)):
            return n
        return ite(le(ZERO_I, n), n, ZERO_I)

    def elementwise(self, st, f, vs, node, name='tmp'):
        """apply f to the elements; vs: scalars and arrays"""
        E = self.E()
        arrs = [v for v in vs if isinstance(v, E.Arr)]
        if not arrs:
            return f(*vs)
        dims = self.broadcast_dims(st, [a.dims for a in arrs], node)
        idx = [fresh('x', 'I') for _ in dims]
        val = f(*[self.elem(st, v, idx) for v in vs])
        if not dims:
            return val
        r = self.eng.new_store(st, name, dims, val.sort, lam(idx, val))
        return r

    def num_arr(self, st, v, node=None):
        E = self.E()
        if isinstance(v, (E.TupleV, E.RangeV)) or (isinstance(v, E.Opaque) and v.tag == 'rows'):
            return self.to_arr(st, v, node)
        return v

    def binop(self, st, op, a, b, node):
        E = self.E()
        la = isinstance(a, E.TupleV) or (isinstance(a, E.Arr) and a.islist)
        lb = isinstance(b, E.TupleV) or (isinstance(b, E.Arr) and b.islist)
        if op == 'Add' and la and lb:
            if isinstance(a, E.TupleV) and isinstance(b, E.TupleV):
                return E.TupleV(a.items + b.items, a.kind)
            r = self.concat(st, [self.to_arr(st, a), self.to_arr(st, b)], node)
            r.islist = True
            return r
        if op == 'Mult' and isinstance(a, E.TupleV) and a.kind == 'list' and isconst(b):
            return E.TupleV(a.items * int(b.data), 'list')
        if op == 'Mod' and isinstance(a, T) and a.sort == 'S':
            return self.str_format(st, a, b.items if isinstance(b, E.TupleV) else [b])
        if isinstance(a, E.NoneV) or isinstance(b, E.NoneV):
            self.eng.raise_if(st, TRUE, 'TypeError', node)
            return E.NONE
        if isinstance(a, E.Opaque) or isinstance(b, E.Opaque):
            raise Unsupported('operator on %r' % ((a, b),))
        a, b = self.num_arr(st, a, node), self.num_arr(st, b, node)
        for v in (a, b):
            if not isinstance(v, (T, E.Arr)):
                raise Unsupported('operator %s on %r' % (op, v))
            if isinstance(v, E.Arr) and v.mv:
                raise Unsupported('arithmetic on a memoryview')
        return self.elementwise(st, lambda x, y: self.eng.scalar_binop(st, op, x, y, node), [a, b], node)

    def invert(self, st, v, node):
        def f(x):
            if x.sort != 'B':
                raise Unsupported('~ on integers')
            return not_(x)
        return self.elementwise(st, f, [v], node)

    def compare(self, st, op, a, b, node):
        E = self.E()
        if isinstance(a, (E.TupleV, E.DictV)) or isinstance(b, (E.TupleV, E.DictV)):
            return self.compare_py(st, op, a, b, node)
        if isinstance(a, E.Opaque) or isinstance(b, E.Opaque):
            return self.compare_opaque(st, op, a, b, node)
        if isinstance(a, E.Arr) and isinstance(b, E.NoneV) or isinstance(b, E.Arr) and isinstance(a, E.NoneV):
            arr = a if isinstance(a, E.Arr) else b
            idx = [fresh('x', 'I') for _ in arr.dims]
            return self.eng.new_store(st, 'cmp', arr.dims, 'B', lam(idx, FALSE if op == 'Eq' else TRUE))
        if isinstance(a, E.ModV) and isinstance(b, E.ModV):
            r = a.dotted == b.dotted
            return TRUE if r == (op == 'Eq') else FALSE
        if isinstance(a, E.Arr) and a.islist or isinstance(b, E.Arr) and b.islist:
            return self.compare_py(st, op, a, b, node)

        def f(x, y):
            return self.eng.compare(st, op, x, y, node)
        if isinstance(a, (T, E.Arr)) and isinstance(b, (T, E.Arr)):
            return self.elementwise(st, f, [a, b], node, 'cmp')
        raise Unsupported('comparison %s of %r and %r' % (op, a, b))

    def compare_opaque(self, st, op, a, b, node):
        E = self.E()
        if isinstance(b, E.TupleV) and not b.items and isinstance(a, E.Opaque) and hasattr(a, 'n'):
            r = eq(a.n, ZERO_I)
            return r if op == 'Eq' else not_(r)
        if isinstance(a, E.Opaque) and isinstance(b, E.Opaque) and a.tag == 'type' and b.tag == 'type':
            r = TRUE if a.name == b.name else FALSE
            return r if op == 'Eq' else not_(r)
        raise Unsupported('comparison of %r and %r' % (a, b))

    def compare_py(self, st, op, a, b, node):
        E = self.E()
        if isinstance(a, E.Opaque) or isinstance(b, E.Opaque):
            return self.compare_opaque(st, op, a, b, node)
        if op in ('Eq', 'NotEq'):
            neg = op == 'NotEq'
            for x, y in ((a, b), (b, a)):
                if isinstance(y, E.TupleV) and not y.items and isinstance(x, E.Arr):
                    if not x.islist:
                        raise Unsupported('comparison of an array with an empty list')
                    r = eq(x.dims[0], ZERO_I)
                    return not_(r) if neg else r
            if isinstance(a, E.TupleV) and isinstance(b, E.TupleV):
                if len(a.items) != len(b.items) or a.kind != b.kind:
                    return TRUE if neg else FALSE
                r = and_(*[self.eng.truth(st, self.eng.compare(st, 'Eq', x, y, node)) for x, y in zip(a.items, b.items)])
                return not_(r) if neg else r
            if isinstance(a, E.TupleV) != isinstance(b, E.TupleV) and isinstance(a if isinstance(b, E.TupleV) else b, (T, E.NoneV)):
                return TRUE if neg else FALSE
        if op == 'LtE' and isinstance(b, E.TupleV) and b.kind in ('set', 'keys'):
            items = a.items if isinstance(a, E.TupleV) else None
            if items is not None:
                return and_(*[or_(*[eq(x, y) for y in b.items]) for x in items])
        raise Unsupported('comparison %s of %r and %r' % (op, a, b))

    def contains(self, st, cont, x, node):
        E = self.E()
        if isinstance(cont, E.Opaque) and hasattr(cont, 'contains'):
            return cont.contains(x)
        raise Unsupported('containment in %r' % (cont,))

    # ---- indexing ----------------------------------------------------------------------------------------
    def telescoped(self, st, n):
        """sum(lo, e+1, L) - sum(lo, e, L) is L(e) if lo <= e"""
        for _ in range(4):
            done = True
            parts = [t._coef(a) for a in (n.args if n.op == 'add' else ())]
            for c, x in parts:
                for c2, y in parts:
                    if x is not None and y is not None and x.op == 'sum' == y.op and c == -c2 and c > 0 and x.args[0] is y.args[0] and x.args[2] is y.args[2]:
                        if sub(x.args[1], y.args[1]) is ONE_I and self.eng.entails(st, le(x.args[0], y.args[1])):
                            n = add(n, mul(num(-c, x.sort), sub(sub(x, y), t.app(x.args[2], [y.args[1]]))))
                            done = False
                            break
                if not done:
                    break
            if done:
                return n
        return n

    def norm_slice(self, st, s, d, node):
        """(offset, length, step)"""
        E = self.E()

        def val(x):
            if x is None or isinstance(x, E.NoneV):
                return None
            if isinstance(x, T):
                return x if x.sort == 'I' else self.eng.coerce(x, 'I') if x.sort == 'B' else x
            raise Unsupported('slice bound %r' % (x,))
        lo, hi, step = val(s.lo), val(s.hi), val(s.step)
        k = 1
        if step is not None:
            if not isconst(step):
                raise Unsupported('symbolic slice step')
            k = int(step.data)
        if k == -1 and lo is None and hi is None:
            return sub(d, ONE_I), d, -1

        def norm(x, dflt):
            if x is None:
                return dflt
            if isconst(x) and x.data < 0:
                x = add(d, x)
                if self.eng.entails(st, le(ZERO_I, x)):
                    return x
                return ite(le(ZERO_I, x), x, ZERO_I)
            if isconst(x):
                if x.data == 0:
                    return x
                if self.eng.entails(st, le(x, d)):
                    return x
                return ite(le(x, d), x, d)
            ok0 = self.eng.entails(st, le(ZERO_I, x))
            ok1 = x is d or self.eng.entails(st, le(x, d))
            if not ok0:
                x = ite(le(ZERO_I, x), x, ite(le(ZERO_I, add(d, x)), add(d, x), ZERO_I))
            if not ok1:
                x = ite(le(x, d), x, d)
            return x
        if k < 0:
            raise Unsupported('negative slice step')
        for x in (lo, hi):
            if x is not None and d.op == 'opq' and d.data == 'max':
                self.filter_hints(st, x, d)
        lo2, hi2 = norm(lo, ZERO_I), norm(hi, d)
        n = sub(hi2, lo2)
        if n.op == 'add' and any(z.op == 'sum' for z in t.subterms(n)):
            n = self.telescoped(st, self.eng.simp(st, n))
        if not (isconst(n) and n.data >= 0) and not self.eng.entails(st, le(ZERO_I, n)):
            n = ite(le(ZERO_I, n), n, ZERO_I)
        if k > 1:
            n = self.eng.scalar_binop(st, 'FloorDiv', add(n, num(k - 1, 'I')), num(k, 'I'))
        return lo2, n, k

    def filter_hints(self, st, x, d):
        """instances of the definitions of a maximum d and of a filter, at the filtered positions mentioned in x"""
        n, cont = d.args
        for z in t.subterms(x):
            if z.op != 'filt' or z.args[0] is not ZERO_I:
                continue
            k, P = z.args[1], z.args[2]
            inb = and_(le(ZERO_I, z), lt(z, n))
            ranged = t.mklam(1, lambda q: and_(app(P, [q]), le(ZERO_I, q), lt(q, n)))
            st.assume(eq(t.count_of(ZERO_I, n, P), t.count_of(ZERO_I, n, ranged)))
            st.assume(or_(not_(and_(le(ZERO_I, k), lt(k, t.count_of(ZERO_I, n, P)))), and_(app(P, [z]), inb)))
            st.assume(or_(not_(inb), le(app(cont, [z]), d)))

    def norm_int(self, st, i, d, node, checked, a, k):
        if i.sort == 'B':
            i = to_int(i)
        if i.sort == 'R':
            if i.op == 'num' and i.data.denominator == 1 or i.op == 'toreal':
                i = to_int(i)
            else:
                raise Unsupported('non-integer index')
        if isconst(i) and i.data < 0:
            i = add(d, i)
        if not checked:
            g = and_(le(ZERO_I, i), lt(i, d))
            if g is not TRUE and not self.eng.entails(st, g):
                self.eng.oblige(st, g, 'index of %s axis %d in range' % (a.store.name, k), node, 'bounds')
            elif g is not TRUE:
                self.eng.oblige(st, g, 'index of %s axis %d in range' % (a.store.name, k), node, 'bounds')
        return i

    def items(self, idx):
        E = self.E()
        if isinstance(idx, E.TupleV) and idx.kind == 'tuple':
            return list(idx.items)
        return [idx]

    def view(self, st, a, idx, node, checked=False):
        """(view, rest) where rest is None or ('fancy', axis position, index array) or ('mask', array)"""
        E = self.E()
        items = self.items(idx)
        nreal = sum(1 for x in items if not isinstance(x, E.NoneV) and not (isinstance(x, E.Opaque) and x.tag == 'ellipsis'))
        out = []
        for x in items:
            if isinstance(x, E.Opaque) and x.tag == 'ellipsis':
                out.extend([E.SliceV(None, None, None)] * (a.ndim - nreal))
            else:
                out.append(x)
        items = out
        axes, dims, fixed = [], [], dict(a.fixed)
        rest = None
        pos = 0
        newax = []
        for x in items:
            if isinstance(x, E.NoneV):
                newax.append(len(dims))
                continue
            if pos >= a.ndim:
                raise Unsupported('too many indices')
            b, off, step = a.axes[pos]
            d = a.dims[pos]
            if isinstance(x, T):
                i = self.norm_int(st, x, d, node, checked, a, pos)
                fixed[b] = add(off, mul(num(step, 'I'), i))
            elif isinstance(x, E.SliceV):
                lo, n, k = self.norm_slice(st, x, d, node)
                axes.append((b, add(off, mul(num(step, 'I'), lo)), step * k))
                dims.append(n)
            elif isinstance(x, (E.Arr, E.TupleV, E.RangeV)) or (isinstance(x, E.Opaque) and x.tag in ('choice_idx',)):
                if rest is not None:
                    raise Unsupported('two fancy indices')
                ia = self.to_arr(st, x, node)
                if ia.dtype == 'B':
                    if ia.ndim != 1:
                        if ia.ndim <= a.ndim and len(items) == 1:
                            for q in range(ia.ndim):
                                self.dim_eq(st, ia.dims[q], a.dims[q], node, 'boolean index matches the axis')
                            rest = ('maskn', 0, ia)
                            for q in range(a.ndim):
                                axes.append(a.axes[q])
                                dims.append(a.dims[q])
                            pos = a.ndim
                            continue
                        raise Unsupported('boolean index of this rank')
                    self.dim_eq(st, ia.dims[0], d, node, 'boolean index matches the axis')
                    rest = ('mask', len(dims), ia)
                else:
                    rest = ('fancy', len(dims), ia)
                axes.append((b, off, step))
                dims.append(d)
            else:
                raise Unsupported('index %r' % (x,))
            pos += 1
        for q in range(pos, a.ndim):
            axes.append(a.axes[q])
            dims.append(a.dims[q])
        v = E.Arr(a.store, axes, dims, fixed, a.mv, None)
        if newax:
            if rest is not None or a.mv:
                raise Unsupported('newaxis with fancy index')
            return v, ('newaxis', newax, None)
        return v, rest

    def gather_ok(self, st, ia, d, node, name):
        ks = [fresh('q', 'I') for _ in ia.dims]
        rng = and_(*[x for k, n in zip(ks, ia.dims) for x in (le(ZERO_I, k), lt(k, n))])
        v = self.eng.read(st, ia, ks)
        g = t.forall(ks, or_(not_(rng), and_(le(ZERO_I, v), lt(v, d))))
        if g is not TRUE:
            self.eng.oblige(st, g, 'indices into %s in range' % name, node, 'bounds')

    def mask_lam(self, st, ia):
        k = fresh('k', 'I')
        return lam([k], self.eng.read(st, ia, [k]))

    def get_item(self, st, base, idx, node, checked=False):
        E = self.E()
        if base.islist:
            if isinstance(idx, E.SliceV) or isinstance(idx, T):
                pass
        v, rest = self.view(st, base, idx, node, checked)
        if rest is None:
            if v.ndim == 0:
                return self.eng.read(st, v, [])
            if base.islist and isinstance(idx, E.SliceV):
                r = self.eng.copy_arr(st, v)
                r.islist = True
                return r
            return v
        kind, pos, ia = rest
        if kind == 'newaxis':
            dims = list(v.dims)
            src = []
            full = []
            j = 0
            outd = []
            n = len(dims) + len(pos)
            cnt = 0
            for q in range(n):
                if cnt < len(pos) and pos[cnt] + cnt == q:
                    outd.append(ONE_I)
                    src.append(None)
                    cnt += 1
                else:
                    outd.append(dims[j])
                    src.append(j)
                    j += 1
            return self.eng.alloc(st, base.store.name, outd, base.dtype,
                                  lambda *ix: self.eng.read(st, v, [i for i, s in zip(ix, src) if s is not None]))
        d = v.dims[pos]
        if kind == 'mask':
            P = self.mask_lam(st, ia)
            n = t.count_of(ZERO_I, d, P)
            dims = list(v.dims)
            dims[pos] = n
            return self.eng.alloc(st, base.store.name + '.sel', dims, base.dtype,
                                  lambda *ix: self.eng.read(st, v, [t.filt(ZERO_I, i, P) if q == pos else i for q, i in enumerate(ix)]))
        if kind == 'fancy':
            if not checked:
                self.gather_ok(st, ia, d, node, base.store.name)
            m = ia.ndim
            dims = list(v.dims[:pos]) + list(ia.dims) + list(v.dims[pos + 1:])

            def f(*ix):
                j = self.eng.read(st, ia, list(ix[pos:pos + m]))
                j = self.wrap_neg(st, j, d)
                return self.known_kept(ia, j, d, self.eng.read(st, v, list(ix[:pos]) + [j] + list(ix[pos + m:])))
            if not dims:
                return f()
            return self.eng.alloc(st, base.store.name + '.sel', dims, base.dtype, f)
        raise Unsupported('masked read of this rank')

    def wrap_neg(self, st, j, d):
        return j

    def set_item(self, st, base, idx, v, node):
        E = self.E()
        if isinstance(v, E.Arr) and v.mv and base.mv is False and v.base is None:
            pass
        w, rest = self.view(st, base, idx, node)
        if rest is None:
            if w.ndim == 0:
                if isinstance(v, E.Arr):
                    if v.ndim == 0 or all(self.is_one(st, d) for d in v.dims):
                        v = self.eng.read(st, v, [ZERO_I] * v.ndim)
                    else:
                        self.eng.raise_if(st, TRUE, 'ValueError', node)
                        return
                if not isinstance(v, T):
                    raise Unsupported('store of %r into an array' % (v,))
                self.eng.write_elem(st, w, [], v, node)
                return
            self.assign_view(st, w, v, node)
            return
        kind, pos, ia = rest
        d = w.dims[pos] if kind != 'newaxis' else None
        if kind == 'mask':
            P = self.mask_lam(st, ia)
            src = self.num_arr(st, v, node)
            if isinstance(src, E.Arr) and src.ndim == w.ndim and not self.is_one(st, src.dims[pos]):
                n = t.count_of(ZERO_I, d, P)
                self.dim_eq(st, src.dims[pos], n, node, 'number of values matches the mask')
                snap = self.eng.content(st, src)

                def f(*ix):
                    c = t.count_of(ZERO_I, ix[pos], P)
                    val = app(snap, [c if q == pos else i for q, i in enumerate(ix)])
                    return self.unfilter(val, c, ix[pos], P)
            elif isinstance(src, T) or src.ndim < w.ndim:
                snapst = st.copy()
                def f(*ix):
                    return self.elem(snapst, src, [i for q, i in enumerate(ix)] if isinstance(src, T) else [i for q, i in enumerate(ix) if q > pos][-src.ndim:] if src.ndim else ix)
            else:
                raise Unsupported('masked assignment')
            self.eng.write_region(st, w, f, cond=lambda *ix: app(P, [ix[pos]]))
            return
        if kind == 'maskn':
            if not isinstance(v, T):
                raise Unsupported('masked assignment of an array')
            cont = self.eng.content(st, ia)
            self.eng.write_region(st, w, lambda *ix: v, cond=lambda *ix: app(cont, list(ix)[:ia.ndim]))
            return
        if kind == 'fancy':
            return self.scatter(st, w, pos, ia, v, node)
        raise Unsupported('fancy assignment')

    def unfilter(self, val, c, i, P):
        """filt(0, #{k<i: P(k)}, P) = i where P(i)"""
        fs = [x for x in t.subterms(val, True) if x.op == 'filt' and x.args[1] is c and x.args[2] is P]
        if fs:
            return t.replace(val, {f: i for f in fs})
        return val

    def known_kept(self, ia, j, d, val):
        """val, knowing that j is one of the positions an index array made by nonzero() selects"""
        P = getattr(ia.store, 'nonzero_of', None)
        if P is None:
            return val
        Pj = app(P, [j])
        known = {x: TRUE for x in (Pj.args if Pj.op == 'and' else (Pj,)) if x.op not in ('num', 'true', 'false')}
        for x in (le(ZERO_I, j), lt(j, d)):
            if x is not TRUE and x.op != 'false':
                known[x] = TRUE
        return t.replace(val, known)

    def scatter(self, st, w, pos, ia, v, node):
        """w[ia] = v for an index array that selects positions by a mask (nonzero) in increasing order"""
        E = self.E()
        P = getattr(ia.store, 'nonzero_of', None)
        if P is None or ia.ndim != 1:
            raise Unsupported('assignment through an index array')
        src = self.num_arr(st, v, node)
        if isinstance(src, T):
            f = lambda *ix: src
        else:
            self.dim_eq(st, src.dims[0], ia.dims[0], node, 'number of values matches the indices')
            snap = self.eng.content(st, src)

            def f(*ix):
                c = t.count_of(ZERO_I, ix[pos], P)
                return self.unfilter(app(snap, [c if q == pos else i for q, i in enumerate(ix)]), c, ix[pos], P)
        self.eng.write_region(st, w, f, cond=lambda *ix: and_(app(P, [ix[pos]])))

    def assign_view(self, st, w, v, node):
        E = self.E()
        v = self.num_arr(st, v, node)
        if isinstance(v, T):
            self.eng.write_region(st, w, lambda *ix: v)
            return
        if isinstance(v, E.Opaque) and hasattr(v, 'arr'):
            v = v.arr
        if not isinstance(v, E.Arr):
            raise Unsupported('array assignment of %r' % (v,))
        if w.same(v):
            return
        if v.ndim > w.ndim:
            lead = v.dims[:v.ndim - w.ndim]
            if not all(self.is_one(st, d) for d in lead):
                self.eng.raise_if(st, TRUE, 'ValueError', node)
                return
            v = E.Arr(v.store, v.axes[v.ndim - w.ndim:], v.dims[v.ndim - w.ndim:], {**v.fixed, **{a[0]: a[1] for a in v.axes[:v.ndim - w.ndim]}}, v.mv)
        for k in range(v.ndim):
            j = k + w.ndim - v.ndim
            if self.is_one(st, v.dims[k]) and not (isconst(w.dims[j])):
                if not self.eng.entails(st, eq(w.dims[j], v.dims[k])):
                    continue
            if self.is_one(st, v.dims[k]):
                continue
            self.dim_eq(st, v.dims[k], w.dims[j], node, 'assigned shapes agree')
        cont = self.eng.content(st, v)

        def f(*ix):
            s = list(ix[len(ix) - v.ndim:]) if v.ndim else []
            s = [ZERO_I if self.is_one(st, d) else i for d, i in zip(v.dims, s)]
            return app(cont, s)
        self.eng.write_region(st, w, f)

    def get_item_other(self, st, base, idx, node):
        E = self.E()
        if isinstance(base, T) and base.sort == 'S':
            if base.op == 'str' and isconst(idx):
                return t.strc(base.data[int(idx.data)])
        if isinstance(base, E.Opaque):
            if hasattr(base, 'getitem'):
                return base.getitem(st, idx, node)
            if base.tag == 'rows' and isinstance(idx, T):
                self.eng.oblige(st, and_(le(ZERO_I, idx), lt(idx, base.n)), 'index in range', node, 'bounds')
                return E.TupleV([self.get_item(st, c, idx, node) if isinstance(c, E.Arr) else self.get_item_other(st, c, idx, node) for c in base.cols], base.kind)
            if base.tag == 'ragged' and isinstance(idx, T):
                self.eng.oblige(st, and_(le(ZERO_I, idx), lt(idx, base.n)), 'index in range', node, 'bounds')
                r = self.eng.alloc(st, 'part', [app(d, [idx]) for d in ragged_dims(base)], base.dtype, lambda *js: app(base.body, [idx] + list(js)))
                r.islist = base.islist
                return r
        raise Unsupported('subscript of %r' % (base,))

    def set_item_other(self, st, base, idx, v, node):
        raise Unsupported('item assignment on %r' % (base,))

    # ---- files ----
    def f_os_path_exists(self, st, args, kw, node):
        return uf('path_exists', (self.to_str(st, args[0]),), 'B')

    f_os_path_isfile = f_os_path_exists

    def f_np_savetxt(self, st, args, kw, node):
        E = self.E()
        path, v = args[0], args[1]
        if not isinstance(path, T) or self.eng.marks:
            raise Unsupported('file written inside a branch or loop')
        a = self.to_arr(st, v, node)
        if a.ndim not in (1, 2):
            self.eng.raise_if(st, TRUE, 'ValueError', node)
        opts = {k: v for k, v in zip(('fmt', 'delimiter', 'newline', 'header', 'footer', 'comments'), args[2:])}
        opts.update(kw)
        st.globals[('<files>', path)] = E.Opaque('file', arr=self.eng.copy_arr(st, a), opts={k: getattr(x, 'data', x) for k, x in opts.items()})
        return E.NONE

    def f_np_loadtxt(self, st, args, kw, node):
        E = self.E()
        path = args[0]
        if len(args) > 1 or set(kw) - {'ndmin', 'dtype'}:
            raise Unsupported('loadtxt with options')
        v = st.globals.get(('<files>', path)) if isinstance(path, T) else None
        if not isinstance(v, E.Opaque) or v.tag != 'file':
            raise Unsupported('file of unknown content')
        a = v.arr
        least = kw.get('ndmin', ZERO_I)
        if not isconst(least) or a.dtype != 'R':
            raise Unsupported('loadtxt with options')
        least = int(least.data)
        # axes of length one are dropped
        keep = []
        for k, d in enumerate(a.dims):
            if a.ndim - 0 <= least:
                keep.append(k)
            elif self.is_one(st, d) or self.eng.entails(st, eq(d, ONE_I)):
                continue
            elif self.eng.entails(st, le(t.lift(2, 'I'), d)):
                keep.append(k)
            else:
                raise Unsupported('loadtxt of an array that may have an axis of length one')
        if len(keep) < least and len(keep) < a.ndim:
            raise Unsupported('loadtxt with ndmin')

        def at(*ix):
            full = [ZERO_I] * a.ndim
            for k, i in zip(keep, ix):
                full[k] = i
            return self.eng.read(st, a, full)
        if not keep:
            return at()
        return self.eng.alloc(st, 'loaded', [a.dims[k] for k in keep], 'R', at)

    # ---- attributes --------------------------------------------------------------------------------------
    def attr(self, st, base, attr, node):
        E = self.E()
        if isinstance(base, E.Arr):
            if attr == 'shape':
                return E.TupleV(list(base.dims) + ([ONE_I] * 0), 'tuple')
            if attr == 'size':
                return mul(ONE_I, *base.dims)
            if attr == 'ndim':
                return num(base.ndim, 'I')
            if attr == 'base':
                if base.mv:
                    if base.base is not None:
                        return base.base
                    if base.whole():
                        return E.Arr(base.store)
                    if base.store.dims and set(base.fixed) | {a[0] for a in base.axes} == set(range(len(base.store.dims))):
                        # the base of a slice of a memoryview is the whole underlying array
                        return E.Arr(base.store)
                raise Unsupported('.base of an array')
            if attr == 'T':
                return E.Arr(base.store, tuple(reversed(base.axes)), tuple(reversed(base.dims)), base.fixed, base.mv)
            if attr == 'dtype':
                return E.Opaque('dtype', dt=base.dtype)
            return E.Opaque('method', obj=base, name=attr)
        if isinstance(base, T) and base.sort in 'RIB' and attr in ('shape', 'ndim', 'size'):
            return E.TupleV([], 'tuple') if attr == 'shape' else ZERO_I if attr == 'ndim' else ONE_I
        if isinstance(base, (E.DictV, E.TupleV)) or (isinstance(base, T)):
            return E.Opaque('method', obj=base, name=attr)
        if isinstance(base, E.Opaque):
            if attr in base.__dict__ and base.tag in ('result',):
                return base.__dict__[attr]
            return E.Opaque('method', obj=base, name=attr)
        raise Unsupported('attribute %s of %r' % (attr, base))

    def constant(self, dotted):
        E = self.E()
        c = {'numpy.pi': t.PI, 'math.pi': t.PI, 'libc.math.pi': t.PI, 'libc.math.M_PI': t.PI, 'numpy.nan': t.NAN, 'libc.math.NAN': t.NAN,
             'numpy.inf': t.INF, 'math.inf': t.INF, 'numpy.newaxis': E.NONE}.get(dotted)
        if c is not None:
            return c
        if dotted in ('mpi4py.MPI.COMM_WORLD',):
            return E.Opaque('comm')
        return None

    def module_global(self, st, module, name):
        E = self.E()
        if name == 'rank' and 'rank' in module.globals:
            return ZERO_I
        if name == 'size' and 'size' in module.globals:
            return ONE_I
        if name == 'comm' and 'comm' in module.globals:
            return E.Opaque('comm')
        imp = module.imports.get(name)
        if imp is not None:
            return self.constant(imp)
        return None

    # ---- strings -----------------------------------------------------------------------------------------
    def to_str(self, st, v, spec=''):
        E = self.E()
        if isinstance(v, T):
            if v.sort == 'S':
                return v
            if v.op == 'num' and not spec and v.sort == 'I':
                return t.strc(str(v.data))
            return uf('str' + spec, (v,), 'S')
        return uf(t.fresh_name('str'), (), 'S')

    def strcat(self, parts):
        out = []
        for p in parts:
            if p.op == 'uf' and p.data == 'cat':
                out.extend(p.args)
            else:
                out.append(p)
        parts, out = out, []
        for p in parts:
            if out and out[-1].op == 'str' and p.op == 'str':
                out[-1] = t.strc(out[-1].data + p.data)
            elif p.op == 'str' and p.data == '':
                continue
            else:
                out.append(p)
        if not out:
            return t.strc('')
        if len(out) == 1:
            return out[0]
        return uf('cat', tuple(out), 'S')

    def str_format(self, st, s, args, kw=None):
        E = self.E()
        if s.op != 'str':
            return uf(t.fresh_name('fmt'), (), 'S')
        import string
        txt = s.data
        if '%' in txt and '{' not in txt:
            import re
            parts = []
            pos = k = 0
            for m in re.finditer(r'%[-+ #0]*\d*(?:\.\d+)?[a-zA-Z%]', txt):
                parts.append(t.strc(txt[pos:m.start()]))
                if m.group()[-1] == '%':
                    parts.append(t.strc('%'))
                else:
                    sp = m.group()
                    parts.append(self.to_str(st, args[k], '' if sp in ('%s', '%d') else sp))
                    k += 1
                pos = m.end()
            parts.append(t.strc(txt[pos:]))
            return self.strcat(parts)
        parts = []
        auto = 0
        for lit, fld, spec, conv in string.Formatter().parse(txt):
            parts.append(t.strc(lit))
            if fld is None:
                continue
            if fld == '':
                v = args[auto]
                auto += 1
            elif fld.isdigit():
                v = args[int(fld)]
            else:
                raise Unsupported('format field %s' % fld)
            parts.append(self.to_str(st, v, spec or ''))
        return self.strcat(parts)

    def iteration_space(self, st, it, node):
        E = self.E()
        if isinstance(it, E.Opaque):
            if it.tag == 'rows':
                return ZERO_I, it.n, (lambda s, i: E.TupleV([self.get_item(s, c, i, node, True) for c in it.cols], it.kind)), False
            if it.tag == 'ragged':
                return ZERO_I, it.n, (lambda s, i: self.eng.alloc(s, 'part', [app(d, [i]) for d in ragged_dims(it)], it.dtype,
                                                                  lambda *js: app(it.body, [i] + list(js)))), False
            if it.tag == 'seq':
                return ZERO_I, it.n, (lambda s, i: it.item(s, i)), False
        return None

    # ---- builtins ----------------------------------------------------------------------------------------
    def builtin(self, name):
        E = self.E()
        f = getattr(self, 'b_' + name, None)
        if f is not None:
            return E.BuiltinV(f, name)
        if name in ('str', 'int', 'float', 'bool', 'list', 'dict', 'object', 'complex'):
            return E.ModV('builtins.' + name)
        if name.endswith('Error') or name == 'Exception':
            return E.Opaque('excclass', name=name)
        return None

    def b_super(self, st, args, kw, node):
        f = self.eng.funcstack[-1]
        if args and not (len(args) == 2 and isinstance(args[1], self.E().ObjV)):
            raise Unsupported('super')
        return self.E().Opaque('super', obj=args[1] if args else st.vars[f.params[0]], after=args[0].cname if args else f.qual.split('.')[0])

    def b_print(self, st, args, kw, node):
        return self.E().NONE

    def b_len(self, st, args, kw, node):
        return self.length(st, args[0])

    def length(self, st, v):
        E = self.E()
        if isinstance(v, E.Arr):
            return v.dims[0]
        if isinstance(v, E.TupleV):
            return num(len(v.items), 'I')
        if isinstance(v, E.DictV):
            return num(len(v.d), 'I')
        if isinstance(v, T) and v.op == 'str':
            return num(len(v.data), 'I')
        if isinstance(v, E.Opaque) and hasattr(v, 'n'):
            return v.n
        if isinstance(v, E.RangeV):
            return self.nonneg(st, sub(v.hi, v.lo))
        raise Unsupported('len of %r' % (v,))

    def rangev(self, args, par=False):
        E = self.E()
        a = [x if x.sort == 'I' else self.eng.coerce(x, 'I') for x in args]
        if len(a) == 1:
            return E.RangeV(ZERO_I, a[0], ONE_I, par)
        if len(a) == 2:
            return E.RangeV(a[0], a[1], ONE_I, par)
        return E.RangeV(a[0], a[1], a[2], par)

    def b_range(self, st, args, kw, node):
        return self.rangev(args)

    def b_abs(self, st, args, kw, node):
        return self.f_abs(st, args, kw, node)

    def f_abs(self, st, args, kw, node):
        return self.elementwise(st, lambda x: ite(lt(x, num(0, x.sort)), mul(num(-1, x.sort), x), x), [self.num_arr(st, args[0], node)], node)

    def b_min(self, st, args, kw, node):
        return self.minmax(st, args, node, 'min')

    def b_max(self, st, args, kw, node):
        return self.minmax(st, args, node, 'max')

    def minmax(self, st, args, node, which):
        E = self.E()
        if len(args) == 1:
            v = args[0]
            if isinstance(v, E.TupleV):
                args = v.items
            else:
                return self.reduce_minmax(st, v, which, node)
        r = args[0]
        for x in args[1:]:
            a, b = t.unify(r, x)
            c = lt(b, a) if which == 'min' else lt(a, b)
            r = ite(c, b, a)
        return r

    def reduce_minmax(self, st, v, which, node):
        """value with: bounds every element, and is one of them"""
        E = self.E()
        a = self.to_arr(st, v, node)
        if a.ndim == 0:
            return self.eng.read(st, a, [])
        if a.ndim != 1:
            raise Unsupported('max of a matrix')
        n = a.dims[0]
        self.eng.raise_if(st, le(n, ZERO_I), 'ValueError', node)
        cont = self.eng.content(st, a)
        if isconst(n) and n.data <= 8:
            return self.minmax(st, [app(cont, [num(k, 'I')]) for k in range(int(n.data))], node, which)
        r = opq(which, (n, cont), a.dtype)
        k = fresh('k', 'I')
        x = app(cont, [k])
        inb = and_(le(ZERO_I, k), lt(k, n))
        st.assume(t.forall([k], or_(not_(inb), le(x, r) if which == 'max' else le(r, x))))
        w = opq('arg' + which, (n, cont), 'I')
        st.assume(or_(le(n, ZERO_I), and_(le(ZERO_I, w), lt(w, n), eq(app(cont, [w]), r))))
        return r

    def b_sum(self, st, args, kw, node):
        return self.reduce_sum(st, args[0], None, node)

    def b_round(self, st, args, kw, node):
        x = args[0]
        if x.sort == 'I':
            return x
        return uf('round', (x,), 'I')

    def b_tuple(self, st, args, kw, node):
        E = self.E()
        if not args:
            return E.TupleV([], 'tuple')
        v = args[0]
        if isinstance(v, E.TupleV):
            return E.TupleV(v.items, 'tuple')
        if isinstance(v, E.Arr):
            r = self.eng.copy_arr(st, v)
            r.islist = True
            return r
        raise Unsupported('tuple of %r' % (v,))

    def b_enumerate(self, st, args, kw, node):
        return self.E().Opaque('enumerate', seq=args[0], start=args[1] if len(args) > 1 else ZERO_I)

    def b_zip(self, st, args, kw, node):
        return self.E().Opaque('zip', seqs=args)

    def b_hasattr(self, st, args, kw, node):
        E = self.E()
        v, a = args
        if isinstance(v, E.FuncV):
            return TRUE if (v.func.key, a.data) in st.globals else FALSE
        if a.data == '__len__':
            if isinstance(v, (E.Arr, E.TupleV, E.DictV)) or (isinstance(v, T) and v.sort == 'S'):
                return TRUE
            if isinstance(v, T):
                return FALSE
        if isinstance(v, E.ObjV):
            return TRUE if (v.oid, a.data) in st.objs else FALSE
        if isinstance(v, E.Opaque) and hasattr(v, 'hasattr'):
            return v.hasattr(a.data)
        raise Unsupported('hasattr')

    def b_isinstance(self, st, args, kw, node):
        raise Unsupported('isinstance')

    def b_type(self, st, args, kw, node):
        E = self.E()
        v = args[0]
        if isinstance(v, E.Opaque) and hasattr(v, 'pytype'):
            return v.pytype
        if isinstance(v, E.DictV):
            return E.ModV('builtins.dict')
        if isinstance(v, T):
            return E.ModV('builtins.' + {'S': 'str', 'B': 'bool', 'I': 'int', 'R': 'float'}[v.sort])
        if isinstance(v, E.TupleV):
            return E.ModV('builtins.' + v.kind)
        if isinstance(v, E.Arr):
            return E.ModV('builtins.list' if v.islist else 'numpy.ndarray')
        raise Unsupported('type of %r' % (v,))

    def py_int(self, st, args, kw, node):
        v = args[0]
        E = self.E()
        if isinstance(v, E.Arr):
            v = self.eng.read(st, v, [ZERO_I] * v.ndim)
        if v.sort in ('I', 'B'):
            return to_int(v)
        return self.eng.trunc(v)

    def py_float(self, st, args, kw, node):
        return to_real(args[0])

    def py_bool(self, st, args, kw, node):
        return self.eng.truth(st, args[0])

    def py_str(self, st, args, kw, node):
        return self.to_str(st, args[0])

    def py_dict(self, st, args, kw, node):
        E = self.E()
        d = {}
        for a in args:
            if isinstance(a, E.DictV):
                d.update(a.d)
            elif isinstance(a, E.TupleV) and all(isinstance(x, E.TupleV) and len(x.items) == 2 for x in a.items):
                d.update({self.eng.dkey(x.items[0]): x.items[1] for x in a.items})
            else:
                raise Unsupported('dict of %r' % (a,))
        d.update(kw)
        return E.DictV(d)

    def py_list(self, st, args, kw, node):
        E = self.E()
        if not args:
            return E.TupleV([], 'list')
        v = args[0]
        if isinstance(v, E.TupleV):
            return E.TupleV(v.items, 'list')
        if isinstance(v, E.DictV):
            return E.TupleV([t.strc(k) if isinstance(k, str) else num(k, 'I') for k in v.d], 'list')
        if isinstance(v, E.Arr):
            r = self.eng.copy_arr(st, v)
            r.islist = True
            return r
        if isinstance(v, E.Opaque) and v.tag in ('ragged', 'rows', 'seq'):
            return v
        if isinstance(v, E.RangeV):
            r = self.to_arr(st, v)
            r.islist = True
            return r
        raise Unsupported('list of %r' % (v,))

    # ---- calls -------------------------------------------------------------------------------------------
    IGNORED = ('inspect.', 'time.', 'matplotlib.', 'plt.', 'subprocess.', 'sys.stdout', 'warnings.')

    def call(self, st, dotted, args, kw, node):
        E = self.E()
        m = 'f_' + dotted.replace('numpy.', 'np_').replace('.', '_')
        f = getattr(self, m, None)
        if f is None and dotted.startswith('builtins.'):
            f = getattr(self, 'py_' + dotted[9:], None)
        if f is None and dotted.split('.')[-1] in ('sqrt', 'exp', 'log', 'sin', 'cos', 'fabs') and dotted.split('.')[0] in ('libc', 'math', 'numpy'):
            name = dotted.split('.')[-1]
            return self.unary(st, name, args[0], node)
        if f is None:
            hook = getattr(self.eng, 'externals', {}).get(dotted)
            if hook is not None:
                self.assumed.add(dotted)
                return hook(self.eng, st, args, kw, node)
            if any(dotted.startswith(p) for p in self.IGNORED):
                if dotted == 'time.time':
                    return uf(t.fresh_name('time'), (), 'R')
                return E.NONE
            raise Unsupported('call of %s' % dotted)
        self.assumed.add(dotted)
        return f(st, args, kw, node)

    # ---- C memory and LAPACK -----------------------------------------------------------------------------
    def b_PyDataMem_NEW(self, st, args, kw, node):
        return self.E().Opaque('mem', size=args[0])

    def b_PyDataMem_FREE(self, st, args, kw, node):
        if not (isinstance(args[0], self.E().Opaque) and args[0].tag == 'mem'):
            raise Unsupported('free of %r' % (args[0],))
        return self.E().NONE

    def f_scipy_linalg_cython_lapack_zheevr(self, st, args, kw, node):
        """all eigenvalues (ascending) and orthonormal eigenvectors of the Hermitian matrix whose lower (upper) triangle is
        given; the imaginary parts are zero"""
        E = self.E()
        names = ('jobz range uplo n a lda vl vu il iu abstol m w z ldz isuppz work lwork rwork lrwork iwork liwork info').split()
        if len(args) != len(names):
            raise Unsupported('call of zheevr')
        A = dict(zip(names, args))

        def need(c, what):
            if c is not t.TRUE and not self.eng.entails(st, c):
                self.eng.oblige(st, c, 'call of zheevr: %s' % what, node, 'pre')
                st.assume(c)

        def scalar(k):
            v = A[k]
            if isinstance(v, E.Opaque) and v.tag == 'ptr' and v.arr is None:
                return self.eng.lookup(v.idx, st, node)
            raise Unsupported('argument %s of zheevr' % k)

        def matrix(k, nd):
            v = A[k]
            if isinstance(v, E.Opaque) and v.tag == 'ptr' and v.arr is not None:
                ix = v.idx.items if isinstance(v.idx, E.TupleV) else v.idx if isinstance(v.idx, (tuple, list)) else [v.idx]
                if any(x is not ZERO_I for x in ix):
                    raise Unsupported('argument %s of zheevr points into an array' % k)
                v = v.arr
            if not isinstance(v, E.Arr) or v.ndim != nd:
                raise Unsupported('argument %s of zheevr' % k)
            return v

        def buf(k, nbytes):
            v = A[k]
            if not (isinstance(v, E.Opaque) and v.tag == 'mem'):
                raise Unsupported('argument %s of zheevr' % k)
            need(le(nbytes, v.size), 'buffer %s is large enough' % k)

        def text(k):
            x = scalar(k)
            return x.data if isinstance(x, T) and x.op == 'str' else x.decode() if isinstance(x, bytes) else None
        n = scalar('n')
        H, Z, w = matrix('a', 2), matrix('z', 2), matrix('w', 1)
        if text('jobz') != 'V' or text('range') != 'A' or text('uplo') not in ('L', 'U'):
            raise Unsupported('zheevr with other options')
        for d, what in ((H.dims[0], 'rows of the matrix'), (H.dims[1], 'columns of the matrix'), (Z.dims[0], 'rows of the eigenvector matrix'),
                        (Z.dims[1], 'columns of the eigenvector matrix'), (scalar('lda'), 'leading dimension'), (scalar('ldz'), 'leading dimension of the eigenvectors')):
            need(eq(n, d), what)
        need(le(n, w.dims[0]), 'room for the eigenvalues')
        I = lambda k: t.num(k, 'I')
        lw, lr, li = scalar('lwork'), scalar('lrwork'), scalar('liwork')
        need(le(I(2) * n, lw), 'lwork')
        need(le(I(24) * n, lr), 'lrwork')
        need(le(I(10) * n, li), 'liwork')
        buf('isuppz', I(4) * (I(2) * n))
        buf('work', I(16) * lw)
        buf('rwork', I(8) * lr)
        buf('iwork', I(4) * li)
        need(eq(n, I(3)), 'three rows')
        up = text('uplo') == 'U'
        rd = lambda i, j: self.eng.read(st, H, (I(j), I(i)) if up else (I(i), I(j)))
        A6 = tuple(rd(i, j) for i in range(3) for j in range(i + 1))
        self.eng.assumptions.add('LAPACK zheevr converges and returns the ascending eigenvalues and orthonormal real eigenvectors of a real symmetric matrix')
        gone = t.fresh_name('destroyed')
        self.eng.write_region(st, H, lambda i, j: uf(gone, (i, j), 'R'), None)
        self.eng.write_region(st, w, lambda k: opq('#eigval', (k,) + A6), lambda k: lt(k, n))
        self.eng.write_region(st, Z, lambda i, k: opq('#eigvec', (i, k) + A6), None)
        for k, v in (('info', ZERO_I), ('m', n)):
            self.eng.assign(ast.Name(id=A[k].idx, ctx=ast.Store()), v, st, node)
        return E.NONE

    def unary(self, st, name, v, node):
        v = self.num_arr(st, v, node)

        def f(x):
            x = to_real(x) if x.sort != 'R' else x
            if name == 'sqrt':
                return t.sqrt(x)
            if name == 'fabs':
                return ite(lt(x, num(0)), -x, x)
            if name == 'exp' and x.op == 'num' and x.data == 0:
                return num(1)
            if name == 'log' and x.op == 'num' and x.data == 1:
                return num(0)
            return uf(name, (x,))
        return self.elementwise(st, f, [v], node)

    def dtype_of(self, v):
        E = self.E()
        if v is None or isinstance(v, E.NoneV):
            return None
        if isinstance(v, E.Opaque) and v.tag == 'dtype':
            return v.dt
        if isinstance(v, (E.ModV,)):
            d = v.dotted.split('.')[-1]
            if d.startswith(('int', 'uint', 'long')):
                return 'I'
            if d.startswith('bool'):
                return 'B'
            if d.startswith(('float', 'double', 'complex')):
                return 'R'
        if isinstance(v, E.BuiltinV):
            return {'int': 'I', 'float': 'R', 'bool': 'B'}.get(v.name)
        if isinstance(v, T) and v.op == 'str':
            return 'B' if v.data in ('bool', '?', 'b1') else 'R' if 'f' in v.data or v.data in ('d', 'double') else 'I' if v.data.lstrip('<>=').startswith(('i', 'u')) else self.bad_dtype(v)
        raise Unsupported('dtype %r' % (v,))

    def bad_dtype(self, v):
        raise Unsupported('dtype %r' % (v,))

    def shape_arg(self, v):
        E = self.E()
        if isinstance(v, T):
            return [v if v.sort == 'I' else self.eng.coerce(v, 'I')]
        if isinstance(v, E.TupleV):
            return [x if x.sort == 'I' else self.eng.coerce(x, 'I') for x in v.items]
        raise Unsupported('shape %r' % (v,))

    def record(self, dt):
        """fields of a structured element type: [(name, type, shape)]"""
        E = self.E()
        out = []
        if not isinstance(dt, E.TupleV):
            return None
        for x in dt.items:
            if not isinstance(x, E.TupleV) or len(x.items) not in (2, 3) or x.items[0].op != 'str':
                raise Unsupported('element type')
            out.append((x.items[0].data, x.items[1], [] if len(x.items) == 2 else self.shape_arg(x.items[2])))
        return out

    def filled(self, st, args, kw, node, val, name):
        rec = self.record(kw.get('dtype', args[1] if len(args) > 1 else None))
        if rec is not None:
            dims = self.shape_arg(args[0] if args else kw['shape'])
            return self.E().StructV(dims, {nm: self.filled(st, [self.E().TupleV(list(dims) + sh), ty], {}, node, val, name) for nm, ty, sh in rec})
        dims = self.shape_arg(args[0] if args else kw['shape'])
        dt = self.dtype_of(kw.get('dtype', args[1] if len(args) > 1 else None)) or 'R'
        for d in dims:
            self.eng.raise_if(st, lt(d, ZERO_I), 'ValueError', node)
        return self.eng.alloc(st, name, dims, dt, lambda *ix: self.eng.coerce(val, dt))

    def f_np_zeros(self, st, args, kw, node):
        return self.filled(st, args, kw, node, num(0), 'zeros')

    def f_np_ones(self, st, args, kw, node):
        return self.filled(st, args, kw, node, num(1), 'ones')

    def f_np_full(self, st, args, kw, node):
        dims = self.shape_arg(args[0])
        v = args[1]
        return self.eng.alloc(st, 'full', dims, v.sort, lambda *ix: v)

    def f_np_empty(self, st, args, kw, node):
        dims = self.shape_arg(args[0] if args else kw['shape'])
        dt = self.dtype_of(kw.get('dtype', args[1] if len(args) > 1 else None)) or 'R'
        nm = t.fresh_name('uninit')
        r = self.eng.alloc(st, 'empty', dims, dt, lambda *ix: uf(nm, ix, dt))
        return r

    def f_np_zeros_like(self, st, args, kw, node):
        a = self.to_arr(st, args[0])
        return self.eng.alloc(st, 'zeros', a.dims, a.dtype, lambda *ix: num(0, a.dtype))

    def f_np_array(self, st, args, kw, node):
        E = self.E()
        v = args[0]
        dt = self.dtype_of(kw.get('dtype', args[1] if len(args) > 1 else None))
        if isinstance(v, E.Opaque) and v.tag == 'ragged':
            return v
        a = self.to_arr(st, v, node)
        r = self.eng.alloc(st, a.store.name, a.dims, dt or a.dtype, lambda *ix: self.eng.coerce(self.eng.read(st, a, ix), dt or a.dtype))
        if getattr(a.store, 'nonzero_of', None) is not None and a.whole():
            r.store.nonzero_of = a.store.nonzero_of
        return r

    f_np_asarray = f_np_array
    f_np_copy = f_np_array

    def cast(self, st, v, dt, node):
        E = self.E()
        if isinstance(v, T):
            return self.eng.coerce(v, dt)
        if isinstance(v, E.NoneV):
            self.eng.raise_if(st, TRUE, 'TypeError', node)
            return num(0, dt)
        a = self.to_arr(st, v, node)
        r = self.eng.alloc(st, a.store.name, a.dims, dt, lambda *ix: self.eng.coerce(self.eng.read(st, a, ix), dt))
        return r

    def f_np_int32(self, st, args, kw, node):
        return self.cast(st, args[0], 'I', node)
    f_np_int64 = f_np_int32
    f_np_uint32 = f_np_int32
    f_np_uint64 = f_np_int32

    def f_np_float64(self, st, args, kw, node):
        return self.cast(st, args[0], 'R', node)
    f_np_float32 = f_np_float64

    def f_np_arange(self, st, args, kw, node):
        args = [x for x in args]
        if any(x.sort == 'R' for x in args):
            if all(isconst(x) or x.op == 'toreal' for x in args):
                args = [self.eng.coerce(x, 'I') for x in args]
            else:
                raise Unsupported('arange of reals')
        r = self.rangev(args)
        if isconst(r.step) and r.step.data != 1:
            k = int(r.step.data)
            if k < 1:
                raise Unsupported('arange step')
            n = self.nonneg(st, self.eng.scalar_binop(st, 'FloorDiv', add(sub(r.hi, r.lo), num(k - 1, 'I')), num(k, 'I')))
            return self.eng.alloc(st, 'arange', (n,), 'I', lambda j: add(r.lo, mul(num(k, 'I'), j)))
        return self.to_arr(st, r, node)

    def f_np_linspace(self, st, args, kw, node):
        a, b = to_real(args[0]), to_real(args[1])
        n = args[2] if len(args) > 2 else kw.get('num', num(50, 'I'))
        return self.eng.alloc(st, 'linspace', (n,), 'R', lambda k: add(a, mul(sub(b, a), div(to_real(k), to_real(sub(n, ONE_I))))))

    def f_np_logspace(self, st, args, kw, node):
        r = self.f_np_linspace(st, args, kw, node)
        return self.elementwise(st, lambda x: uf('pow', (num(10), x)), [r], node)

    def f_np_where(self, st, args, kw, node):
        E = self.E()
        if len(args) == 1:
            return E.TupleV([self.nonzero(st, args[0], node)], 'tuple')
        return self.elementwise(st, lambda c, x, y: ite(c, x, y), [self.num_arr(st, x, node) for x in args], node)

    def nonzero(self, st, a, node):
        a = self.to_arr(st, a, node)
        if a.ndim != 1:
            raise Unsupported('nonzero of a matrix')
        k = fresh('k', 'I')
        b = self.eng.coerce(self.eng.read(st, a, [k]), 'B')
        P = lam([k], t.replace(b, {le(ZERO_I, k): TRUE, lt(k, a.dims[0]): TRUE}))      # elements lie in the array
        n = t.count_of(ZERO_I, a.dims[0], P)
        r = self.eng.alloc(st, 'nonzero', (n,), 'I', (lambda j: ZERO_I) if a.dims[0] is ONE_I else lambda j: t.filt(ZERO_I, j, P))
        r.store.nonzero_of = P
        return r

    def f_np_nonzero(self, st, args, kw, node):
        return self.E().TupleV([self.nonzero(st, args[0], node)], 'tuple')

    def concat(self, st, vs, node, axis=0):
        E = self.E()
        arrs = []
        for v in vs:
            if isinstance(v, E.Opaque) and v.tag == 'ragged':
                raise Unsupported('concatenation of a ragged list')
            arrs.append(self.to_arr(st, v, node))
        dt = 'R' if any(a.dtype == 'R' for a in arrs) else ('I' if any(a.dtype == 'I' for a in arrs) else arrs[0].dtype)
        if len({a.ndim for a in arrs}) > 1:
            self.eng.raise_if(st, TRUE, 'ValueError', node)
            return E.NONE
        nd = arrs[0].ndim
        dims = list(arrs[0].dims)
        for a in arrs[1:]:
            for q in range(nd):
                if q != axis:
                    self.dim_eq(st, dims[q], a.dims[q], node, 'concatenated shapes agree')
        offs = [ZERO_I]
        for a in arrs:
            offs.append(add(offs[-1], a.dims[axis]))
        dims[axis] = offs[-1]
        snaps = [self.eng.content(st, a) for a in arrs]

        def piece(j, ix):
            k = sub(ix[axis], offs[j])
            return self.eng.coerce(app(snaps[j], [k if q == axis else i for q, i in enumerate(ix)]), dt)

        def f(*ix):
            r = piece(len(arrs) - 1, ix)
            for j in range(len(arrs) - 2, -1, -1):
                if isconst(arrs[j].dims[axis]) and arrs[j].dims[axis].data == 0:
                    continue
                r = ite(lt(ix[axis], offs[j + 1]), piece(j, ix), r)
            # offsets: the leading 0 of a running sum is the empty sum
            if len(arrs) == 2 and nd == 1 and self.is_one(st, arrs[0].dims[0]) and isinstance(r, T) and r.op == 'ite':
                rest = piece(1, ix)
                if rest.op == 'sum' and rest.args[0] is ZERO_I and rest.args[1] is ix[0]:
                    head = piece(0, [ZERO_I])
                    if isconst(head) and head.data == 0:
                        return rest
            return r
        return self.eng.alloc(st, 'concat', dims, dt, f)

    def f_np_hstack(self, st, args, kw, node):
        E = self.E()
        v = args[0]
        if isinstance(v, E.TupleV):
            items = []
            for x in v.items:
                if isinstance(x, T):
                    x = E.TupleV([x], 'list')
                items.append(self.to_arr(st, x, node))
            items = [self.eng.alloc(st, 'a1', (ONE_I,), x.dtype, lambda k, x=x: self.eng.read(st, x, [])) if x.ndim == 0 else x for x in items]
            return self.concat(st, items, node, 0 if items[0].ndim == 1 else 1)
        if isinstance(v, E.Opaque) and v.tag == 'ragged':
            n = sum_(ZERO_I, v.n, v.lens)
            L = v.lens
            def f(k):
                s = t.seg(ZERO_I, k, L)
                return app(v.body, [s, sub(k, sum_(ZERO_I, s, L))])
            return self.eng.alloc(st, 'hstack', (n,), v.dtype, f)
        raise Unsupported('hstack of %r' % (v,))

    def f_np_concatenate(self, st, args, kw, node):
        E = self.E()
        ax = kw.get('axis', args[1] if len(args) > 1 else ZERO_I)
        if isinstance(args[0], E.TupleV):
            return self.concat(st, args[0].items, node, int(ax.data))
        return self.f_np_hstack(st, args, kw, node)

    def f_np_vstack(self, st, args, kw, node):
        E = self.E()
        items = [self.to_arr(st, x) for x in args[0].items]
        items = [self.f_np_reshape(st, [x, E.TupleV([ONE_I, x.dims[0]])], {}, node) if x.ndim == 1 else x for x in items]
        return self.concat(st, items, node, 0)

    def f_np_stack(self, st, args, kw, node):
        E = self.E()
        ax = int(kw['axis'].data) if 'axis' in kw else 0
        if isinstance(args[0], E.Arr):
            a = args[0]
            if ax == 0:
                return self.eng.copy_arr(st, a)
            raise Unsupported('stack')
        items = [self.to_arr(st, x) for x in args[0].items]
        a = self.to_arr(st, E.TupleV(items, 'list'))
        nd = a.ndim
        ax = ax % nd
        if ax == 0:
            return a
        order = list(range(1, ax + 1)) + [0] + list(range(ax + 1, nd))
        return self.eng.copy_arr(st, E.Arr(a.store, [a.axes[q] for q in order], [a.dims[q] for q in order]))

    def f_np_append(self, st, args, kw, node):
        a, b = args
        b = self.E().TupleV([b], 'list') if isinstance(b, T) else b
        return self.concat(st, [a, b], node)

    def f_np_tile(self, st, args, kw, node):
        a = self.to_arr(st, args[0])
        reps = kw.get('reps', args[1] if len(args) > 1 else None)
        if a.ndim != 1 or not isinstance(reps, T):
            raise Unsupported('tile')
        n = a.dims[0]
        r = self.eng.alloc(st, 'tile', (mul(n, reps),), a.dtype, lambda k: self.eng.read(st, a, [uf('mod', (k, n), 'I')]))
        r.store.tile_of = (self.eng.content(st, a), n, reps)
        return r

    def f_np_reshape(self, st, args, kw, node):
        E = self.E()
        a = self.to_arr(st, args[0])
        shp = args[1] if len(args) > 1 else kw.get('newshape', kw.get('shape'))
        return self.reshape(st, a, self.shape_arg(shp), node)

    def quotient(self, a, b):
        """a / b for products of which every factor of b is one of a"""
        def factors(x):
            if x.op == 'mul':
                c, fs = 1, []
                for y in x.args:
                    c2, f2 = factors(y)
                    c, fs = c * c2, fs + f2
                return c, fs
            return (x.data, []) if isconst(x) else (1, [x])
        (ca, fa), (cb, fb) = factors(a), factors(b)
        for x in fb:
            if x not in fa:
                return None
            fa.remove(x)
        if not cb or ca % cb:
            return None
        return mul(num(ca // cb, 'I'), *fa)

    def reshape(self, st, a, dims, node):
        E = self.E()
        # -1
        for k, d in enumerate(dims):
            if isconst(d) and d.data == -1:
                others = mul(ONE_I, *[x for j, x in enumerate(dims) if j != k])
                tot = mul(ONE_I, *a.dims)
                if isconst(others) and others.data == 1:
                    dims[k] = tot
                elif tot is others:
                    dims[k] = ONE_I
                else:
                    q = self.quotient(tot, others)
                    if q is not None and self.eng.entails(st, lt(ZERO_I, others)):
                        dims[k] = q
                        continue
                    q = [x for x in a.dims]
                    rest = [x for j, x in enumerate(dims) if j != k]
                    for x in rest:
                        if x in q:
                            q.remove(x)
                        else:
                            q = None
                            break
                    if q is None:
                        dims[k] = uf('idiv', (tot, others), 'I')
                    else:
                        dims[k] = mul(ONE_I, *q)
        if a.whole() and getattr(a.store, 'tile_of', None) is not None and len(dims) == 2:
            cont, n, reps = a.store.tile_of
            if self.eng.entails(st, and_(eq(dims[0], reps), eq(dims[1], n))):
                return self.eng.alloc(st, 'tile', dims, a.dtype, lambda i, j: app(cont, [j]))
        core_a = [(k, d) for k, d in enumerate(a.dims) if not self.is_one(st, d)]
        core_b = [(k, d) for k, d in enumerate(dims) if not self.is_one(st, d)]
        if len(core_a) == len(core_b):
            same = True
            for (ka, da), (kb, db) in zip(core_a, core_b):
                if not (da is db) and not self.eng.entails(st, eq(da, db)):
                    same = False
            if not same and len(core_a) == 1:
                self.dim_eq(st, core_a[0][1], core_b[0][1], node, 'reshaped size agrees')
                same = True
            if same:
                def f(*ix):
                    full = [ZERO_I] * a.ndim
                    for (ka, da), (kb, db) in zip(core_a, core_b):
                        full[ka] = ix[kb]
                    return self.eng.read(st, a, full)
                r = self.eng.alloc(st, a.store.name, dims, a.dtype, f)
                if len(core_a) == len(a.dims) == len(dims):
                    return a
                r.store.readonly = 'reshaped view'
                return r
        if len(core_a) == 0 and all(isconst(d) and d.data == 1 for d in dims):
            return self.eng.alloc(st, a.store.name, dims, a.dtype, lambda *ix: self.eng.read(st, a, [ZERO_I] * a.ndim))
        # general row-major reshape: 2D -> 1D and 1D -> 2D / 3D
        if a.ndim == 1 and len(dims) in (2, 3):
            def f(*ix):
                k = ix[0]
                for d, i in zip(dims[1:], ix[1:]):
                    k = add(mul(k, d), i)
                return self.eng.read(st, a, [k])
            self.dim_eq(st, a.dims[0], mul(ONE_I, *dims), node, 'reshaped size agrees')
            r = self.eng.alloc(st, a.store.name, dims, a.dtype, f)
            r.store.readonly = 'reshaped view'
            return r
        if len(dims) == 1 and a.ndim == 2:
            n = a.dims[1]
            r = self.eng.alloc(st, a.store.name, dims, a.dtype, lambda k: self.eng.read(st, a, [self.eng.scalar_binop(st, 'FloorDiv', k, n), self.eng.scalar_binop(st, 'Mod', k, n)]))
            r.store.readonly = 'reshaped view'
            return r
        if a.ndim == 2 and len(dims) == 3 and isconst(dims[2]):
            # (n, m*c) -> (n, m, c)
            if self.eng.entails(st, and_(eq(a.dims[0], dims[0]), eq(a.dims[1], mul(dims[1], dims[2])))):
                r = self.eng.alloc(st, a.store.name, dims, a.dtype, lambda i, j, k: self.eng.read(st, a, [i, add(mul(j, dims[2]), k)]))
                r.store.readonly = 'reshaped view'
                return r
        if a.ndim == 3 and len(dims) == 2 and isconst(a.dims[2]):
            if self.eng.entails(st, and_(eq(a.dims[0], dims[0]), eq(dims[1], mul(a.dims[1], a.dims[2])))):
                c = a.dims[2]
                r = self.eng.alloc(st, a.store.name, dims, a.dtype, lambda i, j: self.eng.read(st, a, [i, self.eng.scalar_binop(st, 'FloorDiv', j, c), self.eng.scalar_binop(st, 'Mod', j, c)]))
                r.store.readonly = 'reshaped view'
                return r
        raise Unsupported('reshape %s -> %s' % ([t.show(d) for d in a.dims], [t.show(d) for d in dims]))

    def f_np_transpose(self, st, args, kw, node):
        E = self.E()
        a = args[0]
        if len(args) > 1 or 'axes' in kw:
            ax = kw.get('axes', args[1] if len(args) > 1 else None)
            order = [int(x.data) for x in ax.items]
        else:
            order = list(reversed(range(a.ndim)))
        return E.Arr(a.store, [a.axes[q] for q in order], [a.dims[q] for q in order], a.fixed, a.mv)

    def reduce_sum(self, st, v, axis, node):
        E = self.E()
        if isinstance(v, T):
            return v
        a = self.to_arr(st, v, node)
        cont = self.eng.content(st, a)
        if axis is None:
            cur = None
            def rec(ix):
                if len(ix) == a.ndim:
                    x = app(cont, ix)
                    return to_int(x) if x.sort == 'B' else x
                k = fresh('k', 'I')
                return sum_(ZERO_I, a.dims[len(ix)], lam([k], rec(ix + [k])))
            return rec([])
        axis = axis % a.ndim
        dims = [d for q, d in enumerate(a.dims) if q != axis]

        def f(*ix):
            k = fresh('k', 'I')
            full = list(ix[:axis]) + [k] + list(ix[axis:])
            x = app(cont, full)
            x = to_int(x) if x.sort == 'B' else x
            return sum_(ZERO_I, a.dims[axis], lam([k], x))
        if not dims:
            return f()
        dt = 'I' if a.dtype in ('B', 'I') else 'R'
        return self.eng.alloc(st, 'sum', dims, dt, f)

    def axis_of(self, args, kw, pos=1):
        E = self.E()
        ax = kw.get('axis', args[pos] if len(args) > pos else None)
        if ax is None or isinstance(ax, E.NoneV):
            return None
        return int(ax.data)

    def f_np_sum(self, st, args, kw, node):
        return self.reduce_sum(st, args[0], self.axis_of(args, kw), node)

    def f_np_average(self, st, args, kw, node):
        E = self.E()
        v = args[0]
        w = kw.get('weights')
        a = self.to_arr(st, v, node)
        ax = self.axis_of(args, kw)
        if w is not None and not isinstance(w, E.NoneV):
            if a.ndim != 1 and ax != 0:
                raise Unsupported('weighted average')
            ws = self.to_arr(st, w, node)
            if a.ndim == 2:
                ws2 = self.reshape(st, ws, [ws.dims[0], ONE_I], node)
            else:
                ws2 = ws
            s = self.reduce_sum(st, self.binop(st, 'Mult', a, ws2, node), ax, node)
            return self.binop(st, 'Div', s, self.reduce_sum(st, ws, None, node), node) if not isinstance(s, T) else div(s, self.reduce_sum(st, ws, None, node))
        s = self.reduce_sum(st, a, ax, node)
        n = mul(ONE_I, *a.dims) if ax is None else a.dims[ax % a.ndim]
        return self.eng.binop(st, 'Div', s, n, node)
    f_np_mean = f_np_average

    def f_np_cumsum(self, st, args, kw, node):
        a = self.to_arr(st, args[0], node)
        cont = self.eng.content(st, a)
        if a.ndim != 1:
            raise Unsupported('cumsum of a matrix')

        def f(k):
            j = fresh('k', 'I')
            return sum_(ZERO_I, add(k, ONE_I), lam([j], app(cont, [j])))
        return self.eng.alloc(st, 'cumsum', a.dims, a.dtype, f)

    def f_np_max(self, st, args, kw, node):
        return self.reduce_minmax(st, args[0], 'max', node)
    f_np_amax = f_np_max

    def f_np_min(self, st, args, kw, node):
        return self.reduce_minmax(st, args[0], 'min', node)
    f_np_amin = f_np_min

    f_np_abs = f_abs
    f_np_absolute = f_abs
    f_np_fabs = f_abs

    def f_np_isnan(self, st, args, kw, node):
        return self.elementwise(st, self.isnan, [self.num_arr(st, args[0], node)], node)

    def f_math_isnan(self, st, args, kw, node):
        return self.isnan(args[0])

    def isnan(self, x):
        return t.isnan(x)

    def f_np_logical_not(self, st, args, kw, node):
        return self.invert(st, args[0], node)

    def f_np_logical_and(self, st, args, kw, node):
        return self.elementwise(st, and_, args, node)

    def f_np_logical_or(self, st, args, kw, node):
        return self.elementwise(st, or_, args, node)

    def f_np_all(self, st, args, kw, node):
        a = self.to_arr(st, args[0], node)
        ks = [fresh('k', 'I') for _ in a.dims]
        rng = and_(*[x for k, n in zip(ks, a.dims) for x in (le(ZERO_I, k), lt(k, n))])
        return t.forall(ks, or_(not_(rng), self.eng.coerce(self.eng.read(st, a, ks), 'B')))

    def f_np_any(self, st, args, kw, node):
        a = self.to_arr(st, args[0], node)
        ks = [fresh('k', 'I') for _ in a.dims]
        rng = and_(*[x for k, n in zip(ks, a.dims) for x in (le(ZERO_I, k), lt(k, n))])
        return not_(t.forall(ks, or_(not_(rng), not_(self.eng.coerce(self.eng.read(st, a, ks), 'B')))))

    def f_np_linalg_norm(self, st, args, kw, node):
        a = self.to_arr(st, args[0], node)
        ax = self.axis_of(args, kw, 2)
        if a.ndim == 1:
            ax = 0
        if ax is None:
            raise Unsupported('matrix norm')
        ax = ax % a.ndim
        sq = self.elementwise(st, lambda x: mul(to_real(x), to_real(x)), [a], node)
        s = self.reduce_sum(st, sq, ax, node)
        return self.elementwise(st, t.sqrt, [s], node)

    def f_np_dot(self, st, args, kw, node):
        a, b = [self.to_arr(st, x) for x in args]
        if a.ndim == 1 and b.ndim == 1:
            self.dim_eq(st, a.dims[0], b.dims[0], node)
            return self.reduce_sum(st, self.binop(st, 'Mult', a, b, node), None, node)
        if a.ndim == 2 and b.ndim == 1:
            self.dim_eq(st, a.dims[1], b.dims[0], node)
            return self.reduce_sum(st, self.binop(st, 'Mult', a, b, node), 1, node)
        raise Unsupported('dot')

    def f_np_unique(self, st, args, kw, node):
        a = self.to_arr(st, args[0], node)
        cont = self.eng.content(st, a)
        n = a.dims[0]
        m = opq('n_unique', (n, cont), 'I')
        i, j = fresh('i', 'I'), fresh('j', 'I')
        dup = and_(le(ZERO_I, i), lt(i, j), lt(j, n), eq(app(cont, [i]), app(cont, [j])))
        st.assume(and_(le(ZERO_I, m), or_(lt(n, ZERO_I), le(m, n))))
        st.assume(t.iff(eq(m, n), t.forall([i, j], not_(dup))))
        nm = t.fresh_name('unique')
        return self.eng.alloc(st, 'unique', (m,), a.dtype, lambda k: uf(nm, (k,), a.dtype))

    def f_np_sort(self, st, args, kw, node):
        a = self.to_arr(st, args[0], node)
        s = self.f_np_argsort(st, args, kw, node)
        return self.eng.alloc(st, 'sort', a.dims, a.dtype, lambda k: self.eng.read(st, a, [self.eng.read(st, s, [k])]))

    def f_np_argsort(self, st, args, kw, node):
        a = self.to_arr(st, args[0], node)
        if a.ndim != 1:
            raise Unsupported('argsort of a matrix')
        cont = self.eng.content(st, a)
        n = a.dims[0]
        sg = lambda k: opq('argsort', (n, cont, k), 'I')
        inv = lambda k: opq('argsort_inv', (n, cont, k), 'I')
        k, l = fresh('k', 'I'), fresh('l', 'I')
        inn = lambda x: and_(le(ZERO_I, x), lt(x, n))
        st.assume(t.forall([k], or_(not_(inn(k)), and_(inn(sg(k)), eq(inv(sg(k)), k)))))
        st.assume(t.forall([k], or_(not_(inn(k)), and_(inn(inv(k)), eq(sg(inv(k)), k)))))
        st.assume(t.forall([k, l], or_(not_(inn(k)), not_(inn(l)), lt(l, k), le(app(cont, [sg(k)]), app(cont, [sg(l)])))))
        return self.eng.alloc(st, 'argsort', (n,), 'I', lambda q: sg(q))

    def f_np_argmin(self, st, args, kw, node):
        a = self.to_arr(st, args[0], node)
        self.reduce_minmax(st, a, 'min', node)
        return opq('argmin', (a.dims[0], self.eng.content(st, a)), 'I')

    def f_np_argmax(self, st, args, kw, node):
        a = self.to_arr(st, args[0], node)
        self.reduce_minmax(st, a, 'max', node)
        return opq('argmax', (a.dims[0], self.eng.content(st, a)), 'I')

    def f_np_arctan2(self, st, args, kw, node):
        return self.elementwise(st, lambda x, y: uf('arctan2', (to_real(x), to_real(y))), args, node)

    def f_np_log10(self, st, args, kw, node):
        return self.unary(st, 'log10', args[0], node)

    def f_np_log(self, st, args, kw, node):
        return self.unary(st, 'log', args[0], node)

    def f_np_exp(self, st, args, kw, node):
        return self.unary(st, 'exp', args[0], node)

    def f_np_sqrt(self, st, args, kw, node):
        return self.unary(st, 'sqrt', args[0], node)

    def f_np_sin(self, st, args, kw, node):
        return self.unary(st, 'sin', args[0], node)

    def f_np_cos(self, st, args, kw, node):
        return self.unary(st, 'cos', args[0], node)

    def f_np_median(self, st, args, kw, node):
        a = self.to_arr(st, args[0], node)
        return opq('median', (a.dims[0], self.eng.content(st, a)), 'R')

    def f_np_quantile(self, st, args, kw, node):
        a = self.to_arr(st, args[0], node)
        return opq('quantile', (a.dims[0], self.eng.content(st, a), to_real(args[1])), 'R')

    def f_np_atleast_1d(self, st, args, kw, node):
        E = self.E()
        a = self.to_arr(st, args[0], node)
        if a.ndim == 0:
            return self.eng.alloc(st, 'a1', (ONE_I,), a.dtype, lambda k: self.eng.read(st, a, []))
        return a

    def f_np_fromiter(self, st, args, kw, node):
        return self.f_np_array(st, args[:1], {}, node)

    def f_np_nan_to_num(self, st, args, kw, node):
        return self.elementwise(st, lambda x: ite(self.isnan(x), num(0), x), [self.to_arr(st, args[0])], node)

    # random generators: opaque functions of the seed
    def f_numpy_random_default_rng(self, st, args, kw, node):
        seed = kw.get('seed', args[0] if args else None)
        return self.E().Opaque('rng', seed=seed if isinstance(seed, T) else uf(t.fresh_name('seed'), (), 'I'), n=0)

    def f_np_random_default_rng(self, st, args, kw, node):
        return self.f_numpy_random_default_rng(st, args, kw, node)

    # numpy's global generator: what it yields after seeding is fixed by the seed; a draw from the unseeded one differs from run to run
    RNG = ('numpy.random', 'state')

    def f_np_random_seed(self, st, args, kw, node):
        x = args[0] if args else None
        if isinstance(x, T) and x.sort == 'I' and not any(u.startswith(('time', 'unset', 'rnd')) for u in ufs_of(x)):
            st.globals[self.RNG] = x
        else:
            st.globals.pop(self.RNG, None)
        return self.E().NONE

    def draws(self, st, size, fact, node):
        self.eng.oblige(st, TRUE if isinstance(st.globals.get(self.RNG), T) else FALSE, 'random numbers are drawn from a generator with a fixed seed',
                        node, 'requires')
        nm = t.fresh_name('rnd')
        it = tuple(self.eng.iters)
        if size is None or isinstance(size, self.E().NoneV):
            v = uf(nm, it, 'R')
            if fact is not None:
                st.assume(fact(v))
            return v
        dims = self.shape_arg(size)
        if fact is not None:
            ks = [fresh('k', 'I') for _ in dims]
            st.assume(t.forall(ks, or_(*[or_(lt(k, ZERO_I), le(d, k)) for k, d in zip(ks, dims)], fact(uf(nm, it + tuple(ks), 'R')))))
        return self.eng.alloc(st, 'draw', dims, 'R', lambda *ks: uf(nm, it + ks, 'R'))

    def f_np_random_uniform(self, st, args, kw, node):
        A = dict(zip(('low', 'high', 'size'), args))
        A.update(kw)
        lo, hi = to_real(A.get('low', ZERO_I)), to_real(A.get('high', ONE_I))
        return self.draws(st, A.get('size'), lambda v: or_(lt(hi, lo), and_(le(lo, v), le(v, hi))), node)

    def f_np_random_normal(self, st, args, kw, node):
        A = dict(zip(('loc', 'scale', 'size'), args))
        A.update(kw)
        return self.draws(st, A.get('size'), None, node)

    def f_scipy_linalg_cholesky(self, st, args, kw, node):
        a = self.to_arr(st, args[0], node)
        c, tag = self.eng.content(st, a), '#cholesky_%s' % ('lower' if kw.get('lower') is TRUE else 'upper')
        return self.eng.alloc(st, 'chol', a.dims, 'R', lambda i, j: opq(tag, (a.dims[0], c, i, j), 'R'))

    def f_np_linalg_inv(self, st, args, kw, node):
        a = self.to_arr(st, args[0], node)
        c = self.eng.content(st, a)
        return self.eng.alloc(st, 'inv', a.dims, 'R', lambda i, j: opq('#inv', (a.dims[0], c, i, j), 'R'))

    f_scipy_linalg_inv = f_np_linalg_inv

    def f_libc_stdio_printf(self, st, args, kw, node):
        return ZERO_I

    def f_openmp_omp_get_max_threads(self, st, args, kw, node):
        n = uf('nthreads', (), 'I')
        st.assume(le(ONE_I, n))
        return n

    def f_openmp_omp_get_thread_num(self, st, args, kw, node):
        if self.eng.par:
            i = self.eng.par[-1][0]
            r = uf('tid', (i,), 'I')
        else:
            r = ZERO_I
        n = uf('nthreads', (), 'I')
        st.assume(and_(le(ZERO_I, r), lt(r, n), le(ONE_I, n)))
        return r

    def f_cython_parallel_prange(self, st, args, kw, node):
        return self.rangev(args, True)

    def f_scipy_interpolate_interp1d(self, st, args, kw, node):
        """linear interpolation through (x, y): an opaque function of both tables and the abscissa"""
        E = self.E()
        x, y = [self.to_arr(st, a, node) for a in args[:2]]
        self.dim_eq(st, x.dims[0], y.dims[0], node)
        fill = kw.get('fill_value')
        kind = kw.get('kind')
        tag = '#interp' + ('_' + fill.data if isinstance(fill, T) and fill.op == 'str' else '') + ('_' + kind.data if isinstance(kind, T) and kind.data != 'linear' else '')
        if set(kw) - {'bounds_error', 'fill_value', 'kind'} or len(args) > 2:
            raise Unsupported('interp1d options')
        cx, cy = self.eng.content(st, x), self.eng.content(st, y)
        n = x.dims[0]
        if not (isinstance(kw.get('bounds_error'), T) and kw['bounds_error'] is FALSE or fill is not None):
            return self.linear_inside(st, n, cx, cy, node)

        def fn(st2, a, k, nd):
            return self.elementwise(st2, lambda z: opq(tag, (n, cx, cy, to_real(z)), 'R'), [self.num_arr(st2, a[0], nd)], nd)
        return E.Opaque('callable', fn=fn)

    def linear_inside(self, st, n, cx, cy, node):
        """the default of interp1d: a ValueError outside the table; within two neighbouring abscissae the value lies between
        the two ordinates"""
        k = fresh('k', 'I')
        self.eng.oblige(st, t.forall([k], or_(lt(k, ZERO_I), le(n, add(k, ONE_I)), lt(app(cx, [k]), app(cx, [add(k, ONE_I)])))),
                        'the abscissae of interp1d ascend', node, 'requires')
        self.eng.oblige(st, lt(ONE_I, n), 'interp1d has two points', node, 'requires')
        tag = '#interp_inside'

        def fn(st2, a, kw, nd):
            x = self.num_arr(st2, a[0], nd)
            r = self.elementwise(st2, lambda z: opq(tag, (n, cx, cy, to_real(z)), 'R'), [x], nd)
            idx = [fresh('p', 'I') for _ in x.dims] if isinstance(x, self.E().Arr) else []
            z = to_real(self.eng.read(st2, x, idx)) if idx else to_real(x)
            rng = and_(*[c for i, d in zip(idx, x.dims if idx else ()) for c in (le(ZERO_I, i), lt(i, d))])
            out = or_(lt(z, app(cx, [ZERO_I])), lt(app(cx, [sub(n, ONE_I)]), z))
            self.eng.raise_if(st2, not_(t.forall(idx, or_(not_(rng), not_(out)))) if idx else out, 'ValueError', nd)
            k = fresh('k', 'I')
            v = opq(tag, (n, cx, cy, z), 'R')
            lo, hi = app(cy, [k]), app(cy, [add(k, ONE_I)])
            st2.assume(t.forall(idx + [k], or_(not_(rng), lt(k, ZERO_I), le(n, add(k, ONE_I)), lt(z, app(cx, [k])), lt(app(cx, [add(k, ONE_I)]), z),
                                               and_(or_(lt(hi, lo), and_(le(lo, v), le(v, hi))), or_(lt(lo, hi), and_(le(hi, v), le(v, lo)))))))
            return r
        return self.E().Opaque('callable', fn=fn)

    # ---- optimiser and process pools ----------------------------------------------------------------------
    def f_scipy_optimize_minimize(self, st, args, kw, node):
        """an opaque function of the objective, its data, the method, the initial guess and the bounds; it may reject them
        with a ValueError"""
        E = self.E()
        names = ('fun', 'x0', 'args', 'method', 'jac', 'hess', 'hessp', 'bounds')
        A = dict(zip(names, args))
        A.update(kw)
        if set(A) - {'fun', 'x0', 'args', 'method', 'bounds'} or 'bounds' not in A or 'x0' not in A:
            raise Unsupported('minimize options')
        fun = A['fun']
        if not isinstance(fun, E.FuncV):
            raise Unsupported('objective %r' % (fun,))
        x0 = self.to_arr(st, A['x0'], node)
        if not (x0.ndim == 1 and x0.dims[0].op == 'num'):
            raise Unsupported('initial guess of unknown length')
        m = int(x0.dims[0].data)
        guess = tuple(to_real(self.eng.read(st, x0, [num(k, 'I')])) for k in range(m))
        bs = A['bounds']
        if isinstance(bs, E.Arr):
            bs = E.TupleV([E.TupleV([self.eng.read(st, bs, [num(k, 'I'), num(q, 'I')]) for q in range(2)]) for k in range(m)])
        if isinstance(bs, E.Opaque) and bs.tag == 'bounds':
            lo, hi = [self.to_arr(st, x, node) for x in (bs.lb, bs.ub)]
            bs = E.TupleV([E.TupleV([self.eng.read(st, x, [num(k, 'I')]) for x in (lo, hi)]) for k in range(m)])
        if not isinstance(bs, E.TupleV):
            raise Unsupported('bounds %r' % (bs,))
        if len(bs.items) != m:
            self.eng.raise_if(st, TRUE, 'ValueError', node)
            return E.NONE
        bounds = tuple(to_real(x) for b in bs.items for x in self.eng.unpack(st, b, 2, node))
        data, n = [], None
        extra = A.get('args', E.TupleV([]))
        for a in (extra.items if isinstance(extra, E.TupleV) else [extra]):
            if isinstance(a, T):
                data.append(a)
                continue
            a = self.to_arr(st, a, node)
            if a.ndim != 1:
                raise Unsupported('data of the objective')
            if n is None:
                n = a.dims[0]
            self.dim_eq(st, a.dims[0], n, node)
            data.append(self.eng.content(st, a))
        if n is None:
            raise Unsupported('objective without data')
        meth = A.get('method', t.strc(''))
        sig = (n, t.strc(fun.func.key), meth) + tuple(data) + guess + bounds
        self.eng.raise_if(st, opq('#minimize_rejects', sig, 'B'), 'ValueError', node)
        x = self.eng.alloc(st, 'optimum', (x0.dims[0],), 'R', lambda j: opq('#minimize', sig + (j,), 'R'))
        x.store.frozen = all(bounds[2 * k] is bounds[2 * k + 1] for k in range(m))      # nothing to fit: scipy returns a read-only array
        return E.Opaque('result', x=x)

    def f_scipy_integrate_quad(self, st, args, kw, node):
        """the exact integral (and some error estimate); linear in the integrand"""
        E = self.E()
        A = dict(zip(('func', 'a', 'b', 'args'), args))
        A.update(kw)
        if set(A) - {'func', 'a', 'b', 'args', 'limit', 'epsabs', 'epsrel'}:
            raise Unsupported('quad with %s' % sorted(A))
        more = A.get('args')
        more = [] if more is None else list(more.items) if isinstance(more, E.TupleV) and more.kind == 'tuple' else [more]
        r = fresh('r', 'R')
        lo, hi = (to_real(self.eng.coerce(A[k], 'R')) for k in 'ab')
        g = st.copy()
        g.raised = []
        g.path = g.path + (le(lo, r), le(r, hi))
        h0, o0, g0 = dict(g.heap), dict(g.objs), dict(g.globals)
        self.eng.marks.append(E.Seq.n)
        try:
            v = self.eng.call(g, A['func'], [r] + more, {}, node)
        finally:
            self.eng.marks.pop()
        if any(g.heap.get(k) is not x for k, x in h0.items()) or any(g.objs.get(k) is not x for k, x in o0.items()) or \
                any(g.globals.get(k) is not x for k, x in g0.items()):
            raise Unsupported('integrand with side effects')
        for path, exc, rs in g.raised:
            if any(r in x._fv for x in path[len(st.path) + 2:]):
                raise Unsupported('integrand that raises')
            self.eng.raise_if(st, and_(*path[len(st.path) + 2:]), exc, node)
        if not isinstance(v, T):
            raise Unsupported('integrand that is no number')
        I = t.integral(r, to_real(v), lo, hi)
        return E.TupleV([I, uf(t.fresh_name('quad_error'), (), 'R')], 'tuple')

    def f_scipy_optimize_Bounds(self, st, args, kw, node):
        A = dict(zip(('lb', 'ub'), args))
        A.update(kw)
        return self.E().Opaque('bounds', lb=A['lb'], ub=A['ub'])

    def f_os_sched_getaffinity(self, st, args, kw, node):
        return self.E().Opaque('cpus', n=uf('ncpu', (), 'I'))

    def f_os_cpu_count(self, st, args, kw, node):
        return uf('ncpu', (), 'I')

    def f_pathos_multiprocessing_ProcessingPool(self, st, args, kw, node):
        """worker processes; map returns the results in the order of its arguments"""
        from . import loops
        return self.E().Opaque('pool', method=lambda st2, name, a, k, nd: self.pool(st2, name, a, k, nd))
    f_multiprocessing_Pool = f_multiprocess_Pool = f_concurrent_futures_ProcessPoolExecutor = f_pathos_multiprocessing_ProcessingPool

    def pool(self, st, name, args, kw, node):
        if name in ('close', 'join', 'terminate', 'clear', 'restart', 'shutdown'):
            return self.E().NONE
        if name not in ('map', 'imap') or len(args) != 2 or set(kw) - {'chunksize'}:
            raise Unsupported('pool.%s' % name)
        return self.map_over(st, args[0], args[1], node)

    def map_over(self, st, fn, lst, node):
        from . import loops
        save = dict(st.vars)
        st.vars = dict(save, __map_f=fn, __map_l=lst)
        e = ast.parse('[__map_f(__map_x) for __map_x in __map_l]', mode='eval').body
        for q in ast.walk(e):
            if hasattr(q, 'lineno'):
                q.lineno = getattr(node, 'lineno', 0)
        r = loops.list_comp(self.eng, e, st)
        st.vars = save
        return r

    def b_map(self, st, args, kw, node):
        if len(args) != 2:
            raise Unsupported('map over several sequences')
        return self.map_over(st, args[0], args[1], node)

    def f_functools_partial(self, st, args, kw, node):
        return self.E().Opaque('partial', fn=args[0], args=list(args[1:]), kw=dict(kw))

    def f_os_path_join(self, st, args, kw, node):
        parts = []
        for k, a in enumerate(args):
            if k:
                parts.append(t.strc('/'))
            parts.append(self.to_str(st, a))
        return self.strcat(parts)

    def f_os_path_abspath(self, st, args, kw, node):
        return uf('abspath', (self.to_str(st, args[0]),), 'S')

    def f_os_path_dirname(self, st, args, kw, node):
        return uf('dirname', (self.to_str(st, args[0]),), 'S')

    def f_os_path_basename(self, st, args, kw, node):
        return uf('basename', (self.to_str(st, args[0]),), 'S')

    # ---- methods -----------------------------------------------------------------------------------------
    def call_method(self, st, obj, name, args, kw, node):
        E = self.E()
        if isinstance(obj, E.Arr):
            return self.arr_method(st, obj, name, args, kw, node)
        if isinstance(obj, T) and obj.sort == 'S':
            if name == 'format':
                return self.str_format(st, obj, args, kw)
            if obj.op == 'str' and all(isinstance(a, T) and a.op == 'str' for a in args):
                r = getattr(obj.data, name)(*[a.data for a in args])
                if isinstance(r, str):
                    return t.strc(r)
                if isinstance(r, bool):
                    return TRUE if r else FALSE
            return uf('str_' + name, (obj,) + tuple(a for a in args if isinstance(a, T)), 'S')
        if isinstance(obj, T):
            if name in ('copy', 'item'):
                return obj
            if name == 'round':
                return to_real(uf('round', (obj,), 'I')) if obj.sort == 'R' else obj
        if isinstance(obj, E.DictV):
            if name == 'keys':
                return E.TupleV([t.strc(k) for k in obj.d], 'set')
            if name == 'values':
                return E.TupleV(list(obj.d.values()), 'list')
            if name == 'items':
                return E.TupleV([E.TupleV([t.strc(k), v]) for k, v in obj.d.items()], 'list')
            if name == 'get':
                k = args[0]
                if k.op == 'str':
                    return obj.d.get(k.data, args[1] if len(args) > 1 else E.NONE)
            if name == 'copy':
                return E.DictV(obj.d)
        if isinstance(obj, T) and obj.sort in 'RIB' and name == 'reshape':
            return self.arr_method(st, self.to_arr(st, obj, node), name, args, kw, node)
        if isinstance(obj, E.TupleV) and obj.kind == 'list':
            if name == 'append':
                self.eng.mutating(obj)
                obj.items.append(args[0])
                return E.NONE
            if name == 'copy':
                return E.TupleV(obj.items, 'list')
        if isinstance(obj, E.TupleV) and name == 'count':
            raise Unsupported('count')
        if isinstance(obj, E.Opaque):
            if obj.tag == 'rng':
                if name == 'choice':
                    return self.rng_choice(st, obj, args, kw, node)
            if hasattr(obj, 'method'):
                return obj.method(st, name, args, kw, node)
        raise Unsupported('method %s of %r' % (name, obj))

    def rng_choice(self, st, obj, args, kw, node):
        """choice without replacement from an index range: distinct indices, determined by the seed"""
        E = self.E()
        a = self.to_arr(st, args[0], node)
        size = args[1] if len(args) > 1 else kw['size']
        dims = self.shape_arg(size)
        cont = self.eng.content(st, a)
        n = a.dims[0]
        pick = lambda k: uf('rng_choice', (obj.seed, n, dims[0], k), 'I')
        k = fresh('k', 'I')
        st.assume(t.forall([k], or_(not_(and_(le(ZERO_I, k), lt(k, dims[0]))), and_(le(ZERO_I, pick(k)), lt(pick(k), n)))))
        self.eng.raise_if(st, lt(n, dims[0]), 'ValueError', node)
        return self.eng.alloc(st, 'choice', dims, a.dtype, lambda q: app(cont, [pick(q)]))

    def arr_method(self, st, a, name, args, kw, node):
        E = self.E()
        if name in ('copy', 'flatten', 'ravel') and (name == 'copy' or a.ndim == 1):
            return self.eng.copy_arr(st, a)
        if name in ('flatten', 'ravel') and a.ndim == 2:
            return self.reshape(st, a, [mul(*a.dims)], node)
        if name == 'sum':
            return self.reduce_sum(st, a, self.axis_of(args, kw, 0), node)
        if name == 'mean':
            return self.f_np_average(st, [a] + list(args), kw, node)
        if name == 'max':
            return self.reduce_minmax(st, a, 'max', node)
        if name == 'min':
            return self.reduce_minmax(st, a, 'min', node)
        if name == 'argmin':
            return self.f_np_argmin(st, [a], kw, node)
        if name == 'all':
            return self.f_np_all(st, [a], kw, node)
        if name == 'any':
            return self.f_np_any(st, [a], kw, node)
        if name == 'nonzero':
            return E.TupleV([self.nonzero(st, a, node)], 'tuple')
        if name == 'astype':
            return self.cast(st, a, self.dtype_of(args[0]), node)
        if name == 'reshape':
            shp = args[0] if len(args) == 1 and isinstance(args[0], E.TupleV) else E.TupleV(args)
            return self.reshape(st, a, self.shape_arg(shp), node)
        if name == 'round':
            return self.elementwise(st, lambda x: x if x.sort == 'I' else to_real(uf('round', (x,), 'I')), [a], node)
        if name == 'tolist':
            r = self.eng.copy_arr(st, a)
            r.islist = True
            return r
        if name == 'append' and a.islist:
            raise Unsupported('append to a symbolic list')
        if name == 'dot':
            return self.f_np_dot(st, [a] + list(args), kw, node)
        raise Unsupported('array method %s' % name)


def mutable_global(path, name):
    """value a rebindable module variable has on entry: a number, or for the cache size anything"""
    if name == 'CACHE_MAXSIZE':
        from .engine import Opaque
        return Opaque('global', name=name)
    return t.var('g_%s_%s' % (path.rsplit('/', 1)[-1].split('.')[0], name), 'R')

"""Loop summarisation: closed forms are guessed from one symbolic iteration and proved by induction.

For every variable and array a loop changes, a closed form F(k) ("value at the start of iteration k") is proposed.
Obligations: F(lo) equals the value before the loop; body(F(i)) equals F(i+1) for every lo <= i < hi. Anything
without a closed form is replaced by an unconstrained value per iteration (sound over-approximation).
"""
import ast
from . import terms as t, norm, prover
from .terms import (T, TRUE, FALSE, ZERO_I, ONE_I, num, var, fresh, uf, and_, or_, not_, ite, eq, le, lt, add, sub,
                    mul, lam, app, subst, subst_uf, opq, sum_)
from .frontend import Unsupported
from .engine import (Seq, Arr, Store, TupleV, DictV, Undef, NoneV, Opaque, Outcome, RangeV, Obl, is_scalar, same_value,
                     ObjV, FuncV, ModV, State, STORES)

UNROLL = 16


def assigned_names(body):
    out = set()
    for s in body:
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                out.add(n.id)
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                for al in n.names:
                    out.add(al.asname or al.name)
            elif isinstance(n, ast.FunctionDef):
                out.add(n.name)
    # names bound only inside comprehensions are local to them but harmless
    return out


def const_int(x):
    return isinstance(x, T) and x.op == 'num'


# ---- entry points ------------------------------------------------------------------------------------------

def iteration_space(eng, st, it, node):
    """returns (lo, hi, elem) with elem(state, index) -> value bound to the target, or ('concrete', [values])"""
    if isinstance(it, RangeV):
        if const_int(it.step):
            k = int(it.step.data)
        else:
            eng.oblige(st, lt(ZERO_I, it.step), 'the step of the range is positive', node, 'bounds')
            d = sub(it.hi, it.lo)
            cnt = ite(le(d, ZERO_I), ZERO_I, uf('idiv', (sub(add(d, it.step), ONE_I), it.step), 'I'))
            return ZERO_I, cnt, (lambda s, i: add(it.lo, mul(it.step, i))), it.par
        if k == 1:
            return it.lo, it.hi, (lambda s, i: i), it.par
        if const_int(it.lo) and const_int(it.hi):
            return 'concrete', [num(x, 'I') for x in range(int(it.lo.data), int(it.hi.data), k)], None, it.par
        if k == -1:
            # hi < lo: lo, lo-1, ..., hi+1
            return ZERO_I, sub(it.lo, it.hi), (lambda s, i: sub(it.lo, i)), it.par
        if k > 1:
            cnt = uf('idiv', (add(sub(it.hi, it.lo), num(k - 1, 'I')), num(k, 'I')), 'I')
            return ZERO_I, cnt, (lambda s, i: add(it.lo, mul(num(k, 'I'), i))), it.par
        raise Unsupported('range step %d' % k)
    if isinstance(it, TupleV):
        return 'concrete', list(it.items), None, False
    if isinstance(it, DictV):
        return 'concrete', [t.strc(k) if isinstance(k, str) else num(k, 'I') for k in it.d], None, False
    if isinstance(it, Arr):
        d = it.dims[0]
        if const_int(d) and d.data <= UNROLL:
            return 'concrete', [eng.get_item(st, it, num(k, 'I'), node) for k in range(int(d.data))], None, False
        return ZERO_I, d, (lambda s, i: eng.np.get_item(s, it, i, node, checked=True)), False
    if isinstance(it, Opaque) and it.tag == 'enumerate':
        r = iteration_space(eng, st, it.seq, node)
        if r[0] == 'concrete':
            return 'concrete', [TupleV([add(it.start, num(k, 'I')), v]) for k, v in enumerate(r[1])], None, False
        lo, hi, el, par = r
        return lo, hi, (lambda s, i: TupleV([add(it.start, sub(i, lo)), el(s, i)])), par
    if isinstance(it, Opaque) and it.tag == 'zip':
        rs = [iteration_space(eng, st, x, node) for x in it.seqs]
        if any(r[0] == 'concrete' for r in rs):
            if all(r[0] == 'concrete' for r in rs):
                return 'concrete', [TupleV(list(x)) for x in zip(*[r[1] for r in rs])], None, False
            n = min(len(r[1]) for r in rs if r[0] == 'concrete')
            for r in rs:
                if r[0] != 'concrete':
                    eng.oblige(st, le(num(n, 'I'), sub(r[1], r[0])), 'zip lengths', node, 'bounds')
            return 'concrete', [TupleV([r[1][k] if r[0] == 'concrete' else r[2](st, add(r[0], num(k, 'I'))) for r in rs]) for k in range(n)], None, False
        n = sub(rs[0][1], rs[0][0])
        for r in rs[1:]:
            m = sub(r[1], r[0])
            n = ite(lt(m, n), m, n)
        return ZERO_I, n, (lambda s, i: TupleV([r[2](s, add(r[0], i)) for r in rs])), False
    r = eng.np.iteration_space(st, it, node)
    if r is not None:
        return r
    raise Unsupported('iteration over %r' % (it,))


def exec_for(eng, s, st):
    it = eng.eval(s.iter, st)
    sp = iteration_space(eng, st, it, s)
    lo, hi, elem, par = sp
    if lo == 'concrete':
        return unroll(eng, s, st, hi)
    if const_int(lo) and const_int(hi) and hi.data - lo.data <= UNROLL and not par:
        return unroll(eng, s, st, [elem(st, num(k, 'I')) for k in range(int(lo.data), int(hi.data))])

    def bind(g, i):
        eng.assign(s.target, elem(g, i), g, s)
    if isinstance(s, ast.For) and not par:
        mark = len(eng.obls)
        try:
            r = append_loop(eng, s, st.copy(), lo, hi, bind)
        except Unsupported:
            r = None
        if r is not None:
            return r
        del eng.obls[mark:]
    return summarise(eng, st, lo, hi, bind, s, par)


def unroll(eng, s, st, values):
    out = []
    cur = st
    broken = []
    for v in values:
        eng.assign(s.target, v, cur, s)
        base = cur.path
        res = eng.exec_block(s.body, cur)
        nxt = []
        for o in res:
            if o.kind in ('next', 'continue'):
                nxt.append(Outcome('next', o.st))
            elif o.kind == 'break':
                broken.append(Outcome('next', o.st))
            else:
                out.append(o)
        if not nxt:
            cur = None
            break
        cur = eng.merge_outcomes(nxt, base).st if len(nxt) > 1 else nxt[0].st
    if cur is not None:
        if s.orelse:
            raise Unsupported('for-else')
        broken.append(Outcome('next', cur))
    if broken:
        m = eng.merge_outcomes(broken, st_base(broken)) if len(broken) > 1 else broken[0]
        out.append(Outcome('next', m.st))
    return out


def st_base(outs):
    ps = [o.st.path for o in outs]
    n = 0
    while all(len(p) > n for p in ps) and all(p[n] is ps[0][n] for p in ps):
        n += 1
    return ps[0][:n]


# ---- generic iteration -------------------------------------------------------------------------------------

class Sym:
    """symbol standing for a loop-carried quantity at the start of the generic iteration"""
    __slots__ = ('key', 'kind', 'init', 'sym', 'name', 'post', 'closed', 'havoc', 'store', 'sorts', 'dims0', 'dims_post', 'res', 'owner')

    def __init__(self, key, kind, init, name):
        self.key, self.kind, self.init, self.name = key, kind, init, name
        self.closed = None
        self.havoc = False
        self.post = None


def delta(p, x0, syms, js=()):
    """term d with p == x0 + d; None if p is not of that shape"""
    if p is x0:
        return num(0, p.sort)
    if p.op == 'ite':
        c = p.args[0]
        m = {}
        if js:
            for a in (c.args if c.op == 'and' else (c,)):
                if a.op == 'eq':
                    r = solve_for(a.args[0], js)
                    if r is not None and r[0] not in m:
                        m[r[0]] = r[1]
        a = delta(p.args[1], x0, syms, js)
        if a is None and m:
            a = delta(subst(p.args[1], m), subst(x0, m), syms, ())
        if a is None:
            return None
        b = delta(p.args[2], x0, syms, js)
        if b is None:
            return None
        return ite(c, a, b)
    if p.op == 'add':
        if x0 in p.args:
            return sub(p, x0)
        cand = [a for a in p.args if a.op == 'ite' and contains(a, x0)]
        for a in cand:
            d = delta(a, x0, syms, js)
            if d is not None:
                return add(d, sub(p, a))
    return None


def contains(p, x):
    if x.op == 'var':
        return x in p._fv
    return any(y is x for y in t.subterms(p, True))


def solve_for(p, js):
    """p == 0 with p linear in one of js with coefficient +-1: returns (j, value)"""
    args = p.args if p.op == 'add' else (p,)
    for j in js:
        for a in args:
            c, at = t._coef(a)
            if at is j and abs(c) == 1:
                rest = sub(p, a)
                if j in rest._fv:
                    continue
                v = mul(num(-c, p.sort), rest)
                return j, v
    return None


def changed_guard(c, leaf):
    """condition under which c is not the unchanged leaf"""
    if c is leaf:
        return FALSE
    if c.op == 'ite':
        return or_(and_(c.args[0], changed_guard(c.args[1], leaf)), and_(not_(c.args[0]), changed_guard(c.args[2], leaf)))
    return TRUE


def disjuncts(g):
    """disjunctive normal form (small)"""
    if g.op == 'or':
        out = []
        for a in g.args:
            out.extend(disjuncts(a))
        return out
    if g.op == 'and':
        outs = [[]]
        for a in g.args:
            ds = disjuncts(a)
            outs = [o + list(d) for o in outs for d in ds]
            if len(outs) > 64:
                return [[g]]
        return outs
    return [[g]]


class Loop:
    def __init__(self, eng, st, lo, hi, node, par):
        self.eng, self.st, self.lo, self.hi, self.node, self.par = eng, st, lo, hi, node, par
        self.syms = {}
        self.i = None

    def unsolved_vars(self):
        return {s.sym for s in self.syms.values() if s.closed is None and s.kind == 'scalar'}

    def unsolved_ufs(self):
        return {s.sym for s in self.syms.values() if s.closed is None and s.kind in ('store', 'avar')}

    def at(self, term, n):
        """term of the generic iteration, evaluated at the start of iteration n with all solved closed forms"""
        i = self.i
        m = {}
        um = {}
        for s in self.syms.values():
            if s.closed is None:
                continue
            if s.kind == 'scalar':
                m[s.sym] = s.closed(i)
            elif s.kind == 'dim':
                m[s.sym] = s.closed(i)
            else:
                um[s.sym] = (lambda *a, f=s.closed: f(i, a))
        r = subst(term, m) if m else term
        # closed forms may mention other symbols (never: they are fully solved), so one pass is enough
        if um:
            r = subst_uf(r, um)
        if n is not i:
            r = subst(r, {i: n})
        return r

    def free_of_unsolved(self, term):
        if term._fv & self.unsolved_vars():
            return False
        if term._ufs & self.unsolved_ufs():
            return False
        return True


def make_generic(eng, L, g, modvars, modstores):
    st = L.st
    for name in modvars:
        if name not in st.vars:
            g.vars.pop(name, None)
            continue
        v = st.vars[name]
        generic_var(eng, L, g, ('var', name), v, name)
    for sid, store in modstores.items():
        s = Sym(('store', sid), 'store', st.heap[sid], store.name)
        s.store = store
        s.sym = t.fresh_name('H_' + store.name)
        sort = store.dtype
        s.sorts = sort
        L.syms[s.key] = s
        vs = [fresh('h', 'I') for _ in store.dims]
        g.heap[sid] = lam(vs, uf(s.sym, vs, sort))


def generic_var(eng, L, g, key, v, name):
    if is_scalar(v):
        s = Sym(key, 'scalar', v, name)
        sort = v.sort
        f = eng.funcstack[-1] if eng.funcstack else None
        ct = f.types.get(name) if f is not None and key[0] == 'var' and len(key) == 2 else None
        s.sym = fresh('pre_' + name, sort)
        L.syms[key] = s
        setkey(g, key, s.sym)
    elif isinstance(v, Arr) and all(a[2] == 1 for a in v.axes):
        # generic array: fresh extent on the first axis
        s = Sym(key, 'avar', v, name)
        s.sym = t.fresh_name('A_' + name)
        d = Sym(key + ('dim',), 'scalar', v.dims[0], name + '.len')
        d.sym = fresh('len_' + name, 'I')
        L.syms[key] = s
        L.syms[d.key] = d
        store = Store(name, (d.sym,) + tuple(v.dims[1:]), v.dtype)
        s.store = store
        s.sorts = v.dtype
        vs = [fresh('h', 'I') for _ in store.dims]
        g.heap[store.sid] = lam(vs, uf(s.sym, vs, v.dtype))
        a = Arr(store, islist=v.islist)
        if v.mv:
            a = eng.as_mv(a)
        g.facts = g.facts + (le(ZERO_I, d.sym),)
        s.res = a
        setkey(g, key, a)
    elif isinstance(v, TupleV) and v.kind == 'list' and not v.items:
        # empty python list: becomes a generic array when appended to
        setkey(g, key, Opaque('genlist', key=key, loop=L, items=None))
    elif isinstance(v, TupleV):
        items = []
        for k, x in enumerate(v.items):
            generic_var(eng, L, g, key + (k,), x, '%s_%d' % (name, k))
            items.append(getkey(g, key + (k,)))
        setkey(g, key, TupleV(items, v.kind))
    elif isinstance(v, (FuncV, NoneV)) or (isinstance(v, Opaque) and v.tag in ('class',)):
        setkey(g, key, Undef('%s carried through the loop' % name))
    else:
        setkey(g, key, Undef('%s carried through the loop' % name))


def setkey(g, key, v):
    if key[0] == 'var':
        g.vars[key[1] if len(key) == 2 else key] = v
    elif key[0] == 'obj':
        g.objs[key[1]] = v
    elif key[0] == 'glob':
        g.globals[key[1]] = v


def getkey(g, key):
    if key[0] == 'var':
        return g.vars[key[1] if len(key) == 2 else key]
    if key[0] == 'obj':
        return g.objs[key[1]]
    return g.globals[key[1]]


def summarise(eng, st, lo, hi, bind, s, par, while_cond=None):
    body = s.body
    modvars = assigned_names(body)
    if isinstance(s, ast.For):
        modvars |= assigned_names([ast.Expr(value=s.target)])
    eng_types = eng.funcstack[-1].types if eng.funcstack else {}
    modstores = {}
    modobjs = set()
    modglobs = set()
    for attempt in range(12):
        L = Loop(eng, st, lo, hi, s, par)
        g = st.copy()
        g.raised = []
        obl0 = len(eng.obls)
        make_generic(eng, L, g, sorted(modvars), modstores)
        for k in modobjs:
            generic_var(eng, L, g, ('obj', k), st.objs[k], str(k[1]))
        for k in modglobs:
            generic_var(eng, L, g, ('glob', k), st.globals[k], str(k[1]))
        L.i = i = fresh('i', 'I')
        if hi is None:
            hi_ = fresh('K', 'I')
            L.hi = hi_
        g.path = g.path + (le(L.lo, i), lt(i, L.hi))
        base_path = g.path
        heap0 = dict(g.heap)
        objs0, globs0 = dict(g.objs), dict(g.globals)
        if par:
            for key, sy in L.syms.items():
                pass
            eng.par.append((i, L))
        eng.iters.append(i)
        eng.marks.append(Seq.n)
        try:
            if while_cond is not None:
                c = eng.truth(g, eng.eval(while_cond, g))
                wc = c
                g.branch(c)
            else:
                wc = None
                bind(g, i)
            vars_after_bind = dict(g.vars)
            outs = eng.exec_block(body, g)
        finally:
            eng.iters.pop()
            eng.marks.pop()
            if par:
                eng.par.pop()
        nxt = [Outcome('next', o.st) for o in outs if o.kind in ('next', 'continue')]
        others = [o for o in outs if o.kind not in ('next', 'continue')]
        if others:
            raise Unsupported('%s inside a loop without a closed form' % others[0].kind)
        if not nxt:
            raise Unsupported('loop body never completes')
        e = eng.merge_outcomes(nxt, base_path).st if len(nxt) > 1 else nxt[0].st
        raised = g.raised
        again = False
        for sid in list(st.heap):
            if sid in e.heap and e.heap[sid] is not heap0[sid] and sid not in modstores:
                modstores[sid] = find_store(eng, st, g, e, sid)
                again = True
        for k in st.objs:
            if k not in modobjs and not same_value(e.objs.get(k), objs0.get(k)):
                modobjs.add(k)
                again = True
        for k in st.globals:
            if k not in modglobs and not same_value(e.globals.get(k), globs0.get(k)):
                modglobs.add(k)
                again = True
        if not again:
            break
        del eng.obls[obl0:]
    else:
        raise Unsupported('loop analysis did not stabilise')
    body_obls = eng.obls[obl0:]
    del eng.obls[obl0:]
    L.end = e
    for sy in L.syms.values():
        if sy.kind == 'store':
            sy.post = e.heap[sy.key[1]]
        elif sy.kind == 'avar':
            sy.post = getkey(e, sy.key)
        elif sy.key[-1] == 'dim':
            a = getkey(e, sy.key[:-1])
            sy.post = a.dims[0] if isinstance(a, Arr) else None
        else:
            sy.post = getkey(e, sy.key) if not (len(sy.key) > 2) else nested(e, sy.key)
    solve(eng, L)
    finish_obligations(eng, L, body_obls, base_path)
    # state after the loop
    if while_cond is not None:
        K = while_bound(eng, L, wc)
        m = {L.hi: K}
        L.hiK = L.hi
        L.hi = K
        for o in eng.obls[obl0:]:
            o.hyps = tuple(subst(h, m) for h in o.hyps)
            o.goal = subst(o.goal, m)
    return after_loop(eng, L, e, raised, base_path, modvars, modstores, modobjs, modglobs)


def nested(e, key):
    v = e.vars[key[1]] if key[0] == 'var' else getkey(e, key[:2])
    for k in key[2:]:
        if isinstance(v, TupleV) and isinstance(k, int) and k < len(v.items):
            v = v.items[k]
        else:
            return None
    return v


def find_store(eng, st, g, e, sid):
    for tab in (st.vars, st.objs, st.globals, e.vars, e.objs):
        for v in tab.values():
            r = store_in(v, sid)
            if r is not None:
                return r
    for clo in eng.closures:
        for v in clo.values():
            r = store_in(v, sid)
            if r is not None:
                return r
    r = eng.np.stores.get(sid) if hasattr(eng.np, 'stores') else None
    if r is not None:
        return r
    r = STORES.get(sid)
    if r is None:
        raise Unsupported('unknown store %s' % sid)
    return r




def store_in(v, sid):
    if isinstance(v, Arr) and v.store.sid == sid:
        return v.store
    if isinstance(v, TupleV):
        for x in v.items:
            r = store_in(x, sid)
            if r is not None:
                return r
    return None


import os
DEBUG = os.environ.get('CPV_DEBUG_LOOPS')

# ---- closed forms ------------------------------------------------------------------------------------------

def solve(eng, L):
    i = L.i
    order = list(L.syms.values())
    progress = True
    while progress:
        progress = False
        for sy in order:
            if sy.closed is None and try_solve(eng, L, sy):
                progress = True
        if not progress:
            rest = [sy for sy in order if sy.closed is None]
            if not rest:
                break
            # a general recurrence on a single scalar becomes a fold
            for sy in rest:
                if sy.kind == 'scalar' and isinstance(sy.post, T) and not L.par:
                    p = L.at(sy.post, i)
                    if (p._fv & L.unsolved_vars()) <= {sy.sym} and not (p._ufs & L.unsolved_ufs()):
                        f = lam([i, sy.sym], p)
                        init = sy.init
                        lo = L.lo
                        sy.closed = lambda n, f=f, init=init, lo=lo: t.mk('fold', (lo, n, init, f), init.sort)
                        progress = True
                        break
            if progress:
                continue
            # give up on one: arrays (scratch) first
            pick = next((sy for sy in rest if sy.kind == 'store'), None) or next((sy for sy in rest if sy.kind == 'avar'), None) or rest[0]
            if DEBUG:
                print('GIVE UP', pick.name, 'unsolved', [x.name for x in rest], 'loop line', getattr(L, 'line', None))
                js = [fresh('j', 'I') for _ in pick.store.dims] if pick.kind == 'store' else []
                print('   post', t.show(t.app(pick.post, js))[:3000] if js else t.show(pick.post)[:3000])
            havoc(L, pick)
            progress = True


def havoc(L, sy):
    sy.havoc = True
    nm = t.fresh_name('hv_' + sy.name)
    lo = L.lo
    if sy.kind == 'scalar':
        sort = sy.sym.sort
        init = sy.init if isinstance(sy.init, T) else uf(t.fresh_name('undef'), (), sort)
        sy.closed = lambda n: ite(le(n, lo), init, uf(nm, (n,), sort))
    elif sy.kind == 'store':
        init = sy.init
        sort = sy.sorts
        sy.closed = lambda n, js: ite(le(n, lo), app(init, list(js)), uf(nm, (n,) + tuple(js), sort))
    else:
        sort = sy.sorts
        sy.closed = lambda n, js: uf(nm, (n,) + tuple(js), sort)


def try_solve(eng, L, sy):
    i, lo = L.i, L.lo
    if sy.kind == 'scalar':
        if not isinstance(sy.post, T):
            return False
        p = L.at(sy.post, i)
        if p.sort != sy.sym.sort:
            if p.sort == 'R' and sy.sym.sort == 'I':
                return False
            if p.sort == 'S' or sy.sym.sort == 'S':
                return False
            p = eng.coerce(p, sy.sym.sort)
        init = sy.init
        if L.par and sy.key[0] == 'var' and len(sy.key) == 2:
            # private variable of a parallel loop: its value at the start of an iteration is arbitrary
            if L.free_of_unsolved(p) and sy.sym not in p._fv:
                nm = t.fresh_name('priv_' + sy.name)
                sort = sy.sym.sort
                sy.havoc = True
                sy.closed = lambda n: uf(nm, (n,), sort)
                return True
            return False
        if p is sy.sym:
            sy.closed = lambda n: init
            return True
        if sy.sym.sort in ('I', 'R'):
            d = delta(p, sy.sym, None)
            if d is not None and sy.sym not in d._fv and L.free_of_unsolved(d):
                if lo is ZERO_I and isinstance(L.node, ast.While) and d.op == 'num':
                    sy.closed = lambda n: add(init, mul(n, d) if n.sort == d.sort else mul(to_real(n), d))     # n is never negative
                    return True
                f = lam([i], t.replace(d, certain(L, lo, i)))
                sy.closed = lambda n: add(init, sum_(lo, n, f))
                return True
        if sy.sym not in p._fv and L.free_of_unsolved(p):
            sy.closed = lambda n: ite(le(n, lo), init, subst(p, {i: sub(n, ONE_I)}))
            return True
        return False
    if sy.kind == 'store':
        return solve_store(eng, L, sy)
    if sy.kind == 'avar':
        return solve_avar(eng, L, sy)
    return False


def own_axis(L, guard, js):
    """axis a and offset with guard => js[a] == i + off"""
    i = L.i
    ds = disjuncts(guard)
    cands = None
    for d in ds:
        here = set()
        for a in d:
            if a.op == 'eq':
                p = a.args[0]
                args = p.args if p.op == 'add' else (p,)
                for k, j in enumerate(js):
                    cj = [t._coef(x)[0] for x in args if t._coef(x)[1] is j]
                    ci = [t._coef(x)[0] for x in args if t._coef(x)[1] is i]
                    if len(cj) == 1 and len(ci) == 1 and cj[0] == -ci[0] and abs(cj[0]) == 1:
                        # cj*j + ci*i + rest = 0  -> j = i - rest/cj
                        rest = sub(p, add(mul(num(cj[0], 'I'), j), mul(num(ci[0], 'I'), i)))
                        off = mul(num(-cj[0], 'I'), rest)
                        if not (off._fv & (set(js) | {i})):
                            here.add((k, off))
        cands = here if cands is None else cands & here
        if not cands:
            return None
    return sorted(cands, key=lambda x: x[0])[0] if cands else None


def uf_apps(term, name):
    return [x for x in t.subterms(term, True) if x.op == 'uf' and x.data == name]


def solve_store(eng, L, sy):
    i, lo = L.i, L.lo
    n_ax = len(sy.store.dims)
    js = [fresh('j', 'I') for _ in range(n_ax)]
    leaf = uf(sy.sym, js, sy.sorts)
    c = L.at(app(sy.post, js), i)
    init = sy.init
    if c is leaf:
        sy.closed = lambda n, a: app(init, list(a))
        return True
    guard = changed_guard(c, leaf)
    # own cell
    oa = own_axis(L, guard, js)
    if oa is not None:
        ax, off = oa
        ok = True
        cg = subst(c, {js[ax]: add(i, off)})
        for u in uf_apps(cg, sy.sym):
            if u.args[ax] is not add(i, off) and u.args[ax].op != 'num':
                # a fixed row may be read: the step obligation shows that it keeps its initial content
                ok = False
        if ok:
            # other unsolved symbols must not occur
            c2 = subst_uf(c, {sy.sym: lambda *a: app(init, list(a))})
            if not L.free_of_unsolved(c2):
                c2 = clean(eng, L, c2, js, sy.store.dims)
            if L.free_of_unsolved(c2):
                k = sub(js[ax], off)
                val = subst(c2, {i: k})
                ini = app(init, js)

                def closed(n, a, val=val, k=k, ini=ini):
                    body = ite(and_(le(lo, k), lt(k, n)), val, ini)
                    return subst(body, dict(zip(js, a)))
                sy.closed = closed
                return True
    if n_ax > 1:
        r = row_compaction(eng, L, sy, c, guard, js)
        if r:
            return True
    if L.par:
        return False
    # accumulation
    if sy.sorts in ('R', 'I'):
        d = delta(c, leaf, None, js)
        if d is not None and sy.sym not in d._ufs and L.free_of_unsolved(d):
            kk = fresh('k', 'I')
            dk = subst(d, {i: kk})

            def closed(n, a, dk=dk, kk=kk):
                ini = app(init, list(a))
                return push_add(ini, lo, n, kk, subst(dk, dict(zip(js, a))))
            sy.closed = closed
            return True
    # compaction
    if sy.sym not in [x for x in ()] and n_ax == 1:
        r = compaction(eng, L, sy, c, guard, js[0], leaf)
        if r:
            return True
    # region rewritten in every iteration
    if i not in guard._fv and L.free_of_unsolved(guard) and sy.sym not in guard._ufs:
        m = under(c, guard, leaf)
        if m is not None and sy.sym not in m._ufs and L.free_of_unsolved(m):
            def closed(n, a, m=m, guard=guard):
                mm = dict(zip(js, a))
                return ite(and_(lt(lo, n), subst(guard, mm)), subst(subst(m, {i: sub(n, ONE_I)}), mm), app(init, list(a)))
            sy.closed = closed
            return True
    return False


def clean(eng, L, c, js, dims):
    """c with the index conditions decided that follow from the ranges"""
    hyps = [z for y in L.st.hyps() for z in (y.args if y.op == 'and' else (y,))]
    hyps += [le(L.lo, L.i), lt(L.i, L.hi)]
    for j, d in zip(js, dims):
        hyps += [le(ZERO_I, j), lt(j, d)]
    inst = prover.instantiate([h for h in hyps if h.op == 'forall'], [c], 1, 100)
    return norm.ctx_simp(norm.context(hyps, inst), c)


def under(c, guard, leaf):
    """value of c under the changed guard (drop the unchanged leaves)"""
    if c.op == 'ite':
        if c.args[1] is leaf:
            return under(c.args[2], guard, leaf)
        if c.args[2] is leaf:
            return under(c.args[1], guard, leaf)
        a, b = under(c.args[1], guard, leaf), under(c.args[2], guard, leaf)
        if a is None or b is None:
            return None
        return ite(c.args[0], a, b)
    return None if c is leaf else c


def push_add(ini, lo, n, kk, body):
    """ini + sum over kk of body, with conditions independent of kk outermost"""
    if body.op == 'ite':
        c, a, b = body.args
        if kk not in c._fv:
            return ite(c, push_add(ini, lo, n, kk, a), push_add(ini, lo, n, kk, b))
        if c.op == 'and' and b.op == 'num' and b.data == 0:
            out = [x for x in c.args if kk not in x._fv]
            if out:
                inner = and_(*[x for x in c.args if kk in x._fv])
                return ite(and_(*out), push_add(ini, lo, n, kk, ite(inner, a, b)), ini)
    if body.op == 'num' and body.data == 0:
        return ini
    return add(ini, sum_(lo, n, lam([kk], body)))


def push_sum(lo, n, kk, body):
    """sum over kk, with conditions independent of kk moved outside"""
    if body.op == 'ite' and kk not in body.args[0]._fv:
        return ite(body.args[0], push_sum(lo, n, kk, body.args[1]), push_sum(lo, n, kk, body.args[2]))
    return sum_(lo, n, lam([kk], body))


def row_compaction(eng, L, sy, c, guard, js):
    """the iterations i with P(i) write row 0, 1, 2, ... in this order"""
    i, lo = L.i, L.lo
    sure = certain(L, lo, i)
    c = t.replace(c, sure)
    guard = t.replace(guard, sure)
    atoms = guard.args if guard.op == 'and' else (guard,)
    for ax, j in enumerate(js):
        pos, eqn, P = None, None, []
        for a in atoms:
            if a.op == 'eq' and j in a._fv:
                r = solve_for(a.args[0], [j])
                if r is not None and pos is None and not any(k in r[1]._fv for k in js):
                    pos, eqn = r[1], a
            elif not any(k in a._fv for k in js):
                P.append(a)
        if pos is None or not P:
            continue
        if any(u.args[ax] is not pos and u.args[ax] is not j for u in uf_apps(c, sy.sym)):
            continue
        Pt = and_(*P)
        step = normal_step(sub(subst(pos, {i: add(i, ONE_I)}), pos), i, lo, L)
        if not eng.prover.quick(L.st.hyps() + (le(lo, i), lt(i, L.hi)), eq(step, ite(Pt, ONE_I, ZERO_I))):
            continue
        val = t.replace(c, {a: TRUE for a in P + [eqn]})
        val = subst_uf(val, {sy.sym: lambda *a: app(sy.init, list(a))})
        if not L.free_of_unsolved(val) or not L.free_of_unsolved(Pt):
            continue
        Pl, g0 = lam([i], Pt), subst(pos, {i: lo})

        def closed(n, a, ax=ax):
            r = sub(a[ax], g0)
            k = t.filt(lo, r, Pl)
            v = subst(subst(val, {i: k}), dict(zip(js, a)))
            return ite(and_(le(ZERO_I, r), lt(r, t.count_of(lo, n, Pl))), v, app(sy.init, list(a)))
        sy.closed = closed
        sy.owner = (ax, pos, Pt)
        return True
    return False


def compaction(eng, L, sy, c, guard, j, leaf):
    i, lo = L.i, L.lo
    if c.op != 'ite':
        return False
    v = under(c, guard, leaf)
    if v is None or sy.sym in v._ufs or sy.sym in guard._ufs or not L.free_of_unsolved(guard) or not L.free_of_unsolved(v):
        return False
    atoms = guard.args if guard.op == 'and' else (guard,)
    pos = None
    P = []
    for a in atoms:
        if a.op == 'eq' and j in a._fv:
            r = solve_for(a.args[0], [j])
            if r is None or pos is not None:
                return False
            pos = r[1]
        elif j in a._fv:
            return False
        else:
            P.append(a)
    if pos is None:
        return False
    P = and_(*P)
    if j in v._fv:
        v = subst(v, {j: pos})
    Pl = lam([i], P)
    step = sub(subst(pos, {i: add(i, ONE_I)}), pos)
    step = normal_step(step, i, lo, L)
    if not eng.prover.quick(L.st.hyps() + (le(lo, i), lt(i, L.hi)), eq(step, ite(P, ONE_I, ZERO_I))):
        return False
    g0 = subst(pos, {i: lo})
    f = lam([i], v)
    cnt = lambda n: t.count_of(lo, n, Pl)

    def closed(n, a, g0=g0):
        r = sub(a[0], g0)
        return ite(and_(le(ZERO_I, r), lt(r, cnt(n))), app(f, [t.filt(lo, r, Pl)]), app(sy.init, list(a)))
    sy.closed = closed
    return True


def normal_step(term, i, lo, L):
    """sum(lo, e+1) -> sum(lo, e) + body(e) for e >= lo (assumed lo <= i)"""
    def go(x):
        if x.op == 'sum' and x.args[0] is lo:
            hi = x.args[1]
            e = sub(hi, ONE_I)
            if e is i:
                return add(sum_(lo, i, x.args[2]), app(x.args[2], [i]))
        if x.op in ('add', 'mul'):
            return t.rebuild(x, tuple(go(a) for a in x.args))
        return x
    return go(term)


def concat_form(eng, L, sy):
    a = sy.post
    if not isinstance(a, Arr):
        return None
    d = L.syms.get(sy.key + ('dim',))
    return a, d


def solve_avar(eng, L, sy):
    """array variable reassigned in the loop: unchanged, or grown at the end by concatenation"""
    i, lo = L.i, L.lo
    a, d = sy.post, L.syms.get(sy.key + ('dim',))
    if not isinstance(a, Arr) or a.ndim != len(sy.store.dims):
        havoc(L, sy)
        if d is not None and d.closed is None:
            havoc(L, d)
        return True
    js = [fresh('j', 'I') for _ in sy.store.dims]
    val = eng.read(L.end, a, js)
    if val.sort != sy.sorts:
        return False
    init = sy.init
    if d.closed is None:
        return False
    val = t.replace(L.at(val, i), certain(L, lo, i))
    pre_len = d.closed(i)
    step_len = growth(L, L.at(a.dims[0], i), pre_len, lo, i)
    # expected: ite(j < pre_len, S(js), X)
    leaf = uf(sy.sym, js, sy.sorts)
    if val is leaf:
        sy.closed = lambda n, b: app(init_content(eng, L, init), list(b))
        return True
    while val.op == 'ite' and leaf in val.args[1:] and not any(j in val.args[0]._fv for j in js):
        # grown in some iterations only
        c = not_(val.args[0]) if val.args[2] is leaf else val.args[0]
        if not eng.prover.quick(L.st.hyps() + (le(lo, i), c), eq(step_len, ZERO_I)):
            break
        val = val.args[1] if val.args[2] is leaf else val.args[2]
    if val.op == 'ite':
        g = val.args[0]
        inside, outside = (val.args[1], val.args[2])
        if inside is not leaf:
            inside, outside, g = outside, inside, not_(g)
        if inside is leaf and sy.sym not in outside._ufs and L.free_of_unsolved(outside):
            want = lt(js[0], pre_len)
            if g is want or eng.prover.quick(L.st.hyps() + (le(lo, i), le(ZERO_I, js[0])), t.iff(g, want)):
                n0 = init.dims[0]
                steps = lam([i], step_len)
                x = subst(outside, {js[0]: add(js[0], pre_len)})     # offset inside the new piece
                xf = lam([i] + js, x)
                ic = init_content(eng, L, init)

                def closed(n, b):
                    r = sub(b[0], n0)
                    sg = t.seg(lo, r, steps)
                    off = sub(r, sum_(lo, sg, steps))
                    return ite(lt(b[0], n0), app(ic, list(b)), app(xf, [sg, off] + list(b[1:])))
                sy.closed = closed
                return True
    if sy.sym not in val._ufs and L.free_of_unsolved(val):
        # replaced in every iteration
        ic = init_content(eng, L, init)

        def closed(n, b):
            return ite(le(n, lo), app(ic, list(b)), subst(subst(val, {i: sub(n, ONE_I)}), dict(zip(js, b))))
        sy.closed = closed
        return True
    return False


def certain(L, lo, i):
    """The conditions that hold in every iteration i."""
    sure = {le(lo, i): TRUE}
    if getattr(L, 'hi', None) is not None:
        sure[lt(i, L.hi)] = TRUE
    return sure


def growth(L, post, pre, lo, i):
    """post - pre of the i-th iteration, without the conditions that hold in every iteration."""
    def d(v):
        if v.op == 'ite':
            return ite(v.args[0], d(v.args[1]), d(v.args[2]))
        return sub(v, pre)
    return t.replace(d(post), certain(L, lo, i))


def init_content(eng, L, arr):
    return eng.content(L.st, arr)


# ---- obligations and final state ---------------------------------------------------------------------------

def finish_obligations(eng, L, body_obls, base_path):
    i, lo, hi, st = L.i, L.lo, L.hi, L.st
    e = L.end
    # obligations raised inside the body, now with the loop-carried symbols replaced by their closed forms
    for o in body_obls:
        g = L.at(o.goal, i)
        eng.obls.append(Obl(o.name, tuple(L.at(h, i) for h in o.hyps), g, o.func, o.line, o.kind))
    ran = st.hyps() + (le(lo, i), lt(i, hi))
    body_facts = tuple(L.at(f, i) for f in e.facts if f not in st.facts)
    hyps = ran + body_facts
    f = eng.funcstack[-1].key if eng.funcstack else ''
    line = getattr(L.node, 'lineno', 0)
    for sy in L.syms.values():
        if sy.havoc:
            continue
        if sy.kind == 'scalar':
            if not isinstance(sy.post, T):
                continue
            eng.obls.append(Obl('loop: %s before the first iteration' % sy.name, st.hyps(), eq(sy.closed(lo), sy.init), f, line, 'loop-init'))
            post = L.at(sy.post, i)
            if post.sort != sy.sym.sort:
                post = eng.coerce(post, sy.sym.sort)
            eng.obls.append(Obl('loop: %s preserved by an iteration' % sy.name, hyps, eq(post, sy.closed(add(i, ONE_I))), f, line, 'loop-step'))
        elif sy.kind == 'store':
            from .contract import index_cases
            for js, rng in index_cases(sy.store.dims):
                eng.obls.append(Obl('loop: %s before the first iteration' % sy.name, st.hyps() + rng,
                                    eq(sy.closed(lo, tuple(js)), app(sy.init, js)), f, line, 'loop-init'))
                eng.obls.append(Obl('loop: %s preserved by an iteration' % sy.name, hyps + rng,
                                    eq(L.at(app(sy.post, js), i), sy.closed(add(i, ONE_I), tuple(js))), f, line, 'loop-step'))
        elif sy.kind == 'avar':
            a = sy.post
            js = [fresh('j', 'I') for _ in sy.store.dims]
            d = L.syms[sy.key + ('dim',)]
            n1 = d.closed(add(i, ONE_I))
            dims = (n1,) + tuple(sy.store.dims[1:])
            rng = tuple(x for j, dd in zip(js, dims) for x in (le(ZERO_I, j), lt(j, dd)))
            eng.obls.append(Obl('loop: %s preserved by an iteration' % sy.name, hyps + rng,
                                eq(L.at(eng.read(e, a, js), i), sy.closed(add(i, ONE_I), tuple(js))), f, line, 'loop-step'))
    if L.par:
        par_obligations(eng, L, hyps)


def par_obligations(eng, L, hyps):
    """every array element a parallel iteration writes belongs to that iteration or to its thread"""
    i = L.i
    tid = uf('tid', (i,), 'I')
    f = eng.funcstack[-1].key if eng.funcstack else ''
    for sy in L.syms.values():
        if sy.kind != 'store':
            continue
        js = [fresh('j', 'I') for _ in sy.store.dims]
        leaf = uf(sy.sym, js, sy.sorts)
        g = changed_guard(app(sy.post, js), leaf)
        g = L.at(g, i)
        if g is FALSE:
            continue
        alts = []
        oa = own_axis(L, g, js)
        if oa is not None:
            alts.append(eq(js[oa[0]], add(i, oa[1])))
        for j in js:
            alts.append(eq(j, tid))
        if oa is None and getattr(sy, 'owner', None) is not None:
            # rows owned by the iterations of a filter: two of them never write the same row
            ax, pos, P = sy.owner
            k = fresh('i', 'I')
            both = (P, subst(P, {i: k}), lt(i, k), lt(k, L.hi))
            eng.obls.append(Obl('parallel loop: no two iterations write the same row of %s' % sy.name, hyps + both, not_(eq(pos, subst(pos, {i: k}))), f,
                                getattr(L.node, 'lineno', 0), 'parallel'))
            alts.append(eq(js[ax], pos))
        rng = tuple(x for j, d in zip(js, sy.store.dims) for x in (le(ZERO_I, j), lt(j, d)))
        eng.obls.append(Obl('parallel loop: %s is written only in rows owned by the iteration or its thread' % sy.name,
                            hyps + rng + (g,), or_(*alts), f, getattr(L.node, 'lineno', 0), 'parallel'))


def while_bound(eng, L, wc):
    c = L.at(wc, L.i)
    i = L.i
    if c.op in ('le',) and c.args[0].sort == 'I':
        p = c.args[0]
        args = p.args if p.op == 'add' else (p,)
        ci = [t._coef(x)[0] for x in args if t._coef(x)[1] is i]
        if ci == [1]:
            rest = sub(p, i)
            if i not in rest._fv:
                # continue while i + rest <= 0
                n = sub(ONE_I, rest)
                return ite(le(n, ZERO_I), ZERO_I, n) if not eng.entails(L.st, le(ZERO_I, n)) else n
    raise Unsupported('while loop without a counting condition')


def after_loop(eng, L, e, raised, base_path, modvars, modstores, modobjs, modglobs):
    st, i, hi, lo = L.st, L.i, L.hi, L.lo
    # exceptions inside the body
    for path, exc, rs in raised:
        extra = [f for f in path if f not in base_path]
        c = and_(*[L.at(f, i) for f in extra])
        if L.__dict__.get('hiK') is not None:
            c = subst(c, {L.hiK: hi})
        c = eng.decide_in(st, c, (le(lo, i), lt(i, hi))) if hasattr(eng, 'decide_in') else c
        if c is FALSE:
            continue
        ex = not_(t.forall([i], or_(not_(and_(le(lo, i), lt(i, hi))), not_(c))))
        if i not in c._fv:
            ex = and_(lt(lo, hi), c)
        eng.raise_if(st, ex, exc, L.node)
    fin = st
    lastm = {}
    n = hi

    def final(v):
        if isinstance(v, T):
            w = L.at(v, i)
            if not L.free_of_unsolved(w):
                return None
            return subst(w, {i: sub(n, ONE_I)})
        return None
    for sy in L.syms.values():
        if sy.kind == 'store':
            js = [fresh('j', 'I') for _ in sy.store.dims]
            fin.heap[sy.key[1]] = lam(js, sy.closed(n, tuple(js)))
    done = set()
    for name in sorted(modvars):
        if name in done:
            continue
        key = ('var', name)
        had = name in st.vars
        if key in L.syms and L.syms[key].kind == 'scalar':
            sy = L.syms[key]
            if isinstance(sy.post, T):
                if L.par or sy.havoc:
                    v = final(sy.post)
                    v = ite(lt(lo, n), v, sy.init) if v is not None and v.sort == sy.init.sort else sy.closed(n)
                else:
                    v = sy.closed(n)
                fin.vars[name] = v
            else:
                fin.vars[name] = Undef('%s after the loop' % name)
        elif key in L.syms and L.syms[key].kind == 'avar':
            sy = L.syms[key]
            d = L.syms[key + ('dim',)]
            if not isinstance(sy.post, Arr) or sy.post.ndim != len(sy.store.dims):
                fin.vars[name] = Undef('%s after the loop' % name)
                continue
            dims = (d.closed(n),) + tuple(sy.store.dims[1:])
            store = Store(name, dims, sy.sorts)
            js = [fresh('j', 'I') for _ in dims]
            fin.heap[store.sid] = lam(js, sy.closed(n, tuple(js)))
            a = Arr(store, islist=sy.post.islist)
            fin.vars[name] = eng.as_mv(a) if sy.post.mv else a
        elif name in e.vars and is_scalar(e.vars[name]) and not had:
            v = final(e.vars[name])
            if v is None or not eng.entails(st, lt(lo, hi)):
                fin.vars[name] = Undef('%s is set only if the loop runs' % name) if v is None else maybe(eng, v, lo, hi)
            else:
                fin.vars[name] = v
        elif had and isinstance(st.vars[name], TupleV):
            v = rebuild_tuple(L, key, st.vars[name], n)
            fin.vars[name] = v if v is not None else Undef('%s after the loop' % name)
            g = e.vars.get(name)
            if isinstance(g, Opaque) and g.tag == 'genlist':
                fin.vars[name] = st.vars[name]
        elif had and name in e.vars and same_value(e.vars[name], st.vars[name]):
            pass
        else:
            fin.vars[name] = Undef('%s after the loop' % name)
    for k in modobjs:
        key = ('obj', k)
        sy = L.syms.get(key)
        if sy is not None and sy.kind == 'scalar' and isinstance(sy.post, T):
            fin.objs[k] = sy.closed(n)
        else:
            fin.objs[k] = Undef('attribute %s after the loop' % (k,))
    for k in modglobs:
        sy = L.syms.get(('glob', k))
        if sy is not None and sy.kind == 'scalar' and isinstance(sy.post, T):
            fin.globals[k] = sy.closed(n)
        else:
            fin.globals[k] = Undef('global %s after the loop' % (k,))
    return [Outcome('next', fin)]


def maybe(eng, v, lo, hi):
    return ite(lt(lo, hi), v, uf(t.fresh_name('unset'), (), v.sort))


def rebuild_tuple(L, key, v, n):
    items = []
    for k, x in enumerate(v.items):
        sy = L.syms.get(key + (k,))
        if sy is None or sy.kind != 'scalar' or not isinstance(sy.post, T):
            return None
        items.append(sy.closed(n))
    return TupleV(items, v.kind)


# ---- while -------------------------------------------------------------------------------------------------

def exec_while(eng, s, st):
    f = eng.funcstack[-1] if eng.funcstack else None
    c = eng.contracts.get(f.key) if f is not None else None
    hook = eng.loop_hook(f, s) if hasattr(eng, 'loop_hook') else None
    if hook is not None:
        return hook(eng, s, st)
    if s.orelse:
        raise Unsupported('while-else')
    # concrete unrolling
    trial = 0
    cond = eng.truth(st, eng.eval(s.test, st))
    d = eng.decide(st, cond)
    if d is FALSE:
        return [Outcome('next', st)]
    if d is TRUE and FALSE is not d:
        snap, nobl = st.copy(), len(eng.obls)
        try:
            return unroll_while(eng, s, st)
        except GiveUp:
            del eng.obls[nobl:]
            st.take(snap)
    sim = eng.sim
    if sim is None:
        return summarise(eng, st, ZERO_I, None, None, s, False, while_cond=s.test)
    snap, nobl = st.copy(), len(eng.obls)
    try:
        return summarise(eng, st, ZERO_I, None, None, s, False, while_cond=s.test)
    except Unsupported as e:
        del eng.obls[nobl:]
        st.take(snap)
        if st.phase is not None:
            raise
        why = str(e)
    try:
        return simulate(eng, s, st, sim)
    except Unsupported as e:
        e.args = ('%s (no closed form: %s)' % (e.args[0], why[:200]),)
        raise


# ---- loops compared with a recursive specification -----------------------------------------------------------

class Sigma:
    """state of the specified recursion after `it` (>= 1) iterations: the values of the folded functions"""
    def __init__(self, it, val):
        self.it, self.val = it, val


def fold_atoms(eng, end, heads):
    """arguments (without the leading index arguments) shared by all applications of the folded functions"""
    seen = None
    roots = [v for v in end.vars.values() if isinstance(v, T)] + list(end.heap.values())
    for r in roots:
        for x in t.subterms(r, True):
            if x.op == 'opq' and x.data in heads:
                k = x.args[heads[x.data]:]
                if seen is not None and seen != k:
                    raise Unsupported('several different applications of %s' % sorted(heads))
                seen = k
    return seen


def simulate(eng, s, st, sim):
    """The loop is compared with the recursion sim.unfold: the strongest description of the state after an iteration
    (all loop-carried values as functions of the folded results of that iteration, counters in closed form, anything
    else arbitrary) is computed by executing the body once from an arbitrary state."""
    if s.orelse:
        raise Unsupported('while-else')
    modvars = {v for v in assigned_names(s.body) if v in st.vars}
    modstores, modobjs, modglobs = {}, set(), set()
    heads = sim.heads
    nobl = len(eng.obls)
    tag = eng.funcstack[-1].key if eng.funcstack else ''
    line = getattr(s, 'lineno', 0)

    def once(g, leave=True):
        """guard and body; returns (exit outcomes, other outcomes, end state or None)"""
        c = eng.truth(g, eng.eval(s.test, g))
        c = eng.decide(g, c)
        exits, outs, ends = [], [], []
        if c is not TRUE and leave:
            x = g.copy()
            x.branch(not_(c))
            exits.append(Outcome('next', x))
        if c is FALSE and leave:
            return exits, outs, None
        g.branch(c)
        base = g.path
        for o in eng.exec_block(s.body, g):
            if o.kind in ('next', 'continue'):
                ends.append(Outcome('next', o.st))
            elif o.kind == 'break':
                exits.append(Outcome('next', o.st))
            else:
                outs.append(o)
        if not ends:
            return exits, outs, None
        return exits, outs, (eng.merge_outcomes(ends, base).st if len(ends) > 1 else ends[0].st)

    # the body from an arbitrary state
    keep = {v for v in modvars if isinstance(st.vars[v], Arr)}
    modvars -= keep
    for attempt in range(12):
        L = Loop(eng, st, ZERO_I, None, s, False)
        g = st.copy()
        g.raised = []
        make_generic(eng, L, g, sorted(modvars), modstores)
        heap0 = dict(g.heap)
        objs0, globs0 = dict(g.objs), dict(g.globals)
        facts0 = g.facts
        eng.iters.append(fresh('it', 'I'))
        eng.marks.append(Seq.n)
        try:
            exits, outs, e = once(g)
        finally:
            eng.iters.pop()
            eng.marks.pop()
            del eng.obls[nobl:]
        if e is None:
            raise Unsupported('loop body never completes')
        for k in st.objs:
            if not same_value(e.objs.get(k), objs0.get(k)):
                raise Unsupported('attribute changed in a loop')
        for k in st.globals:
            if not same_value(e.globals.get(k), globs0.get(k)):
                raise Unsupported('module variable changed in a loop')
        new = [sid for sid in st.heap if sid in e.heap and e.heap[sid] is not heap0[sid] and sid not in modstores]
        lost = {v for v in keep if not same_value(e.vars.get(v), st.vars[v])}
        keep -= lost
        modvars |= lost
        if not new and not lost:
            break
        for sid in new:
            modstores[sid] = find_store(eng, st, g, e, sid)
    else:
        raise Unsupported('loop analysis did not stabilise')
    key = fold_atoms(eng, e, heads)
    if key is None:
        raise Unsupported('no application of %s in the loop' % sorted(heads))
    it = fresh('it', 'I')
    names = {h: t.fresh_name('sig_' + h.strip('#')) for h in heads}
    sort = {h: 'R' for h in heads}

    def fold(x):
        return t.map_opq(x, lambda n, args: uf(names[n], args[:heads[n]], 'R') if n in heads and args[heads[n]:] == key else None)
    # counters
    smap, umap = {}, {}
    closed = {}
    for sy in L.syms.values():
        if sy.kind == 'scalar' and sy.key[0] == 'var' and len(sy.key) == 2:
            p = e.vars.get(sy.key[1])
            if isinstance(p, T) and p.sort == 'I' and sy.sym.sort == 'I':
                d = delta(p, sy.sym, None)
                if d is not None and d.op == 'num':
                    smap[sy.sym] = add(sy.init, mul(d, sub(it, ONE_I)))
                    closed[sy.key[1]] = add(sy.init, mul(d, it))
                    continue
        if sy.kind == 'scalar':
            smap[sy.sym] = fresh('w_' + sy.name, sy.sym.sort)
        else:
            nm = t.fresh_name('w_' + sy.name)
            umap[sy.sym] = (lambda *a, nm=nm, so=sy.sorts: uf(nm, a, so))

    def fam(x):
        x = fold(x)
        if smap:
            x = subst(x, smap)
        return subst_uf(x, umap) if umap else x
    f = st.copy()
    for name in modvars:
        v = e.vars.get(name)
        if isinstance(v, T):
            f.vars[name] = closed[name] if name in closed else fam(v)
        elif v is not None and same_value(v, st.vars[name]):
            pass
        elif isinstance(v, Arr) and v.store.sid in st.heap:
            f.vars[name] = v
        else:
            f.vars[name] = Undef('%s carried through the loop' % name)
    for sid in modstores:
        f.heap[sid] = fam(e.heap[sid])
    for x in e.facts:
        if x not in facts0:
            f.assume(fam(x))
    f.assume(le(ONE_I, it))
    sigma = Sigma(it, lambda h, *ix: uf(names[h], tuple(t.lift(k, 'I') for k in ix), 'R'))
    f.phase = sigma

    def close(e, want, nxt):
        """after an iteration: the loop ends, or the recursion continues with the folded results of this iteration"""
        c = eng.truth(e, eng.eval(s.test, e))
        exits = []
        x = e.copy()
        x.branch(not_(c))
        exits.append(Outcome('next', x))
        k = fold_atoms(eng, e, heads)
        e.branch(c)
        if k is None:
            raise Unsupported('no application of %s in the loop' % sorted(heads))
        s2 = Sigma(nxt, lambda h, *ix: opq(h, tuple(t.lift(q, 'I') for q in ix) + tuple(k)))
        js = [fresh('j', 'I') for _ in sim.dims]
        rng = tuple(y for j, d in zip(js, sim.dims) for y in (le(ZERO_I, j), lt(j, d)))
        eng.obls.append(Obl('loop: the recursion of %s continues after an iteration' % sim.name, e.hyps() + rng,
                            eq(want(*js), sim.again(s2)(*js)), tag, line, 'loop-step'))
        eng.obls.append(Obl('loop: %s' % sim.limit_name, e.hyps(), le(nxt, sim.limit), tag, line, 'measure'))
        return exits
    res = []
    # first iteration
    eng.iters.append(ZERO_I)
    eng.marks.append(Seq.n)
    try:
        exits, outs, e1 = once(st.copy())
        res += exits + outs
        if e1 is not None:
            res += close(e1, sim.unfold(None), ONE_I)
        eng.iters[-1] = it
        # the guard holds here: it was evaluated at the end of the previous iteration
        exits, outs, e2 = once(f, False)
        res += exits + outs
        if e2 is not None:
            res += close(e2, sim.unfold(sigma), add(it, ONE_I))
    finally:
        eng.iters.pop()
        eng.marks.pop()
    return res


class GiveUp(Exception):
    pass


def unroll_while(eng, s, st):
    cur = st
    out = []
    exits = []
    for k in range(UNROLL * 2):
        c = eng.decide(cur, eng.truth(cur, eng.eval(s.test, cur)))
        if c is FALSE:
            exits.append(Outcome('next', cur))
            break
        if c is not TRUE:
            raise GiveUp()
        base = cur.path
        res = eng.exec_block(s.body, cur)
        nxt = []
        for o in res:
            if o.kind in ('next', 'continue'):
                nxt.append(Outcome('next', o.st))
            elif o.kind == 'break':
                exits.append(Outcome('next', o.st))
            else:
                out.append(o)
        if not nxt:
            break
        cur = eng.merge_outcomes(nxt, base).st if len(nxt) > 1 else nxt[0].st
    else:
        raise GiveUp()
    if exits:
        m = eng.merge_outcomes(exits, st_base(exits)) if len(exits) > 1 else exits[0]
        out.append(Outcome('next', m.st))
    return out


# ---- comprehensions ----------------------------------------------------------------------------------------

def list_comp(eng, e, st):
    if len(e.generators) != 1:
        raise Unsupported('nested comprehension')
    gen = e.generators[0]
    it = eng.eval(gen.iter, st)
    sp = iteration_space(eng, st, it, e)
    lo, hi, elem, par = sp
    saved = dict(st.vars)
    if lo != 'concrete' and const_int(lo) and const_int(hi) and hi.data - lo.data <= UNROLL:
        hi = [elem(st, num(k, 'I')) for k in range(int(lo.data), int(hi.data))]
        lo = 'concrete'
    if lo == 'concrete':
        items = []
        for v in hi:
            eng.assign(gen.target, v, st, e)
            keep = TRUE
            for c in gen.ifs:
                keep = and_(keep, eng.truth(st, eng.eval(c, st)))
            keep = eng.decide(st, keep)
            if keep is FALSE:
                continue
            if keep is not TRUE:
                raise Unsupported('conditional comprehension over a concrete list')
            items.append(eng.eval(e.elt, st))
        restore(st, saved)
        return TupleV(items, 'list')
    def run(g):
        P = TRUE
        for c in gen.ifs:
            P = and_(P, eng.truth(g, eng.eval(c, g)))
        if P is not TRUE:
            g.branch(P)
        return P, [eng.eval(e.elt, g)], g
    return generic_items(eng, st, lo, hi, lambda g, i: eng.assign(gen.target, elem(g, i), g, e), run, e)[0]


def generic_items(eng, st, lo, hi, bind, run, node):
    """lists of the values that a generic iteration contributes; iterations have no other effect"""
    i = fresh('c', 'I')
    saved = dict(st.vars)
    g = st.copy()
    g.raised = []
    g.path = g.path + (le(lo, i), lt(i, hi))
    base_path = g.path
    heap0, objs0, globs0 = dict(g.heap), dict(g.objs), dict(g.globals)
    raised = g.raised
    eng.iters.append(i)
    eng.marks.append(Seq.n)
    try:
        bind(g, i)
        P, vals, g = run(g)
    finally:
        eng.iters.pop()
        eng.marks.pop()
    for sid in heap0:
        if g.heap.get(sid) is not heap0[sid]:
            raise Unsupported('comprehension with side effects')
    if any(g.objs.get(k) is not v for k, v in objs0.items()) or any(g.globals.get(k) is not v for k, v in globs0.items()):
        raise Unsupported('comprehension with side effects')
    # facts established for a generic element
    for f in g.facts:
        if f not in st.facts:
            if i in f._fv:
                vs, b = t.open_lam(f.args[0]) if f.op == 'forall' else ([], f)
                st.assume(t.forall([i] + vs, or_(not_(and_(le(lo, i), lt(i, hi))), not_(P), b)))
            else:
                pass
    for path, exc, rs in raised:
        extra = [f for f in path if f not in base_path]
        c = and_(*extra)
        ex = not_(t.forall([i], or_(not_(and_(le(lo, i), lt(i, hi))), not_(c))))
        if i not in c._fv:
            ex = and_(lt(lo, hi), c)
        eng.raise_if(st, ex, exc, node)
    restore(st, saved)

    def at(k):
        j = add(lo, k) if P is TRUE else t.filt(lo, k, lam([i], P))
        return j
    n = sub(hi, lo) if P is TRUE else t.count_of(lo, hi, lam([i], P))
    if P is TRUE and not eng.entails(st, le(ZERO_I, n)):
        n = ite(le(n, ZERO_I), ZERO_I, n)
    return [gather(eng, st, g, v, i, at, n) for v in vals]


def appended(stmts):
    """{list name: appended exactly once on every way through the statements}, or None if they are of another form"""
    out = {}
    for x in stmts:
        if isinstance(x, ast.If):
            a, b = appended(x.body), appended(x.orelse)
            if a is None or b is None or set(a) != set(b):
                return None
            d = a
        elif isinstance(x, ast.Expr) and isinstance(x.value, ast.Call) and isinstance(x.value.func, ast.Attribute) and \
                x.value.func.attr == 'append' and isinstance(x.value.func.value, ast.Name) and len(x.value.args) == 1 and not x.value.keywords:
            d = {x.value.func.value.id: True}
        elif stacked(x):
            d = {stacked(x): x.value.func}
        elif isinstance(x, (ast.Assign, ast.AnnAssign, ast.AugAssign, ast.Expr, ast.Pass)):
            d = {}
        else:
            return None
        if set(d) & set(out):
            return None
        out.update(d)
    return out


def stacked(x):
    """the name A in A = f((A, item))"""
    if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name) and isinstance(x.value, ast.Call) and \
            len(x.value.args) == 1 and not x.value.keywords and isinstance(x.value.args[0], (ast.Tuple, ast.List)) and \
            len(x.value.args[0].elts) == 2 and isinstance(x.value.args[0].elts[0], ast.Name) and x.value.args[0].elts[0].id == x.targets[0].id:
        return x.targets[0].id


class AppendToAssign(ast.NodeTransformer):
    def __init__(self, names):
        self.names = names

    def visit_Assign(self, n):
        if stacked(n) in self.names:
            a = ast.Assign([ast.Name('__item_' + stacked(n), ast.Store())], n.value.args[0].elts[1])
            return ast.fix_missing_locations(ast.copy_location(a, n))
        return n

    def visit_Expr(self, n):
        v = n.value
        if isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and v.func.attr == 'append' and \
                isinstance(v.func.value, ast.Name) and v.func.value.id in self.names:
            a = ast.Assign([ast.Name('__item_' + v.func.value.id, ast.Store())], v.args[0])
            return ast.fix_missing_locations(ast.copy_location(a, n))
        return n


def append_loop(eng, s, st, lo, hi, bind):
    """a loop that does nothing but append to lists that are empty before it, as the comprehensions it amounts to; None if the
    loop is of another form"""
    import copy
    body, cond = s.body, None
    if isinstance(body[-1], ast.If) and not body[-1].orelse:
        cond = body[-1].test
        body = body[:-1] + body[-1].body
        pre = len(s.body) - 1
        if appended(s.body[:-1]) != {}:
            return None
    ap = appended(body)
    if not ap or s.orelse:
        return None
    for L in ap:
        v = st.vars.get(L)
        if ap[L] is not True:
            fn = eng.eval(ap[L], st) if isinstance(v, Arr) else None
            if not (isinstance(fn, ModV) and fn.dotted in ('numpy.hstack', 'numpy.concatenate', 'np.hstack', 'np.concatenate')):
                return None
            if v.ndim != 1 or v.dims[0] is not ZERO_I or v.dtype != 'R':
                return None
            if sum(1 for x in ast.walk(s) if isinstance(x, ast.Name) and x.id == L) != 2:
                return None
            continue
        if not (isinstance(v, TupleV) and v.kind == 'list' and not v.items) or (eng.marks and v.seq <= eng.marks[-1]):
            return None
        if sum(1 for x in st.vars.values() if x is v) != 1:
            return None
        if sum(1 for x in ast.walk(s) if isinstance(x, ast.Name) and x.id == L) != sum(
                1 for x in ast.walk(s) if isinstance(x, ast.Attribute) and x.attr == 'append' and isinstance(x.value, ast.Name) and x.value.id == L):
            return None
    own = assigned_names(body) | assigned_names([ast.Expr(value=s.target)])
    own -= set(ap)
    stmts = [AppendToAssign(set(ap)).visit(copy.deepcopy(x)) for x in body]
    names = sorted(ap)

    def bind2(g, i):
        for x in own:
            g.vars[x] = Undef('%s before it is set in an iteration' % x)
        bind(g, i)

    def block(ss, g):
        for x in ss:
            outs = eng.exec_block([x], g)
            if len(outs) != 1 or outs[0].kind != 'next':
                raise Unsupported('iteration that ends early')
            g = outs[0].st
        return g

    def run(g):
        P = TRUE
        if cond is not None:
            g = block(stmts[:pre], g)
            P = eng.truth(g, eng.eval(cond, g))
            g.branch(P)
            g = block(stmts[pre:], g)
        else:
            g = block(stmts, g)
        return P, [g.vars['__item_' + L] for L in names], g
    vals = generic_items(eng, st, lo, hi, bind2, run, s)
    for x in own:
        st.vars[x] = Undef('%s after the loop' % x)
    for L, v in zip(names, vals):
        if ap[L] is not True:
            if isinstance(v, Arr) and v.ndim == 1 or isinstance(v, Opaque) and v.tag == 'ragged' and v.dtype == 'R' and v.lens is not None:
                v = eng.np.f_np_hstack(st, [v], {}, s) if isinstance(v, Opaque) else v
            else:
                raise Unsupported('stacking of %r' % (v,))
        st.vars[L] = v
    return [Outcome('next', st)]


def gather(eng, st, g, v, i, at, n):
    if is_scalar(v):
        k = fresh('x', 'I')
        a = eng.new_store(st, 'list', (n,), v.sort, lam([k], subst(v, {i: at(k)})))
        a.islist = True
        return a
    if isinstance(v, Arr):
        k = fresh('x', 'I')
        vs = [fresh('x', 'I') for _ in v.dims]
        dims = [subst(d, {i: at(k)}) for d in v.dims]
        body = subst(eng.read(g, v, vs), {i: at(k)})
        if any(k in d._fv for d in dims):
            # ragged list of arrays
            return Opaque('ragged', n=n, i=i, elem=v, at=at, g=g, lens=lam([k], dims[0]) if len(dims) == 1 else None,
                          dimf=[lam([k], d) for d in dims], body=lam([k] + vs, body), dtype=v.dtype, islist=v.islist)
        a = eng.new_store(st, 'list', [n] + dims, v.dtype, lam([k] + vs, body))
        a.islist = True
        return a
    if isinstance(v, TupleV):
        cols = [gather(eng, st, g, x, i, at, n) for x in v.items]
        return Opaque('rows', n=n, cols=cols, kind=v.kind)
    raise Unsupported('comprehension of %r' % (v,))


def restore(st, saved):
    st.vars = saved

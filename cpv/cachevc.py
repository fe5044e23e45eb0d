"""Verification conditions for the cache of cosmic_profiles/common/caching.py.

The bodies of lru_cache, its decorating function and its wrappers are executed symbolically, statement by statement, from the
source of this run. The heap (list nodes with four fields), the dictionary and the shared variables are z3 terms; the cyclic
list is described by ghost functions at(i), pos(node). Every lock region is one step: it starts in any state that satisfies
the invariant (other threads, or a recursive call, may have run before) and has to end in one that satisfies it and is related
to the start as the contract says. There are no loops in this code, so nothing is bounded."""
import ast
import z3
from .frontend import Unsupported

KeyS, ResS = z3.DeclareSort('Key'), z3.DeclareSort('Res')
I, B = z3.IntSort(), z3.BoolSort()
NOKEY, NORES, SENT = z3.Const('None.key', KeyS), z3.Const('None.res', ResS), z3.Const('sentinel', ResS)
FR = z3.Function('result_of', KeyS, ResS)          # the value of the cached function for the arguments of a key
FIELDS = ('prev', 'next', 'key', 'res')


class Node:
    def __init__(self, t):
        self.t = t


class Key(Node):
    pass


class Res(Node):
    pass


class Int(Node):
    pass


class Bool(Node):
    pass


class Word:
    """a value that is only passed around: arguments, functions, modules, strings"""
    def __init__(self, w, env=None, fn=None):
        self.w, self.env, self.fn = w, env, fn

    def __repr__(self):
        return 'Word(%s)' % (self.w,)


NONE = Word('None')


class Tup:
    def __init__(self, xs):
        self.xs = xs


class Cell:
    """variables of one activation, shared by the closures made in it"""
    def __init__(self, up=None):
        self.v, self.up = {}, up


class St:
    def __init__(self):
        self.path = []
        self.heap = {}
        self.present = self.node = self.val = None
        self.count = self.top = None
        self.vars = {}           # (cell id, name) -> value
        self.held = 0
        self.touched = self.touched_dict = False
        self.phase = 0
        self.start = None        # the state at the start of the lock region

    def copy(self):
        s = St()
        s.__dict__.update(self.__dict__)
        s.path, s.heap, s.vars = list(self.path), dict(self.heap), dict(self.vars)
        return s


class Ret(Exception):
    pass


class Machine:
    def __init__(self, tree, mode, fresh_prefix=''):
        self.tree, self.mode = tree, mode
        self.glob = Cell()
        self.cells = [self.glob]
        self.n = 0
        self.obls = []
        self.locked = mode in 'AD'
        self.kind = 'res' if mode == 'C' else 'node'
        self.funcs = {x.name: x for x in tree.body if isinstance(x, ast.FunctionDef)}
        self.depth = 0

    # ---- state ----------------------------------------------------------------------------------------
    def fresh(self, name, sort):
        self.n += 1
        return z3.Const('%s!%d' % (name, self.n), sort)

    def new_state(self):
        s = St()
        s.heap = {'prev': self.fresh('prev', z3.ArraySort(I, I)), 'next': self.fresh('next', z3.ArraySort(I, I)),
                  'key': self.fresh('key', z3.ArraySort(I, KeyS)), 'res': self.fresh('res', z3.ArraySort(I, ResS))}
        s.present = z3.K(KeyS, z3.BoolVal(False))
        s.node = z3.K(KeyS, z3.IntVal(0))
        s.val = z3.K(KeyS, NORES)
        s.count, s.top = z3.IntVal(0), z3.IntVal(1)
        return s

    def get(self, st, cell, name, node):
        c = cell
        while c is not None:
            if name in c.v:
                k = (id(c), name)
                if k in st.vars:
                    return st.vars[k]
                self.claim(st, 'no variable is read before it is set (%s)' % name, z3.BoolVal(False), node)
                return Word('?')
            c = c.up
        if name in self.funcs:
            return Word('function', self.glob, self.funcs[name])
        return Word(name)

    def put(self, st, cell, name, v):
        c = cell
        while c is not None:
            if name in c.v:
                if c.v[name] == 'nonlocal':
                    c = c.up
                    continue
                st.vars[(id(c), name)] = v
                if c is self.shared and not getattr(self, 'building', False):
                    self.touch(st)
                return
            c = c.up
        raise Unsupported('assignment to %s' % name)

    def touch(self, st):
        st.touched = True
        if self.locked and not st.held:
            self.claim(st, 'the cache is changed only while its lock is held', z3.BoolVal(False), None)

    def claim(self, st, name, goal, node, kind='post'):
        self.obls.append((name, list(st.path), goal, getattr(node, 'lineno', 0) or self.line, kind))

    # ---- functions ------------------------------------------------------------------------------------
    def enter(self, st, fn, env, args, kwargs):
        """runs a function of the module; yields (state, value)"""
        if self.depth > 6:
            raise Unsupported('recursion in the cache')
        cell = Cell(env)
        self.cells.append(cell)
        a = fn.args
        names = [x.arg for x in a.args]
        for n, v in zip(names, args):
            cell.v[n] = 'local'
            st.vars[(id(cell), n)] = v
        for n, v in kwargs.items():
            cell.v[n] = 'local'
            st.vars[(id(cell), n)] = v
        for n, d in zip(names[::-1], a.defaults[::-1]):
            if n not in cell.v:
                cell.v[n] = 'local'
                st.vars[(id(cell), n)] = self.expr(st, env, d)
        if a.vararg:
            cell.v[a.vararg.arg] = 'local'
            st.vars[(id(cell), a.vararg.arg)] = Word('args')
        if a.kwarg:
            cell.v[a.kwarg.arg] = 'local'
            st.vars[(id(cell), a.kwarg.arg)] = Word('kwds')
        nonlocal_ = set()
        own = set()

        def scan(stmts):
            for s in stmts:
                for x in ast.walk(s) if not isinstance(s, ast.FunctionDef) else ():
                    if isinstance(x, ast.Nonlocal):
                        nonlocal_.update(x.names)
                    elif isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                        own.add(x.id)
                    elif isinstance(x, ast.FunctionDef):
                        own.add(x.name)
                if isinstance(s, ast.FunctionDef):
                    own.add(s.name)
        flat = []

        def top(stmts):
            for s in stmts:
                if isinstance(s, (ast.If, ast.With)):
                    flat.extend(x for x in ast.iter_child_nodes(s) if isinstance(x, (ast.expr, ast.withitem)))
                    top(s.body)
                    top(getattr(s, 'orelse', []))
                else:
                    flat.append(s)
        top(fn.body)
        scan(flat)
        for n in own - nonlocal_:
            cell.v.setdefault(n, 'local')
        self.depth += 1
        try:
            outs = self.block(st, cell, fn.body)
        finally:
            self.depth -= 1
        return [(s, NONE if r is None else r) for s, r in outs], cell

    def block(self, st, cell, stmts):
        """[(state, returned value or None)]"""
        live, done = [st], []
        for s in stmts:
            nxt = []
            for x in live:
                for y, r in self.stmt(x, cell, s):
                    (done if r is not None else nxt).append((y, r) if r is not None else y)
            live = nxt
        return done + [(x, None) for x in live]

    def feasible(self, st, quantified=False):
        s = z3.Solver()
        s.set('timeout', 2000)
        for p in st.path:
            if quantified or not z3.is_quantifier(p):
                s.add(p)
        return s.check() != z3.unsat

    # ---- statements -----------------------------------------------------------------------------------
    def stmt(self, st, cell, s):
        self.line = getattr(s, 'lineno', 0)
        if isinstance(s, (ast.Pass, ast.Nonlocal, ast.Global, ast.Import, ast.ImportFrom)):
            return [(st, None)]
        if isinstance(s, ast.Expr):
            if isinstance(s.value, ast.Constant):
                return [(st, None)]
            return [(x, None) for x, _ in self.calls(st, cell, s.value)]
        if isinstance(s, ast.FunctionDef):
            self.put(st, cell, s.name, Word('function', cell, s))
            return [(st, None)]
        if isinstance(s, ast.Return):
            if s.value is None:
                return [(st, NONE)]
            return [(x, v) for x, v in self.calls(st, cell, s.value)]
        if isinstance(s, (ast.Assign, ast.AnnAssign)):
            out = []
            for x, v in self.calls(st, cell, s.value):
                for tg in (s.targets if isinstance(s, ast.Assign) else [s.target]):
                    self.assign(x, cell, tg, v)
                out.append((x, None))
            return out
        if isinstance(s, ast.AugAssign):
            v = self.expr(st, cell, ast.BinOp(ast.copy_location(self.load(s.target), s), s.op, s.value))
            self.assign(st, cell, s.target, v)
            return [(st, None)]
        if isinstance(s, ast.Delete):
            for tg in s.targets:
                if isinstance(tg, ast.Name):
                    continue
                c = self.expr(st, cell, tg.value)
                if not (isinstance(c, Word) and c.w == 'cache'):
                    raise Unsupported('del')
                self.remove(st, self.key(self.expr(st, cell, tg.slice)), s)
            return [(st, None)]
        if isinstance(s, ast.If):
            c = self.truth(self.expr(st, cell, s.test))
            out = []
            for cond, body in ((c, s.body), (z3.Not(c), s.orelse)):
                cond = z3.simplify(cond)
                if z3.is_false(cond):
                    continue
                x = st.copy()
                if not z3.is_true(cond):
                    x.path.append(cond)
                    if not self.feasible(x):
                        continue
                out.extend(self.block(x, cell, body))
            return out
        if isinstance(s, ast.With):
            v = self.expr(st, cell, s.items[0].context_expr)
            if len(s.items) != 1 or not (isinstance(v, Word) and v.w == 'lock'):
                raise Unsupported('with statement')
            if not st.held:
                self.acquire(st)
            st.held += 1
            out = []
            for x, r in self.block(st, cell, s.body):
                x.held -= 1
                if not x.held:
                    self.release(x, r, s)
                out.append((x, r))
            return out
        raise Unsupported(type(s).__name__)

    def load(self, tg):
        t = ast.parse(ast.unparse(tg), mode='eval').body
        return t

    def assign(self, st, cell, tg, v):
        if isinstance(tg, ast.Name):
            self.put(st, cell, tg.id, v)
        elif isinstance(tg, (ast.Tuple, ast.List)):
            xs = self.fields(st, v)
            if len(xs) != len(tg.elts):
                raise Unsupported('unpacking')
            for t, x in zip(tg.elts, xs):
                self.assign(st, cell, t, x)
        elif isinstance(tg, ast.Subscript):
            c = self.expr(st, cell, tg.value)
            if isinstance(tg.slice, ast.Slice) and isinstance(c, Node) and tg.slice.lower is tg.slice.upper is tg.slice.step is None:
                for f, x in zip(FIELDS, self.fields(st, v)):
                    self.set_field(st, c, f, x)
                return
            if isinstance(c, Word) and c.w == 'cache':
                self.insert(st, self.key(self.expr(st, cell, tg.slice)), v)
                return
            if isinstance(c, Node):
                self.set_field(st, c, self.field(self.expr(st, cell, tg.slice)), v)
                return
            raise Unsupported('assignment to an item')
        elif isinstance(tg, ast.Attribute):
            pass                                # attributes of the wrapper
        else:
            raise Unsupported('assignment')

    # ---- heap and dictionary --------------------------------------------------------------------------
    def field(self, v):
        if isinstance(v, Int):
            i = z3.simplify(v.t)
            if z3.is_int_value(i) and 0 <= i.as_long() < 4:
                return FIELDS[i.as_long()]
        raise Unsupported('field of a link')

    def set_field(self, st, n, f, v):
        if not isinstance(n, Node) or isinstance(n, (Key, Res, Int, Bool)):
            raise Unsupported('item of a value that is no link')
        if v is NONE:
            w = {'key': NOKEY, 'res': NORES}.get(f, z3.IntVal(0))
        else:
            want = {'key': Key, 'res': Res}.get(f, Node)
            if type(v) is not want:
                raise Unsupported('value stored in a link')
            w = v.t
        st.heap[f] = z3.Store(st.heap[f], n.t, w)
        if not getattr(self, 'building', False):
            self.touch(st)

    def fields(self, st, v):
        if isinstance(v, Tup):
            return v.xs
        if type(v) is Node:
            h = st.heap
            return [Node(h['prev'][v.t]), Node(h['next'][v.t]), Key(h['key'][v.t]), Res(h['res'][v.t])]
        raise Unsupported('unpacking')

    def alloc(self, st, xs):
        n = Node(st.top)
        st.top = z3.simplify(st.top + 1)
        b, self.building = getattr(self, 'building', False), True
        for f, x in zip(FIELDS, xs):
            self.set_field(st, n, f, x)
        self.building = b
        return n

    def key(self, v):
        if isinstance(v, Key):
            return v.t
        raise Unsupported('key of the dictionary')

    def insert(self, st, k, v):
        self.touch(st)
        st.touched_dict = True
        st.count = z3.If(st.present[k], st.count, st.count + 1)
        st.present = z3.Store(st.present, k, z3.BoolVal(True))
        if self.kind == 'node':
            if type(v) is not Node:
                raise Unsupported('value stored in the dictionary')
            st.node = z3.Store(st.node, k, v.t)
        else:
            if not isinstance(v, Res):
                raise Unsupported('value stored in the dictionary')
            st.val = z3.Store(st.val, k, v.t)

    def remove(self, st, k, node):
        self.touch(st)
        self.claim(st, 'a key that is deleted is in the dictionary', st.present[k], node, 'safety')
        st.count = st.count - 1
        st.present = z3.Store(st.present, k, z3.BoolVal(False))
        st.node = z3.Store(st.node, k, z3.IntVal(0))

    # ---- lock regions ---------------------------------------------------------------------------------
    def acquire(self, st):
        """other threads (or a recursive call of the cached function) may have run since"""
        self.any_state(st)
        st.phase += 1
        st.touched = False
        st.start = st.copy()

    def release(self, st, ret, node):
        self.step(st, ret, node)

    # ---- expressions ----------------------------------------------------------------------------------
    def truth(self, v):
        if isinstance(v, Bool):
            return v.t
        if isinstance(v, Int):
            return v.t != 0
        if v is NONE:
            return z3.BoolVal(False)
        if isinstance(v, Word):
            if v.w in ('kwds',):
                return self.kw
            if v.w == 'cache':
                raise Unsupported('truth of the dictionary')
            if v.w in ('object', 'function', 'lock'):
                return z3.BoolVal(True)
        raise Unsupported('truth value')

    def calls(self, st, cell, e):
        """evaluates e; a call of a function of the module may split the state"""
        if isinstance(e, ast.Call):
            f = self.expr(st, cell, e.func)
            if isinstance(f, Word) and f.w == 'function' and f.fn.name != '_make_key':
                args = [self.expr(st, cell, a) for a in e.args]
                kw = {k.arg: self.expr(st, cell, k.value) for k in e.keywords}
                if any(isinstance(a, ast.Starred) for a in e.args) or None in kw:
                    raise Unsupported('call of a function of the module with unpacked arguments')
                return self.enter(st, f.fn, f.env, args, kw)[0]
        return [(st, self.expr(st, cell, e))]

    def expr(self, st, cell, e):
        if isinstance(e, ast.Constant):
            if e.value is None:
                return NONE
            if isinstance(e.value, bool):
                return Bool(z3.BoolVal(e.value))
            if isinstance(e.value, int):
                return Int(z3.IntVal(e.value))
            return Word('constant')
        if isinstance(e, ast.Name):
            return self.get(st, cell, e.id, e)
        if isinstance(e, ast.Starred):
            return self.expr(st, cell, e.value)
        if isinstance(e, ast.Tuple):
            return Tup([self.expr(st, cell, x) for x in e.elts])
        if isinstance(e, ast.List):
            xs = [self.expr(st, cell, x) for x in e.elts]
            if not xs:
                return self.alloc(st, [])
            if len(xs) == 4:
                # a list literal on the right of a slice assignment is only copied: an unused node does no harm
                return self.alloc(st, xs)
            raise Unsupported('list')
        if isinstance(e, ast.Dict) and not e.keys:
            return Word('cache')
        if isinstance(e, ast.Attribute):
            v = self.expr(st, cell, e.value)
            if isinstance(v, Word):
                if v.w == 'cache':
                    return Word('cache.' + e.attr)
                if v.w in ('psutil', 'config', 'np', 'virtual_memory()'):
                    return Word(v.w + '.' + e.attr)
            raise Unsupported('attribute %s' % e.attr)
        if isinstance(e, ast.Subscript):
            v = self.expr(st, cell, e.value)
            if isinstance(v, Word) and v.w == 'cache':
                k = self.key(self.expr(st, cell, e.slice))
                self.claim(st, 'a key that is looked up is in the dictionary', st.present[k], e, 'safety')
                return Node(st.node[k]) if self.kind == 'node' else Res(st.val[k])
            f = self.field(self.expr(st, cell, e.slice))
            if type(v) is not Node:
                raise Unsupported('item')
            return {'key': Key, 'res': Res}.get(f, Node)(st.heap[f][v.t])
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return Bool(z3.Not(self.truth(self.expr(st, cell, e.operand))))
        if isinstance(e, ast.BoolOp):
            xs = [self.truth(self.expr(st, cell, x)) for x in e.values]
            return Bool(z3.And(*xs) if isinstance(e.op, ast.And) else z3.Or(*xs))
        if isinstance(e, ast.BinOp):
            a, b = self.expr(st, cell, e.left), self.expr(st, cell, e.right)
            if isinstance(a, Int) and isinstance(b, Int):
                return Int({ast.Add: lambda: a.t + b.t, ast.Sub: lambda: a.t - b.t, ast.Mult: lambda: a.t * b.t}[type(e.op)]())
            raise Unsupported('arithmetic')
        if isinstance(e, ast.Compare) and len(e.ops) == 1:
            return Bool(self.compare(st, cell, e))
        if isinstance(e, ast.Call):
            return self.builtin(st, cell, e)
        if isinstance(e, ast.IfExp):
            c = self.truth(self.expr(st, cell, e.test))
            a, b = self.expr(st, cell, e.body), self.expr(st, cell, e.orelse)
            if type(a) is type(b) and isinstance(a, Node):
                return type(a)(z3.If(c, a.t, b.t))
        raise Unsupported('expression %s' % type(e).__name__)

    def compare(self, st, cell, e):
        op = type(e.ops[0])
        if op in (ast.In, ast.NotIn):
            k, c = self.expr(st, cell, e.left), self.expr(st, cell, e.comparators[0])
            if isinstance(c, Word) and c.w == 'cache':
                r = st.present[self.key(k)]
                return r if op is ast.In else z3.Not(r)
            raise Unsupported('membership')
        a, b = self.expr(st, cell, e.left), self.expr(st, cell, e.comparators[0])
        if op in (ast.Is, ast.IsNot, ast.Eq, ast.NotEq):
            if a is NONE:
                a, b = b, a
            if b is NONE:
                if type(a) is Node:
                    r = a.t == 0
                elif isinstance(a, Key):
                    r = a.t == NOKEY
                elif isinstance(a, Res):
                    r = a.t == NORES
                else:
                    r = z3.BoolVal(a is NONE)
            elif isinstance(a, Node) and isinstance(b, Node):
                if type(a) is type(b):
                    r = a.t == b.t
                else:
                    raise Unsupported('comparison')
            elif isinstance(a, Word) and isinstance(b, Word):
                r = z3.BoolVal(a is b)
            elif isinstance(a, Word) and a is NONE:
                r = z3.BoolVal(False)
            elif isinstance(a, Res) and isinstance(b, Word) and b.w == 'object':
                r = a.t == SENT
            elif a is NONE or b is NONE:
                r = z3.BoolVal(a is b)
            else:
                raise Unsupported('comparison')
            return r if op in (ast.Is, ast.Eq) else z3.Not(r)
        if isinstance(a, Word) and a.w.endswith('.available') and isinstance(b, Int) or isinstance(b, Word) and b.w.endswith('.available'):
            return self.fresh('memory_is_low', B)
        if isinstance(a, Int) and isinstance(b, Int):
            return {ast.Lt: a.t < b.t, ast.LtE: a.t <= b.t, ast.Gt: a.t > b.t, ast.GtE: a.t >= b.t}[op]
        raise Unsupported('comparison')

    def builtin(self, st, cell, e):
        f = self.expr(st, cell, e.func)
        args = [self.expr(st, cell, a) for a in e.args]
        kws = [self.expr(st, cell, k.value) for k in e.keywords]
        if isinstance(f, Word):
            w = f.w
            if w == 'function' and f.fn.name == '_make_key':
                if [getattr(a, 'w', None) for a in args[:2]] != ['args', 'kwds'] or len(args) + len(kws) > 3:
                    raise Unsupported('key made of something else than the arguments')
                return Key(self.argkey)
            if w == 'function':
                r = self.enter(st, f.fn, f.env, args, {k.arg: v for k, v in zip(e.keywords, kws)})[0]
                if len(r) == 1 and r[0][0] is st:
                    return r[0][1]
                raise Unsupported('branching call inside an expression')
            if w == 'user_function':
                if [getattr(a, 'w', None) for a in args + kws] != ['args', 'kwds'] or not isinstance(e.args[0], ast.Starred) or e.keywords[0].arg is not None:
                    raise Unsupported('the cached function is called with something else than the arguments')
                if st.held:
                    raise Unsupported('the cached function is called while the lock is held')
                if not self.locked:
                    self.any_state(st)
                return Res(FR(self.argkey))
            if w == 'cache.get':
                k = self.key(args[0])
                if self.kind == 'node':
                    if len(args) > 1 and args[1] is not NONE:
                        raise Unsupported('default of a lookup')
                    return Node(z3.If(st.present[k], st.node[k], 0))
                d = SENT if len(args) > 1 and isinstance(args[1], Word) and args[1].w == 'object' else NORES
                return Res(z3.If(st.present[k], st.val[k], d))
            if w == 'cache.clear':
                self.touch(st)
                st.present, st.node, st.val = z3.K(KeyS, z3.BoolVal(False)), z3.K(KeyS, z3.IntVal(0)), z3.K(KeyS, NORES)
                st.count = z3.IntVal(0)
                return NONE
            if w == 'cache.pop':
                k = self.key(args[0])
                v = Node(st.node[k]) if self.kind == 'node' else Res(st.val[k])
                self.remove(st, k, e)
                return v
            if w == 'len' and isinstance(args[0], Word) and args[0].w == 'cache' or w == 'cache.__len__':
                return Int(st.count)
            if w == 'object':
                return Word('object')
            if w == 'RLock':
                return Word('lock')
            if w == 'psutil.virtual_memory':
                return Word('virtual_memory()')
            if w == '_CacheInfo':
                return Tup(args)
            if w in ('update_wrapper', 'wraps'):
                return args[0]
        raise Unsupported('call of %s' % ast.unparse(e.func)[:60])

    # ---- invariant and contract -----------------------------------------------------------------------
    def any_state(self, st):
        """any state that satisfies the invariant"""
        sh = self.shared
        st.heap = {'prev': self.fresh('prev', z3.ArraySort(I, I)), 'next': self.fresh('next', z3.ArraySort(I, I)),
                   'key': self.fresh('key', z3.ArraySort(I, KeyS)), 'res': self.fresh('res', z3.ArraySort(I, ResS))}
        st.present = self.fresh('present', z3.ArraySort(KeyS, B))
        st.node = self.fresh('node', z3.ArraySort(KeyS, I))
        st.val = self.fresh('val', z3.ArraySort(KeyS, ResS))
        st.count, st.top = self.fresh('count', I), self.fresh('top', I)
        for (c, n), v in list(st.vars.items()):
            if c == id(sh) and n in self.mutable:
                st.vars[(c, n)] = {Node: lambda: Node(self.fresh(n, I)), Int: lambda: Int(self.fresh(n, I)),
                                   Bool: lambda: Bool(self.fresh(n, B))}[type(v)]()
        at, pos = z3.Function('at!%d' % self.n, I, I), z3.Function('pos!%d' % self.n, I, I)
        st.ghost = (lambda i: at(i)), (lambda x: pos(x))
        st.path.extend(g for _, g in self.invariant(st, *st.ghost))

    def shared_var(self, st, name):
        return st.vars[(id(self.shared), name)].t

    def invariant(self, st, at, pos):
        i, k = z3.Int('i'), z3.Const('k', KeyS)
        n = st.count
        out = [('the number of entries is not negative', n >= 0)]
        if self.kind == 'res':
            out.append(('every entry holds the result for its key', z3.ForAll([k], z3.Implies(st.present[k], st.val[k] == FR(k)))))
            return out
        root = self.shared_var(st, 'root')
        h = st.heap
        inr = z3.And(0 <= i, i <= n)
        ent = z3.And(1 <= i, i <= n)
        nxt, prv = at(z3.If(i == n, 0, i + 1)), at(z3.If(i == 0, n, i - 1))
        out += [('the list starts at its root', at(0) == root),
                ('the links of the list are distinct', z3.ForAll([i], z3.Implies(inr, z3.And(pos(at(i)) == i, at(i) > 0, at(i) < st.top)))),
                ('the list is linked forwards', z3.ForAll([i], z3.Implies(inr, h['next'][at(i)] == nxt))),
                ('the list is linked backwards', z3.ForAll([i], z3.Implies(inr, h['prev'][at(i)] == prv))),
                ('every link is found under its key', z3.ForAll([i], z3.Implies(ent, z3.And(st.present[h['key'][at(i)]], st.node[h['key'][at(i)]] == at(i))))),
                ('every link holds the result for its key', z3.ForAll([i], z3.Implies(ent, h['res'][at(i)] == FR(h['key'][at(i)])))),
                ('every entry is a link of the list', z3.ForAll([k], z3.Implies(st.present[k], z3.And(
                    1 <= pos(st.node[k]), pos(st.node[k]) <= n, at(pos(st.node[k])) == st.node[k], h['key'][st.node[k]] == k)))),
                ('links are allocated', st.top >= 1)]
        full = self.shared_var(st, 'full')
        if self.mode == 'D':
            out.append(('the cache is full exactly when it holds maxsize entries', z3.And(full == (n >= self.maxsize), n <= self.maxsize)))
        else:
            out.append(('a full cache holds an entry', z3.Implies(full, n >= 1)))
        return out

    def step(self, st, ret, node, clear=False):
        """the state at the end of a lock region against the one at its start"""
        s0, k = st.start, self.argkey
        at, pos = s0.ghost
        n = s0.count
        sv = self.shared_var
        i = z3.Int('i')
        root = sv(st, 'root')
        h0, h = s0.heap, st.heap
        hits = sv(st, 'hits') - sv(s0, 'hits')
        misses = sv(st, 'misses') - sv(s0, 'misses')
        new = st.node[k]

        def claim(what, cond, at1, pos1, order, extra):
            x = st.copy()
            x.path.append(cond)
            if not self.feasible(x, True):
                return
            for nm, g in self.invariant(st, at1, pos1):
                self.claim(x, '%s: %s' % (what, nm), g, node, 'invariant')
            if order is not None:
                self.claim(x, '%s: order of the other entries' % what, order, node)
            for nm, g in extra:
                self.claim(x, '%s: %s' % (what, nm), g, node)

        def keys(lo, hi, shift):
            return z3.ForAll([i], z3.Implies(z3.And(lo <= i, i < hi), h['key'][(self.at1)(i)] == h0['key'][at(i + shift)]))
        if clear:
            z = lambda v: z3.IntVal(0)
            claim('cache_clear', z3.BoolVal(True), lambda v: root, z, None,
                  [('no entry is left', z3.And(st.count == 0, z3.ForAll([z3.Const('k', KeyS)], z3.Not(st.present[z3.Const('k', KeyS)])))),
                   ('the statistics start at zero', z3.And(sv(st, 'hits') == 0, sv(st, 'misses') == 0))])
            return
        was = s0.present[k]
        same = [('nothing is stored or dropped', z3.And(st.count == n, st.present == s0.present)),
                ('no entry is moved', z3.ForAll([i], z3.Implies(z3.And(1 <= i, i <= n), h['key'][at(i)] == h0['key'][at(i)])))]
        if st.phase == 1:
            p = pos(s0.node[k])
            a1 = self.at1 = lambda v: z3.If(v == 0, root, z3.If(v < p, at(v), z3.If(v < n, at(v + 1), new)))
            p1 = lambda x: z3.If(x == new, n, z3.If(x == root, 0, z3.If(pos(x) < p, pos(x), pos(x) - 1)))
            claim('hit', was, a1, p1, z3.And(keys(1, p, 0), keys(p, n, 1)),
                  [('the entry becomes the most recent one', h['key'][a1(n)] == k), ('no entry is stored or dropped', z3.And(st.count == n, st.present == s0.present)),
                   ('one more hit', z3.And(hits == 1, misses == 0)),
                   ('the result for the key is returned', ret.t == FR(k) if isinstance(ret, Res) else z3.BoolVal(False))])
            claim('lookup without success', z3.Not(was), at, pos, None,
                  same + [('the statistics are left alone', z3.And(hits == 0, misses == 0)),
                          ('nothing is returned before the function is called', z3.BoolVal(ret is None))])
            return
        claim('stored meanwhile', was, at, pos, None, same + [('one more miss', z3.And(hits == 0, misses == 1))])
        full = sv(s0, 'full')
        a1 = self.at1 = lambda v: z3.If(v == 0, root, z3.If(v < n, at(v + 1), new))
        p1 = lambda x: z3.If(x == new, n, z3.If(x == root, 0, pos(x) - 1))
        oldest = h0['key'][at(1)]
        claim('stored in a full cache', z3.And(z3.Not(was), full), a1, p1, keys(1, n, 1),
              [('the entry is the most recent one', h['key'][a1(n)] == k), ('one more miss', z3.And(hits == 0, misses == 1)),
               ('only the least recently used entry is dropped', z3.And(st.count == n, st.present == z3.Store(z3.Store(s0.present, oldest, False), k, True)))])
        a2 = self.at1 = lambda v: z3.If(v == 0, root, z3.If(v <= n, at(v), new))
        p2 = lambda x: z3.If(x == new, n + 1, z3.If(x == root, 0, pos(x)))
        claim('stored', z3.And(z3.Not(was), z3.Not(full)), a2, p2, keys(1, n + 1, 0),
              [('the entry is the most recent one', h['key'][a2(n + 1)] == k), ('one more miss', z3.And(hits == 0, misses == 1)),
               ('no entry is dropped', z3.And(st.count == n + 1, st.present == z3.Store(s0.present, k, True)))])

    # ---- the obligations of one mode ------------------------------------------------------------------
    def run(self):
        self.line = 0
        self.kw = self.fresh('has_keywords', B)
        self.argkey = z3.Const('key_of_the_arguments', KeyS)
        self.maxsize = z3.Const('maxsize', I)
        st = self.new_state()
        st.path.append(NOKEY != self.argkey)
        k = z3.Const('k', KeyS)
        st.path.append(z3.ForAll([k], FR(k) != SENT))
        mode = self.mode
        mx, mem = {'A': (NONE, Int(self.fresh('bytes', I))), 'B': (Int(z3.IntVal(0)), Bool(z3.BoolVal(False))),
                   'C': (NONE, Bool(z3.BoolVal(False))), 'D': (Int(self.maxsize), Bool(z3.BoolVal(False)))}[mode]
        if mode == 'A':
            st.path.append(mem.t > 0)
        if mode == 'D':
            st.path.append(self.maxsize > 0)
        self.shared = None
        self.building = True
        if 'lru_cache' not in self.funcs:
            raise Unsupported('lru_cache not found')
        outs, _ = self.enter(st, self.funcs['lru_cache'], self.glob, [mx, Bool(self.fresh('typed', B)), mem], {})
        if len(outs) != 1 or not (isinstance(outs[0][1], Word) and outs[0][1].w == 'function'):
            raise Unsupported('lru_cache does not return a decorator')
        st, deco = outs[0]
        outs, self.shared = self.enter(st, deco.fn, deco.env, [Word('user_function')], {})
        if len(outs) != 1 or not (isinstance(outs[0][1], Word) and outs[0][1].w == 'function'):
            raise Unsupported('the decorator does not return a wrapper')
        st, wrapper = outs[0]
        sh = self.shared
        for nm, typ in (('root', Node), ('hits', Int), ('misses', Int), ('full', Bool)):
            v = st.vars.get((id(sh), nm))
            if type(v) is not typ:
                raise Unsupported('shared variable %s' % nm)
        self.building = False
        self.mutable = ('root', 'hits', 'misses', 'full')
        self.claim(st, 'the statistics start at zero', z3.And(self.shared_var(st, 'hits') == 0, self.shared_var(st, 'misses') == 0), deco.fn)
        for nm, g in self.invariant(st, lambda i: self.shared_var(st, 'root'), lambda x: z3.IntVal(0)):
            self.claim(st, 'a new cache: ' + nm, g, deco.fn, 'invariant')
        base = st

        # cached call
        x = base.copy()
        if not self.locked:
            self.any_state(x)
        for y, r in self.enter(x, wrapper.fn, wrapper.env, [], {})[0]:
            self.claim(y, 'a cached call returns the result for its arguments', r.t == FR(self.argkey) if isinstance(r, Res) else z3.BoolVal(False), wrapper.fn)
            if y.held:
                self.claim(y, 'the lock is released', z3.BoolVal(False), wrapper.fn)
            if not self.locked:
                for nm, g in self.invariant(y, *y.ghost):
                    self.claim(y, 'after a call: ' + nm, g, wrapper.fn, 'invariant')
                if mode == 'B':
                    self.claim(y, 'nothing is cached', z3.BoolVal(not y.touched_dict), wrapper.fn)
        # clearing
        for nm in ('cache_clear', 'cache_info'):
            f = sh.v.get(nm) and base.vars.get((id(sh), nm))
            if not (isinstance(f, Word) and f.w == 'function'):
                raise Unsupported('%s not found' % nm)
            x = base.copy()
            step = self.step
            if nm == 'cache_clear':
                self.step = (lambda s, r, n: step(s, r, n, clear=True)) if self.locked else (lambda s, r, n: None)
            else:
                self.step = lambda s, r, n: self.claim(s, 'cache_info changes nothing', z3.BoolVal(not s.touched), n)
            for y, r in self.enter(x, f.fn, f.env, [], {})[0]:
                if nm == 'cache_info':
                    ok = isinstance(r, Tup) and len(r.xs) == 4 and all(isinstance(v, Int) for v in (r.xs[0], r.xs[1], r.xs[3]))
                    g = z3.And(r.xs[0].t == self.shared_var(y, 'hits'), r.xs[1].t == self.shared_var(y, 'misses'), r.xs[3].t == y.count) if ok else z3.BoolVal(False)
                    self.claim(y, 'cache_info reports hits, misses and the number of entries', g, f.fn)
                    self.claim(y, 'cache_info reports the size limit', (r.xs[2].t == self.maxsize if mode == 'D' and isinstance(r.xs[2], Int) else
                                                                        r.xs[2].t == 0 if mode == 'B' and isinstance(r.xs[2], Int) else
                                                                        z3.BoolVal(mode in 'AC' and r.xs[2] is NONE)) if ok else z3.BoolVal(False), f.fn)
                elif not self.locked:
                    self.claim(y, 'cache_clear: no entry is left', y.count == 0, f.fn)
            self.step = step
        return self.obls


def prove(path, goal, ms):
    s = z3.Solver()
    s.set('timeout', int(ms))
    for p in path:
        s.add(p)
    s.add(z3.Not(goal))
    return s.check()

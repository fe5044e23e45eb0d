"""Extraction: .pyx (through the real Cython parser) and .py sources become Python ast functions plus C types.

Dropped: docstrings, decorators, include/cimport lines (recorded as imports), printf/print of progress text.
"""
import ast
import os
import re
import hashlib

REPO = os.environ.get('CPV_REPO', '/repo')


class Unsupported(Exception):
    pass


SIZEOF = {'char': 1, 'short': 2, 'int': 4, 'bint': 4, 'float': 4, 'long': 8, 'double': 8, 'complex': 16, 'double complex': 16, 'float complex': 8}


class CType:
    """C type of a declared variable."""
    __slots__ = ('base', 'ndim', 'ptr')

    def __init__(self, base, ndim=0, ptr=0):
        self.base, self.ndim, self.ptr = base, ndim, ptr

    def __repr__(self):
        return '%s%s%s' % (self.base, '[%s]' % ','.join(':' * self.ndim) if self.ndim else '', '*' * self.ptr)


class Func:
    def __init__(self, module, qual, node, params, types, kind, rettype=None, defaults=None, lineno=0, vararg=None,
                 kwarg=None):
        self.module, self.qual, self.node = module, qual, node
        self.params = params          # names
        self.types = types            # name -> CType
        self.kind = kind              # 'def' | 'cdef'
        self.rettype = rettype
        self.defaults = defaults or {}
        self.lineno = lineno
        self.vararg, self.kwarg = vararg, kwarg
        self.decorators = []

    @property
    def name(self):
        return self.qual.split('.')[-1]

    @property
    def body(self):
        return self.node.body

    @property
    def key(self):
        return self.module.path + '::' + self.qual

    def __repr__(self):
        return '<Func %s>' % self.key


class Module:
    def __init__(self, path):
        self.path = path
        self.funcs = {}      # qual -> Func
        self.imports = {}    # local name -> dotted
        self.classes = {}    # name -> {'bases': [...], 'methods': [...]}
        self.globals = {}    # name -> ast expr
        self.is_pyx = path.endswith('.pyx')
        self._mutable = None

    def mutable(self):
        """names that some function of the module rebinds with a global statement"""
        if self._mutable is None:
            self._mutable = set()
            for f in self.funcs.values():
                for st in f.body:
                    for x in ast.walk(st):
                        if isinstance(x, ast.Global):
                            self._mutable.update(x.names)
        return self._mutable


_cache = {}


def dotted_to_path(dotted):
    return dotted.replace('.', '/')


def load(path):
    """path relative to the repository"""
    if path in _cache:
        return _cache[path]
    full = os.path.join(REPO, path)
    src = open(full).read()
    m = Module(path)
    m.sha = hashlib.sha256(src.encode()).hexdigest()
    if path.endswith('.pyx'):
        _load_pyx(m, src)
    else:
        _load_py(m, src)
    _cache[path] = m
    return m


def find_module(dotted):
    for suf in ('.pyx', '.py'):
        p = dotted_to_path(dotted) + suf
        if os.path.exists(os.path.join(REPO, p)):
            return load(p)
    return None


# ---- plain Python ---------------------------------------------------------------------------------------

def _strip_doc(body):
    if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) and isinstance(body[0].value.value, str):
        body = body[1:]
    return body or [ast.Pass()]


def _load_py(m, src):
    tree = ast.parse(src)
    for st in tree.body:
        _py_top(m, st, '')


def _own_nodes(body):
    """the nodes of a function's own body, without those of functions defined in it"""
    stack = list(body)
    while stack:
        x = stack.pop()
        yield x
        if not isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            stack.extend(ast.iter_child_nodes(x))


def _generator(body):
    """a generator function as the function that returns the list of what it yields (its consumers see the same items; that an
    item is only computed when it is asked for is dropped)"""
    ys = [x for x in _own_nodes(body) if isinstance(x, (ast.Yield, ast.YieldFrom))]
    if not ys:
        return body
    at = body[0]
    fix = lambda n, o: ast.fix_missing_locations(ast.copy_location(n, o))
    name = '__yielded'
    if isinstance(body[-1], ast.For) and not body[-1].orelse and len(body[-1].body) == 1 and len(ys) == 1 and \
            isinstance(body[-1].body[0], ast.Expr) and isinstance(body[-1].body[0].value, ast.Yield) and \
            not any(isinstance(x, ast.Return) for x in _own_nodes(body)):
        l = body[-1]
        comp = ast.ListComp(l.body[0].value.value, [ast.comprehension(l.target, l.iter, [], 0)])
        return body[:-1] + [fix(ast.Return(comp), l)]

    class Y(ast.NodeTransformer):
        def visit_FunctionDef(self, n):
            return n

        visit_Lambda = visit_ClassDef = visit_FunctionDef

        def visit_Expr(self, n):
            if isinstance(n.value, ast.Yield) and n.value.value is not None:
                return fix(ast.Expr(ast.Call(ast.Attribute(ast.Name(name, ast.Load()), 'append', ast.Load()), [n.value.value], [])), n)
            return n

        def visit_Return(self, n):
            return fix(ast.Return(ast.Name(name, ast.Load())), n)
    out = [Y().visit(x) for x in body]
    if any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in _own_nodes(out)):
        return body
    return [fix(ast.Assign([ast.Name(name, ast.Store())], ast.List([], ast.Load())), at)] + out + \
        [fix(ast.Return(ast.Name(name, ast.Load())), body[-1])]


def _py_func(m, st, prefix):
    a = st.args
    params = [x.arg for x in a.posonlyargs + a.args]
    defaults = {}
    for p, d in zip(params[len(params) - len(a.defaults):], a.defaults):
        defaults[p] = d
    for x, d in zip(a.kwonlyargs, a.kw_defaults):
        params.append(x.arg)
        if d is not None:
            defaults[x.arg] = d
    st.body = _generator(_strip_doc(st.body))
    f = Func(m, prefix + st.name, st, params, {}, 'def', defaults=defaults, lineno=st.lineno,
             vararg=a.vararg.arg if a.vararg else None, kwarg=a.kwarg.arg if a.kwarg else None)
    f.decorators = [ast.unparse(d) for d in st.decorator_list]
    st.cpv_func = f
    for s in ast.walk(st):
        if s is not st and isinstance(s, ast.FunctionDef) and not hasattr(s, 'cpv_func'):
            g = _py_func(m, s, prefix + st.name + '.')
            m.funcs[g.qual] = g
    return f


def _py_top(m, st, prefix):
    if isinstance(st, ast.FunctionDef):
        m.funcs[prefix + st.name] = _py_func(m, st, prefix)
    elif isinstance(st, ast.ClassDef):
        m.classes[st.name] = {'bases': [ast.unparse(b) for b in st.bases], 'methods': [], 'attrs': {}}
        for s in st.body:
            if isinstance(s, ast.FunctionDef):
                m.classes[st.name]['methods'].append(s.name)
                m.funcs[st.name + '.' + s.name] = _py_func(m, s, st.name + '.')
            elif isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
                m.globals[st.name + '.' + s.targets[0].id] = s.value
    elif isinstance(st, ast.Import):
        for al in st.names:
            m.imports[al.asname or al.name.split('.')[0]] = al.name if al.asname else al.name.split('.')[0]
    elif isinstance(st, ast.ImportFrom):
        for al in st.names:
            m.imports[al.asname or al.name] = (st.module or '') + '.' + al.name
    elif isinstance(st, ast.Assign):
        for t in st.targets:
            if isinstance(t, ast.Name):
                m.globals[t.id] = st.value
    elif isinstance(st, (ast.If, ast.Try)):
        for s in st.body:
            _py_top(m, s, prefix)


# ---- Cython ---------------------------------------------------------------------------------------------

def _load_pyx(m, src):
    from Cython.Compiler.TreeFragment import parse_from_strings
    src = re.sub(r'(?m)^(\s*)include\s+"[^"]*"\s*$', r'\1pass', src)
    m.imports['np'] = 'numpy'
    tree = parse_from_strings('m', src)
    Conv(m).module(tree)
    pxd = os.path.join(REPO, m.path[:-4] + '.pxd')
    if os.path.exists(pxd):
        cls = None
        for line in open(pxd):
            line = line.split('#')[0].rstrip()
            k = re.match(r'^(?:cdef\s+)?class\s+(\w+)', line)
            if k:
                cls = m.classes.get(k.group(1))
            elif line and not line[0].isspace():
                cls = None
            k = re.match(r'^\s+cdef\s+(\w+)\s*(\[[:,\s\d]*\])?\s*([\w,\s]+)$', line)
            if k and cls is not None:
                for nm in k.group(3).split(','):
                    cls['attrs'][nm.strip()] = CType(k.group(1), (k.group(2) or '').count(':') if k.group(2) else 0)


def N(node, pos):
    node.lineno = pos[1] if pos else 0
    node.col_offset = 0
    node.end_lineno = node.lineno
    node.end_col_offset = 0
    return node


_BIN = {'+': ast.Add, '-': ast.Sub, '*': ast.Mult, '/': ast.Div, '**': ast.Pow, '//': ast.FloorDiv, '%': ast.Mod,
        '&': ast.BitAnd, '|': ast.BitOr, '^': ast.BitXor, '<<': ast.LShift, '>>': ast.RShift, '@': ast.MatMult}
_CMP = {'<': ast.Lt, '<=': ast.LtE, '>': ast.Gt, '>=': ast.GtE, '==': ast.Eq, '!=': ast.NotEq, 'is': ast.Is,
        'is_not': ast.IsNot, 'in': ast.In, 'not_in': ast.NotIn, 'is not': ast.IsNot, 'not in': ast.NotIn}


class Conv:
    def __init__(self, module):
        self.m = module
        self.types = {}

    def module(self, tree):
        body = tree.body
        for st in self.stats(body):
            self.top(st, '')

    def stats(self, n):
        if type(n).__name__ == 'StatListNode':
            out = []
            for s in n.stats:
                out.extend(self.stats(s))
            return out
        return [n]

    def top(self, st, prefix):
        k = type(st).__name__
        m = self.m
        if k in ('CFuncDefNode', 'DefNode'):
            f = self.func(st, prefix)
            m.funcs[f.qual] = f
        elif k in ('CClassDefNode', 'PyClassDefNode'):
            name = st.class_name if k == 'CClassDefNode' else st.name
            bases = []
            b = getattr(st, 'bases', None)
            if b is not None and getattr(b, 'args', None):
                bases = [ast.unparse(self.expr(x)) for x in b.args]
            m.classes[name] = {'bases': bases, 'methods': [], 'attrs': {}}
            for s in self.stats(st.body):
                if type(s).__name__ == 'CVarDefNode':
                    for d in s.declarators:
                        m.classes[name]['attrs'][self.decl_name(d)[0]] = self.ctype(s.base_type, d)
                if type(s).__name__ in ('CFuncDefNode', 'DefNode'):
                    f = self.func(s, name + '.')
                    m.funcs[f.qual] = f
                    m.classes[name]['methods'].append(f.name)
        elif k == 'CImportStatNode':
            m.imports[str(st.as_name or st.module_name).split('.')[0]] = str(st.module_name)
        elif k == 'FromCImportStatNode':
            for it in st.imported_names:
                name = str(it[1])
                as_name = str(it[2]) if it[2] else name
                m.imports[as_name] = str(st.module_name) + '.' + name
        elif k == 'FromImportStatNode':
            mod = str(st.module.module_name.value)
            for name, node in st.items:
                m.imports[str(node.name)] = mod + '.' + str(name)
        elif k == 'SingleAssignmentNode':
            if type(st.rhs).__name__ == 'ImportNode':
                mod = str(st.rhs.module_name.value)
                m.imports[str(st.lhs.name)] = mod
            elif type(st.lhs).__name__ == 'NameNode':
                m.globals[str(st.lhs.name)] = self.expr(st.rhs)
        elif k in ('PassStatNode', 'CDefExternNode', 'ExprStatNode', 'IfStatNode', 'CVarDefNode'):
            pass
        else:
            raise Unsupported('top-level %s in %s' % (k, m.path))

    def ctype(self, bt, declarator=None):
        k = type(bt).__name__
        ptr = 0
        d = declarator
        while d is not None and type(d).__name__ == 'CPtrDeclaratorNode':
            ptr += 1
            d = d.base
        if k == 'MemoryViewSliceTypeNode':
            return CType(str(bt.base_type_node.name), len(bt.axes), ptr)
        if k == 'CSimpleBaseTypeNode':
            return CType(str(bt.name) if bt.name else 'object', 0, ptr)
        return CType('object')

    def decl_name(self, d):
        while hasattr(d, 'base'):
            d = d.base
        return str(d.name), getattr(d, 'default', None)

    def func(self, st, prefix):
        self.types = {}
        self.locals_decl = {}
        k = type(st).__name__
        params, types, defaults = [], {}, {}
        vararg = kwarg = None
        rettype = None
        if k == 'CFuncDefNode':
            d = st.declarator
            while type(d).__name__ == 'CPtrDeclaratorNode':
                d = d.base
            name, _ = self.decl_name(d)
            args = d.args
            rettype = self.ctype(st.base_type, st.declarator)
        else:
            name = str(st.name)
            args = st.args
            if st.star_arg:
                vararg = str(st.star_arg.name)
            if st.starstar_arg:
                kwarg = str(st.starstar_arg.name)
        for a in args:
            nm, _ = self.decl_name(a.declarator)
            if not nm:      # untyped argument: the name is parsed as the type
                nm = str(a.base_type.name)
                ct = CType('object')
            else:
                ct = self.ctype(a.base_type, a.declarator)
            params.append(nm)
            types[nm] = ct
            if a.default is not None:
                defaults[nm] = self.expr(a.default)
        self.types = dict(types)
        outer = getattr(self, 'prefix', None)
        self.prefix = prefix + name
        body = self.block(st.body)
        self.prefix = outer
        body = _strip_doc(body)
        node = N(ast.FunctionDef(name=name, args=None, body=body, decorator_list=[]), st.pos)
        f = Func(self.m, prefix + name, node, params, dict(self.types), 'cdef' if k == 'CFuncDefNode' else 'def',
                 rettype, defaults, st.pos[1], vararg, kwarg)
        return f

    def block(self, n):
        out = []
        for s in self.stats(n):
            r = self.stat(s)
            if r is None:
                continue
            if isinstance(r, list):
                out.extend(r)
            else:
                out.append(r)
        return out or [ast.Pass()]

    def stat(self, s):
        k = type(s).__name__
        p = s.pos
        if k == 'SingleAssignmentNode':
            if type(s.rhs).__name__ == 'ImportNode':
                return None
            return N(ast.Assign(targets=[self.expr(s.lhs, ast.Store())], value=self.expr(s.rhs)), p)
        if k == 'CascadedAssignmentNode':
            return N(ast.Assign(targets=[self.expr(x, ast.Store()) for x in s.lhs_list], value=self.expr(s.rhs)), p)
        if k == 'InPlaceAssignmentNode':
            return N(ast.AugAssign(target=self.expr(s.lhs, ast.Store()), op=_BIN[s.operator](), value=self.expr(s.rhs)), p)
        if k == 'CVarDefNode':
            out = []
            for d in s.declarators:
                nm, default = self.decl_name(d)
                self.types[nm] = self.ctype(s.base_type, d)
                if default is not None:
                    out.append(N(ast.Assign(targets=[N(ast.Name(id=nm, ctx=ast.Store()), p)], value=self.expr(default)), p))
            return out
        if k == 'ExprStatNode':
            return N(ast.Expr(value=self.expr(s.expr)), p)
        if k == 'ReturnStatNode':
            return N(ast.Return(value=self.expr(s.value) if s.value is not None else None), p)
        if k == 'IfStatNode':
            orelse = self.block(s.else_clause) if s.else_clause is not None else []
            for c in reversed(s.if_clauses):
                node = N(ast.If(test=self.expr(c.condition), body=self.block(c.body), orelse=orelse), c.pos)
                orelse = [node]
            return orelse[0]
        if k == 'ForInStatNode':
            it = self.expr(s.iterator.sequence)
            return N(ast.For(target=self.expr(s.target, ast.Store()), iter=it, body=self.block(s.body),
                             orelse=self.block(s.else_clause) if s.else_clause is not None else []), p)
        if k == 'WhileStatNode':
            return N(ast.While(test=self.expr(s.condition), body=self.block(s.body),
                               orelse=self.block(s.else_clause) if s.else_clause is not None else []), p)
        if k == 'DelStatNode':
            return N(ast.Delete(targets=[self.expr(a, ast.Del()) for a in s.args]), p)
        if k == 'PassStatNode':
            return N(ast.Pass(), p)
        if k == 'BreakStatNode':
            return N(ast.Break(), p)
        if k == 'ContinueStatNode':
            return N(ast.Continue(), p)
        if k == 'RaiseStatNode':
            return N(ast.Raise(exc=self.expr(s.exc_type) if s.exc_type is not None else None, cause=None), p)
        if k == 'AssertStatNode':
            return N(ast.Assert(test=self.expr(s.condition), msg=None), p)
        if k in ('FromImportStatNode',):
            mod = str(s.module.module_name.value)
            return N(ast.ImportFrom(module=mod, names=[ast.alias(name=str(nm), asname=str(nd.name)) for nm, nd in s.items], level=0), p)
        if k == 'GILStatNode':
            return self.block(s.body)
        if k == 'TryExceptStatNode':
            hs = []
            for c in s.except_clauses:
                hs.append(N(ast.ExceptHandler(type=self.expr(c.pattern[0]) if c.pattern else None, name=None, body=self.block(c.body)), c.pos))
            return N(ast.Try(body=self.block(s.body), handlers=hs, orelse=self.block(s.else_clause) if s.else_clause else [], finalbody=[]), p)
        if k == 'WithStatNode':
            raise Unsupported('with statement')
        if k in ('DefNode', 'CFuncDefNode'):
            saved = self.types
            f = self.func(s, self.prefix + '.')
            self.types = saved
            self.m.funcs[f.qual] = f
            f.node.cpv_func = f
            return f.node
        raise Unsupported('statement %s at %s:%s' % (k, self.m.path, p[1]))

    def name(self, s):
        return str(s)

    def expr(self, e, ctx=None):
        ctx = ctx or ast.Load()
        k = type(e).__name__
        p = e.pos
        f = getattr(self, 'x_' + k, None)
        if f is None:
            raise Unsupported('expression %s at %s:%s' % (k, self.m.path, p[1]))
        return N(f(e, ctx), p)

    def x_NameNode(self, e, ctx):
        return ast.Name(id=str(e.name), ctx=ctx)

    def x_AttributeNode(self, e, ctx):
        return ast.Attribute(value=self.expr(e.obj), attr=str(e.attribute), ctx=ctx)

    def x_IntNode(self, e, ctx):
        return ast.Constant(value=int(str(e.value), 0) if not str(e.value).isdigit() else int(e.value))

    def x_FloatNode(self, e, ctx):
        c = ast.Constant(value=float(e.value))
        c.text = str(e.value)
        return c

    def x_UnicodeNode(self, e, ctx):
        return ast.Constant(value=str(e.value))

    def x_IdentifierStringNode(self, e, ctx):
        return ast.Constant(value=str(e.value))

    def x_StringNode(self, e, ctx):
        return ast.Constant(value=str(e.value))

    def x_BytesNode(self, e, ctx):
        return ast.Constant(value=bytes(e.value))

    def x_CharNode(self, e, ctx):
        return ast.Constant(value=str(e.value))

    def x_BoolNode(self, e, ctx):
        return ast.Constant(value=bool(e.value))

    def x_NoneNode(self, e, ctx):
        return ast.Constant(value=None)

    def x_NullNode(self, e, ctx):
        return ast.Constant(value=None)

    def x_EllipsisNode(self, e, ctx):
        return ast.Constant(value=Ellipsis)

    def x_TupleNode(self, e, ctx):
        return ast.Tuple(elts=[self.expr(a, ctx) for a in e.args], ctx=ctx)

    def x_ListNode(self, e, ctx):
        return ast.List(elts=[self.expr(a, ctx) for a in e.args], ctx=ctx)

    def x_AsTupleNode(self, e, ctx):
        return self.expr(e.arg)

    def x_DictNode(self, e, ctx):
        return ast.Dict(keys=[self.expr(i.key) for i in e.key_value_pairs], values=[self.expr(i.value) for i in e.key_value_pairs])

    def x_SliceNode(self, e, ctx):
        def o(x):
            return None if type(x).__name__ == 'NoneNode' else self.expr(x)
        return ast.Slice(lower=o(e.start), upper=o(e.stop), step=o(e.step))

    def x_IndexNode(self, e, ctx):
        return ast.Subscript(value=self.expr(e.base), slice=self.expr(e.index), ctx=ctx)

    def x_SliceIndexNode(self, e, ctx):
        def o(x):
            return None if x is None or type(x).__name__ == 'NoneNode' else self.expr(x)
        return ast.Subscript(value=self.expr(e.base), slice=ast.Slice(lower=o(e.start), upper=o(e.stop), step=None), ctx=ctx)

    def x_SimpleCallNode(self, e, ctx):
        return ast.Call(func=self.expr(e.function), args=[self.expr(a) for a in e.args], keywords=[])

    def x_GeneralCallNode(self, e, ctx):
        pa = e.positional_args
        ka = e.keyword_args
        args = [self.expr(a) for a in pa.args] if type(pa).__name__ == 'TupleNode' else [ast.Starred(value=self.expr(pa), ctx=ast.Load())]
        kws = []
        if ka is not None:
            if type(ka).__name__ == 'DictNode':
                for i in ka.key_value_pairs:
                    kws.append(ast.keyword(arg=str(i.key.value), value=self.expr(i.value)))
            else:
                kws.append(ast.keyword(arg=None, value=self.expr(ka)))
        return ast.Call(func=self.expr(e.function), args=args, keywords=kws)

    def _bin(self, e, ctx):
        return ast.BinOp(left=self.expr(e.operand1), op=_BIN[e.operator](), right=self.expr(e.operand2))
    x_AddNode = x_SubNode = x_MulNode = x_DivNode = x_PowNode = x_ModNode = x_IntBinopNode = x_NumBinopNode = x_BitwiseOrNode = x_MatMultNode = _bin

    def x_UnaryMinusNode(self, e, ctx):
        return ast.UnaryOp(op=ast.USub(), operand=self.expr(e.operand))

    def x_UnaryPlusNode(self, e, ctx):
        return self.expr(e.operand)

    def x_TildeNode(self, e, ctx):
        return ast.UnaryOp(op=ast.Invert(), operand=self.expr(e.operand))

    def x_NotNode(self, e, ctx):
        return ast.UnaryOp(op=ast.Not(), operand=self.expr(e.operand))

    def x_PrimaryCmpNode(self, e, ctx):
        ops, comps = [_CMP[e.operator]()], [self.expr(e.operand2)]
        c = e.cascade
        while c is not None:
            ops.append(_CMP[c.operator]())
            comps.append(self.expr(c.operand2))
            c = c.cascade
        return ast.Compare(left=self.expr(e.operand1), ops=ops, comparators=comps)

    def x_BoolBinopNode(self, e, ctx):
        return ast.BoolOp(op=ast.And() if e.operator == 'and' else ast.Or(), values=[self.expr(e.operand1), self.expr(e.operand2)])

    def x_CondExprNode(self, e, ctx):
        return ast.IfExp(test=self.expr(e.test if hasattr(e, 'test') else e.condition), body=self.expr(e.true_val), orelse=self.expr(e.false_val))

    def x_TypecastNode(self, e, ctx):
        ct = self.ctype(e.base_type, e.declarator)
        return ast.Call(func=ast.Name(id='__cast__', ctx=ast.Load()), args=[ast.Constant(value=repr(ct)), self.expr(e.operand)], keywords=[])

    def x_AmpersandNode(self, e, ctx):
        return ast.Call(func=ast.Name(id='__addr__', ctx=ast.Load()), args=[self.expr(e.operand)], keywords=[])

    def x_SizeofTypeNode(self, e, ctx):
        b = repr(self.ctype(e.base_type, e.declarator)) if hasattr(e, 'declarator') else 'double'
        return ast.Constant(value=8 if '*' in b else SIZEOF.get(b, 8))

    def x_SizeofVarNode(self, e, ctx):
        n = str(getattr(e.operand, 'name', ''))
        if n not in SIZEOF:
            ct = self.types.get(n) or self.locals_decl.get(n)
            n = ct.base if isinstance(ct, CType) and not ct.ptr and not ct.ndim else ''
        if n not in SIZEOF:
            raise Unsupported('sizeof')
        return ast.Constant(value=SIZEOF[n])

    def x_ComprehensionNode(self, e, ctx):
        loop = e.loop
        gens = []
        elt = None
        while True:
            k = type(loop).__name__
            if k == 'ForInStatNode':
                gens.append(ast.comprehension(target=self.expr(loop.target, ast.Store()), iter=self.expr(loop.iterator.sequence), ifs=[], is_async=0))
                loop = loop.body
            elif k == 'IfStatNode':
                gens[-1].ifs.append(self.expr(loop.if_clauses[0].condition))
                loop = loop.if_clauses[0].body
            elif k == 'ComprehensionAppendNode':
                elt = self.expr(loop.expr)
                break
            elif k == 'StatListNode':
                loop = loop.stats[0]
            else:
                raise Unsupported('comprehension %s' % k)
        return ast.ListComp(elt=elt, generators=gens)

    def x_GeneratorExpressionNode(self, e, ctx):
        raise Unsupported('generator expression')

    def x_JoinedStrNode(self, e, ctx):
        return ast.JoinedStr(values=[self.expr(v) for v in e.values])

    def x_FormattedValueNode(self, e, ctx):
        return ast.FormattedValue(value=self.expr(e.value), conversion=-1, format_spec=None)


def resolve(module, name):
    """dotted target of a name used in module, following imports"""
    return module.imports.get(name)


def lookup_func(dotted):
    """find the repository function for a dotted name"""
    parts = dotted.split('.')
    for cut in range(len(parts) - 1, 0, -1):
        m = find_module('.'.join(parts[:cut]))
        if m is None:
            continue
        q = '.'.join(parts[cut:])
        if q in m.funcs:
            return m.funcs[q]
        if parts[cut] in m.imports:     # re-export
            return lookup_func('.'.join([m.imports[parts[cut]]] + parts[cut + 1:]))
        return None
    return None


def find_class(dotted):
    parts = dotted.split('.')
    m = find_module('.'.join(parts[:-1]))
    if m is not None and parts[-1] in m.classes:
        return m, parts[-1]
    if m is not None and parts[-1] in m.imports:
        return find_class(m.imports[parts[-1]])
    return None

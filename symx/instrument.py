"""Rewrites a syntax tree so that the operations whose meaning depends on
symbolic operands (or on Python 2) go through the runtime (rt.py)."""
import ast

STR_METHODS = frozenset('''join startswith endswith find rfind index rindex
count split rsplit strip lstrip rstrip replace encode decode format partition
rpartition sort zfill ljust rjust center translate splitlines lower upper
'''.split())


def nm(i):
    return ast.Name(id=i, ctx=ast.Load())


def call(f, *args):
    return ast.Call(func=nm(f), args=list(args), keywords=[])


class Inst(ast.NodeTransformer):
    def __init__(self, modname, py2):
        self.mod = modname
        self.py2 = py2
        self.stack = []

    # -- definitions
    def _def(self, n):
        self.stack.append(n.name)
        q = self.mod + ':' + '.'.join(self.stack)
        self.generic_visit(n)
        self.stack.pop()
        i = 0
        if n.body and isinstance(n.body[0], ast.Expr) and isinstance(
                n.body[0].value, ast.Constant) and isinstance(
                    n.body[0].value.value, str):
            i = 1
        n.body.insert(i, ast.Expr(value=call('__enter_fn__',
                                             ast.Constant(value=q))))
        return n

    visit_FunctionDef = _def

    def visit_ClassDef(self, n):
        self.stack.append(n.name)
        self.generic_visit(n)
        self.stack.pop()
        if self.py2 and any(isinstance(x, ast.FunctionDef)
                            and x.name == '__nonzero__' for x in n.body):
            n.body.append(ast.parse(
                'def __bool__(self):\n'
                '    return True if self.__nonzero__() else False').body[0])
        return n

    def visit_Constant(self, n):
        # octet strings are modelled as text of code points 0..255
        if not self.py2 and isinstance(n.value, bytes):
            return ast.copy_location(
                ast.Constant(value=n.value.decode('latin-1')), n)
        return n

    # -- statements
    def visit_While(self, n):
        self.generic_visit(n)
        n.body.insert(0, ast.Expr(value=call(
            '__tick__', ast.Constant(value='%s:%d' % (self.mod, n.lineno)))))
        return n

    def visit_ExceptHandler(self, n):
        self.generic_visit(n)
        if n.type is None:
            n.type = nm('Exception')
        return n

    def visit_AugAssign(self, n):
        self.generic_visit(n)
        if isinstance(n.op, (ast.Div, ast.Mod)):
            f = '__div__' if isinstance(n.op, ast.Div) else '__mod__'
            if isinstance(n.op, ast.Div) and not self.py2:
                return n
            t = n.target
            if isinstance(t, ast.Name):
                ld = nm(t.id)
            elif isinstance(t, ast.Attribute):
                ld = ast.Attribute(value=t.value, attr=t.attr, ctx=ast.Load())
            else:
                ld = call('__getitem__', t.value, self._idx(t.slice))
            return ast.Assign(targets=[t], value=call(f, ld, n.value))
        return n

    def visit_Delete(self, n):
        self.generic_visit(n)
        return n

    # -- expressions
    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Div) and self.py2:
            return call('__div__', n.left, n.right)
        if isinstance(n.op, ast.Mod):
            return call('__mod__', n.left, n.right)
        return n

    def visit_Compare(self, n):
        self.generic_visit(n)
        if any(isinstance(o, (ast.In, ast.NotIn)) for o in n.ops):
            if len(n.ops) > 1:
                raise SyntaxError('chained in')
            r = call('__contains__', n.comparators[0], n.left)
            if isinstance(n.ops[0], ast.NotIn):
                r = ast.UnaryOp(op=ast.Not(), operand=r)
            return r
        if self.py2 and len(n.ops) == 1 and isinstance(
                n.ops[0], (ast.Lt, ast.LtE, ast.Gt, ast.GtE)):
            return call('__cmp2__', ast.Constant(
                value=type(n.ops[0]).__name__), n.left, n.comparators[0])
        return n

    def _idx(self, s):
        if isinstance(s, ast.Slice):
            c = lambda x: x if x is not None else ast.Constant(value=None)
            return call('slice', c(s.lower), c(s.upper), c(s.step))
        return s

    def visit_Subscript(self, n):
        self.generic_visit(n)
        if isinstance(n.ctx, ast.Load):
            return call('__getitem__', n.value, self._idx(n.slice))
        return n

    def visit_Dict(self, n):
        self.generic_visit(n)
        if any(k is None for k in n.keys):
            raise SyntaxError('dict unpacking')
        return call('__mkdict__', ast.List(elts=[
            ast.Tuple(elts=[k, v], ctx=ast.Load())
            for k, v in zip(n.keys, n.values)], ctx=ast.Load()))

    def visit_DictComp(self, n):
        self.generic_visit(n)
        return call('__mkdict__', ast.ListComp(
            elt=ast.Tuple(elts=[n.key, n.value], ctx=ast.Load()),
            generators=n.generators))

    def visit_Set(self, n):
        self.generic_visit(n)
        return call('set', ast.List(elts=n.elts, ctx=ast.Load()))

    def visit_SetComp(self, n):
        self.generic_visit(n)
        return call('set', ast.ListComp(elt=n.elt, generators=n.generators))

    def visit_JoinedStr(self, n):
        self.generic_visit(n)
        parts = []
        for v in n.values:
            if isinstance(v, ast.FormattedValue):
                parts.append(call('__fmt__', v.value,
                                  ast.Constant(value=v.conversion),
                                  v.format_spec or ast.Constant(value='')))
            else:
                parts.append(v)
        return call('__fjoin__', ast.List(elts=parts, ctx=ast.Load()))

    def visit_FormattedValue(self, n):
        self.generic_visit(n)
        return n

    def visit_Call(self, n):
        self.generic_visit(n)
        f = n.func
        if isinstance(f, ast.Attribute) and f.attr in STR_METHODS:
            return ast.Call(func=nm('__callm__'),
                            args=[f.value, ast.Constant(value=f.attr)] +
                            n.args, keywords=n.keywords)
        if isinstance(f, ast.Name) and f.id == 'super' and not n.args:
            return n
        return n


def instrument(tree, modname, py2):
    t = Inst(modname, py2).visit(tree)
    return ast.fix_missing_locations(t)

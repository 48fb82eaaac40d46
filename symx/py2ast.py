"""Python 2 syntax tree (as dumped by jydump.py) -> Python 3 ast.

The conversion is purely syntactic.  Semantic differences between the two
languages (integer division, list-returning dict methods, byte strings ...) are
left to the runtime the tree is rewritten to call (see instrument.py, rt.py).
"""
import ast
import json
import subprocess

HERE = __file__.rsplit('/', 1)[0]
JYTHON = '/usr/bin/jython'


def parse_many(paths):
    """-> {path: json tree}"""
    if not paths:
        return {}
    out = subprocess.run([JYTHON, '-B', HERE + '/jydump.py'] + list(paths),
                         stdout=subprocess.PIPE, check=True).stdout
    res = {}
    for line in out.decode('ascii').splitlines():
        r = json.loads(line)
        if 'error' in r:
            raise SyntaxError('%s: %s' % (r['path'], r['error']))
        res[r['path']] = r['tree']
    return res


class Conv(object):
    def __init__(self, path):
        self.path = path

    def ident(self, x):
        if x is None:
            return None
        if isinstance(x, dict):
            return ''.join(map(chr, x['v'])) if isinstance(x['v'], list) \
                else x['v']
        return x

    def const(self, x):
        t = x['$']
        if t in ('str', 'unicode'):
            return ''.join(map(chr, x['v']))
        v = x['v']
        if t == 'long':
            return int(v.rstrip('lL'))
        if t in ('int', 'bool'):
            return int(v)
        if t == 'float':
            return float(v)
        if t == 'complex':
            return complex(v)
        raise SyntaxError('constant ' + repr(x))

    def many(self, xs):
        return [self.c(x) for x in xs or []]

    def c(self, n):
        if n is None:
            return None
        if '_' not in n:
            raise SyntaxError('node %r' % (n,))
        m = getattr(self, 'v_' + n['_'], None)
        if m is None:
            r = self.generic(n)
        else:
            r = m(n)
        if isinstance(r, (ast.stmt, ast.expr, ast.ExceptHandler)):
            r.lineno = n.get('lineno', 1)
            r.col_offset = 0
            r.end_lineno = r.lineno
            r.end_col_offset = 0
        return r

    def generic(self, n):
        cls = getattr(ast, n['_'])
        kw = {}
        for f in cls._fields:
            v = n.get(f)
            if isinstance(v, list):
                kw[f] = self.many(v)
            elif isinstance(v, dict) and '_' in v:
                kw[f] = self.c(v)
            elif isinstance(v, dict):
                kw[f] = self.ident(v)
            else:
                kw[f] = v
        return cls(**kw)

    # -- modules and statements
    def v_Module(self, n):
        return ast.Module(body=self.many(n['body']), type_ignores=[])

    def v_FunctionDef(self, n):
        pre = []
        args = self.args(n['args'], pre)
        return ast.FunctionDef(
            name=self.ident(n['name']), args=args,
            body=pre + self.many(n['body']),
            decorator_list=self.many(n.get('decorator_list')), returns=None,
            type_params=[])

    def v_Lambda(self, n):
        pre = []
        a = self.args(n['args'], pre)
        body = self.c(n['body'])
        if pre:
            raise SyntaxError('tuple parameter in lambda')
        return ast.Lambda(args=a, body=body)

    def args(self, a, pre):
        res = []
        for i, x in enumerate(a['args']):
            if x['_'] == 'Name':
                res.append(ast.arg(arg=self.ident(x['id'])))
            else:
                nm = '_tup%d' % i
                res.append(ast.arg(arg=nm))
                tgt = self.store(self.c(x))
                pre.append(self.loc(ast.Assign(
                    targets=[tgt], value=ast.Name(id=nm, ctx=ast.Load()))))
        va, kw = self.ident(a.get('vararg')), self.ident(a.get('kwarg'))
        return ast.arguments(
            posonlyargs=[], args=res, vararg=ast.arg(arg=va) if va else None,
            kwonlyargs=[], kw_defaults=[],
            kwarg=ast.arg(arg=kw) if kw else None,
            defaults=self.many(a.get('defaults')))

    def loc(self, s):
        s.lineno = 1
        s.col_offset = 0
        return ast.fix_missing_locations(s)

    def store(self, t):
        for x in ast.walk(t):
            if hasattr(x, 'ctx'):
                x.ctx = ast.Store()
        return t

    def v_ClassDef(self, n):
        return ast.ClassDef(name=self.ident(n['name']),
                            bases=self.many(n['bases']), keywords=[],
                            body=self.many(n['body']),
                            decorator_list=self.many(n.get('decorator_list')),
                            type_params=[])

    def v_Print(self, n):
        return ast.Expr(value=ast.Call(
            func=ast.Name(id='__print__', ctx=ast.Load()),
            args=self.many(n['values']), keywords=[]))

    def v_Exec(self, n):
        raise SyntaxError('exec statement in ' + self.path)

    def v_TryExcept(self, n):
        return ast.Try(body=self.many(n['body']),
                       handlers=self.many(n['handlers']),
                       orelse=self.many(n['orelse']), finalbody=[])

    def v_TryFinally(self, n):
        return ast.Try(body=self.many(n['body']), handlers=[], orelse=[],
                       finalbody=self.many(n['finalbody']))

    def v_ExceptHandler(self, n):
        nm = n.get('name')
        if isinstance(nm, dict) and nm.get('_') == 'Name':
            nm = self.ident(nm['id'])
        elif nm is not None:
            raise SyntaxError('except target')
        return ast.ExceptHandler(type=self.c(n['type']), name=nm,
                                 body=self.many(n['body']))

    v_excepthandler = v_ExceptHandler

    def v_Raise(self, n):
        t, i = self.c(n.get('type')), self.c(n.get('inst'))
        if i is not None:
            t = ast.Call(func=t, args=[i], keywords=[])
        return ast.Raise(exc=t, cause=None)

    def v_Global(self, n):
        return ast.Global(names=[self.ident(x) for x in n['names']])

    def v_Import(self, n):
        return ast.Import(names=[self.alias(x) for x in n['names']])

    def v_ImportFrom(self, n):
        lv = n.get('level')
        lv = self.const(lv) if isinstance(lv, dict) else (lv or 0)
        return ast.ImportFrom(module=self.ident(n['module']) or None,
                              names=[self.alias(x) for x in n['names']],
                              level=max(lv, 0))

    def alias(self, x):
        return ast.alias(name=self.ident(x['name']),
                         asname=self.ident(x.get('asname')))

    def v_With(self, n):
        return ast.With(items=[ast.withitem(
            context_expr=self.c(n['context_expr']),
            optional_vars=self.c(n.get('optional_vars')))],
            body=self.many(n['body']))

    def v_For(self, n):
        return ast.For(target=self.c(n['target']), iter=self.c(n['iter']),
                       body=self.many(n['body']),
                       orelse=self.many(n['orelse']))

    def v_Assign(self, n):
        return ast.Assign(targets=self.many(n['targets']),
                          value=self.c(n['value']))

    # -- expressions
    def v_Num(self, n):
        return ast.Constant(value=self.const(n['n']))

    def v_Str(self, n):
        return ast.Constant(value=self.const(n['s']))

    def v_Name(self, n):
        i = self.ident(n['id'])
        ctx = self.ctx(n)
        if isinstance(ctx, ast.Load) and i in ('True', 'False', 'None'):
            return ast.Constant(value={'True': True, 'False': False,
                                       'None': None}[i])
        return ast.Name(id=i, ctx=ctx)

    def ctx(self, n):
        c = n.get('ctx')
        c = c if isinstance(c, str) else (c or {}).get('_') or \
            self.ident(c) if c else 'Load'
        c = str(c)
        for k in ('Store', 'Del', 'AugStore', 'Param'):
            if k in c:
                return ast.Del() if k == 'Del' else ast.Store()
        return ast.Load()

    def v_Attribute(self, n):
        return ast.Attribute(value=self.c(n['value']),
                             attr=self.ident(n['attr']), ctx=self.ctx(n))

    def v_Tuple(self, n):
        return ast.Tuple(elts=self.many(n['elts']), ctx=self.ctx(n))

    def v_List(self, n):
        return ast.List(elts=self.many(n['elts']), ctx=self.ctx(n))

    def v_Subscript(self, n):
        s = n['slice']
        return ast.Subscript(value=self.c(n['value']), slice=self.slice(s),
                             ctx=self.ctx(n))

    def slice(self, s):
        if s['_'] == 'Index':
            return self.c(s['value'])
        if s['_'] == 'Slice':
            return ast.Slice(lower=self.c(s['lower']),
                             upper=self.c(s['upper']), step=self.c(s['step']))
        raise SyntaxError('slice ' + s['_'])

    def v_Call(self, n):
        args = self.many(n['args'])
        kws = [ast.keyword(arg=self.ident(k['arg']), value=self.c(k['value']))
               for k in n['keywords'] or []]
        if n.get('starargs'):
            args.append(ast.Starred(value=self.c(n['starargs']),
                                    ctx=ast.Load()))
        if n.get('kwargs'):
            kws.append(ast.keyword(arg=None, value=self.c(n['kwargs'])))
        return ast.Call(func=self.c(n['func']), args=args, keywords=kws)

    def v_Repr(self, n):
        return ast.Call(func=ast.Name(id='repr', ctx=ast.Load()),
                        args=[self.c(n['value'])], keywords=[])

    def op(self, x):
        nm = x['_'] if isinstance(x, dict) and '_' in x else self.ident(x)
        return getattr(ast, str(nm))()

    def v_BinOp(self, n):
        return ast.BinOp(left=self.c(n['left']), op=self.op(n['op']),
                         right=self.c(n['right']))

    def v_BoolOp(self, n):
        return ast.BoolOp(op=self.op(n['op']), values=self.many(n['values']))

    def v_UnaryOp(self, n):
        return ast.UnaryOp(op=self.op(n['op']), operand=self.c(n['operand']))

    def v_AugAssign(self, n):
        t = self.c(n['target'])
        t.ctx = ast.Store()
        return ast.AugAssign(target=t, op=self.op(n['op']),
                             value=self.c(n['value']))

    def v_Compare(self, n):
        return ast.Compare(left=self.c(n['left']),
                           ops=[self.op(o) for o in n['ops']],
                           comparators=self.many(n['comparators']))

    def v_comprehension(self, n):
        return ast.comprehension(target=self.c(n['target']),
                                 iter=self.c(n['iter']),
                                 ifs=self.many(n['ifs']), is_async=0)

    def comp(self, n):
        return [self.v_comprehension(g) for g in n['generators']]

    def v_ListComp(self, n):
        return ast.ListComp(elt=self.c(n['elt']), generators=self.comp(n))

    def v_SetComp(self, n):
        return ast.SetComp(elt=self.c(n['elt']), generators=self.comp(n))

    def v_GeneratorExp(self, n):
        return ast.GeneratorExp(elt=self.c(n['elt']), generators=self.comp(n))

    def v_DictComp(self, n):
        return ast.DictComp(key=self.c(n['key']), value=self.c(n['value']),
                            generators=self.comp(n))


def to_py3(tree, path):
    m = Conv(path).c(tree)
    return ast.fix_missing_locations(m)

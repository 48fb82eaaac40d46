# Runs under Jython 2.7: parses Python 2 sources with the interpreter's own
# grammar and dumps each syntax tree as JSON on stdout (one line per file).
import ast
import json
import sys

from java.lang import Class


def conv(n):
    if isinstance(n, ast.AST):
        d = {'_': n.__class__.__name__}
        for f in n._fields:
            d[f] = conv(getattr(n, f))
        if hasattr(n, 'lineno'):
            d['lineno'] = n.lineno
        return d
    if isinstance(n, (list, tuple)):
        return [conv(x) for x in n]
    if n is None or isinstance(n, bool):
        return n
    if isinstance(n, (str, unicode)):
        return {'$': type(n).__name__, 'v': [ord(c) for c in n]}
    if isinstance(n, (int, long, float, complex)):
        return {'$': type(n).__name__, 'v': repr(n)}
    if str(n) == 'DictComp':
        # Jython does not expose this node's fields; ask the Java object.
        c = Class.forName('org.python.antlr.ast.DictComp')
        d = {'_': 'DictComp'}
        for m in Class.getMethods(c):
            nm = m.getName()
            if nm in ('getKey', 'getValue', 'getGenerators'):
                d[nm[3:].lower()] = conv(m.invoke(n, []))
            elif nm == 'getLineno':
                d['lineno'] = m.invoke(n, [])
        return d
    return {'$': 'enum', 'v': str(n)}


for p in sys.argv[1:]:
    try:
        r = {'path': p, 'tree': conv(ast.parse(open(p).read(), p))}
    except SyntaxError, e:
        r = {'path': p, 'error': str(e)}
    print json.dumps(r)

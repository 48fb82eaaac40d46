"""Loads modules of the repository's *current* source into the engine."""
import ast
import os
import sys
import types

from . import containers, instrument, py2ast, rt, shims

REPO = os.environ.get('VERIF_REPO', '/repo')
CURRENT = None
HERE = os.path.dirname(os.path.abspath(__file__))
MODELS = {'urllib.parse': 'urlparse', 'urlparse': 'urlparse'}


class Loader(object):
    """py2: True for modules written for Python 2 (run by Jython)."""

    def __init__(self, py2, paths, stubs=None, roots=None):
        self.py2 = py2
        containers.JYTHON = py2
        self.roots = roots or [REPO]
        self.mods = {}
        self.stubs = stubs or {}
        files = []
        for p in paths:
            p = os.path.join(REPO, p)
            if os.path.isdir(p):
                for f in sorted(os.listdir(p)):
                    if f.endswith('.py') and not f.endswith('_test.py'):
                        files.append(os.path.join(p, f))
            else:
                files.append(p)
        self.trees = {}
        if py2:
            for p, t in py2ast.parse_many(files).items():
                self.trees[p] = py2ast.to_py3(t, p)
        else:
            for p in files:
                with open(p) as f:
                    self.trees[p] = ast.parse(f.read(), p)

    def path_of(self, name):
        """Module name -> (file, is_package) inside the repository roots."""
        rel = name.replace('.', '/')
        for r in self.roots:
            b = os.path.join(r, rel)
            if os.path.isfile(b + '/__init__.py'):
                return b + '/__init__.py', True
            if os.path.isfile(b + '.py'):
                return b + '.py', False
            if os.path.isdir(b) and not rel.startswith('.'):
                return None, True     # namespace package
        return None, False

    def load(self, name, main=False):
        if name in self.mods:
            return self.mods[name]
        if '.' in name:
            self.load(name.rsplit('.', 1)[0])
        path, pkg = self.path_of(name)
        if path is None and not pkg:
            raise ImportError('No module named ' + name)
        m = types.ModuleType(name)
        m.__file__ = path
        m.__package__ = name if pkg else name.rpartition('.')[0]
        if pkg:
            m.__path__ = [os.path.dirname(path)] if path else []
        self.mods[name] = m
        if path:
            if path not in self.trees:
                if self.py2:
                    t = py2ast.parse_many([path])[path]
                    self.trees[path] = py2ast.to_py3(t, path)
                else:
                    with open(path) as f:
                        self.trees[path] = ast.parse(f.read(), path)
            import copy
            tree = instrument.instrument(copy.deepcopy(self.trees[path]),
                                         name, self.py2)
            code = compile(tree, path, 'exec')
            m.__dict__['__builtins__'] = rt.make_builtins(
                self.py2, self._importer)
            if main:
                m.__name__ = '__main__'
            try:
                exec(code, m.__dict__)
            except BaseException:
                del self.mods[name]
                raise
        if '.' in name:
            par, leaf = name.rsplit('.', 1)
            setattr(self.mods[par], leaf, m)
        return m

    def _importer(self, name, globals=None, locals=None, fromlist=(), level=0):
        pkg = (globals or {}).get('__package__') or ''
        cands = []
        if level > 0:
            base = pkg.split('.')
            base = base[:len(base) - level + 1]
            b = '.'.join(base)
            cands = [b + '.' + name if name else b]
        else:
            if self.py2 and pkg:
                cands.append(pkg + '.' + name)
            cands.append(name)
        for c in cands:
            full = None
            if c in self.stubs:
                return self.stubs[c]
            top = c.split('.')[0]
            path, ispkg = self.path_of(c)
            if path or (ispkg and self._known(top)):
                m = self.load(c)
                if fromlist:
                    for f in fromlist:
                        if f != '*' and not hasattr(m, f):
                            p2, k2 = self.path_of(c + '.' + f)
                            if p2:
                                self.load(c + '.' + f)
                    return m
                if level == 0 and '.' in name:
                    return self.mods[c[:len(c) - len(name)] +
                                     name.split('.')[0]]
                return m
        if name in MODELS:
            return self.model(name)
        if name == 'importlib':
            return shims.mod('importlib', import_module=lambda n, package=None:
                             self._importer(n, {}, None, ('x',)))
        if not fromlist and '.' in name and name.split('.')[0] == 'urllib':
            raise ImportError(name)
        return shims.get(name, fromlist, self.py2)

    def model(self, name):
        """A library function written out in Python for the engine."""
        path = os.path.join(HERE, 'models', MODELS[name] + '.py')
        key = 'symx.models.' + MODELS[name]
        if key not in self.mods:
            m = types.ModuleType(key)
            m.__file__ = path
            with open(path) as f:
                tree = instrument.instrument(ast.parse(f.read(), path),
                                             key, False)
            m.__dict__['__builtins__'] = rt.make_builtins(False,
                                                          self._importer)
            self.mods[key] = m
            exec(compile(tree, path, 'exec'), m.__dict__)
        return self.mods[key]

    def inject(self, name, attrs):
        """A stand-in module made by a harness."""
        m = types.ModuleType(name)
        m.__dict__.update(attrs)
        self.stubs[name] = m
        return m

    def _known(self, top):
        return os.path.isdir(os.path.join(REPO, top))

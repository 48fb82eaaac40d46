# Concrete side of the harness interface: runs a harness on the real, unpatched
# code with concrete inputs.  Runs under Jython 2.7 and under Python 3.
#   replay.py HARNESS FN CASES.json OUT.json
import json
import os
import sys

REPO = os.environ.get('VERIF_REPO', '/repo')


class CheckFailed(Exception):
    pass


class AssumeFailed(Exception):
    pass


class NoHook(Exception):
    pass


def plain(v):
    """JSON text as native strings."""
    if isinstance(v, dict):
        return dict((plain(k), plain(x)) for k, x in v.items())
    if isinstance(v, list):
        return [plain(x) for x in v]
    if is_s(v) and not isinstance(v, (str, bytes, bytearray)):
        return str(v)
    return v


def unj(v):
    if isinstance(v, dict):
        if 's' in v:
            return ''.join([chr(c) for c in v['s']])
        return v
    if isinstance(v, list):
        return [unj(x) for x in v]
    return v


def is_s(v):
    if isinstance(v, str):
        return True
    try:
        return isinstance(v, unicode)
    except NameError:
        return isinstance(v, (bytes, bytearray))


def toj(v):
    if v is None or isinstance(v, bool):
        return v
    if is_s(v):
        return {'s': [c if isinstance(c, int) else ord(c) for c in v]}
    if isinstance(v, dict):
        return {'d': sorted([[toj(k), toj(x)] for k, x in v.items()],
                            key=jkey)}
    if isinstance(v, (set, frozenset)):
        return {'d': sorted([toj(k) for k in v], key=jkey)}
    if isinstance(v, float):
        return v
    try:
        n = v.__index__()
        return int(n)
    except AttributeError:
        pass
    return [toj(x) for x in v]


def jkey(x):
    return json.dumps(x, sort_keys=True)


class Conc(object):
    symbolic = False

    def __init__(self, vals, params, setup):
        self.vals = vals
        self.params = params
        self.observed = []
        self.py2 = sys.version_info[0] == 2
        self.shared = None

    fill = False

    def _get(self, name, default=None):
        if name not in self.vals:
            if self.fill and default is not None:
                return default
            raise AssumeFailed('input %s not in the replay' % name)
        return unj(self.vals[name])

    def int(self, name, lo, hi):
        if lo == hi:
            return lo
        v = self._get(name, lo)
        if not lo <= v <= hi:
            raise AssumeFailed(name)
        return int(v)

    def bool(self, name):
        return bool(self._get(name, True))

    def str(self, name, n, alphabet=None):
        v = self._get(name, (alphabet or 'abcdefgh')[0] * n) if n else self.vals.get(name) and \
            self._get(name) or ''
        if len(v) != n:
            raise AssumeFailed(name)
        return v

    def strup(self, name, lo, hi, alphabet=None):
        n = self.choice(name + '.len', list(range(lo, hi + 1)))
        return self.str(name, n, alphabet)

    def atom(self, name, lo, hi, lits=(), alphabet=None):
        lits = [x for x in lits if lo <= len(x) <= hi]
        return self._get(name, lits[0] if lits else
                         ((alphabet or 'a')[0] * lo))

    def choice(self, name, options):
        if len(options) == 1:
            return options[0]
        return options[self.int(name, 0, len(options) - 1)]

    def ints(self, name, n, lo, hi):
        return [self.int('%s%d' % (name, i), lo, hi) for i in range(n)]

    def assume(self, c):
        if not c:
            raise AssumeFailed('assume')

    def check(self, c, msg):
        if not c:
            raise CheckFailed(msg)

    def check_eq(self, a, b, msg):
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            ok = type(a) is type(b) and list(a) == list(b)
        else:
            ok = a == b
        if not ok:
            raise CheckFailed(msg)

    def fail(self, msg):
        raise CheckFailed(msg)

    def eq(self, a, b):
        return a == b

    def both(self, *xs):
        return all(xs)

    def either(self, *xs):
        return any(xs)

    def neg(self, x):
        return not x

    def ite(self, c, a, b):
        return a if c else b

    def truth(self, x):
        return bool(x)

    def concrete(self, x):
        return x

    def observe(self, name, v):
        self.observed.append([name, toj(v)])

    def cover(self, label):
        pass

    def load(self, name, fresh=False):
        if fresh:
            sys.modules.pop(name, None)
        __import__(name)
        return sys.modules[name]

    def script(self, name, argv, stdin, stdout):
        import runpy
        old = sys.argv, sys.stdin, sys.stdout
        sys.argv, sys.stdin, sys.stdout = [name + '.py'] + argv, stdin, stdout
        try:
            runpy.run_path(os.path.join(REPO, name + '.py'),
                           run_name='__main__')
        except SystemExit:
            pass
        finally:
            sys.argv, sys.stdin, sys.stdout = old

    def inject(self, name, attrs):
        import types
        m = types.ModuleType(name)
        m.__dict__.update(attrs)
        sys.modules[name] = m

    def dict(self, pairs):
        import collections
        return collections.OrderedDict(pairs)

    def skip(self):
        raise AssumeFailed('skip')

    def peek(self, obj, *names):
        for n in names:
            if hasattr(obj, n):
                return getattr(obj, n)
        raise NoHook(names[0])


def run_case(hmod, fn, case):
    S = Conc(case['inputs'], case['params'], None)
    S.fill = bool(case.get('fill'))
    setup = getattr(hmod, 'setup_' + fn, None) or getattr(hmod, 'setup', None)
    try:
        if setup is not None:
            S.shared = setup(S)
        getattr(hmod, fn)(S)
        return {'outcome': 'ok', 'observed': S.observed}
    except CheckFailed:
        e = sys.exc_info()[1]
        return {'outcome': 'violation', 'msg': str(e)}
    except NoHook:
        return {'outcome': 'ok', 'observed': S.observed}
    except AssumeFailed:
        e = sys.exc_info()[1]
        return {'outcome': 'assume', 'msg': str(e)}
    except Exception:
        import traceback
        e = sys.exc_info()[1]
        return {'outcome': 'exception', 'msg': '%s: %s' %
                (type(e).__name__, str(e)[:300]),
                'tb': traceback.format_exc()[-2000:]}


def load_harness(path):
    name = os.path.basename(path)[:-3]
    d = {'__name__': 'harness_' + name, '__file__': path}
    src = open(path).read()
    exec(compile(src, path, 'exec'), d)

    class M(object):
        pass
    m = M()
    for k, v in d.items():
        setattr(m, k, v)
    return m


def main(argv):
    cases = plain(json.load(open(argv[1])))
    sys.path.insert(0, REPO)
    out = []
    mods = {}
    real_stdout = sys.stdout
    for c in cases:
        h = c['harness']
        if c.get('roots'):
            for r in c['roots']:
                r = os.path.join(REPO, r)
                if r not in sys.path:
                    sys.path.insert(0, r)
        if h not in mods:
            mods[h] = load_harness(h)
        sys.stdout = sys.stderr
        try:
            out.append(run_case(mods[h], c['fn'], c))
        finally:
            sys.stdout = real_stdout
    f = open(argv[2], 'w')
    json.dump(out, f)
    f.close()


if __name__ == '__main__':
    main(sys.argv)

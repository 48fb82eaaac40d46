"""Runtime of the instrumented code: operators and builtins that accept
symbolic operands, with the semantics of the interpreter the module is written
for (PY2 per module for '/', otherwise shared)."""
import builtins as _b
import functools
import io
import types as _types

import z3

from . import core, strs
from .core import (SymBool, SymInt, Unsupported, and_, or_, not_, conc, ite,
                   mkbool, mkint, num)
from .strs import SymStr, is_str, mk, mkc
from .containers import (SDict, SSet, SDefaultDict, SOrderedDict, SCounter,
                         is_conc)

from .real import SymReal, SymRoot
SYM = (SymInt, SymBool, SymStr, SymReal, SymRoot)
FUNCS = set()


def enter_fn(q):
    FUNCS.add(q)


def tick(where):
    core.CTX.tick(where) if core.CTX is not None else None


# -- equality without forking --------------------------------------------
def eq(a, b):
    """Structural equality as bool or SymBool."""
    if a is b:
        return True
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        if isinstance(a, tuple) != isinstance(b, tuple):
            return False
        if len(a) != len(b):
            return False
        cs = []
        for x, y in zip(a, b):
            r = eq(x, y)
            if r is False:
                return False
            cs.append(r)
        return and_(*cs)
    if isinstance(a, SymBool) or isinstance(b, SymBool):
        if isinstance(b, SymBool):
            a, b = b, a
        return a == b
    if isinstance(a, (SymInt, SymStr)):
        r = a == b
    elif isinstance(b, (SymInt, SymStr)):
        r = b == a
    else:
        r = a == b
    if r is NotImplemented:
        return False
    return r if isinstance(r, (bool, SymBool)) else bool(r)


# -- table lookup ----------------------------------------------------------
def isnum(v):
    return isinstance(v, (int, SymInt)) and not isinstance(v, bool)


def mergeable(a, b):
    if isnum(a) and isnum(b):
        return True
    if isinstance(a, str) and isinstance(b, str):
        return len(a) == len(b) and len(a) == 1
    if type(a) is type(b) and isinstance(a, (tuple, list)) and \
            len(a) == len(b):
        return all(mergeable(x, y) for x, y in zip(a, b))
    return False


class MList(list):
    """A list obtained by merging: its identity is not that of any element of
    the table it came from, so it must not be mutated."""

    def _no(self, *a, **k):
        raise Unsupported('mutation of a merged list')
    append = extend = insert = pop = remove = sort = reverse = _no
    __setitem__ = __delitem__ = __iadd__ = __imul__ = _no


_MUX = {}


def mux(tab, idx):
    """tab[idx] for in-range symbolic idx >= 0 and mergeable entries."""
    t0 = tab[0]
    if isinstance(t0, (tuple, list)):
        r = [mux([t[k] for t in tab], idx) for k in range(len(t0))]
        return tuple(r) if isinstance(t0, tuple) else MList(r)
    if isinstance(t0, str):
        return mkc((strs.ch_of(mux([ord(t) for t in tab], idx)),))
    if isinstance(idx, int):
        return tab[idx]
    w = idx.e.size()
    n = min(1 << w, idx.hi + 1)
    vals = list(tab[:n])
    if len(vals) < n:
        vals += [vals[-1]] * (n - len(vals))
    lo = min(core.bounds(v)[0] for v in vals)
    hi = max(core.bounds(v)[1] for v in vals)
    if lo == hi:
        return lo
    concr = all(isinstance(v, int) for v in vals)
    key = None
    if concr:
        key = (tuple(vals), idx.e.get_id())
        r = _MUX.get(key)
        if r is not None and r[0].eq(idx.e):
            return r[1]
    ww = core.need(lo, hi)
    memo = {}

    def go(k, xs):
        x0 = xs[0]
        if concr and all(x == x0 for x in xs) or len(xs) == 1:
            return core.ext(x0, ww)
        if concr:
            m = memo.get((k, tuple(xs)))
            if m is not None:
                return m
        half = 1 << (k - 1)
        a = xs[:half]
        b = xs[half:]
        if not b:
            r = go(k - 1, a)
        else:
            r = z3.If(z3.Extract(k - 1, k - 1, idx.e) == 1,
                      go(k - 1, b), go(k - 1, a))
        if concr:
            memo[(k, tuple(xs))] = r
        return r
    r = mkint(go(w, vals), lo, hi)
    if key is not None and len(_MUX) < 20000:
        _MUX[key] = (idx.e, r)
    return r


def merge(c, a, b):
    """a if c else b, for mergeable a and b, without forking."""
    if not isinstance(c, SymBool):
        return a if c else b
    if isinstance(a, (tuple, list)):
        r = [merge(c, x, y) for x, y in zip(a, b)]
        return tuple(r) if isinstance(a, tuple) else MList(r)
    if isinstance(a, str):
        return mkc((strs.ch_of(ite(c, ord(a), ord(b))),))
    return ite(c, a, b)


def T(r):
    return r if isinstance(r, bool) else bool(r)


def getitem(o, i):
    if isinstance(i, (SymInt, SymBool)):
        if isinstance(i, SymBool):
            i = core.toint(i)
        if isinstance(o, (list, tuple)):
            return seq_at(o, i)
        if isinstance(o, str):
            return strs.char_at(o, i)
        if isinstance(o, dict):
            return SDict.pairs(o.items())[i]
    elif isinstance(i, slice):
        if isinstance(o, (str, SymStr)):
            return strs.slice_(o, i.start, i.stop, i.step)
        if isinstance(o, (bytes, bytearray)) and any(
                isinstance(x, SymInt) for x in (i.start, i.stop, i.step)):
            i = slice(*[None if x is None else conc(x)
                        for x in (i.start, i.stop, i.step)])
    elif isinstance(i, SymStr) and isinstance(o, dict):
        return SDict.pairs(o.items())[i]
    return o[i]


def seq_at(o, i):
    n = len(o)
    if i.lo < -n or i.hi >= n:
        if not T(and_(i >= -n, i < n)):
            raise IndexError('list index out of range')
    if i.lo < 0:
        if T(i < 0):
            i = i + n
    if isinstance(i, int):
        return o[i]
    lo, hi = max(0, i.lo), min(n - 1, i.hi)
    cand = o[lo:hi + 1]
    if len(cand) > 1 and all(mergeable(x, cand[0]) for x in cand[1:]):
        if lo:
            cand = [cand[0]] * lo + list(cand)
        return mux(list(cand), i)
    return o[conc(i)]


def contains(o, x):
    if isinstance(o, (SDict, SSet)):
        return x in o
    if is_str(o):
        if is_str(x):
            r = strs.contains(o, x)
            return T(r)
        raise TypeError("'in <string>' requires string as left operand")
    if isinstance(o, (dict, set, frozenset)):
        if is_conc(x):
            return x in o
        for k in o:
            if T(eq(x, k)):
                return True
        return False
    if isinstance(o, (list, tuple)):
        if not is_conc(x) or not all(is_conc(y) for y in o):
            r = or_(*[eq(x, y) for y in o])
            return T(r)
        return x in o
    if isinstance(o, range) and not is_conc(x):
        return any(T(x == y) for y in o)
    return x in o


# -- arithmetic -------------------------------------------------------------
def div(a, b):
    """Python 2 '/'."""
    if isinstance(a, (int, SymInt, SymBool)) and \
            isinstance(b, (int, SymInt, SymBool)):
        return num(a) // num(b)
    return a / b


def cmp2(op, a, b):
    try:
        if op == 'Lt':
            return a < b
        if op == 'LtE':
            return a <= b
        if op == 'Gt':
            return a > b
        return a >= b
    except TypeError:
        c = py2_order(a, b)
        return {'Lt': c < 0, 'LtE': c <= 0, 'Gt': c > 0, 'GtE': c >= 0}[op]


def py2_order(a, b):
    if a is None or b is None:
        return (a is not None) - (b is not None)
    num_ = (int, float, SymInt, SymBool)
    if isinstance(a, SDict) and isinstance(b, SDict):
        if len(a) != len(b):
            return -1 if len(a) < len(b) else 1
        for k, j in zip(sorted_(a.keys()), sorted_(b.keys())):
            c = cmp_deep(k, j) or cmp_deep(a[k], b[j])
            if c:
                return c
        return 0
    na = '' if isinstance(a, num_) else _tname(a)
    nb = '' if isinstance(b, num_) else _tname(b)
    if na == nb:
        raise Unsupported('ordering of %s' % na)
    return -1 if na < nb else 1


def _tname(a):
    if is_str(a):
        return 'str'
    if isinstance(a, SDict):
        return 'dict'
    return type(a).__name__


def cmp(a, b):
    if T(eq(a, b)):
        return 0
    return -1 if T(cmp2('Lt', a, b)) else 1


# -- formatting --------------------------------------------------------------
def has_sym(x):
    if isinstance(x, SYM):
        return True
    if isinstance(x, (tuple, list)):
        return any(has_sym(y) for y in x)
    if isinstance(x, (SDict, SSet)):
        return True
    return False


def mod(a, b):
    if isinstance(a, SymStr):
        a = mkc(strs.chars_of(a))
        if isinstance(a, SymStr):
            raise Unsupported('symbolic format string')
    if isinstance(a, str):
        if not has_sym(b):
            return a % b
        return fmt_percent(a, b)
    if isinstance(a, bool) and isinstance(b, SymInt):
        a = int(a)
    return a % b


def fmt_percent(f, args):
    import re
    seq = args if isinstance(args, tuple) else (args,)
    out = []
    pos = k = 0
    for m in re.finditer(r'%(\([^)]*\))?([-+ #0]*)(\d+|\*)?(?:\.(\d+))?'
                         r'([diouxXeEfFgGcrsa%])', f):
        out.append(f[pos:m.start()])
        pos = m.end()
        key, flags, width, prec, conv = m.groups()
        if conv == '%':
            out.append('%')
            continue
        if key:
            v = getitem(args, key[1:-1])
        else:
            if k >= len(seq):
                raise TypeError('not enough arguments for format string')
            v = seq[k]
            k += 1
        if not has_sym(v):
            out.append(m.group(0) % v if not key else
                       ('%' + m.group(0)[m.group(0).index(')') + 1:]) % v)
            continue
        if conv == 'c':
            s = v if is_str(v) else chr_(v)
        elif conv in 's':
            s = str_(v)
        elif conv == 'r':
            s = repr_(v)
        elif conv in 'di':
            s = dec(num(v))
        elif conv in 'xX':
            s = hexdigits(num(v), 0)
            if conv == 'X':
                s = strs.m_upper(s)
        elif conv in 'fF':
            s = fixed(v, int(prec) if prec else 6)
        else:
            raise Unsupported('%%%s of symbolic value' % conv)
        if width:
            w = int(width)
            if '-' in flags:
                s = strs.m_ljust(s, w)
            elif '0' in flags and conv in 'dixX':
                s = strs.m_zfill(s, w)
            else:
                s = strs.m_rjust(s, w)
        out.append(s)
    out.append(f[pos:])
    if not isinstance(args, (tuple, dict, SDict)) and k == 0 and '%' in f:
        pass
    elif isinstance(args, tuple) and k < len(seq):
        raise TypeError('not all arguments converted during string '
                        'formatting')
    return strs.m_join('', out)


def dec(v):
    if isinstance(v, int):
        return str(v)
    if v.lo < 0:
        if T(v < 0):
            return '-' + dec(-v)
    n = 1
    while T(v >= 10 ** n):
        n += 1
        if n > 40:
            raise Unsupported('decimal')
    ds = []
    for i in range(n - 1, -1, -1):
        d = (v // 10 ** i) % 10 if i else v % 10
        ds.append(strs.ch_of(d + 48))
    return mkc(ds)


def fixed(v, prec):
    from . import real
    q, neg = real.fixed(v if isinstance(v, (SymReal, SymRoot)) else num(v),
                        prec)
    s = dec(q)
    if prec:
        s = strs.m_zfill(s, prec + 1)
        n = len_(s) - prec
        s = getitem(s, slice(None, n)) + '.' + getitem(s, slice(n, None))
    return '-' + s if neg else s


def hexdigits(v, mn):
    if isinstance(v, int):
        return '%x' % v
    if v.lo < 0:
        if T(v < 0):
            raise Unsupported('hex of negative')
    n = 1
    while T(v >= 16 ** n):
        n += 1
    ds = []
    for i in range(n - 1, -1, -1):
        d = (v >> (4 * i)) & 15
        ds.append(strs.ch_of(ite(T_(d < 10), d + 48, d + 87)))
    return mkc(ds)


def T_(x):
    return x


def fmt(v, conversion, spec):
    if isinstance(spec, SymStr):
        raise Unsupported('format spec')
    if not has_sym(v):
        if conversion == ord('r'):
            v = _b.repr(v)
        elif conversion == ord('s'):
            v = _b.str(v)
        return _b.format(v, spec)
    if conversion == ord('r'):
        return repr_(v)
    if not spec:
        return str_(v)
    import re
    m = re.match(r'^([<>^])?(0)?(\d+)?(?:\.(\d+))?([dfsnxX])?$', spec)
    if not m:
        raise Unsupported('format spec ' + spec)
    al, zero, width, prec, ty = m.groups()
    if ty == 'f':
        s = fixed(v, int(prec) if prec else 6)
    elif ty in ('d', 'n'):
        s = dec(num(v))
    elif ty in ('x', 'X'):
        s = hexdigits(num(v), 0)
        s = strs.m_upper(s) if ty == 'X' else s
    elif prec is None:
        s = str_(v)
    else:
        raise Unsupported('format spec ' + spec)
    if width:
        isnum_ = not is_str(v)
        if zero and isnum_:
            s = strs.m_zfill(s, int(width))
        elif al == '^':
            raise Unsupported('format spec ' + spec)
        elif al == '>' or (al is None and isnum_):
            s = strs.m_rjust(s, int(width))
        else:
            s = strs.m_ljust(s, int(width))
    return s


def fjoin(parts):
    return strs.m_join('', parts)


# -- method calls with possibly symbolic arguments -----------------------
def callm(o, m, *a, **k):
    if isinstance(o, str):
        if m == 'decode':
            e = str(a[0] if a else k.get('encoding', 'ascii')).lower()
            if e == 'hex':
                return bytes.fromhex(o).decode('latin-1')
            if e.replace('_', '-') in ('utf-8', 'utf8', 'ascii'):
                return o.encode('latin-1').decode(e, *a[1:])
            return o
        if m == 'encode':
            # bytes are modelled as latin-1 text
            e = str(a[0] if a else k.get('encoding', 'utf-8')).lower()
            if e == 'hex':
                return strs.METHODS['encode'](SymStr(strs.segs_of(o)), *a)
            return o.encode(*a, **k).decode('latin-1')
        if m == 'join':
            if len(a) == 1:
                x = list(a[0])
                if any(isinstance(y, SymStr) for y in x):
                    return strs.m_join(o, x)
                return o.join(x)
        elif m == 'format':
            if has_sym(a) or has_sym(tuple(k.values())):
                return format_(o, a, k)
        elif any(isinstance(x, (SymStr, SymInt)) or
                 isinstance(x, tuple) and has_sym(x) for x in a):
            f = strs.METHODS.get(m)
            if f is None:
                raise Unsupported('str.%s' % m)
            return f(SymStr(strs.segs_of(o)), *a, **k)
    elif isinstance(o, list) and m == 'sort':
        return sort_(o, *a, **k)
    return getattr(o, m)(*a, **k)


def format_(f, a, k):
    import string
    out = []
    n = 0
    for lit, field, spec, conv in string.Formatter().parse(f):
        out.append(lit)
        if field is None:
            continue
        if field == '':
            v = a[n]
            n += 1
        elif field.isdigit():
            v = a[int(field)]
        elif field.isidentifier():
            v = k[field]
        else:
            raise Unsupported('format field')
        out.append(fmt(v, ord(conv) if conv else -1, spec))
    return strs.m_join('', out)


def sort_(l, cmp=None, key=None, reverse=False):
    l[:] = sorted_(l, cmp, key, reverse)


def sorted_(it, cmp=None, key=None, reverse=False):
    if cmp is not None and key is None:
        key = functools.cmp_to_key(lambda a, b: conc(cmp(a, b)))
    elif cmp is not None:
        k0 = key
        kk = functools.cmp_to_key(lambda a, b: conc(cmp(a, b)))
        key = lambda x: kk(k0(x))
    xs = list(it)
    try:
        return _b.sorted(xs, key=key, reverse=reverse)
    except TypeError:
        if cmp is not None:
            raise
        c2 = functools.cmp_to_key(globals()['cmp_deep'])
        k1 = key or (lambda x: x)
        return _b.sorted(xs, key=lambda x: c2(k1(x)), reverse=reverse)


def cmp_deep(a, b):
    if isinstance(a, (tuple, list)) and type(a) is type(b):
        for x, y in zip(a, b):
            c = cmp_deep(x, y)
            if c:
                return c
        return (len(a) > len(b)) - (len(a) < len(b))
    if isinstance(a, SDict) and isinstance(b, SDict):
        return py2_order(a, b)
    return cmp(a, b)


# -- builtins ---------------------------------------------------------------
class _Fake(type):
    """A stand-in for a builtin type: callable, usable in isinstance and ==."""

    def __call__(cls, *a, **k):
        return cls._call(*a, **k)

    def __instancecheck__(cls, x):
        return isinstance(x, cls._inst)

    def __subclasscheck__(cls, c):
        return c is cls or isinstance(c, type) and \
            issubclass(c, cls._native)

    def __eq__(cls, o):
        return o is cls or o is cls._native

    def __ne__(cls, o):
        return not cls == o

    def __hash__(cls):
        return hash(cls._native)

    def __getattr__(cls, nm):
        f = strs.METHODS.get(nm) if cls._native is str else None
        if f is not None:
            return lambda s, *a, **k: callm(s, nm, *a, **k) if \
                isinstance(s, str) else f(s, *a, **k)
        return getattr(cls._native, nm)

    def __repr__(cls):
        return repr(cls._native)


def str_(x='', *a):
    if isinstance(x, SymStr):
        return x
    if isinstance(x, SymInt):
        return dec(x)
    if isinstance(x, SymBool):
        return str(bool(x))
    if isinstance(x, (list, tuple, SDict)) and has_sym(x):
        return repr_(x)
    if a and isinstance(x, (bytes, bytearray)):
        return _b.str(x, *a)
    for nm in ('__str__', '__repr__'):
        r = own(x, nm)
        if r is not MISSING:
            return r
        if nm in type(x).__dict__:
            break
    return _b.str(x)


MISSING = object()


def own(x, nm):
    """A special method the code under test defines, called without the
    checks of CPython on the type of its result."""
    f = getattr(type(x), nm, None)
    if isinstance(f, _types.FunctionType) and \
            not f.__module__.startswith('symx'):
        return f(x)
    return MISSING


def int_(x=0, *a):
    if isinstance(x, SymInt):
        return x
    if isinstance(x, SymBool):
        return core.toint(x)
    if isinstance(x, SymStr):
        base = a[0] if a else 10
        s = strs.m_strip(x)
        cs = list(strs.chars_of(s))
        if not cs:
            raise ValueError('invalid literal for int()')
        neg = False
        if T(strs.ch_eq(cs[0], 45)):
            neg = True
            cs = cs[1:]
        elif T(strs.ch_eq(cs[0], 43)):
            cs = cs[1:]
        if not cs:
            raise ValueError('invalid literal for int()')
        v = 0
        for c in cs:
            ci = strs.ch_int(c)
            if base == 10:
                if not T(and_(ci >= 48, ci <= 57)):
                    if T(ci == 95):
                        raise Unsupported('underscore in int')
                    raise ValueError('invalid literal for int()')
                d = ite(mkbool_(ci >= 48), ci - 48, 0)
                d = clamp(d, 0, 9)
            elif base == 16:
                dg = and_(ci >= 48, ci <= 57)
                up = and_(ci >= 65, ci <= 70)
                lw = and_(ci >= 97, ci <= 102)
                if not T(or_(dg, up, lw)):
                    raise ValueError('invalid literal for int()')
                d = clamp(ite(dg, ci - 48, ite(up, ci - 55, ci - 87)), 0, 15)
            else:
                raise Unsupported('int base')
            v = v * base + d
        return -v if neg else v
    if isinstance(x, core.SymInt):
        return x
    from .real import SymReal
    if isinstance(x, SymReal):
        return x.trunc()
    return _b.int(x, *a)


def mkbool_(x):
    return x


def clamp(x, lo, hi):
    """x is known to lie in [lo, hi] on this path: narrow its interval."""
    if isinstance(x, int):
        return x
    w = core.need(lo, hi)
    return mkint(x.ext(w), lo, hi)


def bool_(x=False):
    if isinstance(x, SymBool):
        return x
    if isinstance(x, SymInt):
        return x != 0
    return _b.bool(x)


def float_(x=0.0):
    from .real import SymReal, mk as mkreal
    if isinstance(x, (SymInt, SymReal)):
        return mkreal(x)
    return _b.float(x)


class Str(metaclass=_Fake):
    _native = str
    _inst = (str, SymStr)
    _call = staticmethod(str_)


class Int(metaclass=_Fake):
    _native = int
    _inst = (int, SymInt, SymBool)
    _call = staticmethod(int_)


class Bool(metaclass=_Fake):
    _native = bool
    _inst = (bool, SymBool)
    _call = staticmethod(bool_)


class Float(metaclass=_Fake):
    _native = float
    _inst = (float,)
    _call = staticmethod(float_)


class Unicode(metaclass=_Fake):
    """Python 2 unicode: never the type of a (byte) string."""
    _native = type('unicode', (), {})
    _inst = ()
    _call = staticmethod(str_)


def type_(*a):
    if len(a) != 1:
        return _b.type(*a)
    x = a[0]
    if is_str(x):
        return Str
    if isinstance(x, (bool, SymBool)):
        return Bool
    if isinstance(x, (int, SymInt)):
        return Int
    if isinstance(x, float):
        return Float
    if isinstance(x, MList):
        return list
    return _b.type(x)


def len_(x):
    if isinstance(x, SymStr):
        return strs.length(x)
    r = own(x, '__len__')
    return len(x) if r is MISSING else r


def ord_(c):
    if isinstance(c, SymStr):
        cs = c.norm()
        if len(cs) == 1 and isinstance(cs[0], tuple):
            cs = cs[0]
        else:
            cs = strs.chars_of(c)
        if len(cs) != 1:
            raise TypeError('ord() expected a character, but string of '
                            'length %d found' % len(cs))
        return strs.ch_int(cs[0])
    if isinstance(c, str) and len(c) != 1:
        raise TypeError('ord() expected a character')
    return ord(c)


def chr_(i):
    if isinstance(i, SymBool):
        i = core.toint(i)
    if isinstance(i, SymInt):
        if i.lo < 0 or i.hi > 255:
            if not T(and_(i >= 0, i <= 255)):
                raise ValueError('chr() arg not in range(256)')
        return mkc((strs.ch_of(i),))
    if not 0 <= i < 256:
        raise ValueError('chr() arg not in range(256)')
    return chr(i)


def chr3(i):
    if isinstance(i, SymInt):
        return chr_(i)
    return chr(i)


def range2(*a):
    return list(xrange_(*a))


def xrange_(*a):
    if not any(isinstance(x, (SymInt, SymBool)) for x in a):
        return range(*a)
    return _range_gen(*a)


def _range_gen(*a):
    if len(a) == 1:
        lo, hi, st = 0, a[0], 1
    else:
        lo, hi = a[0], a[1]
        st = a[2] if len(a) > 2 else 1
    st = conc(st)
    if st == 0:
        raise ValueError('range() arg 3 must not be zero')
    i = lo
    while T(i < hi if st > 0 else i > hi):
        tick('range')
        yield i
        i = i + st


def map2(f, *its):
    if f is None:
        return [x[0] if len(x) == 1 else x for x in zip(*its)]
    n = max(len(list(i)) for i in its) if len(its) > 1 else 0
    if len(its) == 1:
        return [f(x) for x in its[0]]
    ls = [list(i) for i in its]
    return [f(*[l[i] if i < len(l) else None for l in ls]) for i in range(n)]


def filter2(f, it):
    r = [x for x in it if (f(x) if f else x)]
    if is_str(it):
        return strs.m_join('', r)
    if isinstance(it, tuple):
        return tuple(r)
    return r


def zip2(*a):
    return list(zip(*a))


def _minmax(name):
    native = getattr(_b, name)
    isless = name == 'min'

    def f(*a, **k):
        key = k.get('key')
        xs = list(a[0]) if len(a) == 1 else list(a)
        if not any(isinstance(x, SymInt) for x in xs) or key is not None or \
                not all(isinstance(x, (int, SymInt)) for x in xs):
            return native(*a, **k)
        r = xs[0]
        for x in xs[1:]:
            c = x < r if isless else x > r
            r = ite(c, x, r)
        return r
    return f


def abs_(x):
    return abs(x)


def sum_(it, start=0):
    r = start
    for x in it:
        r = r + x
    return r


def repr_(x):
    if isinstance(x, SymStr):
        return mk(((39,),) + strs.segs_of(x) + ((39,),))
    if isinstance(x, SymInt):
        return dec(x)
    if isinstance(x, (list, tuple)) and has_sym(x):
        o, c = ('[', ']') if isinstance(x, list) else ('(', ')')
        return strs.m_join('', [o, strs.m_join(', ', [repr_(y) for y in x]),
                                c])
    r = own(x, '__repr__')
    return _b.repr(x) if r is MISSING else r


def hash_(x):
    from . import containers
    if containers.JYTHON and (is_str(x) or isinstance(x, (int, SymInt))):
        # that of the JVM
        if not is_str(x):
            return x
        h = 0
        for c in strs.chars_of(x):
            h = h * 31 + strs.ch_int(c)
            if core.bounds(h)[1] >= 1 << 40:
                h = h & 0xffffffff
        if core.bounds(h)[1] >= 1 << 31:
            h = ((h + (1 << 31)) & 0xffffffff) - (1 << 31)
        return h
    if is_conc(x) and not containers.JYTHON and not is_str(x):
        return hash(x)
    raise Unsupported('hash()')


def hex_(x):
    if isinstance(x, SymInt):
        return '0x' + hexdigits(x, 0)
    return hex(x)


def isinstance_(x, t):
    if isinstance(t, tuple):
        return any(isinstance_(x, u) for u in t)
    if t is list:
        return isinstance(x, list)
    if t is dict or t is SDict:
        return isinstance(x, (dict, SDict))
    if t in (set, SSet):
        return isinstance(x, (set, SSet))
    return isinstance(x, t)


def divmod_(a, b):
    return (a // b, a % b)


def pow_(a, b, *m):
    if m:
        return pow(conc(a), conc(b), conc(m[0]))
    return a ** b


def reduce_(f, it, *a):
    return functools.reduce(f, it, *a)


def any_(it):
    for x in it:
        if x:
            return True
    return False


def all_(it):
    for x in it:
        if not x:
            return False
    return True


def reversed_(x):
    if isinstance(x, SymStr):
        return iter(list(x)[::-1])
    return reversed(x)


def bytes2(x=''):
    return str_(x)


def print_(*a, **k):
    from . import shims
    f = k.get('file') or shims.SYS.stdout
    if isinstance(f, shims.Dummy):
        return None
    out = ''
    for i, x in enumerate(a):
        out = out + ('' if i == 0 else k.get('sep', ' ')) + str_(x)
    f.write(out + k.get('end', '\n'))
    if k.get('flush'):
        f.flush()


def bytearray_(x=(), *a):
    if isinstance(x, SymStr):
        return [strs.ch_int(c) for c in strs.chars_of(x)]
    if isinstance(x, (list, tuple)) and has_sym(x):
        return list(x)
    if isinstance(x, str) and not a:
        return [ord(c) for c in x]
    return _b.bytearray(x, *a)


def mkdict(ps):
    return SDict.pairs(ps)


RT = {
    '__enter_fn__': enter_fn, '__tick__': tick, '__div__': div,
    '__mod__': mod, '__getitem__': getitem, '__contains__': contains,
    '__callm__': callm, '__mkdict__': mkdict, '__cmp2__': cmp2,
    '__fmt__': fmt, '__fjoin__': fjoin, '__print__': print_,
}


def make_builtins(py2, importer):
    d = dict(vars(_b))
    d.update(RT)
    d.update({
        '__import__': importer, 'str': Str, 'int': Int, 'bool': Bool,
        'float': Float, 'type': type_, 'len': len_, 'ord': ord_,
        'dict': SDict, 'set': SSet, 'frozenset': SSet, 'sorted': sorted_,
        'min': _minmax('min'), 'max': _minmax('max'), 'sum': sum_,
        'repr': repr_, 'hash': hash_, 'hex': hex_, 'divmod': divmod_,
        'isinstance': isinstance_, 'print': print_, 'pow': pow_,
        'any': any_, 'all': all_, 'reversed': reversed_,
        'bytearray': bytearray_,
    })
    if py2:
        d.update({
            'chr': chr_, 'unichr': chr_, 'range': range2, 'xrange': xrange_,
            'map': map2, 'filter': filter2, 'zip': zip2, 'cmp': cmp,
            'long': Int, 'StandardError': Exception,
            'basestring': Str, 'unicode': Unicode,
            'reduce': reduce_, 'bytes': Str, 'raw_input': input,
            'intern': lambda x: x, 'apply': lambda f, a=(), k={}: f(*a, **k),
            'file': open,
        })
    else:
        d.update({'chr': chr3, 'range': xrange_})
    return d

"""Exact rationals over symbolic integers (for ratios and averages).

Floating-point rounding is not modelled: comparisons of values that differ
only by rounding are outside what is checked."""
from fractions import Fraction

import z3

from . import core
from .core import SymBool, SymInt, Unsupported


class SymReal(object):
    __slots__ = ('n', 'd')

    def __init__(self, n, d):
        self.n = n
        self.d = d

    def _bin(self, o, f):
        o = mk(o, None)
        if o is None:
            return NotImplemented
        return f(self, o)

    def __add__(self, o):
        return self._bin(o, lambda a, b: norm(a.n + b.n, a.d)
                         if same(a.d, b.d) else
                         norm(a.n * b.d + b.n * a.d, a.d * b.d))
    __radd__ = __add__

    def __neg__(self):
        return SymReal(-self.n, self.d)

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a + (-b))

    def __rsub__(self, o):
        return (-self) + o

    def __mul__(self, o):
        return self._bin(o, lambda a, b: norm(a.n * b.n, a.d * b.d))
    __rmul__ = __mul__

    def __truediv__(self, o):
        return self._bin(o, quot)
    __div__ = __truediv__

    def __rtruediv__(self, o):
        return self._bin(o, lambda a, b: quot(b, a))

    def __pow__(self, k):
        if k == 0.5:
            return sqrt(self)
        r = 1
        for _ in range(k):
            r = self * r
        return r

    def __lt__(self, o):
        return self._bin(o, lambda a, b: a.n * b.d < b.n * a.d)

    def __le__(self, o):
        return self._bin(o, lambda a, b: a.n * b.d <= b.n * a.d)

    def __gt__(self, o):
        return self._bin(o, lambda a, b: a.n * b.d > b.n * a.d)

    def __ge__(self, o):
        return self._bin(o, lambda a, b: a.n * b.d >= b.n * a.d)

    def __eq__(self, o):
        r = self._bin(o, lambda a, b: _eq(a.n * b.d, b.n * a.d))
        return False if r is NotImplemented else r

    def __ne__(self, o):
        return core.not_(self == o)

    def __bool__(self):
        r = self.n != 0
        return r if isinstance(r, bool) else bool(r)

    def __hash__(self):
        raise Unsupported('hash of a symbolic real')

    def __abs__(self):
        return self if self >= 0 else -self

    def floor(self):
        return self.n // conc_den(self.d)

    def ceil(self):
        return -((-self.n) // conc_den(self.d))

    def trunc(self):
        neg = self.n < 0
        neg = neg if isinstance(neg, bool) else bool(neg)
        return self.ceil() if neg else self.floor()

    def __float__(self):
        raise Unsupported('float of symbolic real')

    def __repr__(self):
        return 'SymReal'


def conc_den(d):
    return core.conc(d)


def _eq(a, b):
    r = a == b
    return r


def same(a, b):
    return a is b or (isinstance(a, int) and isinstance(b, int) and a == b)


def norm(n, d):
    if isinstance(n, int) and isinstance(d, int):
        return float(Fraction(n, d))
    return SymReal(n, d)


def quot(a, b):
    z = b.n == 0
    if z is True or (isinstance(z, SymBool) and bool(z)):
        raise ZeroDivisionError('float division by zero')
    neg = b.n < 0
    neg = neg if isinstance(neg, bool) else bool(neg)
    n, d = a.n * b.d, a.d * b.n
    if neg:
        n, d = -n, -d
    return norm(n, d)


def mk(x, bad=Unsupported):
    if isinstance(x, SymReal):
        return x
    if isinstance(x, bool):
        x = int(x)
    if isinstance(x, int):
        return SymReal(x, 1)
    if isinstance(x, SymBool):
        x = core.toint(x)
    if isinstance(x, SymInt):
        return SymReal(x, 1)
    if isinstance(x, float):
        f = Fraction(x)
        if f.denominator > 1 << 20:
            f = Fraction(repr(x))    # the decimal that was written
        return SymReal(f.numerator, f.denominator)
    if bad is None:
        return None
    raise bad('real arithmetic')


class SymRoot(object):
    """The square root of a non-negative rational."""

    def __init__(self, r):
        self.r = r

    def __pow__(self, k):
        if k == 2:
            return self.r
        raise Unsupported('power of a root')

    def __mul__(self, o):
        if o is self:
            return self.r
        raise Unsupported('product with a root')
    __rmul__ = __mul__

    def __lt__(self, o):
        raise Unsupported('order of a root')
    __le__ = __gt__ = __ge__ = __lt__

    def __eq__(self, o):
        if isinstance(o, SymRoot):
            return self.r == o.r
        if isinstance(o, (int, float)) and o == 0:
            return self.r == 0
        raise Unsupported('comparison of a root')

    def __ne__(self, o):
        return core.not_(self == o)

    def __hash__(self):
        raise Unsupported('hash of a symbolic real')


def sqrt(x):
    if isinstance(x, (int, float)):
        import math
        return math.sqrt(x)
    r = mk(x)
    neg = r.n < 0
    if neg is True or (isinstance(neg, SymBool) and bool(neg)):
        raise ValueError('math domain error')
    return SymRoot(r)


def _key(v):
    return v if isinstance(v, int) else v.e.get_id()


def fixed(x, prec):
    """round(|x| * 10**prec) as an integer, and whether x is negative.  The
    ties are left out (there the printed digit depends on binary rounding)."""
    c = core.CTX
    root = isinstance(x, SymRoot)
    r = x.r if root else mk(x)
    neg = r.n < 0
    neg = neg if isinstance(neg, bool) else bool(neg)
    n, d = (-r.n if neg else r.n), r.d
    cache = c.__dict__.setdefault('fixedcache', {})
    k = (root, _key(n), _key(d), prec)
    if k in cache:
        return cache[k][0], neg
    m = 10 ** prec
    nhi = n if isinstance(n, int) else n.hi
    import math
    dlo = d if isinstance(d, int) else max(1, d.lo)
    hi = nhi * m // dlo + 1
    if root:
        hi = (math.isqrt(nhi // dlo) + 2) * m
    q = SymInt(c.fresh('fix', core.need(0, hi)), 0, hi)
    c.assume(z3.ULE(q.e, hi))
    if root:
        up = (q * 2 + 1) * (q * 2 + 1) * d
        dn = (q * 2 - 1) * (q * 2 - 1) * d
        t = n * (4 * m * m)
        conds = [t < up, core.or_(q == 0, t > dn)]
    else:
        t = n * (2 * m)
        conds = [t < (q * 2 + 1) * d, t > (q * 2 - 1) * d]
    for z in conds:
        if z is False:
            raise core.BoundOut('rounding tie')
        if isinstance(z, SymBool):
            c.assume(z.e)
    cache[k] = (q, n, d)
    return q, neg

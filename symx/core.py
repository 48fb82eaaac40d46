"""Path context, symbolic booleans and symbolic (mathematical) integers.

A run of a harness explores one path.  Every symbolic condition that reaches a
Python truth test is decided by Ctx.branch(): the solver is asked which sides
are feasible under the path condition; when both are, the other side is queued
as a new path.  Integers are exact: a SymInt is a bit-vector term together with
an interval, and every operation widens the term so that it cannot wrap.
"""
import z3

BV = z3.BitVec
MAXW = 4096


class Engine(BaseException):
    """Engine control flow: never visible to the code under test."""


class Infeasible(Engine):
    pass


class Unsupported(Engine):
    pass


class BoundOut(Engine):
    pass


class Unknown(Engine):
    pass


class Violated(Engine):
    def __init__(self, msg, model=None):
        Engine.__init__(self, msg)
        self.msg = msg
        self.model = model


class StepLimit(Engine):
    pass


STATS = {'queries': 0, 'solver_s': 0.0, 'branches': 0, 'forks': 0,
         'checks': 0, 'checks_const': 0}

import time as _time

CTX = None


def set_ctx(c):
    global CTX
    CTX = c


RLIMIT = 400 * 1000 * 1000


class SharedSolver(object):
    """One incremental solver per process.  Consecutive paths share a prefix
    of constraints; only the difference is retracted and asserted."""

    def __init__(self):
        self.s = None
        self.stack = []

    def sync(self, cons, ids):
        if self.s is None:
            self.s = z3.SimpleSolver()
            self.s.set('relevancy', 0)
            self.s.set('rlimit', RLIMIT)
            self.stack = []
            self.ids = []
        st = self.ids
        n = 0
        m = min(len(st), len(ids))
        # (terms on the stack stay alive, so an id names one term)
        while n < m and st[n] == ids[n]:
            n += 1
        if n < len(st):
            self.s.pop(len(st) - n)
            del st[n:]
            del self.stack[n:]
        for c, i in zip(cons[n:], ids[n:]):
            self.s.push()
            self.s.add(c)
            st.append(i)
            self.stack.append(c)
        return self.s


SOLVER_LOGIC = 'QF_BV'
SOLVER = SharedSolver()


class Ctx(object):
    def __init__(self, prefix=(), max_steps=200000, inputs=None):
        self.prefix = list(prefix)
        self.pos = 0
        self.trace = []
        self.alts = []
        self.cons = []
        self.cids = []
        self.model = None
        self.memo = {}
        self.implied = []
        self.keep = []
        self.steps = 0
        self.max_steps = max_steps
        self.loop = {}
        self.inputs = []        # (name, kind, value)
        self.names = set()
        self.observed = []
        self.atoms = []
        self.lits = {}
        self.covers = {}
        self.nv = 0
        self.notes = set()

    # -- solver access
    def query(self, *cs):
        STATS['queries'] += 1
        t = _time.time()
        solver = SOLVER.sync(self.cons, self.cids)
        r = solver.check(*cs)
        STATS['solver_s'] += _time.time() - t
        if r == z3.unknown:
            raise Unknown('solver: ' + solver.reason_unknown())
        if r == z3.sat:
            self.model = solver.model()
            return True
        return False

    def add(self, c):
        self.cons.append(c)
        self.cids.append(c.get_id())
        if self.model is not None and not z3.is_true(
                self.model.eval(c, model_completion=True)):
            self.model = None

    def fresh(self, name, w):
        self.nv += 1
        return z3.BitVec('%s!%d' % (name, self.nv), w)

    def get_model(self):
        if self.model is None:
            if not self.query():
                raise Infeasible()
        return self.model

    def _eval(self, c):
        """Value of c in a model of the path condition."""
        return z3.is_true(self.get_model().eval(c, model_completion=True))

    def branch(self, c):
        # Every call takes one entry of the trace, also when the answer is
        # known: what simplification and the memo can tell may depend on the
        # numbering of terms, and so differ when the path is re-executed.
        STATS['branches'] += 1
        c = z3.simplify(c)
        if self.pos < len(self.prefix):
            d = self.take(0, 3)
            r = bool(d & 1)
            if d >= 2:
                if z3.is_true(c) or z3.is_false(c):
                    raise Unsupported('re-execution diverged')
                self.add(c if r else z3.Not(c))
            else:
                self.implied.append((c, r))
            self.learn(c, r)
            return r
        if self.implied:
            self.same_run()
        if z3.is_true(c):
            r = True
        elif z3.is_false(c):
            r = False
        else:
            r = self.memo.get(c.get_id())
        if r is not None:
            self.trace.append(int(r))
            self.pos += 1
            return r
        t = self._eval(c)
        m = self.model
        other = self.query(z3.Not(c)) if t else self.query(c)
        if t:
            self.model = m
        if not other:
            r = t
            d = int(t)
            # the failed query leaves the cached model untouched
        else:
            STATS['forks'] += 1
            r = True
            d = 3
            self.alts.append(self.trace + [2])
            self.add(c)
        self.trace.append(d)
        self.pos += 1
        self.learn(c, r)
        return r

    def learn(self, c, r):
        self.keep.append(c)
        self.memo[c.get_id()] = r
        nc = z3.simplify(z3.Not(c))
        self.keep.append(nc)
        self.memo[nc.get_id()] = not r

    def take(self, lo, hi):
        d = self.prefix[self.pos]
        if not isinstance(d, int) or not lo <= d <= hi:
            raise Unsupported('re-execution diverged')
        self.pos += 1
        self.trace.append(d)
        return d

    def same_run(self):
        """Decisions taken over from the first execution of the prefix still
        follow from the path condition."""
        last = self.implied[-6:]
        self.implied = []
        for c, r in last:
            if self._eval(c) != r:
                raise Unsupported('re-execution diverged')

    def must(self, c):
        """Is c implied by the path condition?  (No fork.)"""
        c = z3.simplify(c)
        if self.pos < len(self.prefix):
            return self.take(4, 5) == 5
        if z3.is_true(c):
            r = True
        elif z3.is_false(c):
            r = False
        else:
            r = self.memo.get(c.get_id())
        if r is not None:
            pass
        elif not self._eval(c):
            r = False
        else:
            m = self.model
            r = not self.query(z3.Not(c))
            if not r:
                self.model = m
        self.trace.append(4 + int(r))
        self.pos += 1
        return r

    def may(self, c):
        return not self.must(z3.Not(c))

    def pick(self, e):
        """A feasible value of the bit-vector term e (recorded)."""
        if self.pos < len(self.prefix):
            v = self.prefix[self.pos]
            if not isinstance(v, tuple):
                raise Unsupported('re-execution diverged')
            v = v[0]
        else:
            v = self.get_model().eval(e, model_completion=True).as_long()
        self.pos += 1
        self.trace.append((v,))
        return v

    def assume(self, c):
        if isinstance(c, SymBool):
            c = c.e
        elif isinstance(c, bool) or not z3.is_expr(c):
            if not c:
                raise Infeasible()
            return
        c = z3.simplify(c)
        if z3.is_true(c):
            return
        if z3.is_false(c):
            raise Infeasible()
        self.add(c)
        if self.pos >= len(self.prefix) and self.model is None:
            if not self.query():
                raise Infeasible()

    def check(self, c, msg):
        STATS['checks'] += 1
        if isinstance(c, SymBool):
            c = c.e
        if isinstance(c, bool) or not z3.is_expr(c):
            if not c:
                raise Violated(msg)
            STATS['checks_const'] += 1
            return
        c = z3.simplify(c)
        if self.pos < len(self.prefix):
            # A check passed on this prefix before; it is implied.
            self.take(6, 6)
            return
        if z3.is_true(c):
            STATS['checks_const'] += 1
        elif z3.is_false(c):
            raise Violated(msg, self.get_model())
        elif not self.memo.get(c.get_id()):
            if self.query(z3.Not(c)):
                raise Violated(msg, self.model)
            self.keep.append(c)
            self.memo[c.get_id()] = True
        self.trace.append(6)
        self.pos += 1

    def tick(self, where):
        n = self.loop.get(where, 0) + 1
        self.loop[where] = n
        if n > self.max_steps:
            raise StepLimit('more than %d iterations at %s'
                            % (self.max_steps, where))


# --------------------------------------------------------------------------
class SymBool(object):
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return CTX.branch(self.e)

    def __eq__(self, o):
        if isinstance(o, SymBool):
            return mkbool(self.e == o.e)
        if isinstance(o, bool):
            return self if o else mkbool(z3.Not(self.e))
        if isinstance(o, (int, SymInt)):
            return toint(self) == o
        return False

    def __ne__(self, o):
        return not_(self == o)

    def __hash__(self):
        raise Unsupported('hash of symbolic bool')

    def __and__(self, o):
        if isinstance(o, (bool, SymBool)):
            return and_(self, o)
        return toint(self) & o
    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, (bool, SymBool)):
            return or_(self, o)
        return toint(self) | o
    __ror__ = __or__

    def __xor__(self, o):
        if isinstance(o, (bool, SymBool)):
            return mkbool(z3.Xor(self.e, bterm(o)))
        return toint(self) ^ o
    __rxor__ = __xor__

    def __index__(self):
        return int(bool(self))

    def __int__(self):
        return int(bool(self))

    def __deepcopy__(self, m):
        return self

    def __copy__(self):
        return self

    def __repr__(self):
        return 'SymBool(%s)' % str(self.e)[:80]


def _lift(op):
    def f(self, o):
        return getattr(toint(self), op)(o)
    return f


for _op in ('__add__', '__radd__', '__sub__', '__rsub__', '__mul__',
            '__rmul__', '__lshift__', '__rlshift__', '__rshift__',
            '__rrshift__', '__floordiv__', '__rfloordiv__', '__mod__',
            '__rmod__', '__lt__', '__le__', '__gt__', '__ge__', '__pow__',
            '__rpow__'):
    setattr(SymBool, _op, _lift(_op))
SymBool.__neg__ = lambda self: -toint(self)
SymBool.__invert__ = lambda self: ~toint(self)


def mkbool(e):
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SymBool(e)


def bterm(x):
    if isinstance(x, SymBool):
        return x.e
    return z3.BoolVal(bool(x))


def not_(x):
    if isinstance(x, SymBool):
        e = x.e
        if z3.is_not(e):
            return SymBool(e.arg(0))
        return SymBool(z3.Not(e))
    return not x


def and_(*xs):
    es = []
    for x in xs:
        if isinstance(x, SymBool):
            es.append(x.e)
        elif not x:
            return False
    if not es:
        return True
    return SymBool(es[0] if len(es) == 1 else z3.And(*es))


def or_(*xs):
    es = []
    for x in xs:
        if isinstance(x, SymBool):
            es.append(x.e)
        elif x:
            return True
    if not es:
        return False
    return SymBool(es[0] if len(es) == 1 else z3.Or(*es))


# --------------------------------------------------------------------------
def need(lo, hi):
    """Width that holds every value of [lo, hi] (signed if lo < 0)."""
    if lo >= 0:
        return max(1, hi.bit_length())
    return max((-lo - 1).bit_length(), hi.bit_length() if hi > 0 else 0) + 1


def mkint(e, lo, hi):
    """e: term wide enough; narrows to need(lo, hi)."""
    if lo == hi:
        return lo
    w = need(lo, hi)
    if w > MAXW:
        raise Unsupported('integer too wide')
    s = e.size()
    if s > w:
        e = z3.Extract(w - 1, 0, e)
    elif s < w:
        raise AssertionError('narrow')
    if z3.is_bv_value(e):
        return e.as_long() if lo >= 0 else e.as_signed_long()
    return SymInt(e, lo, hi)


def lin_terms(x):
    """x as (constant, {key: (base, coefficient)})."""
    if x.lin is not None:
        return x.lin
    return 0, {(x.e.get_id(), x.lo < 0): (x, 1)}


def lin_sum(a, ca, b, cb):
    """ca*a + cb*b: linear in its base terms, so that what cancels does."""
    k = 0
    d = {}
    lo = hi = 0
    for x, c in ((a, ca), (b, cb)):
        if isinstance(x, int):
            k += c * x
            lo += c * x
            hi += c * x
            continue
        if c > 0:
            lo += c * x.lo
            hi += c * x.hi
        else:
            lo += c * x.hi
            hi += c * x.lo
        k0, t = lin_terms(x)
        k += c * k0
        for key, (base, cc) in t.items():
            if key in d:
                n = d[key][1] + c * cc
                if n:
                    d[key] = (d[key][0], n)
                else:
                    del d[key]
            else:
                d[key] = (base, c * cc)
    if not d:
        return k
    l2 = h2 = k
    for base, c in d.values():
        if c > 0:
            l2 += c * base.lo
            h2 += c * base.hi
        else:
            l2 += c * base.hi
            h2 += c * base.lo
    lo, hi = max(lo, l2), min(hi, h2)
    if lo == hi:
        return lo
    if lo > hi:
        # (only on an infeasible path: bounds of the parts are exact)
        raise Infeasible()
    if len(d) == 1 and k == 0:
        base, c = next(iter(d.values()))
        if c == 1:
            return base
    w = need(lo, hi)
    if w > MAXW:
        raise Unsupported('integer too wide')
    return SymInt(None, lo, hi, (k, d))


def lin_term(items, k, w):
    """sum of coefficient * base + k modulo 2**w."""
    e = None
    for key, (base, c) in items:
        neg = c < 0
        m = abs(c)
        if m & (m - 1) == 0:
            s = m.bit_length() - 1
            if s == 0:
                t = base.ext(w)
            elif s >= w:
                continue
            else:
                t = z3.Concat(base.ext(w - s), z3.BitVecVal(0, s))
        else:
            t = base.ext(w) * z3.BitVecVal(m, w)
        if e is None:
            e = -t if neg else t
        else:
            e = e - t if neg else e + t
    if e is None:
        return z3.BitVecVal(k, w)
    if k:
        e = e + z3.BitVecVal(k, w)
    return e


def lin_cmp(d, op, sop):
    """d op 0, with what is subtracted moved to the other side."""
    k, t = lin_terms(d)
    pos = []
    negs = []
    P = max(k, 0)
    N = max(-k, 0)
    signed = False
    pm = nm = 0
    for key in sorted(t):
        base, c = t[key]
        signed = signed or base.lo < 0
        a = abs(c) * max(abs(base.lo), abs(base.hi))
        if c > 0:
            pos.append((key, (base, c)))
            pm += a
        else:
            negs.append((key, (base, -c)))
            nm += a
    w = need(0, max(pm + P, nm + N))
    if signed:
        w += 1
        op = sop
    return mkbool(op(lin_term(pos, P, w), lin_term(negs, N, w)))


def s_lt(a, b):
    return a < b


def s_le(a, b):
    return a <= b


def e_eq(a, b):
    return a == b


class SymInt(object):
    __slots__ = ('_e', 'lo', 'hi', 'lin')

    def __init__(self, e, lo, hi, lin=None):
        self._e = e
        self.lo = lo
        self.hi = hi
        self.lin = lin

    @property
    def e(self):
        if self._e is None:
            k, d = self.lin
            self._e = lin_term(sorted(d.items(), key=lambda i: i[0]), k,
                               need(self.lo, self.hi))
        return self._e

    def ext(self, w):
        s = self.e.size()
        if s == w:
            return self.e
        if s > w:
            return z3.Extract(w - 1, 0, self.e)
        return z3.ZeroExt(w - s, self.e) if self.lo >= 0 \
            else z3.SignExt(w - s, self.e)

    # -- arithmetic
    def _arith(self, o, op, lo, hi):
        w = max(need(lo, hi), 1)
        a, b = self.ext(w), ext(o, w)
        return mkint(op(a, b), lo, hi)

    def __add__(self, o):
        if isinstance(o, float):
            from . import real
            return real.mk(self).__add__(o)
        o = num(o)
        if o is None:
            return NotImplemented
        if isinstance(o, int) and o == 0:
            return self
        return lin_sum(self, 1, o, 1)

    __radd__ = __add__

    def __sub__(self, o):
        if isinstance(o, float):
            from . import real
            return real.mk(self).__sub__(o)
        o = num(o)
        if o is None:
            return NotImplemented
        if isinstance(o, int) and o == 0:
            return self
        return lin_sum(self, 1, o, -1)

    def __rsub__(self, o):
        if isinstance(o, float):
            from . import real
            return real.mk(self).__rsub__(o)
        o = num(o)
        if o is None:
            return NotImplemented
        return lin_sum(self, -1, o, 1)

    def __mul__(self, o):
        if isinstance(o, (str, list, tuple)):
            return NotImplemented
        if isinstance(o, float):
            from . import real
            return real.mk(self).__mul__(o)
        o = num(o)
        if o is None:
            return NotImplemented
        if isinstance(o, int) and -65536 <= o <= 65536:
            return lin_sum(self, o, 0, 1) if o else 0
        l2, h2 = bounds(o)
        c = [self.lo * l2, self.lo * h2, self.hi * l2, self.hi * h2]
        if o == 0 if isinstance(o, int) else False:
            return 0
        return self._arith(o, z3_mul, min(c), max(c))

    __rmul__ = __mul__

    def __neg__(self):
        return 0 - self

    def __pos__(self):
        return self

    def __abs__(self):
        if self.lo >= 0:
            return self
        return ite(self >= 0, self, -self)

    def __invert__(self):
        return -1 - self

    def __floordiv__(self, o):
        o = num(o)
        if o is None:
            return NotImplemented
        if isinstance(o, SymInt):
            o = conc(o)
        if o == 0:
            raise ZeroDivisionError('integer division or modulo by zero')
        if o < 0:
            return (-self) // (-o)
        if o & (o - 1) == 0:
            return self >> (o.bit_length() - 1)
        lo, hi = self.lo // o, self.hi // o
        if self.lo >= 0:
            w = max(self.e.size(), need(o, o))
            return mkint(z3.UDiv(self.ext(w), z3.BitVecVal(o, w)), lo, hi)
        w = max(self.e.size(), need(o, o)) + 2
        a = self.ext(w)
        b = z3.BitVecVal(o, w)
        q = a / b
        q = z3.If(z3.And(a < 0, z3.SRem(a, b) != 0), q - 1, q)
        return mkint(q, lo, hi)

    def __rfloordiv__(self, o):
        return o // conc(self)

    def __mod__(self, o):
        o = num(o)
        if o is None:
            return NotImplemented
        if isinstance(o, SymInt):
            o = conc(o)
        if o == 0:
            raise ZeroDivisionError('integer division or modulo by zero')
        if o < 0:
            return -((-self) % (-o))
        if self.lo >= 0 and self.hi < o:
            return self
        if o & (o - 1) == 0:
            k = o.bit_length() - 1
            if k == 0:
                return 0
            return mkint(self.ext(max(k, self.e.size())), 0, o - 1)
        if self.lo >= 0:
            w = max(self.e.size(), need(o, o))
            return mkint(z3.URem(self.ext(w), z3.BitVecVal(o, w)), 0, o - 1)
        return self - (self // o) * o

    def __rmod__(self, o):
        if isinstance(o, int):
            return o % conc(self)
        return NotImplemented

    def __divmod__(self, o):
        return (self // o, self % o)

    def __truediv__(self, o):
        from . import real
        return real.mk(self) / o

    def __rtruediv__(self, o):
        from . import real
        return o / real.mk(self)

    def __float__(self):
        raise Unsupported('float of symbolic int')

    def __pow__(self, o):
        o = num(o)
        if isinstance(o, SymInt):
            o = conc(o)
        r = 1
        for _ in range(o):
            r = r * self
        return r

    def __rpow__(self, o):
        if o == 2:
            return 1 << self
        return o ** conc(self)

    # -- bit operations
    def __and__(self, o):
        o = num(o)
        if o is None:
            return NotImplemented
        if isinstance(o, int) and o == 0:
            return 0
        l2, h2 = bounds(o)
        if self.lo >= 0 and l2 >= 0:
            lo, hi = 0, min(self.hi, h2)
            if isinstance(o, int):
                if o & (o + 1) == 0 and self.hi <= o:
                    return self
        elif self.lo >= 0:
            lo, hi = 0, self.hi
        elif l2 >= 0:
            lo, hi = 0, h2
        else:
            w = max(need(self.lo, self.hi), need(l2, h2))
            lo, hi = -(1 << (w - 1)), max(self.hi, h2, 0)
        w = max(self.e.size(), need(l2, h2)) + 1
        return mkint(self.ext(w) & ext(o, w), lo, hi)

    __rand__ = __and__

    def __or__(self, o):
        o = num(o)
        if o is None:
            return NotImplemented
        if isinstance(o, int) and o == 0:
            return self
        l2, h2 = bounds(o)
        if self.lo >= 0 and l2 >= 0:
            lo = max(self.lo, l2)
            hi = (1 << max(self.hi.bit_length(), h2.bit_length())) - 1
        else:
            w = max(self.e.size(), need(l2, h2)) + 1
            lo, hi = -(1 << (w - 1)), (1 << (w - 1)) - 1
        w = max(need(lo, hi), self.e.size(), need(l2, h2))
        return mkint(self.ext(w) | ext(o, w), lo, hi)

    __ror__ = __or__

    def __xor__(self, o):
        o = num(o)
        if o is None:
            return NotImplemented
        l2, h2 = bounds(o)
        if self.lo >= 0 and l2 >= 0:
            lo = 0
            hi = (1 << max(self.hi.bit_length(), h2.bit_length())) - 1
        else:
            w = max(self.e.size(), need(l2, h2)) + 1
            lo, hi = -(1 << (w - 1)), (1 << (w - 1)) - 1
        w = max(need(lo, hi), self.e.size(), need(l2, h2))
        return mkint(self.ext(w) ^ ext(o, w), lo, hi)

    __rxor__ = __xor__

    def __lshift__(self, k):
        k = num(k)
        if isinstance(k, SymInt):
            if k.lo < 0:
                if CTX.branch((k < 0).e):
                    raise ValueError('negative shift count')
            if self.lo < 0 or k.hi > 256:
                return self << conc(k)
            hi = self.hi << k.hi
            lo = self.lo << max(k.lo, 0)
            w = max(need(lo, hi), k.e.size() + 1)
            return mkint(self.ext(w) << k.ext(w), lo, hi)
        if k < 0:
            raise ValueError('negative shift count')
        if k == 0:
            return self
        lo, hi = self.lo << k, self.hi << k
        return mkint(z3.Concat(self.e, z3.BitVecVal(0, k)), lo, hi)

    def __rlshift__(self, a):
        a = num(a)
        if a is None:
            return NotImplemented
        if a == 0:
            return 0
        if a < 0 or self.hi > 512:
            return a << conc(self)
        if self.lo < 0:
            if CTX.branch((self < 0).e):
                raise ValueError('negative shift count')
        lo, hi = a << max(self.lo, 0), a << self.hi
        w = max(need(lo, hi), self.e.size() + 1)
        return mkint(z3.BitVecVal(a, w) << self.ext(w), lo, hi)

    def __rshift__(self, k):
        k = num(k)
        if isinstance(k, SymInt):
            if k.lo < 0:
                if CTX.branch((k < 0).e):
                    raise ValueError('negative shift count')
            if self.lo < 0:
                return self >> conc(k)
            lo, hi = self.lo >> k.hi, self.hi >> max(k.lo, 0)
            w = max(self.e.size(), k.e.size() + 1)
            return mkint(z3.LShR(self.ext(w), k.ext(w)), lo, hi)
        if k < 0:
            raise ValueError('negative shift count')
        if k == 0:
            return self
        lo, hi = self.lo >> k, self.hi >> k
        s = self.e.size()
        if k >= s:
            if self.lo >= 0:
                return 0
            k = s - 1
        e = z3.Extract(s - 1, k, self.e)
        r = SymInt(e, lo, hi)
        w = need(lo, hi)
        if e.size() < w:
            e = r.ext(w)
        return mkint(e, lo, hi)

    def __rrshift__(self, a):
        a = num(a)
        if a is None:
            return NotImplemented
        if a < 0:
            return a >> conc(self)
        if self.lo < 0:
            if CTX.branch((self < 0).e):
                raise ValueError('negative shift count')
        lo, hi = a >> self.hi, a >> max(self.lo, 0)
        w = max(need(0, a), self.e.size() + 1)
        return mkint(z3.LShR(z3.BitVecVal(a, w), self.ext(w)), lo, hi)

    # -- comparison
    def __lt__(self, o):
        if isinstance(o, float):
            from . import real
            return real.mk(self).__lt__(o)
        o = num(o)
        if o is None:
            return NotImplemented
        l2, h2 = bounds(o)
        if self.hi < l2:
            return True
        if self.lo >= h2:
            return False
        d = lin_sum(self, 1, o, -1)
        if isinstance(d, int):
            return d < 0
        if d.hi < 0:
            return True
        if d.lo >= 0:
            return False
        return lin_cmp(d, z3.ULT, s_lt)

    def __le__(self, o):
        if isinstance(o, float):
            from . import real
            return real.mk(self).__le__(o)
        o = num(o)
        if o is None:
            return NotImplemented
        l2, h2 = bounds(o)
        if self.hi <= l2:
            return True
        if self.lo > h2:
            return False
        d = lin_sum(self, 1, o, -1)
        if isinstance(d, int):
            return d <= 0
        if d.hi <= 0:
            return True
        if d.lo > 0:
            return False
        return lin_cmp(d, z3.ULE, s_le)

    def __gt__(self, o):
        r = self.__le__(o)
        return r if r is NotImplemented else not_(r)

    def __ge__(self, o):
        r = self.__lt__(o)
        return r if r is NotImplemented else not_(r)

    def __eq__(self, o):
        if isinstance(o, float):
            from . import real
            return real.mk(self) == o
        o = num(o)
        if o is None:
            return False
        l2, h2 = bounds(o)
        if self.hi < l2 or h2 < self.lo:
            return False
        d = lin_sum(self, 1, o, -1)
        if isinstance(d, int):
            return d == 0
        if d.lo > 0 or d.hi < 0:
            return False
        return lin_cmp(d, e_eq, e_eq)

    def __ne__(self, o):
        return not_(self.__eq__(o))

    def __bool__(self):
        r = self != 0
        return r if isinstance(r, bool) else bool(r)

    def __hash__(self):
        raise Unsupported('hash of symbolic int')

    def __index__(self):
        return conc(self)

    def __int__(self):
        return conc(self)

    def __round__(self, n=None):
        return self

    def bit_length(self):
        if self.lo < 0:
            return abs(self).bit_length()
        r = 0
        for k in range(self.e.size()):
            r = ite(mkbool(z3.Extract(k, k, self.e) == 1), k + 1, r)
        return r

    def __deepcopy__(self, m):
        return self

    def __copy__(self):
        return self

    def __repr__(self):
        return 'SymInt[%d,%d](%s)' % (self.lo, self.hi, str(self.e)[:60])


def z3_add(a, b):
    return a + b


def z3_sub(a, b):
    return a - b


def z3_mul(a, b):
    return a * b


def num(o):
    if isinstance(o, SymInt):
        return o
    if isinstance(o, bool):
        return int(o)
    if isinstance(o, int):
        return o
    if isinstance(o, SymBool):
        return toint(o)
    return None


def bounds(o):
    if isinstance(o, int):
        return o, o
    return o.lo, o.hi


def ext(o, w):
    if isinstance(o, int):
        return z3.BitVecVal(o, w)
    return o.ext(w)


def toint(b):
    if isinstance(b, SymBool):
        return SymInt(z3.If(b.e, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1)), 0, 1)
    return b


def ite(c, a, b):
    """a if c else b for integers, without forking."""
    if not isinstance(c, SymBool):
        return a if c else b
    a, b = num(a), num(b)
    if isinstance(a, int) and isinstance(b, int) and a == b:
        return a
    la, ha = bounds(a)
    lb, hb = bounds(b)
    lo, hi = min(la, lb), max(ha, hb)
    w = need(lo, hi)
    return mkint(z3.If(c.e, ext(a, w), ext(b, w)), lo, hi)


def conc(x):
    """Concretise by forking over the feasible values of x."""
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, int):
        return x
    if isinstance(x, SymBool):
        return int(bool(x))
    n = 0
    while True:
        v = CTX.pick(x.e)
        if CTX.branch(x.e == z3.BitVecVal(v, x.e.size())):
            if x.lo < 0 and v >> (x.e.size() - 1):
                v -= 1 << x.e.size()
            return v
        n += 1
        if n > 70000:
            raise Unsupported('concretising too many values')

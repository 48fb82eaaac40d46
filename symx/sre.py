"""Regular expressions over strings of symbolic characters.

Patterns are concrete; the parse tree of the standard library is interpreted
by backtracking, each character test forking the path."""
import re as _re
from re import _constants as C
from re import _parser as P

import z3

from . import core, rt, strs
from .core import Unsupported
from .strs import SymStr


def T(x):
    return x if isinstance(x, bool) else bool(x)


def lit(c, code, flags):
    if flags & _re.IGNORECASE:
        ch = chr(code)
        return core.or_(strs.ch_eq(c, ord(ch.lower())),
                        strs.ch_eq(c, ord(ch.upper()))) \
            if ch.lower() != ch.upper() else strs.ch_eq(c, code)
    return strs.ch_eq(c, code)


DIG = frozenset(range(48, 58))
SPACE = frozenset([9, 10, 11, 12, 13, 32])
WORD = frozenset(list(range(48, 58)) + list(range(65, 91)) + [95] +
                 list(range(97, 123)))


def member(c, s):
    if isinstance(c, int):
        return c in s
    return core.mkbool(z3.simplify(strs.in_set(c, s)))


def category(c, cat):
    n = str(cat)
    for k, s in (('DIGIT', DIG), ('SPACE', SPACE), ('WORD', WORD)):
        if n.endswith(k):
            r = member(c, s)
            return core.not_(r) if 'NOT' in n else r
    raise Unsupported('regex category ' + n)


def inset(c, items, flags):
    neg = False
    alts = []
    for op, av in items:
        if op is C.NEGATE:
            neg = True
        elif op is C.LITERAL:
            alts.append(lit(c, av, flags))
        elif op is C.RANGE:
            s = set(range(av[0], min(av[1], 255) + 1))
            if flags & _re.IGNORECASE:
                s |= {ord(chr(x).swapcase()) for x in s
                      if x < 128 and chr(x).isalpha()}
            alts.append(member(c, frozenset(s)))
        elif op is C.CATEGORY:
            alts.append(category(c, av))
        else:
            raise Unsupported('regex set %s' % op)
    r = core.or_(*alts)
    return core.not_(r) if neg else r


class M(object):
    def __init__(self, src, cs, flags):
        self.src = src
        self.cs = cs
        self.flags = flags

    def run(self, ops, k, i, g, cont):
        """Match ops[k:] at i; cont(i, groups) -> result or None."""
        if k == len(ops):
            return cont(i, g)
        op, av = ops[k]
        nxt = lambda j, h: self.run(ops, k + 1, j, h, cont)
        cs = self.cs
        if op is C.LITERAL:
            if i < len(cs) and T(lit(cs[i], av, self.flags)):
                return nxt(i + 1, g)
            return None
        if op is C.NOT_LITERAL:
            if i < len(cs) and not T(lit(cs[i], av, self.flags)):
                return nxt(i + 1, g)
            return None
        if op is C.ANY:
            if i < len(cs) and (self.flags & _re.DOTALL or
                                not T(strs.ch_eq(cs[i], 10))):
                return nxt(i + 1, g)
            return None
        if op is C.IN:
            if i < len(cs) and T(inset(cs[i], av, self.flags)):
                return nxt(i + 1, g)
            return None
        if op is C.AT:
            n = str(av)
            if n.endswith('BEGINNING') or n.endswith('BEGINNING_STRING'):
                if self.flags & _re.MULTILINE:
                    raise Unsupported('multiline regex')
                return nxt(i, g) if i == 0 else None
            if n.endswith('AT_END'):
                if i == len(cs) or (i == len(cs) - 1 and
                                    T(strs.ch_eq(cs[i], 10))):
                    return nxt(i, g)
                return None
            if n.endswith('END_STRING'):
                return nxt(i, g) if i == len(cs) else None
            raise Unsupported('regex anchor ' + n)
        if op is C.SUBPATTERN:
            grp, add, rem, sub = av
            if add or rem:
                raise Unsupported('regex inline flags')

            def done(j, h):
                if grp is not None:
                    h = dict(h)
                    h[grp] = (i, j)
                return nxt(j, h)
            return self.run(list(sub), 0, i, g, done)
        if op is C.BRANCH:
            for alt in av[1]:
                r = self.run(list(alt), 0, i, g, nxt)
                if r is not None:
                    return r
            return None
        if op in (C.MAX_REPEAT, C.MIN_REPEAT):
            lo, hi, sub = av
            sub = list(sub)
            greedy = op is C.MAX_REPEAT

            def rep(n, j, h):
                def more():
                    if hi is not C.MAXREPEAT and n >= hi:
                        return None
                    return self.run(sub, 0, j, h, lambda q, hh: None
                                    if q == j and n >= lo
                                    else rep(n + 1, q, hh))
                if n < lo:
                    return more()
                if greedy:
                    r = more()
                    return r if r is not None else nxt(j, h)
                r = nxt(j, h)
                return r if r is not None else more()
            return rep(0, i, g)
        if op is C.GROUPREF:
            a, b = g.get(av, (None, None))
            if a is None:
                return None
            n = b - a
            if i + n <= len(cs) and T(core.and_(*[
                    strs.ch_eq(x, y) for x, y in zip(cs[a:b], cs[i:i + n])])):
                return nxt(i + n, g)
            return None
        raise Unsupported('regex op %s' % op)


class Match(object):
    def __init__(self, pat, s, cs, i, j, g):
        self.re = pat
        self.string = s
        self._cs = cs
        self._g = dict(g)
        self._g[0] = (i, j)

    def _one(self, k):
        if isinstance(k, str):
            k = self.re.groupindex[k]
        if k > self.re.groups:
            raise IndexError('no such group')
        if k not in self._g:
            return None
        a, b = self._g[k]
        return strs.mkc(self._cs[a:b])

    def group(self, *ks):
        if not ks:
            return self._one(0)
        if len(ks) == 1:
            return self._one(ks[0])
        return tuple(self._one(k) for k in ks)

    def groups(self, default=None):
        return tuple(default if self._one(k) is None else self._one(k)
                     for k in range(1, self.re.groups + 1))

    def groupdict(self):
        from . import containers
        return containers.SDict({n: self._one(k)
                                 for n, k in self.re.groupindex.items()})

    def start(self, k=0):
        return self._g.get(k, (-1, -1))[0]

    def end(self, k=0):
        return self._g.get(k, (-1, -1))[1]

    def span(self, k=0):
        return self._g.get(k, (-1, -1))


class Pattern(object):
    def __init__(self, pattern, flags=0):
        if isinstance(pattern, SymStr):
            raise Unsupported('symbolic regex')
        self.pattern = pattern
        self._re = _re.compile(pattern, flags)
        self.flags = self._re.flags
        self.groups = self._re.groups
        self.groupindex = dict(self._re.groupindex)
        self._ops = list(P.parse(pattern, flags))

    def _m(self, s, i, full=False):
        cs = list(strs.chars_of(s))
        m = M(s, cs, self.flags)
        r = m.run(self._ops, 0, i, {}, lambda j, g: (j, g)
                  if not full or j == len(cs) else None)
        if r is None:
            return None
        return Match(self, s, cs, i, r[0], r[1])

    def match(self, s, *a):
        if isinstance(s, str):
            return self._re.match(s, *a)
        return self._m(s, 0)

    def fullmatch(self, s):
        if isinstance(s, str):
            return self._re.fullmatch(s)
        return self._m(s, 0, True)

    def _search(self, s, i):
        n = len(strs.chars_of(s))
        while i <= n:
            m = self._m(s, i)
            if m is not None:
                return m
            i += 1
        return None

    def search(self, s, *a):
        if isinstance(s, str):
            return self._re.search(s, *a)
        return self._search(s, 0)

    def finditer(self, s):
        if isinstance(s, str):
            for m in self._re.finditer(s):
                yield m
            return
        i = 0
        n = len(strs.chars_of(s))
        while i <= n:
            m = self._search(s, i)
            if m is None:
                return
            yield m
            a, b = m.span()
            i = b if b > a else b + 1

    def findall(self, s):
        r = []
        for m in self.finditer(s):
            r.append(m.group() if not self.groups else m.group(1)
                     if self.groups == 1 else m.groups(''))
        return r

    def sub(self, repl, s, count=0):
        if isinstance(s, str) and isinstance(repl, str):
            return self._re.sub(repl, s, count)
        cs = list(strs.chars_of(s))
        out = []
        i = 0
        k = 0
        for m in self.finditer(s):
            if count and k >= count:
                break
            a, b = m.span()
            out.append(strs.mkc(cs[i:a]))
            if callable(repl):
                out.append(repl(m))
            else:
                t = P.parse_template(repl, self._re)
                for x in t:
                    if isinstance(x, int):
                        v = m.group(x)
                        out.append('' if v is None else v)
                    else:
                        out.append(x)
            i = b
            k += 1
        out.append(strs.mkc(cs[i:]))
        return strs.m_join('', out)

    def split(self, s, maxsplit=0):
        if isinstance(s, str):
            return self._re.split(s, maxsplit)
        cs = list(strs.chars_of(s))
        out = []
        i = 0
        k = 0
        for m in self.finditer(s):
            if maxsplit and k >= maxsplit:
                break
            a, b = m.span()
            out.append(strs.mkc(cs[i:a]))
            out.extend(m.groups())
            i = b
            k += 1
        out.append(strs.mkc(cs[i:]))
        return out


_cache = {}


def compile(p, flags=0):
    if isinstance(p, Pattern):
        return p
    k = (p, int(flags))
    if k not in _cache:
        _cache[k] = Pattern(p, flags)
    return _cache[k]


def module():
    from .shims import mod
    m = mod('re', **{k: v for k, v in vars(_re).items()
                     if not k.startswith('__')})
    m.compile = compile
    m.match = lambda p, s, flags=0: compile(p, flags).match(s)
    m.search = lambda p, s, flags=0: compile(p, flags).search(s)
    m.fullmatch = lambda p, s, flags=0: compile(p, flags).fullmatch(s)
    m.sub = lambda p, r, s, count=0, flags=0: compile(p, flags).sub(r, s,
                                                                   count)
    m.split = lambda p, s, maxsplit=0, flags=0: compile(p, flags).split(
        s, maxsplit)
    m.findall = lambda p, s, flags=0: compile(p, flags).findall(s)
    m.finditer = lambda p, s, flags=0: compile(p, flags).finditer(s)
    return m

"""dict / set replacements that tolerate symbolic keys.

Keys are pairwise distinct on the current path: inserting a symbolic key
compares it (forking) with the keys already present.
"""
from . import core
from .core import SymBool, SymInt, or_, Unsupported
from .strs import SymStr


def is_conc(k):
    if isinstance(k, (SymInt, SymStr, SymBool)):
        return False
    if isinstance(k, tuple):
        for x in k:
            if not is_conc(x):
                return False
    return True


class Entry(object):
    __slots__ = ('k', 'v', 'c')

    def __init__(self, k, v, c):
        self.k = k
        self.v = v
        self.c = c


MISSING = object()


# Jython keeps dictionaries and sets in a hash table of the JVM, so the order
# of concrete keys is known; it is modelled so that what is found here happens
# on the real code too.  (Dictionaries with symbolic keys and Python 3 ones
# are in insertion order.)
JYTHON = False


def jhash(k):
    if isinstance(k, str):
        h = 0
        for c in k:
            h = (h * 31 + ord(c)) & 0xffffffff
    else:
        h = k & 0xffffffff
    return (h ^ (h >> 16)) & 0x7fffffff


class SDict(object):
    __hash__ = None
    hashed = True
    cap = 32

    def __init__(self, *a, **kw):
        self._o = {}      # serial -> Entry, insertion ordered
        self._i = {}      # concrete key -> serial
        self._s = []      # serials of symbolic entries
        self._n = 0
        if a:
            o = a[0]
            if JYTHON and isinstance(o, (SDict, dict)):
                n = 2 * len(o)
                n += (n >> 1) + 1
                while self.cap < n:
                    self.cap *= 2
            self.update(o)
        for k, v in kw.items():
            self[k] = v

    def _ents(self):
        if not JYTHON or not self.hashed or self._s or len(self._o) < 2:
            return self._o.values()
        for k in self._i:
            if not isinstance(k, (str, int)):
                return self._o.values()
        m = self.cap - 1
        return sorted(self._o.values(), key=lambda e: jhash(e.k) & m)

    @classmethod
    def pairs(cls, ps):
        d = cls()
        for k, v in ps:
            d[k] = v
        return d

    # -- lookup
    def _find(self, k):
        if is_conc(k):
            try:
                s = self._i.get(k)
            except TypeError:
                raise TypeError('unhashable type')
            if s is not None:
                return s
            for s in list(self._s):
                if _eq(k, self._o[s].k):
                    return s
            return None
        for s, e in list(self._o.items()):
            if _eq(k, e.k):
                return s
        return None

    def __getitem__(self, k):
        if isinstance(k, (SymInt, SymStr)):
            r = self._merged(k)
            if r is not MISSING:
                return r
        s = self._find(k)
        if s is None:
            return self.__missing__(k)
        return self._o[s].v

    def _merged(self, k):
        """Lookup of a symbolic scalar key among concrete keys whose values
        are integers: one membership fork, then an if-then-else value."""
        if self._s or len(self._o) < 4:
            return MISSING
        from . import rt
        if isinstance(k, SymStr):
            g = k.norm()
            if len(g) != 1 or not isinstance(g[0], tuple) or len(g[0]) != 1:
                return MISSING
            from .strs import ch_int
            k = ch_int(g[0][0])
            cand = [(ord(e.k), e.v) for e in self._o.values()
                    if isinstance(e.k, str) and len(e.k) == 1]
        else:
            cand = [(e.k, e.v) for e in self._o.values()
                    if isinstance(e.k, int) and k.lo <= e.k <= k.hi]
        if not cand or isinstance(k, int):
            return MISSING
        if not all(rt.mergeable(v, cand[0][1]) for _, v in cand):
            return MISSING
        m = or_(*[k == c for c, _ in cand])
        if not (m if isinstance(m, bool) else bool(m)):
            return MISSING
        if max(c for c, _ in cand) < 4096 and min(c for c, _ in cand) >= 0:
            tab = [cand[0][1]] * (max(c for c, _ in cand) + 1)
            for c, v in cand:
                tab[c] = v
            if k.lo < 0:
                return MISSING
            return rt.mux(tab, k)
        r = cand[0][1]
        for c, v in cand[1:]:
            r = rt.merge(k == c, v, r)
        return r

    def __missing__(self, k):
        raise KeyError(k)

    def __setitem__(self, k, v):
        s = self._find(k)
        if s is not None:
            self._o[s].v = v
            return
        self._n += 1
        c = is_conc(k)
        self._o[self._n] = Entry(k, v, c)
        if c:
            self._i[k] = self._n
        else:
            self._s.append(self._n)
        if 4 * len(self._o) >= 3 * self.cap:
            self.cap *= 2

    def __delitem__(self, k):
        s = self._find(k)
        if s is None:
            raise KeyError(k)
        self._del(s)

    def _del(self, s):
        e = self._o.pop(s)
        if e.c:
            del self._i[e.k]
        else:
            self._s.remove(s)
        return e

    def __contains__(self, k):
        if isinstance(k, SymInt) and not self._s and len(self._o) > 4 and \
                all(isinstance(e.k, int) for e in self._o.values()):
            return bool(or_(*[k == e.k for e in self._o.values()]))
        return self._find(k) is not None

    has_key = __contains__

    def get(self, k, d=None):
        s = self._find(k)
        return d if s is None else self._o[s].v

    def setdefault(self, k, d=None):
        s = self._find(k)
        if s is None:
            self[k] = d
            return d
        return self._o[s].v

    def pop(self, k, *d):
        s = self._find(k)
        if s is None:
            if d:
                return d[0]
            raise KeyError(k)
        return self._del(s).v

    def popitem(self, last=True):
        if not self._o:
            raise KeyError('popitem(): dictionary is empty')
        s = (list(self._o)[-1] if last else next(iter(self._o)))
        e = self._del(s)
        return e.k, e.v

    def keys(self):
        return [e.k for e in self._ents()]

    def values(self):
        return [e.v for e in self._ents()]

    def items(self):
        return [(e.k, e.v) for e in self._ents()]

    def iterkeys(self):
        return iter(self.keys())

    def itervalues(self):
        return iter(self.values())

    def iteritems(self):
        return iter(self.items())

    def __iter__(self):
        return iter(self.keys())

    def __reversed__(self):
        return iter(self.keys()[::-1])

    def __len__(self):
        return len(self._o)

    def __bool__(self):
        return bool(self._o)

    def clear(self):
        self._o.clear()
        self._i.clear()
        del self._s[:]

    def copy(self):
        d = type(self)()
        d._o = dict((s, Entry(e.k, e.v, e.c)) for s, e in self._o.items())
        d._i = dict(self._i)
        d._s = list(self._s)
        d._n = self._n
        d.cap = self.cap
        return d

    __copy__ = copy

    def __deepcopy__(self, memo):
        import copy
        d = type(self)()
        memo[id(self)] = d
        for s, e in self._o.items():
            k = copy.deepcopy(e.k, memo)
            d._o[s] = Entry(k, copy.deepcopy(e.v, memo), e.c)
            if e.c:
                d._i[k] = s
        d._s = list(self._s)
        d._n = self._n
        d.cap = self.cap
        return d

    def update(self, *a, **kw):
        if a:
            o = a[0]
            if isinstance(o, (SDict, dict)):
                o = list(o.items())
            elif hasattr(o, 'keys'):
                o = [(k, o[k]) for k in o.keys()]
            for k, v in o:
                self[k] = v
        for k, v in kw.items():
            self[k] = v

    @classmethod
    def fromkeys(cls, ks, v=None):
        d = cls()
        for k in ks:
            d[k] = v
        return d

    def move_to_end(self, k, last=True):
        s = self._find(k)
        if s is None:
            raise KeyError(k)
        e = self._del(s)
        if not last:
            raise Unsupported('move_to_end(last=False)')
        self[e.k] = e.v

    def __eq__(self, o):
        if not isinstance(o, (SDict, dict)):
            return False
        if len(self) != len(o):
            return False
        for k, v in self.items():
            if k not in o:
                return False
            if not (o[k] == v):
                return False
        return True

    def __ne__(self, o):
        return not self == o

    def __repr__(self):
        return '{%s}' % ', '.join('%r: %r' % p for p in self.items())


class SDefaultDict(SDict):
    hashed = False

    def __init__(self, factory=None, *a, **kw):
        self.default_factory = factory
        SDict.__init__(self, *a, **kw)

    def __missing__(self, k):
        if self.default_factory is None:
            raise KeyError(k)
        v = self.default_factory()
        self[k] = v
        return v

    def copy(self):
        d = SDict.copy(self)
        d.default_factory = self.default_factory
        return d
    __copy__ = copy

    def __deepcopy__(self, memo):
        d = SDict.__deepcopy__(self, memo)
        d.default_factory = self.default_factory
        return d


class SOrderedDict(SDict):
    hashed = False


class SCounter(SDict):
    hashed = False

    def __init__(self, it=None):
        SDict.__init__(self)
        if it is not None:
            for x in it:
                self[x] = self[x] + 1

    def __missing__(self, k):
        return 0


class SSet(object):
    __hash__ = None

    def __init__(self, it=()):
        self._d = SDict()
        for x in it:
            self._d[x] = True

    def add(self, x):
        self._d[x] = True

    def discard(self, x):
        self._d.pop(x, None)

    def remove(self, x):
        del self._d[x]

    def pop(self):
        return self._d.popitem(False)[0]

    def clear(self):
        self._d.clear()

    def __contains__(self, x):
        return x in self._d

    def __iter__(self):
        return iter(self._d.keys())

    def __len__(self):
        return len(self._d)

    def __bool__(self):
        return len(self._d) > 0

    def copy(self):
        return type(self)(self._d.keys())
    __copy__ = copy

    def __deepcopy__(self, memo):
        import copy
        return type(self)(copy.deepcopy(x, memo) for x in self)

    def update(self, *its):
        for it in its:
            for x in it:
                self.add(x)

    def union(self, *its):
        r = self.copy()
        r.update(*its)
        return r

    def intersection(self, o):
        o = o if isinstance(o, (SSet, set, frozenset)) else SSet(o)
        return type(self)([x for x in self if x in o])

    def difference(self, *os):
        r = self
        for o in os:
            o = o if isinstance(o, (SSet, set, frozenset)) else SSet(o)
            r = type(self)([x for x in r if x not in o])
        return r

    def difference_update(self, *os):
        r = self.difference(*os)
        self._d = r._d

    def symmetric_difference_update(self, o):
        for x in SSet(o):
            if x in self:
                self.discard(x)
            else:
                self.add(x)

    def intersection_update(self, o):
        self._d = self.intersection(o)._d

    def symmetric_difference(self, o):
        o = SSet(o)
        return self.difference(o).union(o.difference(self))

    def issubset(self, o):
        o = o if isinstance(o, (SSet, set, frozenset)) else SSet(o)
        return all(x in o for x in self)

    def issuperset(self, o):
        return all(x in self for x in o)

    def isdisjoint(self, o):
        return not any(x in self for x in o)

    def __or__(self, o):
        return self.union(o)
    __ror__ = __or__

    def __and__(self, o):
        return self.intersection(o)

    def __sub__(self, o):
        return self.difference(o)

    def __rsub__(self, o):
        return SSet(o).difference(self)

    def __xor__(self, o):
        return self.symmetric_difference(o)

    def __le__(self, o):
        return self.issubset(o)

    def __ge__(self, o):
        return SSet(o).issubset(self)

    def __lt__(self, o):
        return self <= o and len(self) < len(o)

    def __gt__(self, o):
        return self >= o and len(self) > len(o)

    def __eq__(self, o):
        if not isinstance(o, (SSet, set, frozenset)):
            return False
        return len(self) == len(o) and self.issubset(o)

    def __ne__(self, o):
        return not self == o

    def __repr__(self):
        return 'set([%s])' % ', '.join(map(repr, self))


def _eq(a, b):
    from . import rt
    r = rt.eq(a, b)
    return r if isinstance(r, bool) else bool(r)

"""Symbolic strings.

A SymStr is a rope: a tuple of segments, each either a tuple of characters
(Python ints or 8-bit terms) or an Atom.  An Atom stands for a whole string of
symbolic *length* whose content is only compared for equality: it has an
identity term and a length term, and two atoms (or an atom and a literal) are
equal strings iff their identities are equal.  When the code looks inside an
atom, the atom is materialised: its length is forked over 0..MATERIALISE and
its characters become symbolic terms; longer values leave the bound (BoundOut).
"""
import z3

from . import core
from .core import (SymBool, SymInt, Unsupported, BoundOut, and_, mkbool,
                   mkint, not_, or_, conc, num)

MATERIALISE = 6
IDW = 14
FIRST_FREE = 1 << 13


class Atom(object):
    __slots__ = ('name', 'id', 'len', 'alphabet', 'lits', 'ord')

    def __init__(self, name, idt, ln, alphabet, lits):
        self.name = name
        self.id = idt
        self.len = ln
        self.alphabet = alphabet    # frozenset of byte values, or None
        self.lits = lits            # literals it may equal
        self.ord = 0

    def __repr__(self):
        return '<%s>' % self.name


def lit_id(s):
    c = core.CTX
    k = c.lits.get(s)
    if k is None:
        k = c.lits[s] = len(c.lits) + 1
        if k >= FIRST_FREE:
            raise Unsupported('too many literals')
    return k


def new_atom(name, minlen, maxlen, alphabet, lits=()):
    """A string whose length is in [minlen, maxlen] and which is either one of
    the literals in lits or different from every literal string."""
    c = core.CTX
    idt = c.fresh('id_' + name, IDW)
    lw = core.need(0, maxlen)
    le = c.fresh('len_' + name, lw)
    ln = SymInt(le, minlen, maxlen) if minlen < maxlen else minlen
    a = Atom(name, idt, ln, alphabet, tuple(lits))
    c.assume(z3.And(z3.UGE(le, minlen), z3.ULE(le, maxlen)))
    alts = [z3.UGE(idt, FIRST_FREE)]
    if minlen == 0:
        e = z3.BitVecVal(lit_id(''), IDW)
        c.assume((le == 0) == (idt == e))
        alts.append(idt == e)
    for s in lits:
        e = z3.BitVecVal(lit_id(s), IDW)
        c.assume(z3.Implies(idt == e, le == len(s)))
        alts.append(idt == e)
    c.assume(z3.Or(*alts))
    for b in c.atoms:
        m = max(a.lenterm().size(), b.lenterm().size())
        c.assume(z3.Implies(idt == b.id,
                            core.ext(a.len, m) == core.ext(b.len, m)))
    a.ord = len(c.atoms)
    c.atoms.append(a)
    return SymStr((a,))


def _lenterm(self):
    if isinstance(self.len, int):
        return z3.BitVecVal(self.len, core.need(0, self.len))
    return self.len.e


Atom.lenterm = _lenterm


def materialise(a):
    """-> tuple of characters; forks over the length."""
    c = core.CTX
    mat = c.__dict__.setdefault('mat', {})
    if a in mat:
        return mat[a]
    n = None
    for k in range(MATERIALISE + 1):
        r = (a.len == k)
        if r is True or (isinstance(r, SymBool) and c.branch(r.e)):
            n = k
            break
    if n is None:
        c.notes.add('value longer than %d inspected character by character'
                    % MATERIALISE)
        raise BoundOut('materialise %s' % a.name)
    cs = []
    for i in range(n):
        v = c.fresh('%s_%d' % (a.name, i), 8)
        if a.alphabet is not None:
            c.assume(in_set(v, a.alphabet))
        cs.append(v)
    cs = tuple(cs)
    for b, bs in mat.items():
        if len(bs) == n:
            c.assume((a.id == b.id) == z3.And(
                z3.BoolVal(True), *[x == y for x, y in zip(cs, bs)]))
        else:
            c.assume(a.id != b.id)
    for s, k in c.lits.items():
        if len(s) == n:
            c.assume((a.id == k) == z3.And(
                z3.BoolVal(True),
                *[x == ord(ch) for x, ch in zip(cs, s)]))
    mat[a] = cs
    return cs


def in_set(v, s):
    """Membership of an 8-bit term in a set of byte values (as ranges)."""
    xs = sorted(s)
    rs = []
    i = 0
    while i < len(xs):
        j = i
        while j + 1 < len(xs) and xs[j + 1] == xs[j] + 1:
            j += 1
        lo, hi = xs[i], xs[j]
        if lo == hi:
            rs.append(v == lo)
        else:
            cs = []
            if lo > 0:
                cs.append(z3.UGE(v, lo))
            if hi < 255:
                cs.append(z3.ULE(v, hi))
            rs.append(z3.And(*cs) if cs else z3.BoolVal(True))
        i = j + 1
    if not rs:
        return z3.BoolVal(False)
    return z3.Or(*rs) if len(rs) > 1 else rs[0]


# -- characters
def ch_of(x):
    """SymInt/int -> character (int or 8-bit term); caller checked range."""
    if isinstance(x, int):
        return x
    return x.ext(8)


def ch_int(c):
    if isinstance(c, int):
        return c
    if z3.is_bv_value(c):
        return c.as_long()
    return SymInt(c, 0, 255)


def ch_eq(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    if isinstance(a, int):
        a, b = b, a
    if not isinstance(b, int) and a.eq(b):
        return True
    return mkbool(a == b)


def mk(segs):
    """Normalise segments; a fully concrete string becomes a native str."""
    mat = core.CTX.__dict__.get('mat') if core.CTX is not None else None
    out = []
    for s in segs:
        if isinstance(s, Atom):
            if mat and s in mat:
                s = mat[s]
            elif s.len == 0 if isinstance(s.len, int) else False:
                continue
        if isinstance(s, tuple):
            if not s:
                continue
            if out and isinstance(out[-1], tuple):
                out[-1] = out[-1] + s
            else:
                out.append(s)
        else:
            out.append(s)
    if not out:
        return ''
    if len(out) == 1 and isinstance(out[0], tuple):
        cs = out[0]
        if all(isinstance(c, int) for c in cs):
            return ''.join(map(chr, cs))
        r = []
        conc_ = True
        for c in cs:
            if not isinstance(c, int) and z3.is_bv_value(c):
                c = c.as_long()
            if not isinstance(c, int):
                conc_ = False
            r.append(c)
        if conc_:
            return ''.join(map(chr, r))
        return SymStr((tuple(r),))
    return SymStr(tuple(out))


def segs_of(s):
    if isinstance(s, str):
        return (tuple(map(ord, s)),) if s else ()
    if isinstance(s, SymStr):
        return s.norm()
    if isinstance(s, (bytes, bytearray)):
        return (tuple(s),) if s else ()
    raise TypeError('expected a string, got %s' % type(s).__name__)


def chars_of(s):
    """Characters of a string, materialising atoms."""
    r = []
    for g in segs_of(s):
        if isinstance(g, Atom):
            g = materialise(g)
        r.extend(g)
    return tuple(r)


def mkc(cs):
    return mk((tuple(cs),))


def is_str(x):
    return isinstance(x, (str, SymStr))


def length(s):
    if isinstance(s, str):
        return len(s)
    n = 0
    for g in s.norm():
        if isinstance(g, Atom):
            n = n + g.len
        else:
            n = n + len(g)
    return n


def str_eq(a, b):
    """Symbolic equality without forking, where segments align."""
    if isinstance(a, str) and isinstance(b, str):
        return a == b
    sa, sb = list(segs_of(a)), list(segs_of(b))
    conds = []
    while True:
        while sa and isinstance(sa[0], tuple) and not sa[0]:
            sa.pop(0)
        while sb and isinstance(sb[0], tuple) and not sb[0]:
            sb.pop(0)
        if not sa or not sb:
            for g in sa + sb:
                if isinstance(g, tuple):
                    return False
                r = (g.len == 0)
                if r is False:
                    return False
                conds.append(r)
            return and_(*conds)
        x, y = sa[0], sb[0]
        if isinstance(x, tuple) and isinstance(y, tuple):
            n = min(len(x), len(y))
            for i in range(n):
                r = ch_eq(x[i], y[i])
                if r is False:
                    return False
                conds.append(r)
            sa[0], sb[0] = x[n:], y[n:]
            continue
        if isinstance(x, Atom) and isinstance(y, Atom):
            if x is y:
                sa.pop(0)
                sb.pop(0)
                continue
            if len(sa) == 1 and len(sb) == 1:
                conds.append(atom_eq(x, y))
                return and_(*conds)
            l = (x.len == y.len)
            if l is True or (isinstance(l, SymBool) and core.CTX.must(l.e)):
                conds.append(atom_eq(x, y))
                sa.pop(0)
                sb.pop(0)
                continue
            if len(sa) == len(sb) and isinstance(l, SymBool) and \
                    bool(l):
                continue
        elif len(sa) == 1 and len(sb) == 1 and (
                isinstance(x, tuple) or isinstance(y, tuple)):
            at, cs = (x, y) if isinstance(x, Atom) else (y, x)
            if all(isinstance(c, int) for c in cs):
                conds.append(atom_lit_eq(at, cs))
                return and_(*conds)
        # quick length refutation
        la, lb = length(SymStr(tuple(sa))), length(SymStr(tuple(sb)))
        q = (la == lb)
        if q is False:
            return False
        if isinstance(q, SymBool) and not core.CTX.may(q.e):
            return False
        if isinstance(x, Atom) and isinstance(y, tuple) and \
                x.alphabet is not None and isinstance(y[0], int) and \
                y[0] not in x.alphabet:
            r = (x.len == 0)
            if not (r if isinstance(r, bool) else bool(r)):
                return False
        if isinstance(y, Atom) and isinstance(x, tuple) and \
                y.alphabet is not None and isinstance(x[0], int) and \
                x[0] not in y.alphabet:
            r = (y.len == 0)
            if not (r if isinstance(r, bool) else bool(r)):
                return False
        if isinstance(x, Atom):
            sa[0] = materialise(x)
        else:
            sb[0] = materialise(y)


def atom_eq(x, y):
    return mkbool(z3.simplify(x.id == y.id))


def atom_lit_eq(a, cs):
    s = ''.join(map(chr, cs))
    if not s:
        r = (a.len == 0)
        return r
    if s not in a.lits:
        # Literals outside the declared set are excluded by the domain; they
        # are interned so that a later materialisation excludes them too.
        lit_id(s)
        return False
    r = (a.len == len(s))
    if r is False:
        return False
    return mkbool(a.id == lit_id(s))


class SymStr(object):
    __slots__ = ('segs',)

    def __init__(self, segs):
        self.segs = segs

    def norm(self):
        mat = core.CTX.__dict__.get('mat') if core.CTX is not None else None
        if mat and any(isinstance(g, Atom) and g in mat for g in self.segs):
            r = mk(self.segs)
            self.segs = segs_of(r) if isinstance(r, str) else r.segs
        return self.segs

    def __repr__(self):
        r = []
        for g in self.segs:
            if isinstance(g, Atom):
                r.append(repr(g))
            else:
                r.append(''.join(chr(c) if isinstance(c, int) and
                                 32 <= c < 127 else '\\x%02x' % c
                                 if isinstance(c, int) else '?' for c in g))
        return 'SymStr(%s)' % '+'.join(r)

    def __hash__(self):
        raise Unsupported('hash of symbolic string')

    def __deepcopy__(self, m):
        return self

    def __copy__(self):
        return self

    def __len__(self):
        return conc(length(self))

    def __bool__(self):
        n = length(self)
        if isinstance(n, int):
            return n > 0
        r = n != 0
        return r if isinstance(r, bool) else bool(r)

    def __iter__(self):
        return iter([mkc((c,)) for c in chars_of(self)])

    def __add__(self, o):
        if not is_str(o):
            return NotImplemented
        return mk(self.segs + segs_of(o))

    def __radd__(self, o):
        if not is_str(o):
            return NotImplemented
        return mk(segs_of(o) + self.segs)

    def __mul__(self, n):
        return mk(self.segs * max(0, conc(n)))
    __rmul__ = __mul__

    def __eq__(self, o):
        if not is_str(o):
            return False
        return str_eq(self, o)

    def __ne__(self, o):
        if not is_str(o):
            return True
        return not_(str_eq(self, o))

    def _lt(self, o, strict):
        a, b = chars_of(self), chars_of(o)
        # lexicographic
        res = len(a) < len(b) if strict else len(a) <= len(b)
        for i in range(min(len(a), len(b)) - 1, -1, -1):
            x, y = ch_int(a[i]), ch_int(b[i])
            res = or_(x < y, and_(x == y, res))
        return res

    def __lt__(self, o):
        return self._lt(o, True) if is_str(o) else NotImplemented

    def __le__(self, o):
        return self._lt(o, False) if is_str(o) else NotImplemented

    def __gt__(self, o):
        return not_(self._lt(o, False)) if is_str(o) else NotImplemented

    def __ge__(self, o):
        return not_(self._lt(o, True)) if is_str(o) else NotImplemented

    def __contains__(self, o):
        return bool(contains(self, o))

    # -- indexing
    def __getitem__(self, i):
        if isinstance(i, slice):
            return slice_(self, i.start, i.stop, i.step)
        return char_at(self, i)

    def __mod__(self, o):
        from . import rt
        return rt.mod(self, o)

    def __getattr__(self, nm):
        m = METHODS.get(nm)
        if m is None:
            if hasattr(str, nm) or nm in ('decode', 'encode'):
                raise Unsupported('str.' + nm)
            raise AttributeError("'str' object has no attribute %r" % nm)
        return lambda *a, **k: m(self, *a, **k)


def T(r):
    """Truth of a bool / SymBool (forks)."""
    return r if isinstance(r, bool) else bool(r)


def cut(segs, pos):
    """Split segments at non-negative offset pos (int/SymInt); positions past
    the end give (segs, ())."""
    left = []
    segs = list(segs)
    while segs:
        if isinstance(pos, int) and pos == 0:
            break
        g = segs[0]
        if isinstance(g, tuple):
            n = len(g)
            if T(pos >= n):
                pos = pos - n
                left.append(g)
                segs.pop(0)
                continue
            k = conc(pos)
            left.append(g[:k])
            segs[0] = g[k:]
            pos = 0
            break
        r = pos >= g.len
        if T(r):
            pos = pos - g.len
            left.append(g)
            segs.pop(0)
            continue
        if T(pos == 0):
            pos = 0
            break
        segs[0] = materialise(g)
    return left, segs


def _norm_pos(p, n):
    if p is None:
        return None
    if isinstance(p, SymInt) and p.lo >= 0:
        return p
    if T(p < 0):
        p = p + n
        if T(p < 0):
            return 0
    return p


def slice_(s, lo, hi, step):
    if step is not None and not (isinstance(step, int) and step == 1):
        cs = chars_of(s)
        f = lambda v: None if v is None else conc(v)
        return mkc(cs[slice(f(lo), f(hi), f(step))])
    if isinstance(s, str):
        if (lo is None or isinstance(lo, int)) and \
                (hi is None or isinstance(hi, int)):
            return s[lo:hi]
    segs = segs_of(s)
    if (lo is None or isinstance(lo, int)) and \
            (hi is None or isinstance(hi, int)) and len(segs) == 1 and \
            isinstance(segs[0], tuple):
        return mk((segs[0][lo:hi],))
    n = length(s)
    lo = _norm_pos(lo, n)
    hi = _norm_pos(hi, n)
    if hi is not None:
        if lo is not None and T(hi <= lo):
            return ''
        segs, _ = cut(segs, hi)
    if lo is not None:
        _, segs = cut(segs, lo)
    return mk(segs)


def char_at(s, i):
    segs = segs_of(s)
    if isinstance(i, SymBool):
        i = core.toint(i)
    if len(segs) == 1 and isinstance(segs[0], tuple):
        cs = segs[0]
        if isinstance(i, int):
            return mkc((cs[i],))
        n = len(cs)
        if not T(and_(i >= -n, i < n)):
            raise IndexError('string index out of range')
        if T(i < 0):
            i = i + n
        from . import rt
        return mkc((ch_of(rt.mux([ch_int(c) for c in cs], i)),))
    n = length(s)
    if T(i < 0):
        i = i + n
        if T(i < 0):
            raise IndexError('string index out of range')
    if not T(i < n):
        raise IndexError('string index out of range')
    _, r = cut(segs, i)
    while r and isinstance(r[0], Atom):
        z = r[0].len
        if isinstance(z, SymInt) and T(z == 0):
            r = r[1:]
            continue
        r[0] = materialise(r[0])
    return mkc((r[0][0],))


def disjoint_from_atoms(s, sub):
    """True if no occurrence of literal sub can overlap an atom of s."""
    for g in segs_of(s):
        if isinstance(g, Atom):
            if g.alphabet is None:
                return False
            if any(ord(c) in g.alphabet for c in sub):
                return False
    return True


def _matches(cs, sub, i):
    return and_(*[ch_eq(cs[i + k], sub[k]) for k in range(len(sub))])


def _items(s):
    out = []
    for g in segs_of(s):
        if isinstance(g, Atom):
            out.append(g)
        else:
            out.extend(g)
    return out


def contains(s, sub):
    if not is_str(sub):
        raise TypeError("'in <string>' requires string as left operand")
    if isinstance(s, str) and isinstance(sub, str):
        return sub in s
    if sub == '' if isinstance(sub, str) else False:
        return True
    if isinstance(sub, str) and disjoint_from_atoms(s, sub):
        r = False
        for g in segs_of(s):
            if isinstance(g, tuple):
                b = tuple(map(ord, sub))
                for i in range(len(g) - len(b) + 1):
                    r = or_(r, _matches(g, b, i))
        return r
    ia, ib = _items(s), _items(sub)
    for i in range(len(ia) - len(ib) + 1):
        if all(x is y or (isinstance(x, int) and isinstance(y, int) and
                          x == y) or
               (isinstance(x, z3.AstRef) and isinstance(y, z3.AstRef) and
                x.get_id() == y.get_id())
               for x, y in zip(ia[i:], ib)):
            return True
    cs, b = chars_of(s), chars_of(sub)
    r = False
    for i in range(len(cs) - len(b) + 1):
        r = or_(r, _matches(cs, b, i))
    return r


def m_find(s, sub, lo=None, hi=None, rev=False):
    if isinstance(lo, int) and lo > 0 and hi is None and not rev and \
            any(isinstance(g, Atom) for g in segs_of(s)) and \
            T(length(s) >= lo):
        r = m_find(slice_(s, lo, None, None), sub)
        return r if isinstance(r, int) and r < 0 else r + lo
    if isinstance(sub, str) and lo is None and hi is None and not rev and \
            sub and any(isinstance(g, Atom) for g in segs_of(s)) and \
            disjoint_from_atoms(s, sub):
        pos = 0
        b = tuple(map(ord, sub))
        for g in segs_of(s):
            if isinstance(g, Atom):
                pos = pos + g.len
                continue
            for i in range(len(g) - len(b) + 1):
                if T(_matches(g, b, i)):
                    return pos + i
            pos = pos + len(g)
        return -1
    if isinstance(sub, str) and len(sub) == 1 and lo is None and \
            hi is None and not rev and \
            any(isinstance(g, Atom) for g in segs_of(s)):
        pos = 0
        for g in segs_of(s):
            if isinstance(g, Atom):
                if g.alphabet is not None and ord(sub) not in g.alphabet:
                    pos = pos + g.len
                    continue
                g = materialise(g)
            for i, ch in enumerate(g):
                if T(ch_eq(ch, ord(sub))):
                    return pos + i
            pos = pos + len(g)
        return -1
    cs, b = chars_of(s), chars_of(sub)
    n = len(cs)
    lo, hi, _ = slice(None if lo is None else conc(lo),
                      None if hi is None else conc(hi)).indices(n)
    rng = range(lo, hi - len(b) + 1)
    for i in (reversed(rng) if rev else rng):
        if T(_matches(cs, b, i)):
            return i
    return -1


def m_rfind(s, sub, lo=None, hi=None):
    return m_find(s, sub, lo, hi, True)


def m_index(s, sub, lo=None, hi=None):
    r = m_find(s, sub, lo, hi)
    if isinstance(r, int) and r < 0:
        raise ValueError('substring not found')
    return r


def m_rindex(s, sub, lo=None, hi=None):
    r = m_find(s, sub, lo, hi, True)
    if r < 0:
        raise ValueError('substring not found')
    return r


def m_count(s, sub, lo=None, hi=None):
    n = 0
    p = 0 if lo is None else lo
    while True:
        r = m_find(s, sub, p, hi)
        if isinstance(r, int) and r < 0:
            return n
        n += 1
        p = r + len(sub)


def m_startswith(s, pre, lo=None, hi=None):
    if isinstance(pre, tuple):
        return or_(*[m_startswith(s, p, lo, hi) for p in pre])
    if lo is not None or hi is not None:
        s = slice_(s, lo, hi, None)
    if isinstance(s, str) and isinstance(pre, str):
        return s.startswith(pre)
    n, k = length(s), length(pre)
    if not T(n >= k):
        return False
    if isinstance(pre, str) and pre:
        g = segs_of(s)[0]
        if isinstance(g, Atom) and g.alphabet is not None and \
                ord(pre[0]) not in g.alphabet and T(g.len != 0):
            return False
    return str_eq(slice_(s, 0, k, None), pre)


def m_endswith(s, suf, lo=None, hi=None):
    if isinstance(suf, tuple):
        return or_(*[m_endswith(s, p, lo, hi) for p in suf])
    n, k = length(s), length(suf)
    if not T(n >= k):
        return False
    return str_eq(slice_(s, n - k, None, None), suf)


def m_split(s, sep=None, maxsplit=-1):
    if sep is None:
        return _split_ws(s, maxsplit)
    if isinstance(sep, str) and sep and \
            any(isinstance(g, Atom) for g in segs_of(s)) and \
            disjoint_from_atoms(s, sep):
        b = tuple(map(ord, sep))
        out, cur = [], []
        n = 0
        for g in segs_of(s):
            if isinstance(g, Atom):
                cur.append(g)
                continue
            i = st = 0
            while i <= len(g) - len(b):
                if (maxsplit < 0 or n < maxsplit) and T(_matches(g, b, i)):
                    cur.append(g[st:i])
                    out.append(mk(cur))
                    cur = []
                    i += len(b)
                    st = i
                    n += 1
                else:
                    i += 1
            cur.append(g[st:])
        out.append(mk(cur))
        return out
    if not T(length(sep) != 0):
        raise ValueError('empty separator')
    if isinstance(sep, str) and len(sep) == 1 and \
            any(isinstance(g, Atom) for g in segs_of(s)):
        # look inside the atoms that the search reaches, and only those
        out, cur = [], []
        todo = list(segs_of(s))
        while todo:
            if maxsplit >= 0 and len(out) >= maxsplit:
                cur.extend(todo)
                break
            g = todo.pop(0)
            if isinstance(g, Atom):
                if g.alphabet is not None and ord(sep) not in g.alphabet:
                    cur.append(g)
                    continue
                g = materialise(g)
            for i, ch in enumerate(g):
                if T(ch_eq(ch, ord(sep))):
                    cur.append(g[:i])
                    out.append(mk(cur))
                    cur = []
                    todo.insert(0, g[i + 1:])
                    break
            else:
                cur.append(g)
        out.append(mk(cur))
        return out
    cs, b = chars_of(s), chars_of(sep)
    out = []
    i = st = n = 0
    while i <= len(cs) - len(b):
        if (maxsplit < 0 or n < maxsplit) and T(_matches(cs, b, i)):
            out.append(mkc(cs[st:i]))
            i += len(b)
            st = i
            n += 1
        else:
            i += 1
    out.append(mkc(cs[st:]))
    return out


def m_rsplit(s, sep=None, maxsplit=-1):
    if sep is None:
        raise Unsupported('rsplit()')
    if maxsplit < 0:
        return m_split(s, sep)
    out = []
    cs, b = chars_of(s), chars_of(sep)
    end = len(cs)
    while maxsplit > 0:
        for i in range(end - len(b), -1, -1):
            if T(_matches(cs, b, i)):
                out.append(mkc(cs[i + len(b):end]))
                end = i
                break
        else:
            break
        maxsplit -= 1
    out.append(mkc(cs[:end]))
    return out[::-1]


WS = frozenset([32, 9, 10, 11, 12, 13])


def is_in(c, s):
    if isinstance(c, int):
        return c in s
    return mkbool(z3.simplify(in_set(c, s)))


def _split_ws(s, maxsplit):
    """split(None, maxsplit): runs of blanks separate, none at the ends."""
    out, cur = [], None         # cur: segments of the word being read
    items = []
    for g in segs_of(s):
        if isinstance(g, Atom):
            if g.alphabet is not None and not (g.alphabet & WS):
                items.append(g)
            else:
                items.extend(materialise(g))
        else:
            items.extend(g)
    for k, c in enumerate(items):
        if isinstance(c, Atom):
            if T(c.len == 0):
                continue
            blank = False
        else:
            blank = T(is_in(c, WS))
        if blank:
            if cur is not None:
                out.append(mk(_pack(cur)))
            cur = None
        elif cur is None:
            if 0 <= maxsplit <= len(out):
                out.append(mk(_pack(items[k:])))
                return out
            cur = [c]
        else:
            cur.append(c)
    if cur is not None:
        out.append(mk(_pack(cur)))
    return out


def _pack(items):
    segs, run = [], []
    for c in items:
        if isinstance(c, Atom):
            if run:
                segs.append(tuple(run))
                run = []
            segs.append(c)
        else:
            run.append(c)
    if run:
        segs.append(tuple(run))
    return segs


def _stripset(chars):
    if chars is None:
        return WS
    if isinstance(chars, str):
        return frozenset(map(ord, chars))
    raise Unsupported('strip(symbolic)')


def _strip(s, chars, left, right):
    st = _stripset(chars)
    segs = list(segs_of(s))

    def trim(segs, at, rest):
        while segs:
            g = segs[at]
            if isinstance(g, Atom):
                if g.alphabet is not None and not (g.alphabet & st):
                    z = g.len == 0
                    if len(segs) == 1 or not T(z):
                        return segs
                    segs.pop(at)
                    continue
                g = materialise(g)
            cs = list(g)
            while cs and T(is_in(cs[at], st)):
                cs.pop(at)
            if cs:
                segs[at] = tuple(cs)
                return segs
            segs.pop(at)
        return segs
    if left:
        segs = trim(segs, 0, 1)
    if right:
        segs = trim(segs, -1, -1)
    return mk(segs)


def m_strip(s, chars=None):
    return _strip(s, chars, True, True)


def m_lstrip(s, chars=None):
    return _strip(s, chars, True, False)


def m_rstrip(s, chars=None):
    return _strip(s, chars, False, True)


def _case(s, lo, hi, delta):
    out = []
    for g in segs_of(s):
        if isinstance(g, Atom):
            if g.alphabet is not None and \
                    not any(lo <= c <= hi for c in g.alphabet):
                out.append(g)
                continue
            g = materialise(g)
        cs = []
        for c in g:
            if isinstance(c, int):
                cs.append(c + delta if lo <= c <= hi else c)
            else:
                cs.append(z3.If(z3.And(z3.UGE(c, lo), z3.ULE(c, hi)),
                                c + delta, c))
        out.append(tuple(cs))
    return mk(out)


def m_lower(s):
    return _case(s, 65, 90, 32)


def m_upper(s):
    return _case(s, 97, 122, -32)


def m_replace(s, old, new, n=-1):
    parts = m_split(s, old, n)
    return m_join(new, parts)


def m_join(sep, parts):
    out = []
    for i, p in enumerate(parts):
        if not is_str(p):
            raise TypeError('sequence item %d: expected string, %s found'
                            % (i, type(p).__name__))
        if i:
            out.extend(segs_of(sep))
        out.extend(segs_of(p))
    return mk(out)


def m_partition(s, sep):
    r = m_split(s, sep, 1)
    if len(r) == 1:
        return (s, '', '')
    return (r[0], sep, r[1])


def m_rpartition(s, sep):
    r = m_rsplit(s, sep, 1)
    if len(r) == 1:
        return ('', '', s)
    return (r[0], sep, r[1])


def _allin(st):
    def f(s):
        cs = chars_of(s)
        if not cs:
            return False
        return and_(*[is_in(c, st) for c in cs])
    return f


DIGITS = frozenset(range(48, 58))
ALPHA = frozenset(list(range(65, 91)) + list(range(97, 123)))


def m_encode(s, enc='ascii', errors='strict'):
    enc = str(enc).lower().replace('_', '-')
    if enc in ('hex', 'hex-codec'):
        out = []
        for c in chars_of(s):
            v = ch_int(c)
            for nb in (v >> 4, v & 15):
                out.append(ch_of(core.ite(nb < 10, nb + 48, nb + 87)))
        return mkc(out)
    if enc in ('latin-1', 'latin1', 'iso-8859-1'):
        return s
    if enc in ('ascii', 'utf-8', 'utf8'):
        for g in segs_of(s):
            if isinstance(g, Atom):
                if g.alphabet is None or max(g.alphabet) > 127:
                    g = materialise(g)
                else:
                    continue
            for c in g:
                if enc in ('latin-1', 'latin1', 'iso-8859-1'):
                    continue
                r = ch_int(c) < 128
                if not T(r):
                    raise Unsupported('non-ascii encode')
        return s
    raise Unsupported('encode ' + enc)


def m_zfill(s, n):
    k = length(s)
    if not T(k < n):
        return s
    return mk(((48,) * conc(n - k),) + segs_of(s))


def m_ljust(s, n, ch=' '):
    k = length(s)
    if not T(k < n):
        return s
    return mk(segs_of(s) + ((ord(ch),) * conc(n - k),))


def m_rjust(s, n, ch=' '):
    k = length(s)
    if not T(k < n):
        return s
    return mk(((ord(ch),) * conc(n - k),) + segs_of(s))


def m_splitlines(s, keep=False):
    raise Unsupported('splitlines')


METHODS = {
    'find': m_find, 'rfind': m_rfind, 'index': m_index, 'rindex': m_rindex,
    'count': m_count, 'startswith': m_startswith, 'endswith': m_endswith,
    'split': m_split, 'rsplit': m_rsplit, 'strip': m_strip,
    'lstrip': m_lstrip, 'rstrip': m_rstrip, 'lower': m_lower,
    'upper': m_upper, 'replace': m_replace, 'join': m_join,
    'partition': m_partition, 'rpartition': m_rpartition,
    'isdigit': _allin(DIGITS), 'isalpha': _allin(ALPHA),
    'isalnum': _allin(DIGITS | ALPHA), 'isspace': _allin(WS),
    'encode': m_encode, 'decode': m_encode, 'zfill': m_zfill,
    'ljust': m_ljust, 'rjust': m_rjust, '__len__': lambda s: len(s),
}

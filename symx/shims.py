"""Standard-library modules as seen by the instrumented code.

Modules whose functions would look inside symbolic values get a model here;
everything else is the real Python 3 module."""
import importlib
import math
import re
import struct as _struct
import types
import zlib as _zlib

import z3

from . import core, rt, strs
from .core import SymInt, SymBool, Unsupported, and_, conc, mkint, num
from .strs import SymStr, is_str
from .containers import SDefaultDict, SDict, SOrderedDict, SCounter


def mod(name, **kw):
    m = types.ModuleType(name)
    m.__dict__.update(kw)
    return m


# -- struct ---------------------------------------------------------------
SIZES = {'b': 1, 'B': 1, 'h': 2, 'H': 2, 'i': 4, 'I': 4, 'l': 4, 'L': 4,
         'q': 8, 'Q': 8, 'c': 1, 's': 1, 'x': 1, '?': 1}


def fparse(f):
    f = strs.mkc(strs.chars_of(f)) if isinstance(f, SymStr) else f
    end = '@'
    if f and f[0] in '@=<>!':
        end, f = f[0], f[1:]
    items = []
    for m in re.finditer(r'\s*(\d*)([a-zA-Z?])', f):
        n, c = m.groups()
        if c not in SIZES:
            raise Unsupported('struct ' + c)
        if c == 's':
            items.append((c, int(n or 1)))
        else:
            items.extend([(c, SIZES[c])] * int(n or 1))
    if end == '@' and any(s > 1 and c != 's' for c, s in items):
        if len(items) > 1 or items[0][0] in 'lL':
            raise Unsupported('native struct alignment')
    return end, items


def s_calcsize(f):
    return _struct.calcsize(f)


def s_pack(f, *args):
    if not rt.has_sym(args):
        args = [a.encode('latin-1') if isinstance(a, str) else a
                for a in args]
        return _struct.pack(f, *args).decode('latin-1')
    end, items = fparse(f)
    big = end in '>!'
    out = []
    need = len([1 for c, _ in items if c != 'x'])
    if need != len(args):
        raise _struct.error('pack expected %d items for packing (got %d)'
                            % (need, len(args)))
    args = list(args)
    for c, n in items:
        if c == 'x':
            out.append((0,))
            continue
        a = args.pop(0)
        if c == 's':
            k = strs.length(a)
            if rt.T(k >= n):
                out.extend(strs.segs_of(strs.slice_(a, 0, n, None)))
            else:
                out.extend(strs.segs_of(a))
                out.append((0,) * conc(n - k))
            continue
        if c == 'c':
            if not rt.T(strs.length(a) == 1):
                raise _struct.error('char format requires a string of '
                                    'length 1')
            out.extend(strs.segs_of(a))
            continue
        a = num(a)
        if a is None:
            raise _struct.error('required argument is not an integer')
        lo, hi = (0, (1 << (8 * n)) - 1) if c.isupper() else \
            (-(1 << (8 * n - 1)), (1 << (8 * n - 1)) - 1)
        if not rt.T(and_(a >= lo, a <= hi)):
            raise _struct.error("'%s' format requires %d <= number <= %d"
                                % (c, lo, hi))
        if isinstance(a, int):
            bs = list((a & ((1 << (8 * n)) - 1)).to_bytes(n, 'big'))
        else:
            w = max(8 * n, a.e.size())
            e = a.ext(w)
            bs = []
            for k in range(n - 1, -1, -1):
                b = z3.simplify(z3.Extract(8 * k + 7, 8 * k, e))
                bs.append(b.as_long() if z3.is_bv_value(b) else b)
        out.append(tuple(bs if big else bs[::-1]))
    return strs.mk(out)


def s_unpack(f, s):
    if isinstance(s, str):
        r = _struct.unpack(f, s.encode('latin-1'))
        return tuple(x.decode('latin-1') if isinstance(x, bytes) else x
                     for x in r)
    if isinstance(s, (bytes, bytearray)):
        return _struct.unpack(f, s)
    end, items = fparse(f)
    big = end in '>!'
    total = sum(n for _, n in items)
    if not rt.T(rt.len_(s) == total):
        raise _struct.error('unpack requires a string argument of length %d'
                            % total)
    if isinstance(s, list):
        cs = [strs.ch_of(x) for x in s]
    else:
        cs = strs.chars_of(s)
    out = []
    p = 0
    for c, n in items:
        b = cs[p:p + n]
        p += n
        if c == 'x':
            continue
        if c in 'cs':
            out.append(strs.mkc(b))
            continue
        if not big:
            b = b[::-1]
        if all(isinstance(x, int) for x in b):
            v = int.from_bytes(bytes(b), 'big', signed=c.islower())
        else:
            ts = [z3.BitVecVal(x, 8) if isinstance(x, int) else x for x in b]
            e = z3.simplify(z3.Concat(*ts)) if len(ts) > 1 else ts[0]
            if c.isupper():
                v = mkint(e, 0, (1 << (8 * n)) - 1)
            else:
                v = SymInt(e, -(1 << (8 * n - 1)), (1 << (8 * n - 1)) - 1)
        out.append(v)
    return tuple(out)


def s_unpack_from(f, s, off=0):
    n = sum(k for _, k in fparse(f)[1])
    return s_unpack(f, rt.getitem(s, slice(off, off + n)))


STRUCT = mod('struct', pack=s_pack, unpack=s_unpack, calcsize=s_calcsize,
             unpack_from=s_unpack_from, error=_struct.error)


# -- array ------------------------------------------------------------------
class SArray(list):
    """array.array of unsigned bytes / integers (range checked)."""
    RANGES = {'B': (0, 255), 'b': (-128, 127), 'H': (0, 65535),
              'I': (0, 2 ** 32 - 1), 'L': (0, 2 ** 64 - 1),
              'h': (-32768, 32767), 'i': (-2 ** 31, 2 ** 31 - 1),
              'l': (-2 ** 63, 2 ** 63 - 1)}

    def __init__(self, code, init=()):
        if code not in self.RANGES:
            raise Unsupported('array ' + code)
        self.typecode = code
        list.__init__(self)
        if is_str(init):
            self.fromstring(init)
        else:
            self.extend(init)

    def _chk(self, v):
        lo, hi = self.RANGES[self.typecode]
        if not rt.T(and_(v >= lo, v <= hi)):
            raise OverflowError('value out of range for array')
        return v

    def append(self, v):
        list.append(self, self._chk(v))

    def extend(self, vs):
        for v in vs:
            self.append(v)

    def __setitem__(self, i, v):
        if isinstance(i, slice):
            v = [self._chk(x) for x in v]
        else:
            v = self._chk(v)
        list.__setitem__(self, i, v)

    def __iadd__(self, o):
        self.extend(o)
        return self

    def __add__(self, o):
        return SArray(self.typecode, list(self) + list(o))

    def __getitem__(self, i):
        r = list.__getitem__(self, i)
        return SArray(self.typecode, r) if isinstance(i, slice) else r

    def fromstring(self, s):
        for c in strs.chars_of(s):
            list.append(self, strs.ch_int(c))

    def tostring(self):
        return strs.mkc([strs.ch_of(x) for x in self])
    tobytes = tostring

    def fromlist(self, l):
        self.extend(l)

    def tolist(self):
        return list(self)


# -- zlib: a lossless channel -------------------------------------------------
# Sizes are not modelled.  A stream starts with a marker; every flushed block
# carries its number, so a decompressor that is not in step raises zlib.error.
MARK = 'x\x9c'


class _ZError(Exception):
    pass


class _ZC(object):
    def __init__(self, *a, **k):
        self.n = 0
        self.buf = ''
        self.done = False

    def compress(self, x):
        if not strs.is_str(x):
            raise TypeError('a bytes-like object is required')
        self.buf = strs.m_join('', [self.buf, x])
        return ''

    def flush(self, mode=4):
        if self.done:
            raise _ZError('inconsistent stream state')
        if mode == 0:
            return ''
        out = [MARK] if self.n == 0 else []
        if mode == 4:
            self.done = True
        out.append(chr(128 + self.n % 64))
        out.append(self.buf)
        self.buf = ''
        self.n += 1
        return strs.m_join('', out)


class _ZD(object):
    unused_data = unconsumed_tail = ''

    def __init__(self, *a, **k):
        self.n = 0

    def decompress(self, x, *a):
        if self.n == 0:
            if not rt.T(rt.eq(rt.getitem(x, slice(0, 2)), MARK)):
                raise _ZError('incorrect header check')
            x = rt.getitem(x, slice(2, None))
        if not rt.T(rt.eq(rt.getitem(x, slice(0, 1)),
                          chr(128 + self.n % 64))):
            raise _ZError('invalid block type')
        self.n += 1
        return rt.getitem(x, slice(1, None))

    def flush(self, *a):
        return ''


def _zc1(s, *a):
    c = _ZC()
    c.compress(s)
    return c.flush()


def _zmod():
    m = mod('zlib')
    m.__dict__.update({k: v for k, v in vars(_zlib).items()
                       if k.startswith('Z_') or k.startswith('DEF') or
                       k == 'MAX_WBITS'})
    m.compressobj = _ZC
    m.decompressobj = _ZD
    m.compress = _zc1
    m.decompress = lambda s, *a: _ZD().decompress(s)
    m.error = _ZError
    m.crc32 = _zlib.crc32
    m.adler32 = _zlib.adler32
    return m


ZLIB = _zmod()


# -- string, collections, math, others ---------------------------------------
import string as _string

STRING = mod('string', **{k: v for k, v in vars(_string).items()
                          if not k.startswith('__')})
STRING.letters = _string.ascii_letters
STRING.lowercase = _string.ascii_lowercase
STRING.uppercase = _string.ascii_uppercase
STRING.join = lambda l, s=' ': rt.callm(s, 'join', l)
STRING.split = lambda s, *a: rt.callm(s, 'split', *a)
for _n in ('lower', 'upper', 'strip', 'find', 'replace', 'lstrip', 'rstrip'):
    setattr(STRING, _n, (lambda n: lambda s, *a: rt.callm(s, n, *a))(_n))

import collections as _collections

COLLECTIONS = mod('collections', **{
    k: v for k, v in vars(_collections).items() if not k.startswith('__')})
COLLECTIONS.defaultdict = SDefaultDict
COLLECTIONS.OrderedDict = SOrderedDict
COLLECTIONS.Counter = SCounter


def _round_up(x):
    from .real import SymReal
    if isinstance(x, SymReal):
        return x.ceil()
    if isinstance(x, SymInt):
        return x
    return math.ceil(x)


def _floor(x):
    from .real import SymReal
    if isinstance(x, SymReal):
        return x.floor()
    if isinstance(x, SymInt):
        return x
    return math.floor(x)


MATH = mod('math', **{k: v for k, v in vars(math).items()
                      if not k.startswith('__')})
MATH.ceil = _round_up
MATH.floor = _floor


def _sqrt(x):
    from . import real
    return real.sqrt(x)


MATH.sqrt = _sqrt


def _format_string(f, val, grouping=False, monetary=False):
    """locale.format_string in the C locale: no grouping."""
    from . import rt
    return rt.mod(f, val)


def _setlocale(category, locale=None):
    return 'C'


import locale as _locale
LOCALE = mod('locale', **{k: v for k, v in vars(_locale).items()
                          if not k.startswith('__')})
LOCALE.format_string = _format_string
LOCALE.setlocale = _setlocale


class SStringIO(object):
    def __init__(self, s=''):
        self.buf = s
        self.pos = 0

    def write(self, s):
        # append-only
        self.buf = self.buf + s

    def getvalue(self):
        return self.buf

    def read(self, n=-1):
        if n is None or (isinstance(n, int) and n < 0):
            r = rt.getitem(self.buf, slice(self.pos, None))
            self.pos = rt.len_(self.buf)
            return r
        r = rt.getitem(self.buf, slice(self.pos, self.pos + n))
        self.pos = self.pos + rt.len_(r)
        return r

    def readline(self):
        rest = rt.getitem(self.buf, slice(self.pos, None))
        i = rt.callm(rest, 'find', '\n')
        r = rest if i == -1 else rt.getitem(rest, slice(0, i + 1))
        self.pos = self.pos + rt.len_(r)
        return r

    def seek(self, p, w=0):
        self.pos = p

    def close(self):
        pass


class Dummy(object):
    """A module or object whose calls have no modelled effect (logging)."""

    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        return Dummy()

    def __call__(self, *a, **k):
        return Dummy()


def bisect_(right):
    def f(a, x, lo=0, hi=None):
        hi = len(a) if hi is None else hi
        while lo < hi:
            m = (lo + hi) // 2
            if right:
                if x < a[m]:
                    hi = m
                else:
                    lo = m + 1
            else:
                if a[m] < x:
                    lo = m + 1
                else:
                    hi = m
        return lo
    return f


def _insort(right):
    b = bisect_(right)

    def f(a, x, lo=0, hi=None):
        a.insert(b(a, x, lo, hi), x)
    return f


BISECT = mod('bisect', bisect=bisect_(True), bisect_right=bisect_(True),
             bisect_left=bisect_(False), insort=_insort(True),
             insort_right=_insort(True), insort_left=_insort(False))

ARRAY = mod('array', array=SArray, ArrayType=SArray)
IO = mod('io', StringIO=SStringIO, BytesIO=SStringIO)


class SQueue(object):
    def __init__(self, maxsize=0):
        self.queue = _collections.deque()

    def put(self, x, *a):
        self.queue.append(x)

    def get(self, *a):
        if not self.queue:
            raise IndexError('Empty')
        return self.queue.popleft()

    def empty(self):
        return not self.queue

    def qsize(self):
        return len(self.queue)


class SPQueue(SQueue):
    def __init__(self, maxsize=0):
        self.queue = []

    def put(self, x, *a):
        import heapq
        heapq.heappush(self.queue, x)

    def get(self, *a):
        import heapq
        return heapq.heappop(self.queue)


import os as _os

OS = mod('os')
OS.__dict__.update({k: v for k, v in vars(_os).items()
                    if not k.startswith('__')})
OS.times = lambda: (0.0, 0.0, 0.0, 0.0, 0.0)
TIME = mod('time', time=lambda: 0.0, clock=lambda: 0.0, sleep=lambda s: None)

QUEUE = mod('Queue', Queue=SQueue, PriorityQueue=SPQueue)


import sys as _sys
SYS = mod('sys', **{k: v for k, v in vars(_sys).items()
                    if not k.startswith('__')})
SYS.stdout = SYS.stderr = Dummy()

TABLE = {
    'sys': SYS,
    'struct': STRUCT, 'zlib': ZLIB, 'string': STRING, 'array': ARRAY,
    'collections': COLLECTIONS, 'math': MATH, 'locale': LOCALE, 'bisect': BISECT,
    'os': OS, 'time': TIME,
    'StringIO': IO, 'cStringIO': IO, 'logging': Dummy(), 'Queue': QUEUE,
}
EXTRA = {}
RENAMED = {'urlparse': 'urllib.parse', '__builtin__': 'builtins',
           'ConfigParser': 'configparser', 'queue': 'queue'}


def get(name, fromlist, py2):
    if name in EXTRA:
        return EXTRA[name]
    if name == 're':
        from . import sre
        if 're' not in EXTRA:
            EXTRA['re'] = sre.module()
        return EXTRA['re']
    if name in TABLE:
        return TABLE[name]
    name = RENAMED.get(name, name) if py2 else name
    m = importlib.import_module(name)
    if fromlist:
        return m
    return importlib.import_module(name.split('.')[0]) \
        if name.split('.')[0] == name or name not in RENAMED.values() else m

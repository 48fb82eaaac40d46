"""Parts of the codecs, used on their own."""

TXT = ''.join([chr(c) for c in range(33, 127)])


def lru(S):
    """delta2: a store against a list of its entries."""
    P = S.params
    m = S.load('compressor.delta2.lrustorage')
    items, octets = P.get('items'), P.get('octets')
    last, first = P.get('last'), P.get('first')
    s = m.LruStorage(octets, items, last, first)
    gone = []
    s.pop_cb = lambda e: gone.append((e.seq_num, e.key(), e.val()))
    held = []
    state = [first or 0, 0]

    def chars(nm):
        return S.str(nm, S.choice(nm + '.len', P['lens']), TXT)

    def drop():
        e = held.pop(0)
        state[1] = state[1] - len(e[1]) - len(e[2])
        return e

    def fits(e, n):
        if items is not None and len(held) + n > items:
            return False
        return octets is None or S.truth(
            state[1] + len(e.key()) + len(e.val()) <= octets)

    def room(e, n):
        if items == 0 or octets == 0:
            return [], False
        out = []
        while not fits(e, n):
            if not held:
                return out, False
            out.append(drop())
        return out, True

    def store(e, i):
        s.Store(e)
        S.check(e.seq_num == state[0], 'number of the new entry')
        held.append((state[0], e.key(), e.val()))
        state[0] += 1
        if last is not None and state[0] >= last:
            state[0] = first or 0
        state[1] = state[1] + len(e.key()) + len(e.val())

    for i in range(P['n']):
        op = S.choice('op%d' % i, P['ops'])
        del gone[:]
        out = []
        if op == 'pop':
            had = len(held) > 0
            if had:
                out = [drop()]
            S.check(bool(s.PopOne()) == had, 'result of PopOne')
        else:
            e = m.KV(S.choice('k%d' % i, P['keys']),
                     chars('v%d' % i))
            if op == 'put':
                out, ok = room(e, 1)
                S.check(bool(s.Reserve(e, 1)) == ok, 'result of Reserve')
                if ok:
                    store(e, i)
            elif op == 'room':
                n = S.choice('n%d' % i, [0, 2, 3])
                out, ok = room(e, n)
                S.check(bool(s.Reserve(e, n)) == ok, 'result of Reserve')
            elif fits(e, 1):
                store(e, i)
            else:
                try:
                    s.Store(e)
                except MemoryError:
                    pass
                else:
                    S.fail('stored more than fits')
        S.check(len(gone) == len(out), 'number of entries evicted')
        for x, y in zip(gone, out):
            S.check(S.both(x[0] == y[0], S.eq(x[1], y[1]), S.eq(x[2], y[2])),
                    'entry evicted')
        S.check(len(s) == len(held), 'number of entries')
        S.check(s.byte_size == state[1], 'count of octets')
        S.observe('len%d' % i, len(s))
    for n, k, v in held:
        e = s.Lookup(n)
        S.check(S.both(e.seq_num == n, S.eq(e.key(), k), S.eq(e.val(), v)),
                'entry %d' % n)
    n = S.int('other', 0, P['top'])
    S.assume(S.neg(S.either(*[n == h[0] for h in held])))
    try:
        s.Lookup(n)
    except Exception:
        pass
    else:
        S.fail('found an entry under a number that is not held')
    if not P['find']:
        S.cover('end')
        return
    k = S.choice('k', P['keys'] + ['other'])
    v = chars('v')
    ke = ve = None
    for h in reversed(held):
        if h[1] == k:
            if ke is None:
                ke = h[0]
            if S.truth(S.eq(h[2], v)):
                ke = ve = h[0]
                break
    S.check(s.FindKeyValEntries(k, v) == (ke, ve), 'entry searched')
    S.cover('end')


# -- bohe ----------------------------------------------------------------
class Code(object):
    """Stands in for the Huffman code: 9 bits a character, 3 for the end."""

    def __init__(self, table=None):
        pass

    def Encode(self, text, include_eof):
        bits = []
        for c in text:
            bits.append(0)
            for k in range(7, -1, -1):
                bits.append((c >> k) & 1)
        if include_eof:
            bits.extend([1, 0, 1])
        out = []
        for i in range(0, len(bits), 8):
            v = 0
            for k, b in enumerate(bits[i:i + 8]):
                v = v + (b << (7 - k))
            out.append(v)
        return (out, len(bits))


class Digest(object):
    seen = []

    def __init__(self, text):
        self.text = text

    def digest(self):
        Digest.seen.append(self.text)
        return '%016d' % (len(Digest.seen) - 1)


class Reader(object):
    def __init__(self, data):
        self.bits = []
        for c in data:
            o = ord(c)
            for k in range(7, -1, -1):
                self.bits.append((o >> k) & 1)
        self.at = 0

    def get(self, n):
        v = 0
        for b in self.bits[self.at:self.at + n]:
            v = (v << 1) | b
        self.at += n
        return v

    def text(self, n):
        return ''.join([chr(self.get(8)) for k in range(n)])


def uvarints(S, data, want):
    """The numbers, seven bits an octet, the lowest first."""
    i = 0
    for x in want:
        left = x
        while True:
            S.check(i < len(data), 'a number that does not end')
            o = ord(data[i])
            i += 1
            S.check((o & 127) == (left & 127), 'number')
            left = left >> 7
            if S.truth(o < 128):
                break
        S.check(left == 0, 'number cut off')
    S.check(i == len(data), 'number of numbers')


METHODS = ['get', 'post', 'put', 'patch', 'delete', 'options', 'connect']


def bohe_value(S, nm, kind, name):
    """-> value, check of what it became (octets), several values?"""
    P = S.params
    if kind == 'text':
        vs = [S.strup('%s.%d' % (nm, k), 0, P['len'], TXT)
              for k in range(S.choice(nm + '.n', P['count']))]
        v = '\0'.join(vs)
        return v, None, len(vs) > 1
    if kind == 'number':
        vs, v = [], ''
        n = S.choice(nm + '.n', P['count'])
        for k in range(n):
            d = S.str('%s.%d' % (nm, k),
                      S.choice('%s.%d.len' % (nm, k),
                               [x for x in P['digits'] if x or n == 1]),
                      '0123456789')
            vs.append(int(d) if len(d) else 0)
            v = v + ('\0' if k else '') + d

        def test(got):
            uvarints(S, got, vs)
        return v, test, len(vs) > 1
    if kind == 'date':
        v, t = S.choice(nm, P['dates'])

        def test(got):
            uvarints(S, got, [t])
        return v, test, False
    if kind == 'method':
        i = S.choice(nm, list(range(len(METHODS) + 1)))
        if i < len(METHODS):
            v = METHODS[i]
            want = chr(i + 1)
            if S.truth(S.bool(nm + '.caps')):
                v = v.upper()
        else:
            v = want = S.str(nm + '.m', 3, 'xyz')

        def test(got):
            S.check_eq(got, want, 'method')
        return v, test, False
    if kind == 'etag':
        vs = [S.strup('%s.%d' % (nm, k), 1, P['len'], TXT)
              for k in range(S.choice(nm + '.n', P['count']))]

        def test(got):
            S.check(len(got) == 1 + 17 * len(vs), 'length of the etags')
            S.check(ord(got[0]) == len(vs), 'number of etags')
            for k, x in enumerate(vs):
                one = got[1 + 17 * k:18 + 17 * k]
                S.check(ord(one[0]) == 16, 'length of an etag')
                S.check_eq(Digest.seen[int(one[1:])], x, 'etag')
        return '\0'.join(vs), test, len(vs) > 1


def bohe(S):
    """Every header can be read from what the codec makes of a set."""
    P = S.params
    S.inject('Cookie', {'BaseCookie': None})
    S.inject('werkzeug', {'http': None})
    S.inject('md5', {'new': Digest})
    del Digest.seen[:]
    m = S.load('compressor.bohe')
    m.huffman.Huffman = Code
    p = m.Processor({}, P['is_request'], [])
    hdrs, tests = [], {}
    for i, (name, kind) in enumerate(P['names']):
        if isinstance(name, list):
            name = S.choice('name%d' % i, name)
        elif isinstance(name, int):
            name = S.str('name%d' % i, S.choice('nlen%d' % i, [1, name]),
                         'xyz')
        v, test, many = bohe_value(S, 'v%d' % i, kind, name)
        hdrs.append((name, v))
        tests[i] = (test, many)
    out = p.compress(S.dict(hdrs), 'h')
    r = Reader(out)
    for i, (name, v) in enumerate(hdrs):
        test, many = tests[i]
        first = r.get(8)
        if isinstance(P['names'][i][0], int):
            S.check(first == 128 + len(name), 'length of the name')
            S.check_eq(r.text(len(name)), name, 'name')
            S.check(r.get(1) == 0, 'flag of a binary value')
        else:
            S.check(first == P['ids'][name], 'number of the name')
            if test is not None:
                S.check(r.get(1) == 1, 'flag of a binary value')
        S.check(r.get(1) == (1 if many else 0), 'flag of several values')
        n = r.get(22)
        if test is not None:
            got = r.text(S.concrete(n))
            test(got)
        else:
            start = r.at
            got = ''
            while S.truth(r.get(1) == 0):
                got = got + chr(r.get(8))
            S.check(r.get(2) == 1, 'end of the value')
            S.check(n == (r.at - start + 7) // 8, 'length of the value')
            S.check_eq(got, v, 'value')
    S.check(len(r.bits) == (r.at + 7) // 8 * 8, 'length of the result')
    S.observe('out', out)
    S.cover('end')


def bohe_values(S):
    """The encoders of values on their own."""
    P = S.params
    S.inject('Cookie', {'BaseCookie': None})
    S.inject('werkzeug', {'http': None})
    S.inject('md5', {'new': Digest})
    del Digest.seen[:]
    m = S.load('bohe')
    req = P['is_request']

    def encode(name, v):
        if P['typed']:
            return m.encode(name, v, req)
        if name == 'cache-control':
            return m.ENCODERS[name](v, 'req' if req else 'res')
        return m.encode(name, v)
    kind = P['kind']
    if kind != 'cache':
        v, test, many = bohe_value(S, 'v', kind, P['name'])
        got = encode(P['name'], v)
        if test is None:
            S.check_eq(got, v, 'value')
        else:
            test(got)
        S.cover('end')
        return
    ds, nums, lists = [], {}, {}
    for d in P['numbers']:
        if S.truth(S.bool('has.' + d)):
            t = S.str('n.' + d, S.choice('len.' + d, P['digits']),
                      '0123456789')
            nums[d] = int(t)
            ds.append(d + '=' + t)
    for d in P['lists']:
        k = S.choice('list.' + d, [0, 1, 2])
        if k == 1:
            ds.append(d)
        elif k == 2:
            lists[d] = S.str('f.' + d, 2, 'abc-')
            ds.append(d + '=' + lists[d])
    if S.truth(S.bool('other')):
        ds.append('no-store')
    if S.truth(S.bool('reverse')):
        ds.reverse()
    sep = S.choice('sep', [',', ', ', '\0'])
    v = ''
    for k, d in enumerate(ds):
        v = v + (sep if k else '') + d
    got = encode('cache-control', v)
    S.check(S.eq(got[0], '_'), 'flags')
    got = got[1:]

    def take(x):
        k, left = 0, x
        while True:
            S.check(k < len(got), 'cut off')
            o = ord(got[k])
            k += 1
            S.check((o & 127) == (left & 127), 'number')
            left = left >> 7
            if S.truth(o < 128):
                break
        S.check(left == 0, 'number cut off')
        return got[k:]
    for d in ['max-age', 'max-stale', 'min-fresh'] if req else \
            ['max-age', 's-maxage']:
        got = take(nums.get(d, 0))
    if not req:
        for d in ['no-cache', 'private']:
            if d in lists:
                got = take(1)
                got = take(len(lists[d]))
                S.check_eq(got[:len(lists[d])], lists[d], 'field names')
                got = got[len(lists[d]):]
            else:
                got = take(0)
    S.check(len(got) == 1 and S.truth(S.eq(got[0], '\0')), 'extensions')
    S.cover('end')

"""Bit buckets and Huffman coders."""


def bits_of(v, n):
    """The n low bits of v, first the most significant."""
    return [(v >> (n - 1 - i)) & 1 for i in range(n)]


def pack(bits):
    """As bytes, the last one filled up with zeros on the right."""
    out = []
    for i in range(0, len(bits), 8):
        v = 0
        for k, b in enumerate(bits[i:i + 8]):
            v = v + (b << (7 - k))
        out.append(v)
    return out


def content(data, n):
    """(list of bytes, number of bits) -> list of bits."""
    r = []
    for c in data:
        r.extend(bits_of(c, 8))
    return r[:n]


def same(S, got, want, msg):
    S.check(len(got) == len(want), msg + ': length')
    S.check(S.both(*[S.eq(a, b) for a, b in zip(got, want)]), msg)


def store(S, bb, op, nm, fed):
    """One store; its bits are appended to fed."""
    if isinstance(op, int):
        nb = (op + 7) // 8
        data = [S.int('%s.%d' % (nm, i), 0, 255) for i in range(nb)]
        keep = list(data)
        bb.StoreBits((data, op))
        fed.extend(content(keep, op))
    elif op == 'bit':
        b = S.int(nm, 0, 1)
        bb.StoreBit(b)
        fed.append(b)
    else:
        n = int(op[1:])
        v = S.int(nm, 0, (1 << n) - 1)
        getattr(bb, 'StoreBits%d' % n)(v)
        fed.extend(bits_of(v, n))


def retrieve(S, bb, op, fed, pos, what):
    if isinstance(op, int):
        got = bb.GetBits(op)
        n = op
        S.check(got[1] == n, what + ': number of bits')
        same(S, got[0], pack(fed[pos:pos + n]), what)
    elif op == 'bit':
        n = 1
        got = bb.GetBit()
        S.check(S.eq(got, fed[pos]), what)
    else:
        n = int(op[1:])
        got = getattr(bb, 'GetBits%d' % n)()
        want = 0
        for b in fed[pos:pos + n]:
            want = want * 2 + b
        S.check(S.eq(got, want), what)
    return pos + n


def bucket(S):
    """Stores and reads in the order of P['ops']; each a list of choices."""
    P = S.params
    m = S.load(P['module'])
    bb = m.BitBucket()
    fed = []
    pos = 0
    for i, (kind, choices) in enumerate(P['ops']):
        op = S.choice('op%d' % i, choices)
        if kind == 'store':
            if op != 0:
                store(S, bb, op, 'v%d' % i, fed)
        else:
            n = op if isinstance(op, int) else \
                1 if op == 'bit' else int(op[1:])
            if pos + n > len(fed):
                S.skip()
            pos = retrieve(S, bb, op, fed, pos, 'read %d' % i)
        S.check(bb.NumBits() == len(fed), 'number of bits')
        S.check(bb.BytesOfStorage() == (len(fed) + 7) // 8,
                'number of bytes')
        S.check(bool(bb.AllConsumed()) == (pos >= len(fed)), 'all consumed')
        S.check(bb.BitsRemaining() == len(fed) - pos, 'bits remaining')
    data, n = bb.GetAllBits()
    S.check(n == len(fed), 'number of all bits')
    same(S, data, pack(fed), 'all bits')
    left = len(fed) - pos
    same(S, bb.GetBits(left)[0], pack(fed[pos:]), 'the rest')
    S.check(bool(bb.AllConsumed()), 'something left')
    S.observe('bits', data)
    bb.Clear()
    S.check(bb.NumBits() == 0 and bool(bb.AllConsumed()), 'not cleared')
    S.cover('end')


def setup_huffman(S):
    m = S.load(S.params['module'])
    t = S.load(S.params['tables'])
    return m.Huffman(getattr(t, S.params['table'])), m


def huffman(S):
    """pre + a symbolic character + post, at every bit offset."""
    P = S.params
    h, m = S.shared
    B = S.load(P['bucket']).BitBucket
    c = S.int('c', 0, 255)
    text = [ord(x) for x in P['pre']] + [c] + [ord(x) for x in P['post']]
    mode = S.choice('mode', ['eof', 'length', 'both', 'padded'])
    if P['offsets']:
        off = S.choice('offset', P['offsets'])
    else:
        off = {'eof': 0, 'length': 3, 'both': 6, 'padded': 1}[mode]
    bb = B()
    if off:
        bb.StoreBits(([0xa5], off))
    n0 = bb.NumBits()
    h.EncodeToBB(bb, list(text), mode != 'length')
    n = bb.NumBits() - n0
    pad = 0
    if mode == 'padded':
        pad = 5
        bb.StoreBits(([0xff], pad))
    bb.StoreBits(([0x5a], 8))
    if off:
        bb.GetBits(off)
    got = h.DecodeFromBB(bb, mode != 'length',
                         -1 if mode == 'eof' else n + pad)
    same(S, got, text, 'decoded text')
    tail = bb.GetBits(8)[0]
    S.check(S.eq(tail, [0x5a]), 'what follows')
    S.check(bool(bb.AllConsumed()), 'bits left over')
    S.observe('n', n)
    S.cover('end')


def huffman_any(S):
    """A code made from any frequencies encodes every symbol so that it is
    decoded again."""
    P = S.params
    m = S.load(P['module'])
    B = S.load(P['bucket']).BitBucket
    n = P['n']
    fs = [(k, S.int('f%d' % k, 0, P['max'])) for k in range(n)]
    h = m.Huffman([tuple(f) for f in fs])
    text = [S.choice('t%d' % k, list(range(n))) for k in range(P['len'])]
    bb = B()
    h.EncodeToBB(bb, text, False)
    k = bb.NumBits()
    S.check(k >= len(text), 'empty codes')
    bb.StoreBits(([0x5a], 8))
    got = h.DecodeFromBB(bb, False, k)
    S.check(got == text, 'decoded text')
    S.check(S.eq(bb.GetBits(8)[0], [0x5a]), 'what follows')
    S.observe('bits', k)
    S.cover('end')

"""Histories of header sets through a compressor's public interface."""

TOKEN = ''.join([chr(c) for c in range(33, 127) if chr(c) not in ';,'
                 and not chr(c).isupper()])


class Options(object):
    verbose = 0


class Code(object):
    """Stands in for the Huffman code (which has a property of its own): a
    prefix code of 9 bits a character and 3 for the end, so that strings end
    off the octet boundary."""

    def Encode(self, text, include_eof):
        bits = []
        for c in text:
            bits.append(0)
            for k in range(7, -1, -1):
                bits.append((c >> k) & 1)
        if include_eof:
            bits.extend([1, 0, 1])
        out = []
        for i in range(0, len(bits), 8):
            v = 0
            for k, b in enumerate(bits[i:i + 8]):
                v = v + (b << (7 - k))
            out.append(v)
        return (out, len(bits))

    def EncodeToBB(self, bb, text, include_eof):
        bb.StoreBits(self.Encode(text, include_eof))

    def DecodeFromBB(self, bb, includes_eof, bits_to_decode):
        out = []
        n = 0
        while bits_to_decode <= 0 or n < bits_to_decode:
            n += 1
            if bb.GetBits(1)[0][0]:
                bb.GetBits(2)
                n += 2
                break
            out.append(bb.GetBits8())
            n += 8
        if bits_to_decode > n:
            bb.GetBits(bits_to_decode - n)
        return out


class Freaks(object):
    """Stands in for the letter statistics, which nothing reads."""

    def LookAt(self, *a):
        pass


class BitArray(object):
    """Stands in for the bitarray library: a list of bits."""

    def __init__(self, bits=()):
        self.bits = list(bits)

    def fromstring(self, text):
        for c in text:
            o = ord(c)
            for k in range(7, -1, -1):
                self.bits.append((o >> k) & 1)

    frombytes = fromstring

    def tostring(self):
        out = ''
        for i in range(0, len(self.bits), 8):
            v = 0
            for k, b in enumerate(self.bits[i:i + 8]):
                v = v + (b << (7 - k))
            out = out + chr(v)
        return out

    tobytes = tostring

    def append(self, bit):
        self.bits.append(bit)

    def extend(self, other):
        self.bits.extend(other.bits)

    def __getitem__(self, k):
        if isinstance(k, slice):
            return BitArray(self.bits[k])
        return self.bits[k]

    def __len__(self):
        return len(self.bits)


def make(S, modname, is_request, params):
    spdy4 = S.params.get('spdy4')
    if S.params.get('bitarray'):
        S.inject('bitarray', {'bitarray': BitArray})
    if spdy4:
        S.load(spdy4 + 'spdy4_codec_impl').WordFreak = Freaks
    m = S.load(modname)
    p = m.Processor(Options() if spdy4 else {}, is_request, list(params))
    if spdy4 and S.params.get('code', True):
        code = Code()
        for side in (S.peek(p, 'compressor'), S.peek(p, 'decompressor')):
            if hasattr(side, 'huffman_table'):
                side.huffman_table = code
            else:
                side.huffman = code
    return p


def parts(v, name):
    return v.split(';' if name == 'cookie' else '\0')


def same_parts(S, a, b):
    """a, b lists of strings: equal as multisets (a has distinct members)."""
    if len(a) != len(b):
        return False
    if len(a) == 1:
        return S.eq(a[0], b[0])
    cs = []
    for x in a:
        cs.append(S.either(*[S.eq(x, y) for y in b]))
    for y in b:
        cs.append(S.either(*[S.eq(x, y) for x in a]))
    return S.both(*cs)


def check_set(S, sent, got, what, cookies=True):
    """sent: list of (name, [parts]); got: the decoded dictionary."""
    extra = [n for n in S.params.get('ignore', []) if n in got]
    S.check(len(got) - len(extra) == len(sent), what + ': number of headers')
    for name, ps in sent:
        S.check(name in got, what + ': header lost')
        if S.params.get('exact'):
            S.check_eq(got[name], join(name, ps), what + ': value of ' + name)
            continue
        out = got[name]
        if cookies and name == 'cookie':
            out = out.split(S.params.get('crumbs', ';'))
        else:
            out = out.split('\0')
        S.check(same_parts(S, ps, out), what + ': value of ' + name)


def value(S, nm, spec):
    """spec: [name, minlen, maxlen, [literals] or alphabet, nparts]"""
    lits = spec[3] if len(spec) > 3 else []
    n = spec[4] if len(spec) > 4 else 1
    out = []
    for k in range(n):
        if isinstance(lits, str):
            p = S.strup('%s.%d' % (nm, k), spec[1], spec[2], lits)
        else:
            p = S.atom('%s.%d' % (nm, k), spec[1], spec[2], lits, TOKEN)
        if len(spec) > 7:
            p = S.choice('%s.%d.pre' % (nm, k), spec[7]) + p
        for q in out:
            S.assume(S.neg(S.eq(p, q)))
        out.append(p)
    return out


def join(name, ps):
    v = ps[0]
    for p in ps[1:]:
        v = v + (';' if name == 'cookie' else '\0') + p
    return v


def start(S):
    """Both ends of a connection that already carried P['prologue']."""
    P = S.params
    enc = make(S, P['module'], P['is_request'], P['params'])
    dec = make(S, P['module'], P['is_request'], P['params'])
    if P.get('numbers'):
        # So few numbers that they start again, as they do after 2 ** 16.
        for e in (S.peek(enc, 'compressor'), S.peek(dec, 'decompressor')):
            ids = S.peek(S.peek(e, 'storage'), 'lru_ids')
            S.peek(ids, 'maximum_id')
            ids.maximum_id = S.peek(ids, 'minimum_id') + P['numbers']
    for hs in P.get('prologue', []):
        frame = enc.compress(S.dict([(n, join(n, ps)) for n, ps in hs]),
                             'example.org')
        got = dec.decompress(frame)
        check_set(S, hs, got, 'prologue')
    return enc, dec



def setup_d_tables(S):
    """... and the number of entries before any is stored."""
    st = S.peek(S.load(S.params['spdy4'] + 'spdy4_codec_impl'), 'Storage')(9, 9)
    return start(S) + (len(S.peek(st, 'lru_idx_to_ve')),)


setup_roundtrip = setup_hd_tables = setup_d2_tables = start


def check_refs(S, sent, last, frame, i):
    """simple: headers that did not change are sent as references, as many as
    allowed."""
    same = 0
    for n, ps in sent:
        if n in last and (n == ':host' or n[0] != ':') and \
                S.truth(S.eq(join(n, ps), last[n])):
            same += 1
    limits = dict(p.split('=') for p in S.params['params'] if '=' in p)
    same = min(same, int(limits.get('max_entries', 999)))
    refs = 0
    for line in frame.split('\n'):
        if line[:4] == 'ref:':
            refs = refs + len(line[4:].split(','))
    S.check(refs == same, 'set %d: number of references' % i)


def roundtrip(S, after=None):
    P = S.params
    enc, dec = S.shared[:2]
    last = {}
    for i in range(P['nsets']):
        sent = []
        for spec in P['names']:
            sets = spec[5] if len(spec) > 5 else None
            if sets is not None and i not in sets:
                continue
            name = spec[0]
            if isinstance(name, list):
                name = S.choice('name%d.%s' % (i, name[0]), name)
                if name in [n for n, ps in sent]:
                    S.skip()
            if not (len(spec) > 6 and spec[6]):
                if not S.truth(S.bool('p%d.%s' % (i, name))):
                    continue
            sent.append((name, value(S, 'v%d.%s' % (i, name), spec)))
        if P.get('reverse') and len(sent) > 1 and \
                S.truth(S.bool('rev%d' % i)):
            sent.reverse()
        host = S.choice('host%d' % i, P['hosts']) if P.get('hosts') \
            else 'example.org'
        frame = enc.compress(S.dict([(n, join(n, ps)) for n, ps in sent]),
                             host)
        if P.get('refs'):
            check_refs(S, sent, last, frame, i)
        last = dict([(n, join(n, ps)) for n, ps in sent])
        got = dec.decompress(frame)
        check_set(S, sent, got, 'set %d' % i)
        S.observe('n%d' % i, len(got))
        if P.get('flen', True):
            # (off where it depends on the order of a dictionary)
            S.observe('flen%d' % i, len(frame))
        if after is not None:
            after(S, enc, dec, i)
    S.cover('end')


def hd_tables(S):
    """headerdiff: after every set both sides index the same headers under
    the same numbers, and their values stay within the buffer."""
    P = S.params
    limit = P['limit']

    def after(S, enc, dec, i):
        e = S.peek(enc, 'codec')
        d = S.peek(dec, 'codec')
        et = S.peek(e, 'headersTableEncoder')
        dt = S.peek(d, 'indexedHeadersDecoder')
        S.check(len(et) == len(dt), 'number of indexed headers')
        total = 0
        seen = []
        for h in et.values():
            k = S.peek(h, 'index')
            seen.append(k)
            S.check(S.both(S.eq(h.name, dt[k][0]), S.eq(h.value, dt[k][1])),
                    'index %d names different headers' % k)
            total = total + len(h.value)
        S.check(sorted(seen) == list(range(len(dt))), 'index reused')
        S.check(total <= limit, 'values exceed the buffer')
        S.check(S.peek(e, 'headersTableEncoderSize') == total,
                'encoder size accounting')
        S.check(S.peek(d, 'indexedHeadersSizeDecoder') == total,
                'decoder size accounting')
        S.observe('total%d' % i, total)
    roundtrip(S, after)


def d2_tables(S):
    """delta2: after every set both ends hold the same entries under the same
    numbers and the same header groups, within the limits."""
    P = S.params
    limits = dict(p.split('=') for p in P['params'] if '=' in p)
    entries = int(limits.get('max_entries', 190))
    octets = int(limits.get('max_byte_size', 4096))

    def after(S, enc, dec, i):
        ends = [S.peek(enc, 'compressor'), S.peek(dec, 'decompressor')]
        rings = []
        for e in ends:
            st = S.peek(e, 'storage')
            rings.append(list(S.peek(S.peek(st, 'lru_storage'), 'ring')))
        a, b = rings
        S.check(len(a) == len(b), 'number of entries')
        S.check(len(a) <= entries, 'more entries than allowed')
        total = 0
        live = []
        for x, y in zip(a, b):
            S.check(x.seq_num == y.seq_num, 'number of an entry')
            S.check(S.both(S.eq(x.key(), y.key()), S.eq(x.val(), y.val())),
                    'entry %d' % x.seq_num)
            S.check(x.seq_num not in live, 'two entries with one number')
            live.append(x.seq_num)
            total = total + len(x.val())
        if limits.get('refcnt_vals', '0') == '0':
            S.check(total <= octets, 'more octets than allowed')
        gs = [S.peek(e, 'header_groups') for e in ends]
        S.check(sorted(gs[0].keys()) == sorted(gs[1].keys()),
                'number of header groups')
        for k in gs[0]:
            g, h = [sorted(S.peek(x[k], 'hg_store')) for x in gs]
            S.check(g == h, 'header group %d' % k)
            for n in g:
                S.check(n in live or 0 <= n < 65,
                        'header group refers to an entry that is gone')
        if octets == 4096:
            S.observe('live%d' % i, len(live))
    roundtrip(S, after)


def hd_integer(S):
    P = S.params
    m = S.load('compressor.headerdiff')
    p = P['prefix']
    c = S.peek(m.Processor({}, True, []), 'codec')
    d = S.peek(m.Processor({}, True, []), 'codec')
    write = S.peek(c, 'writeInteger')
    read = S.peek(d, 'readInteger')
    nxt = S.peek(d, 'readNextByte')
    v = S.int('v', 0, P['max'])
    w = S.int('w', 0, 300)
    before = S.str('before', 1)
    c.encodedStream = before
    write(P['byte'], p, v)
    write(0, 0, w)
    s = c.encodedStream
    S.check(S.eq(s[:1], before), 'overwrote earlier bytes')
    d.decodedStream = s
    d.decodedStreamIndex = 1
    b = 0
    if p > 0:
        b = nxt()
        q = p if p <= 8 else p - 8
        S.check((b >> q) << q == P['byte'], 'pattern bits')
    S.check(read(b, p) == v, 'value')
    S.observe('at', d.decodedStreamIndex)
    S.check(read(0, 0) == w, 'the following integer')
    S.check(d.decodedStreamIndex == len(s), 'not self-delimiting')


def d_entries(S, st):
    """The entries a delta end stores, oldest first."""
    out = []
    e = S.peek(S.peek(st, 'lru'), 'first')
    while e is not None:
        out.append(e)
        if len(out) > 9999:
            S.fail('the list of entries is a ring')
        e = S.peek(e, 'n')
    return out


def d_tables(S):
    """delta: after every set both ends hold the same entries under the same
    numbers and the same header groups, within the limits."""
    P = S.params
    limits = dict(p.split('=') for p in P['params'] if '=' in p)
    entries = int(limits.get('max_entries', 4096))
    octets = int(limits.get('max_byte_size', 16 * 1024))

    def after(S, enc, dec, i):
        ends = [S.peek(enc, 'compressor'), S.peek(dec, 'decompressor')]
        sts = [S.peek(e, 'storage') for e in ends]
        a, b = [d_entries(S, st) for st in sts]
        S.check(len(a) == len(b), 'number of entries')
        S.check(len(a) <= entries, 'more entries than allowed')
        total = 0
        live = []
        known = []
        for x, y in zip(a, b):
            k = S.peek(x, 'lru_idx')
            S.check(k == S.peek(y, 'lru_idx'), 'number of an entry')
            S.check(S.both(S.eq(x.key(), y.key()), S.eq(x.val(), y.val())),
                    'entry %d' % k)
            S.check(k not in live, 'two entries with one number')
            live.append(k)
            total = total + len(x.val())
            if x.key() not in known:
                known.append(x.key())
                if x.key().startswith('x-'):
                    total = total + len(x.key())
        S.check(total <= octets, 'more octets than allowed')
        tables = [S.peek(st, 'lru_idx_to_ve') for st in sts]
        S.check(sorted(tables[0].keys()) == sorted(tables[1].keys()),
                'numbers in use')
        S.check(len(tables[0]) == len(a) + S.shared[2],
                'numbers of entries that are gone')
        for k in live:
            S.check(tables[0][k] in a, 'number leads to another entry')
            S.check(tables[1][k] in b, 'number leads to another entry')
        keys = [S.peek(st, 'key_idx_to_ke') for st in sts]
        S.check(sorted(keys[0].keys()) == sorted(keys[1].keys()),
                'numbers of names in use')
        for k in keys[0]:
            S.check(keys[0][k].key() == keys[1][k].key(), 'number of a name')
        names = [keys[0][k].key() for k in keys[0]]
        for n in known:
            S.check(n in names, 'entry without a name')
        gs = [S.peek(e, 'header_groups') for e in ends]
        S.check(sorted(gs[0].keys()) == sorted(gs[1].keys()),
                'number of header groups')
        for k in gs[0]:
            g, h = [sorted(S.peek(x[k], 'hg_store')) for x in gs]
            S.check(g == h, 'header group %d' % k)
            for n in g:
                S.check(n in tables[0],
                        'header group refers to an entry that is gone')
        if octets == 16 * 1024:
            S.observe('live%d' % i, len(live))
    roundtrip(S, after)

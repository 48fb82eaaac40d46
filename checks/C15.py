from symx.explore import Task
from symx.runner import Check, Group

PATHS = ['compressor/__init__.py', 'compressor/headerdiff',
         'compressor/spdy_dictionary.py']
TXT = ''.join(map(chr, range(33, 127))).replace(';', '')


def rt(name, req, params, nsets, names, fn='roundtrip', har='hset.py', **kw):
    b = kw.pop('budget', None)
    return Task(name, har, fn, dict(
        module='compressor.headerdiff', is_request=req, params=params,
        nsets=nsets, names=names, **kw), covers=['end'], budget=b)


LONG = ['', 'p' * 16, 'pp/qqqqqqqqqqqqqqqqqqqqqq', 'pp']
# (one header a set: the order within a set is the dictionary's)
MANY = [[['x-h%d' % i, ['v%d' % i]]] for i in range(70)]
SOME = [[['x-h%d' % i, ['val%d' % i]]] for i in range(34)]
REQ = [':version', 'proxy-connection', 'referer', 'accept-datetime',
       'if-unmodified-since', 'max-forwards', 'pragma', 'x-new']
RES = ['via', ':status-text', 'access-control-allow-origin', 'accept-ranges',
       'refresh', 'retry-after', 'strict-transport-security', 'x-new']


def check(tier):
    deep = tier == 'thorough'
    Y = True
    ts = [
        rt('delta', Y, ['buffer=12'], 2, [['x-a', 0, 4, TXT, 1, None, Y]]),
        rt('delta-res', False, ['buffer=5'], 3,
           [['server', 0, 3, TXT, 1, None, Y]]),
        rt('two', Y, ['buffer=6'], 2,
           [['x-a', 0, 3, TXT, 1, None, Y], ['x', 0, 3, TXT]]),
        rt('novel', Y, ['buffer=90'], 3,
           [['x-a', 0, 1, TXT, 1, None, Y, LONG[:3]]]),
        rt('novel-res', False, ['buffer=40'], 3,
           [['x-a', 0, 1, TXT, 1, None, Y, LONG]]),
        rt('lru', Y, ['buffer=4'], 4,
           [['x-a', 0, 2, TXT, 1, [0, 3], Y], ['x-b', 0, 2, TXT, 1, [0]],
            ['x-c', 0, 4, TXT, 1, [2], Y]]),
        rt('values', Y, ['buffer=8'], 2,
           [['x-a', 0, 2, TXT, 2, None, Y], ['cookie', 0, 2, TXT, 2, [0]]]),
        rt('bounded', Y, ['buffer=12', 'delta_type=/&'], 2,
           [['x-a', 3, 4, TXT, 1, None, Y]]),
        rt('limited', Y, ['delta_type=1'], 3,
           [['x-a', 2, 3, TXT, 1, None, Y]]),
        rt('no-delta', Y, ['delta=false', 'buffer=300'], 3,
           [['x-a', 0, 300, [], 1, None, Y], [':path', 1, 9, [], 1, [2]]]),
        rt('no-delta-long', False, ['delta=false'], 2,
           [['x-a', 0, 20000, [], 1, None, Y]]),
        rt('names', Y, ['buffer=2'], 1, [[REQ, 0, 3, TXT, 1, None, Y]]),
        rt('names-res', False, [], 1, [[RES, 0, 3, TXT, 1, None, Y]]),
        rt('new-names', Y, [], 2,
           [[['x-a', 'x-b', 'te'], 0, 1, TXT, 1, None, Y],
            [['x-b', 'x-c', 'te'], 0, 1, TXT, 1, None, Y]]),
        rt('long-index', Y, [], 2,
           [[['x-h63', 'x-h64', 'x-h65', 'x-h69'], 2, 3, TXT, 1, None, Y,
             ['', 'v6']]], prologue=MANY),
        rt('ref-index', Y, ['buffer=170'], 1,
           [[['x-h14', 'x-h15', 'x-h16', 'x-h30', 'x-h31', 'x-h32'], 0, 3,
             TXT, 1, None, Y, ['val', '']]], prologue=SOME),
        rt('deflate', Y, ['deflate=12', 'buffer=20'], 3,
           [['x-a', 0, 3, TXT, 1, None, Y]], flen=False),
        rt('huffman', Y, ['huffman', 'buffer=20'], 1,
           [['x-a', 0, 1, TXT, 1, None, Y, ['', 'a', 'Zq9/']]]),
        rt('huffman-res', False, ['huffman', 'buffer=20'], 1,
           [['x-a', 0, 1, TXT, 1, None, Y, ['', 'b', 'Yp8.']]]),
    ]
    if deep:
        ts += [
            rt('delta-deep', Y, ['buffer=12'], 3,
               [['x-a', 0, 5, TXT, 1, None, Y]], budget=900),
            rt('two-deep', False, ['buffer=6'], 3,
               [['x-a', 0, 3, TXT, 1, None, Y], ['x', 0, 3, TXT]],
               budget=900),
            rt('lru-deep', Y, ['buffer=5'], 4,
               [['x-a', 0, 3, TXT], ['x-b', 0, 2, TXT, 1, [0, 3]],
                ['x-c', 0, 4, TXT, 1, [2], Y]], budget=900),
            rt('values-deep', Y, ['buffer=8'], 2,
               [['x-a', 0, 3, TXT, 2, None, Y],
                ['cookie', 0, 2, TXT, 2, None, Y]], budget=900),
            rt('huffman-deep', Y, ['huffman', 'buffer=20'], 1,
               [['x-a', 2, 2, TXT[30:70], 1, None, Y]], budget=900),
        ]
    return Check(
        'C15', [Group(True, PATHS, ts, ['compressor.headerdiff'])],
        'histories of 1-4 header sets of up to 3 headers (on an empty '
        'connection or on one that already carries 34-70 headers), up to 2 '
        'values per header; values of up to 5 arbitrary visible characters, '
        'also behind common prefixes of 16-26 characters, or opaque and up '
        'to 20000 octets; buffers of 2-300 octets and the default; full, '
        'bounded, limited and no delta; with and without deflate and Huffman '
        'coding (1-2 characters)',
        'longer histories; more than 255 headers or 65535 octets in a set; '
        'index values over 16000; blanks around values (stripped by design)',
        ['zlib is a lossless ordered channel'])

from symx.explore import Task
from symx.runner import Check, Group

PATHS = ['compressor/__init__.py', 'compressor/delta',
         'compressor/spdy_dictionary.py']
TXT = ''.join(map(chr, range(33, 127))).replace(';', '')
MANY = [[['x-%d' % i, ['v%d' % i]] for i in range(24)],
        [['x-%d' % i, ['v%d' % i]] for i in range(24)]]
WIDE = [[['x-%d' % i, ['v']] for i in range(k, k + 130)]
        for k in (0, 130)]
VALS = ['', 'a', 'Z~', 'text/html', '!#$%&', 'a b', '0' * 40]
# Names the codec itself uses.
NAMES = ['toggl', 'trang', 'clone', 'kvsto', 'eref', 'x-new', 'key', 'val']

BOUNDS = ('histories of 1-4 header sets of up to 3 headers with up to 3 '
          'values (on an empty connection, on one with 24 live headers, on '
          'one that carried 260 names, and '
          'on one that carried up to 513 values in one set), values of up to '
          '2 (5 where sizes matter) arbitrary visible characters or of '
          'static entries, names the codec itself uses; stores of 0-3 '
          'entries, of 0 and 7 octets, and the default; one or two hosts')
OUTSIDE = ('longer histories; frames over 64 KB (the format carries their '
           'operations no further); blanks around values and repeated values '
           '(dropped by design); reuse of the 65536 numbers')
ASSUME = ['the Huffman code is exact (C18); a fixed 9-bit prefix code stands '
          'in for it where characters are symbolic',
          'the letter statistics, which nothing reads, are left out']


def rt(name, req, params, nsets, names, fn='roundtrip', har='hset.py', **kw):
    b = kw.pop('budget', None)
    loop = kw.pop('max_loop', 3000)
    return Task(name, har, fn, dict(
        module='compressor.delta', is_request=req, params=params,
        nsets=nsets, names=names, spdy4='compressor.delta.', crumbs='; ',
        **kw), covers=['end'], budget=b, max_loop=loop)


def histories(fn, deep=False):
    Y = True
    A = ['x-a', 0, 2, TXT]
    A1 = ['x-a', 0, 2, TXT, 1, None, Y]
    B = ['x-b', 0, 1, TXT]
    C = [':path', 0, 1, TXT]

    def t(name, req, params, nsets, names, **kw):
        return rt(name, req, params, nsets, names, fn, **kw)
    ts = [
        t('one', Y, [], 3, [A1]),
        t('two', Y, [], 3, [['x-a', 0, 1, TXT], B], flen=False),
        t('mix', False, [], 2, [['x-a', 0, 1, TXT], ['x-a2', 0, 1, TXT], C],
          flen=False),
        t('many', Y, [], 2, [['x-3', 2, 2, TXT], ['x-4', 2, 2, TXT, 1, [0]],
                             ['x-5', 0, 0, TXT, 1, [0]]],
          prologue=MANY, flen=False),
        t('static', Y, [], 2,
          [[[':host', ':method', ':scheme', 'cookie', 'te'], 0, 1,
            TXT, 1, None, Y, ['', 'http']]]),
        t('names', Y, [], 2, [[NAMES, 0, 1, TXT, 1, None, Y]]),
        t('values', Y, [], 2, [['x-a', 0, 1, TXT, 2],
                               ['cookie', 0, 1, TXT, 2]], flen=False),
        t('cookie', Y, [], 2, [['cookie', 0, 1, TXT, 3, None, Y]],
          flen=False),
        t('evict-1', Y, ['max_entries=1'], 3, [A1, ['x-b', 0, 1, TXT]],
          flen=False),
        t('evict-2', Y, ['max_entries=2'], 3, [['x-a', 1, 1, TXT], B],
          flen=False),
        t('evict-3', Y, ['max_entries=3'], 4,
          [['x-a', 0, 1, TXT, 1, [0, 3]], ['x-b', 1, 1, TXT, 1, [0, 1, 2]]],
          flen=False),
        t('evict-bytes', Y, ['max_byte_size=7'], 3,
          [['x-a', 0, 5, TXT], ['x-b', 0, 2, TXT, 1, [1]]], flen=False),
        t('numbers', Y, ['max_entries=3'], 4,
          [['x-a', 0, 0, TXT, 1, None, Y, ['', 'A', 'B', 'C']],
           ['x-b', 0, 1, TXT, 1, [1, 2]]], flen=False, numbers=6),
        t('no-store', Y, ['max_byte_size=0'], 2, [A, B], flen=False),
        t('no-entries', Y, ['max_entries=0'], 2, [A, B], flen=False),
        t('hosts', Y, [], 3,
          [['x-a', 0, 1, TXT], ['x-b', 1, 1, TXT, 1, [1, 2], Y]],
          hosts=['a.example.org', 'www.other.net'], flen=False),
        t('hosts-evict', Y, ['max_entries=2'], 4,
          [['x-a', 0, 1, TXT, 1, [0, 1, 3]],
           ['x-b', 1, 1, TXT, 1, [1, 2], Y]],
          hosts=['a.example.org', 'www.other.net'], flen=False),
        t('crumbs', Y, [], 1, [['x-a', 0, 1, TXT]], flen=False, max_loop=100000, prologue=[
            [['x-m', ['m%d' % i for i in range(n)]]]
            for n in (256, 257, 1, 513)]),
        t('wide', Y, [], 2, [['x-259', 0, 1, TXT],
                             ['x-258', 0, 1, TXT, 1, [0], Y]],
          flen=False, max_loop=100000, prologue=WIDE),
    ]
    if deep:
        ts += [
            t('two-deep', Y, [], 4,
              [['x-a', 0, 2, TXT], ['x-b', 0, 1, TXT, 1, [0, 2]]],
              flen=False, budget=700),
            t('evict-deep', Y, ['max_entries=2'], 4,
              [['x-a', 0, 1, TXT], ['x-b', 0, 1, TXT, 1, [0, 1]], C],
              flen=False, budget=700),
            t('bytes-deep', False, ['max_byte_size=9'], 4,
              [['x-a', 0, 4, TXT, 1, None, Y],
               ['x-b', 0, 3, TXT, 1, [1, 2]]], flen=False, budget=700),
            t('values-deep', Y, ['max_entries=4'], 3,
              [['x-a', 0, 1, TXT, 3, None, Y], ['cookie', 0, 1, TXT, 2]],
              flen=False, budget=700),
            t('hosts-deep', Y, ['max_entries=3'], 4,
              [['x-a', 0, 1, TXT], ['x-b', 1, 1, TXT, 1, [1, 2]]],
              hosts=['a.example.org', 'b.example.org', 'www.other.net'],
              flen=False, budget=700),
        ]
    return ts


def check(tier):
    deep = tier == 'thorough'
    ts = histories('roundtrip', deep)
    ts += [
        rt('huffman', True, [], 2,
           [['x-a', 0, 0, TXT, 1, None, True, VALS]], code=False),
        rt('huffman-res', False, ['max_entries=1'], 2,
           [['set-cookie', 0, 0, TXT, 1, None, True, VALS]], code=False),
    ]
    return Check('C22', [Group(True, PATHS, ts, ['compressor.delta'])],
                 BOUNDS + '; the real Huffman code with %d values' %
                 len(VALS), OUTSIDE, ASSUME)

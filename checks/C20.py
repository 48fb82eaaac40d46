from symx.explore import Task
from symx.runner import Check, Group

PATHS = ['compressor/__init__.py', 'compressor/delta2']
TXT = ''.join(map(chr, range(33, 127))).replace(';', '')
# One more than the store has numbers for, so that they start again.
WRAP = [[['x-%d' % (i % 7), ['w%d' % i]]] for i in range(189)]
MANY = [[['x-%d' % i, ['v%d' % i]] for i in range(24)],
        [['x-%d' % i, ['v%d' % i]] for i in range(24)]]


def rt(name, req, params, nsets, names, fn='roundtrip', har='hset.py', **kw):
    b = kw.pop('budget', None)
    return Task(name, har, fn, dict(
        module='compressor.delta2', is_request=req, params=params,
        nsets=nsets, names=names, spdy4='compressor.delta2.', crumbs='; ',
        **kw), covers=['end'], budget=b)


VALS = ['', 'a', 'Z~', 'text/html', '!#$%&', 'a b', '0' * 40, '\x7f~']
BOUNDS = ('histories of 1-4 header sets of up to 3 headers with up to 3 '
          'values (on an empty connection, on one with 24 live headers, and '
          'on one whose store has used all but one of its numbers), values '
          'of up to 2 arbitrary visible characters or of static entries; '
          'stores of 0-3 entries or octets and the default; every parameter '
          'of the codec; one and two hosts')
OUTSIDE = ('longer histories; frames over 64 KB (the format carries their '
           'operations no further); blanks around values and repeated values '
           '(dropped by design)')
ASSUME = ['the Huffman code is exact (C18); a fixed 9-bit prefix code stands '
          'in for it where characters are symbolic',
          'the letter statistics, which nothing reads, are left out']


def histories(fn, deep=False):
    Y = True
    A = ['x-a', 0, 2, TXT]
    A1 = ['x-a', 0, 2, TXT, 1, None, Y]
    B = ['x-b', 0, 1, TXT]
    C = [':path', 0, 1, TXT]
    two = [A, B]
    mix = [['x-a', 0, 1, TXT], ['x-a2', 0, 1, TXT], C]

    def t(name, req, params, nsets, names, **kw):
        return rt(name, req, params, nsets, names, fn, **kw)
    ts = [
        t('one', Y, [], 3, [A1]),
        t('two', Y, [], 2, two),
        t('mix', False, [], 2, mix, flen=False),
        t('many', Y, [], 2, [['x-3', 2, 2, TXT], ['x-4', 2, 2, TXT, 1, [0]],
                             ['x-5', 0, 0, TXT, 1, [0]]],
          prologue=MANY, flen=False),
        t('static', Y, [], 2,
          [[[':host', ':method', ':scheme', 'cookie', 'te'], 0, 1,
            TXT, 1, None, Y, ['', 'http']]]),
        t('values', Y, [], 2, [['x-a', 0, 1, TXT, 2],
                               ['cookie', 0, 1, TXT, 2]], flen=False),
        t('cookie', Y, [], 2, [['cookie', 0, 1, TXT, 3, None, Y]],
          flen=False),
        t('evict-1', Y, ['max_entries=1'], 3, [A1, ['x-b', 0, 1, TXT]],
          flen=False),
        t('evict-2', Y, ['max_entries=2'], 3, [['x-a', 1, 1, TXT], B],
          flen=False),
        t('evict-bytes', Y, ['max_byte_size=3'], 3,
          [['x-a', 0, 4, TXT], ['x-b', 0, 2, TXT, 1, [1]]], flen=False),
        t('no-store', Y, ['max_byte_size=0'], 2, two, flen=False),
        t('no-entries', Y, ['max_entries=0'], 2, two, flen=False),
        t('wrap', Y, [], 3, [['x-a', 0, 1, TXT, 1, [0, 1], Y],
                             ['x-6', 0, 0, TXT, 1, None, Y,
                              ['w6', 'w13', 'w20', 'w188', 'new']]],
          prologue=WRAP, flen=False),
    ]
    for p in ('small_index=0', 'varint_encoding=0', 'hg_adjust=1',
              'implicit_hg_add=1', 'refcnt_vals=1', 'only_etoggles=1',
              'idx_from_end=0'):
        n = p.split('=')[0]
        ts.append(t(n, Y, [p], 3, [A1, ['x-b', 0, 1, TXT, 1, [0, 1]]],
                    flen=False))
        ts.append(t(n + '-evict', False, [p, 'max_entries=2',
                                          'implicit_hg_add=1'], 3,
                    [['x-a', 0, 1, TXT, 1, None, Y],
                     ['x-b', 0, 1, TXT, 1, [0, 1]]], flen=False))
    ts += [
        t('adjust-all', Y, ['hg_adjust', 'implicit_hg_add=t', 'hg_adjust=t',
                            'max_entries=3'], 3,
          [A1, ['x-b', 1, 1, TXT, 1, [0, 1]]], flen=False),
        t('hosts', Y, ['max_entries=2', 'implicit_hg_add=1'], 3,
          [['x-a', 0, 1, TXT], ['x-b', 1, 1, TXT, 1, [1, 2], Y]],
          hosts=['a.example.org', 'www.other.net'], flen=False),
        t('fixed', Y, ['varint_encoding=0', 'small_index=0'], 1,
          [['x-3', 2, 2, TXT]], prologue=MANY, flen=False),
        t('fixed8', False, ['varint_encoding=0'], 1,
          [['x-3', 2, 2, TXT]], prologue=MANY, flen=False),
    ]
    if deep:
        ts += [
            t('two-deep', Y, ['implicit_hg_add=1', 'hg_adjust=1'], 4,
              [['x-a', 0, 2, TXT], ['x-b', 0, 1, TXT, 1, [0, 2]]],
              flen=False, budget=700),
            t('evict-deep', Y, ['max_entries=2', 'hg_adjust=1'], 4,
              [['x-a', 0, 1, TXT], ['x-b', 0, 1, TXT, 1, [0, 1]], C],
              flen=False, budget=700),
            t('bytes-deep', False, ['max_byte_size=4', 'refcnt_vals=0'], 4,
              [['x-a', 0, 2, TXT, 1, None, Y],
               ['x-b', 0, 3, TXT, 1, [1, 2]]], flen=False, budget=700),
            t('values-deep', Y, ['max_entries=4'], 3,
              [['x-a', 0, 1, TXT, 3, None, Y], ['cookie', 0, 1, TXT, 2]],
              flen=False, budget=700),
            t('hosts-deep', Y, ['implicit_hg_add=1', 'hg_adjust=1',
                                'max_entries=3'], 4,
              [['x-a', 0, 1, TXT], ['x-b', 1, 1, TXT, 1, [1, 2]]],
              hosts=['a.example.org', 'b.example.org', 'www.other.net'],
              flen=False, budget=700),
            t('wrap-deep', Y, ['idx_from_end=0', 'varint_encoding=0'], 3,
              [['x-a', 0, 1, TXT, 1, [0, 1], Y],
               ['x-6', 0, 0, TXT, 1, None, Y,
                ['w6', 'w13', 'w20', 'w188', 'new']]],
              prologue=WRAP, flen=False, budget=700),
        ]
    return ts


def check(tier):
    deep = tier == 'thorough'
    ts = histories('roundtrip', deep)
    ts += [
        rt('huffman', True, [], 2,
           [['x-a', 0, 0, TXT, 1, None, True, VALS]], code=False),
        rt('huffman-res', False, ['max_entries=1'], 2,
           [['set-cookie', 0, 0, TXT, 1, None, True, VALS]], code=False),
    ]
    return Check('C20', [Group(True, PATHS, ts, ['compressor.delta2'])],
                 BOUNDS + '; the real Huffman code with %d values' %
                 len(VALS), OUTSIDE, ASSUME)

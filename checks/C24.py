from symx.explore import Task
from symx.runner import Check, Group

PATHS = ['compressor/__init__.py', 'compressor/simple']
TXT = ''.join(map(chr, range(33, 127)))
DATES = ['Thu, 01 Jan 1970 00:00:00 GMT', 'Sun, 06 Nov 1994 08:49:37 GMT',
         'Mon, 06 Nov 1994 08:49:37 GMT', 'Sunday, 06-Nov-94 08:49:37 GMT',
         'Sun Nov  6 08:49:37 1994', '0', '-1', 'abc', '']
# Names with a token, names that are tokens, names the codec itself uses.
NAMES = ['accept', 'etag', 'p3p', 'ref', 'h', 'xct', 'a', 'x-new', 'ac']

TOKENS = ['x-content-type-options', 'content-encoding',
          'access-control-allow-origin', 'content-type', 'accept-language',
          'accept-encoding', 'accept-ranges', 'user-agent', 'server',
          'referer', 'accept', 'cookie', 'last-modified', 'cache-control',
          'pragma', 'vary', 'date', 'expires', 'content-length', 'etag',
          'content-language', 'via', 'set-cookie', 'p3p',
          'if-modified-since', 'if-none-match']


def t(name, req, params, nsets, names, budget=None, **kw):
    short = kw.pop('short', False)
    first = [[':method', 0, 0, TXT, 1, None, True,
              ['get'] if short else ['get', 'post']],
             [':path', 1 - short, 1 - short, TXT, 1, None, True,
              ['/'] if short else ['']]] if req else \
        [[':status', 0, 0, TXT, 1, None, True, ['200', '404']]]
    if kw.pop('host', False):
        first.append([':host', 1, 1, TXT])
    return Task(name, 'hset.py', 'roundtrip', dict(
        module='compressor.simple', is_request=req, params=params,
        nsets=nsets, names=first + names, bitarray=True, exact=True,
        refs='seven' not in params,
        ignore=[':version', ':status-text'], flen=False, **kw),
        covers=['end'], budget=budget)


def check(tier):
    deep = tier == 'thorough'
    Y = True
    A = ['accept', 0, 2, TXT]
    X = ['x-a', 0, 1, TXT]
    ts = [
        t('request', Y, [], 2, [A, X], host=True),
        t('response', False, [], 3, [A]),
        t('entries-0', Y, ['max_entries=0'], 2, [A], host=True),
        t('entries-1', Y, ['max_entries=1'], 2,
          [['etag', 0, 1, TXT], X], host=True),
        t('names', Y, [], 2, [[NAMES, 0, 1, TXT, 1, None, Y],
                              [NAMES[3:6], 0, 0, TXT, 1, [0]]], host=True,
          short=True),
        t('tokens', Y, [], 2, [['x-a', 0, 0, TXT, 1, None, Y],
                               [TOKENS, 0, 0, TXT, 1, None, Y]], host=True,
          short=True),
        t('pseudo', Y, [], 2, [[':scheme', 1, 1, TXT],
                               [':x', 1, 1, TXT, 1, [0]]]),
        t('values', False, [], 2, [['set-cookie', 0, 1, TXT, 2],
                                   ['cookie', 0, 2, TXT]]),
        t('dates', False, ['date'], 2,
          [['date', 0, 0, TXT, 1, None, False, DATES],
           ['expires', 0, 1, TXT, 1, [0]]]),
        t('dates-text', False, ['date', 'max_entries=1'], 2,
          [['expires', 0, 2, TXT, 1, None, Y],
           ['last-modified', 0, 0, TXT, 1, [1], Y, DATES]]),
        t('no-dates', False, [], 2,
          [['date', 0, 0, TXT, 1, None, False, DATES]]),
        t('seven', False, ['seven'], 2, [['x-a', 0, 1, TXT]]),
        t('seven-length', Y, ['seven'], 2,
          [['server', 0, 0, TXT, 1, None, Y,
            ['z' * k for k in range(9)]]]),
    ]
    if deep:
        ts += [
            t('request-deep', Y, [], 3, [A, ['x-a', 0, 2, TXT],
                                         ['etag', 0, 1, TXT]], host=True,
              budget=800),
            t('entries-deep', False, ['max_entries=1'], 3,
              [A, ['etag', 0, 1, TXT], ['x-a', 0, 1, TXT]], budget=800),
        ]
    return Check(
        'C24', [Group(True, PATHS, ts, [])],
        'histories of 2-3 header sets of up to 4 headers, values of up to 2 '
        'arbitrary visible characters, dates and what may be taken for one '
        'from a list of %d, names with and without a token; references '
        'limited to 0, 1 or not; seven-bit coding of 1-4 lines' % len(DATES),
        'the "huffman" parameter (zlib itself); values that start or end '
        'with a blank (HTTP/1 drops it) or are not ASCII with "seven"; '
        'longer histories',
        ['the bitarray library, which is not installed, is a list of bits'])

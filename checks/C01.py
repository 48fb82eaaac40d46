from symx.explore import Task
from symx.runner import Check, Group

PATHS = ['compressor/__init__.py', 'compressor/http2']


def rt(name, req, params, nsets, names, **kw):
    b = kw.pop('budget', None)
    return Task(name, 'hset.py', 'roundtrip', dict(
        module='compressor.http2', is_request=req, params=params,
        nsets=nsets, names=names, **kw), covers=['end'], budget=b)


MANY = [[['x-h%d' % i, ['v%d' % i]] for i in range(140)]]
TWO = [[['x-a', ['first']], ['cookie', ['c=1']]],
       [['x-a', ['second']], ['cookie', ['c=1']]]]


def check(tier):
    deep = tier == 'thorough'
    ts = [
        rt('evict-small', True, ['buffer_size=160'], 2,
           [[':path', 1, 3, ['/']], ['cookie', 0, 120, []],
            ['x-a', 0, 120, []]]),
        rt('three-sets', True, ['buffer_size=130'], 3,
           [['cookie', 0, 110, [], 1, None, True],
            ['x-a', 0, 60, [], 1, [0, 2]]]),
        rt('multi-value', True, ['buffer_size=160'], 2,
           [['cookie', 1, 60, [], 2, None, True],
            ['x-a', 1, 60, [], 2, [0], True]]),
        rt('default-size', True, [], 2,
           [[':path', 1, 3, ['/'], 1, [0]], ['cookie', 0, 10, []],
            ['x-a', 2650, 2850, [], 1, None, True]]),
        rt('response', False, ['buffer_size=300'], 2,
           [[':status', 3, 3, ['200']], ['server', 0, 300, [], 1, [0]],
            ['x-a', 100, 220, [], 1, None, True]]),
        rt('long-index', True, ['buffer_size=9000'], 2,
           [['x-h7', 0, 4, ['v7'], 1, [0]],
            ['x-h139', 2, 4, ['v139'], 1, None, True],
            ['x-new', 0, 200, [], 1, [1]]], prologue=MANY),
        rt('warm', True, ['buffer_size=240'], 2,
           [['x-a', 5, 6, ['first', 'second']], ['cookie', 3, 90, ['c=1']],
            ['x-b', 0, 140, [], 1, [0]]], prologue=TWO),
    ]
    if deep:
        ts += [
            rt('three-sets-deep', True, ['buffer_size=140'], 3,
               [['cookie', 0, 110, []],
                ['x-a', 0, 60, []]], budget=700),
            rt('four-sets', False, ['buffer_size=130'], 4,
               [['server', 0, 110, []]], budget=300),
            rt('multi-value-deep', True, ['buffer_size=160'], 2,
               [['cookie', 0, 60, [], 2, None, True],
                ['x-a', 0, 60, [], 2, None, True]], budget=700),
            rt('reversed', True, ['buffer_size=160'], 2,
               [['x-b', 0, 120, []], [':path', 1, 3, ['/']],
                ['x-a', 0, 120, []]], reverse=True, budget=600),
        ]
    return Check(
        'C01', [Group(True, PATHS, ts, ['compressor.http2'])],
        'histories of 2-4 header sets of up to 3 headers (on top of an empty '
        'connection, or of one that already carries up to 140 headers), '
        'every subset present in each set, up to 2 values per header, values '
        'of every length in the range given per task (up to 4 kB) and every '
        'pattern of equality between them; table budgets 130-9000 octets',
        'more than 4 varying header sets; more than 3 varying headers; '
        'frames over 65535 octets; values with control characters, leading '
        'or trailing blanks, or a repeated part (the codec strips and '
        'collapses those by design)',
        ['values are visible tokens without ";" inside one part; parts of '
         'one header are distinct'])

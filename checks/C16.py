from symx.explore import Task
from symx.runner import Check, Group

PATHS = ['compressor/__init__.py', 'compressor/headerdiff',
         'compressor/spdy_dictionary.py']
TXT = ''.join(map(chr, range(33, 127))).replace(';', '')


def tb(name, req, params, limit, nsets, names, **kw):
    b = kw.pop('budget', None)
    return Task(name, 'hset.py', 'hd_tables', dict(
        module='compressor.headerdiff', is_request=req, params=params,
        limit=limit, nsets=nsets, names=names, flen=False, **kw),
        covers=['end'], budget=b)


def check(tier):
    deep = tier == 'thorough'
    Y = True
    PRE = ['', 'p' * 16, 'pp/qqqqqqqqqqqqqqqqqqqqqq', 'pp']
    ts = [
        tb('plain', Y, ['delta=false', 'buffer=300'], 300, 3,
           [['x-a', 0, 310, [], 1, None, Y], ['x-b', 0, 310, [], 1, [1]]]),
        tb('path', Y, ['delta=false', 'buffer=50'], 50, 2,
           [[':path', 1, 60, [], 1, None, Y], ['x-b', 0, 60, [], 1]]),
        tb('tiny', Y, ['delta=false', 'buffer=20'], 20, 4,
           [['x-a', 0, 30, [], 1, [0, 3], Y], ['x-b', 0, 30, [], 1, [1]],
            ['x-c', 0, 30, [], 1, [2, 3]]]),
        tb('default', False, ['delta=false'], 32768, 2,
           [['x-a', 20000, 40000, [], 1, None, Y],
            ['x-b', 1, 20000, [], 1, [0]]]),
        tb('delta', Y, ['buffer=9'], 9, 3,
           [['x-a', 0, 3, TXT, 1, None, Y]]),
        tb('delta-res', False, ['buffer=9'], 9, 3,
           [['x-a', 0, 3, TXT, 1, None, Y]]),
        tb('delta-two', Y, ['buffer=5'], 5, 2,
           [['x-a', 0, 3, TXT, 1, None, Y], ['x-b', 0, 3, TXT]]),
        tb('novel', Y, ['buffer=60'], 60, 3,
           [['x-a', 0, 1, TXT, 1, None, Y, PRE[:3]]]),
        tb('novel-res', False, ['buffer=40'], 40, 3,
           [['x-a', 0, 1, TXT, 1, None, Y, PRE]]),
        tb('limited', Y, ['delta_type=1', 'buffer=9'], 9, 3,
           [['x-a', 2, 3, TXT, 1, None, Y]]),
        tb('lru', Y, ['buffer=4'], 4, 4,
           [['x-a', 0, 2, TXT, 1, [0, 3], Y], ['x-b', 0, 2, TXT, 1, [0]],
            ['x-c', 0, 4, TXT, 1, [2], Y]]),
    ]
    if deep:
        ts += [
            tb('plain-deep', Y, ['delta=false', 'buffer=100'], 100, 4,
               [['x-a', 0, 110, [], 1, None, Y], ['x-b', 0, 110, [], 1]],
               budget=900),
            tb('delta-deep', Y, ['buffer=8'], 8, 4,
               [['x-a', 1, 3, TXT, 1, None, Y]], budget=900),
            tb('two-deep', False, ['buffer=6'], 6, 3,
               [['x-a', 0, 3, TXT, 1, None, Y], ['x-b', 0, 3, TXT]],
               budget=900),
        ]
    return Check(
        'C16', [Group(True, PATHS, ts, ['compressor.headerdiff'])],
        'histories of 2-4 header sets of up to 2 headers; values of every '
        'length up to 310 octets with a 300-octet buffer (40000 with the '
        'default one), beyond the buffer included; with delta coding 0-3 '
        'arbitrary characters behind prefixes of 0-26 characters, buffers '
        'of 4-60 octets',
        'longer histories; frames over 65535 octets', [])

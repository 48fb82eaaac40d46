from symx.explore import Task
from symx.runner import Check, Group

PATHS = ['compressor/__init__.py', 'compressor/http2']
TOKEN = ''.join(chr(c) for c in range(33, 127) if chr(c) not in ';,')


def tb(name, req, limit, nsets, names, **kw):
    b = kw.pop('budget', None)
    return Task(name, 'h2.py', 'tables', dict(
        is_request=req, params=['buffer_size=%d' % limit] if limit != 4096
        else [], limit=limit, nsets=nsets, names=names, alphabet=TOKEN,
        **kw), budget=b)


def check(tier):
    deep = tier == 'thorough'
    ts = [
        tb('small', True, 160, 2, [['cookie', 0, 150], [':path', 1, 3],
                                   ['x-a', 0, 150]]),
        tb('tiny', True, 60, 3, [['cookie', 0, 40, [0, 1, 2]],
                                 ['x-a', 0, 40]]),
        tb('response', False, 200, 3, [['server', 0, 180, [0, 1, 2]],
                                       [':status', 3, 3]]),
        tb('default', True, 4096, 2, [['cookie', 2600, 4200, [0]],
                                      ['x-a', 2600, 2800]]),
    ]
    if deep:
        ts += [
            tb('three', True, 160, 3, [['cookie', 0, 150],
                                       ['x-a', 0, 150]], budget=600),
            tb('four', False, 130, 4, [['server', 0, 120]], budget=300),
        ]
    return Check(
        'C02', [Group(True, PATHS, ts, ['compressor.http2'])],
        'histories of 2-4 header sets of up to 3 headers, each present or '
        'not, values of every length up to the stated maximum (beyond the '
        'whole budget); budgets 60, 130, 160, 200, 4096 octets',
        'longer histories; frames over 65535 octets',
        ['the predefined table may exceed a budget smaller than itself until '
         'the first insertion'])

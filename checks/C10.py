from symx.explore import Task
from symx.runner import Check, Group

LIB = ['lib/processors.py', 'lib/stream.py', 'lib/__init__.py',
       'compressor/__init__.py']


def t(name, covers=('end',), **kw):
    d = dict(sessions=1, n=2, verbose=0, debug=False, lossy=['stub'])
    b = kw.pop('budget', None)
    d.update(kw)
    return Task(name, 'lib.py', 'measure', d, covers=list(covers), budget=b)


def check(tier):
    deep = tier == 'thorough'
    ts = [
        t('messages', n=3 if deep else 2),
        t('verbose', n=1, verbose=2, lossy=['stub', 'base']),
        t('sessions', sessions=3 if deep else 2, n=1),
        t('debug', n=2, debug=True, covers=['stop', 'end']),
    ]
    return Check(
        'C10', [Group(False, LIB, ts, ['lib.processors', 'lib.stream'])],
        '2 codecs in either order (arbitrary outputs of 1-900 octets, '
        'arbitrary decompressed result), up to %d messages per session and '
        '%d sessions of either direction' % ((3, 3) if deep else (2, 2)),
        'measured times; baselines given with parameters; verbosity above 3',
        ['the codecs are stand-ins with arbitrary results; ratios are exact '
         'rationals compared with a tolerance of 1e-6'])

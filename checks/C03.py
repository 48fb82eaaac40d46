from symx.explore import Task
from symx.runner import Check, Group

PATHS = ['compressor/__init__.py', 'compressor/http2']


def check(tier):
    mx = (1 << 28) if tier == 'quick' else (1 << 40)
    ts = [Task('prefix%d' % p, 'h2.py', 'integer',
               dict(prefix=p, byte=b, max=mx))
          for p, b in ((0, 0), (5, 0x40), (5, 0x60), (6, 0), (7, 0x80))]
    for t, n in zip(ts, 'abcde'):
        t.name += n
    return Check(
        'C03', [Group(True, PATHS, ts, ['compressor.http2'])],
        'every value from 0 to 2^%d, prefixes of 0, 5, 6 and 7 bits with the '
        'pattern bits the format uses, followed by every integer 0..300'
        % (28 if tier == 'quick' else 40), 'larger values',
        [])

from symx.explore import Task
from symx.runner import Check, Group

PATHS = ['compressor/__init__.py', 'compressor/headerdiff',
         'compressor/spdy_dictionary.py']


def check(tier):
    mx = (1 << 28) if tier == 'quick' else (1 << 40)
    ts = [Task('prefix%d.%02x' % (p, b), 'hset.py', 'hd_integer',
               dict(prefix=p, byte=b, max=m or mx))
          for p, b, m in ((0, 0, None), (4, 0x20, None), (4, 0x30, None),
                          (4, 0x60, None), (4, 0x70, None), (5, 0, None),
                          (5, 0x40, None), (14, 0xc0, 0x3ffe))]
    return Check(
        'C17', [Group(True, PATHS, ts, ['compressor.headerdiff'])],
        'every value from 0 to 2^%d (16382 for the 14-bit prefix of long '
        'indexes), prefixes of 0, 4, 5 and 14 bits with the pattern bits '
        'the format uses, followed by every integer 0..300'
        % (28 if tier == 'quick' else 40),
        'larger values; indexes of 16447 and more (a table that large needs '
        'as many headers)', [])

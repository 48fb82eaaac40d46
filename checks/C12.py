from symx.explore import Task
from symx.runner import Check, Group
from checks.C10 import LIB

TXT = ''.join(map(chr, range(32, 127)))


def check(tier):
    deep = tier == 'thorough'
    k = 6 if deep else 4
    ts = [
        Task('plain', 'lib.py', 'specs', dict(n=3, params=False, len=0,
                                              alphabet=''), covers=['end']),
        Task('params', 'lib.py', 'specs',
             dict(n=1, params=True, len=k, alphabet=TXT),
             covers=['end'], budget=800),
        Task('labels', 'lib.py', 'labels',
             dict(len=4 if deep else 3, alphabet=TXT), covers=['end']),
        Task('two', 'lib.py', 'specs',
             dict(n=2, params=True, len=2, alphabet=TXT),
             covers=['end'], budget=800),
    ]
    return Check(
        'C12', [Group(False, LIB + ['compressor/http1/__init__.py',
                                   'compressor/spdy_dictionary.py'],
                      ts, ['lib.processors', 'compressor.http1'])],
        'up to 3 specifications; parameter text of 1-%d characters over '
        'letters, "=", quotes, commas, blanks' % k,
        'an empty parameter text, or a lone quote; longer texts', [])

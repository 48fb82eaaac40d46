from symx.explore import Task
from symx.runner import Check, Group
from checks.C08 import LIB

TXT = ''.join(map(chr, range(32, 127)))


def check(tier):
    deep = tier == 'thorough'
    k = 5 if deep else 4
    ts = [
        Task('presence', 'lib.py', 'hop',
             dict(fixed=[], len=1, alphabet=TXT), covers=['end'],
             budget=800),
        Task('options', 'lib.py', 'hop',
             dict(fixed=['connection', 'a', 'ab', 'b', ':method',
                         ':status-text', ':version', 'keep-alive'],
                  len=k, alphabet=TXT + '\0'), covers=['end'], budget=800),
    ]
    return Check(
        'C09', [Group(False, LIB, ts, ['lib.processors'])],
        'any subset of 8 headers; connection options of up to %d characters '
        'with separators, blanks and either case; other values opaque, 0-100 '
        'octets' % k,
        'longer option lists', [])

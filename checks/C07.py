from symx.explore import Task
from symx.runner import Check, Group


HOST = ('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-.')


def check(tier):
    deep = tier == 'thorough'
    n = 4 if deep else 3
    ts = [
        Task('all_one', 'lib.py', 'streamify',
             dict(kind='all_one', n=n, hlen=2, alphabet=HOST + ' :'),
             covers=['end']),
        Task('host', 'lib.py', 'streamify',
             dict(kind='host', n=n, hlen=2, alphabet=HOST + ' :'),
             covers=['end'], budget=700),
        Task('public_suffix', 'lib.py', 'streamify',
             dict(kind='public_suffix', n=n, hlen=3, alphabet=HOST + ':'),
             covers=['end'], budget=700),
    ]
    return Check(
        'C07', [Group(False, ['lib/streamifiers', 'lib/stream.py',
                              'lib/__init__.py'], ts,
                      ['lib.stream', 'lib.streamifiers'])],
        '%d messages, hosts of 1-3 characters over letters of both cases, '
        'blanks and ":" (ports)' % n,
        'more messages, longer host names',
        ['publicsuffix is replaced by some function of the domain name'])

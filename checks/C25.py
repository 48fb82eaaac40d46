from symx.explore import Task
from symx.runner import Check, Group


def check(tier):
    deep = tier == 'thorough'

    def t(name, n, ops=('put', 'pop'), lens=(0, 1), keys=('a', 'bcd'),
          top=12, find=False, budget=None, **kw):
        return Task(name, 'units.py', 'lru', dict(
            n=n, ops=list(ops), lens=list(lens), keys=list(keys), top=top,
            find=find, **kw), covers=['end'], budget=budget)
    ts = [
        t('search', 3, ['put'], find=True),
        t('search-long', 2, ['put'], lens=[2], find=True),
        t('search-names', 4, ['put'], lens=[0], items=3, find=True),
        t('free', 3),
        t('items', 4, ['put'], lens=[1], items=2),
        t('octets', 3, lens=[0, 2, 5], octets=9),
        t('octets-one', 4, ['put'], lens=[1, 3, 4, 6], keys=['a'],
          octets=9),
        t('both', 3, ['put', 'room'], lens=[0, 4], items=2, octets=11),
        t('store', 3, ['store', 'pop'], lens=[0, 2, 4], items=2, octets=7),
        t('wrap', 6, ['put'], lens=[0], items=2, first=5, last=8),
        t('wrap-zero', 6, ['put'], lens=[0], items=2, last=4),
        t('wrap-pop', 5, ['put', 'pop'], lens=[0], keys=['a'], items=3,
          first=2, last=6),
        t('wrap-full', 7, ['put'], lens=[0], keys=['a'], items=4, first=2,
          last=6),
        t('wrap-full-zero', 5, ['put'], lens=[0], items=2, last=2),
        t('too-large', 2, ['put', 'room'], lens=[0, 2, 7], octets=7),
        t('nothing', 2, ['put', 'room', 'pop'], items=0),
        t('no-octets', 2, ['put', 'room', 'pop'], octets=0),
    ]
    if deep:
        ts += [
            t('octets-deep', 5, ['put'], lens=[0, 2, 5], octets=12,
              budget=700),
            t('wrap-deep', 8, ['put', 'pop'], lens=[0], keys=['a'], items=3,
              first=2, last=6, budget=700),
            t('both-deep', 4, ['put', 'room', 'pop'], lens=[0, 2], items=2,
              octets=9, budget=700),
            t('search-deep', 3, ['put'], lens=[0, 1, 2], find=True,
              budget=700),
        ]
    return Check(
        'C25', [Group(True, ['compressor/__init__.py',
                             'compressor/delta2'], ts,
                     ['compressor.delta2'])],
        'sequences of 2-7 operations on an empty store; two names, values of '
        '0-7 arbitrary visible characters; limits of 0, 2, 3 entries, of '
        '0, 7, 9, 11 octets, or none; numbers from 0, 2 or 5 that start '
        'again after 2, 3 or 4; every number from 0 to 12 looked up',
        'longer sequences; entries that share a name (see C21); fewer '
        'numbers than entries')

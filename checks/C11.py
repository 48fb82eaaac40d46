from symx.explore import Task
from symx.runner import Check, Group
from checks.C10 import LIB


def check(tier):
    deep = tier == 'thorough'
    def t(name, fn, **d):
        return Task(name, 'lib.py', fn, d, covers=['end'], budget=800)
    ts = [
        t('total2', 'total', ns=[1, 2]),
        t('total3', 'total', ns=[2, 1, 1]),
        t('total1', 'total', ns=[2]),
        t('summary1', 'summary', n=1, hi=60),
        t('summary2', 'summary', n=2, hi=400 if deep else 40, fixed=[20, 40]),
        t('spread', 'spread'),
        t('deviation', 'deviation', n=3, hi=100),
        t('tsv', 'tsv', n=2, streams=2, count=False, hi=99),
        t('tsv-count', 'tsv', n=1, streams=2, count=True, hi=9),
    ]
    if deep:
        ts.append(t('summary3', 'summary', n=3, hi=40, fixed=[9, 3, 5]))
    return Check(
        'C11', [Group(False, LIB, ts, ['lib.stream'])],
        'up to 3 streams of 1-2 messages and 2 codecs; sizes 1-5000 for '
        'totals, 1-99 for printed tables, 1-60 for printed ratios',
        'larger tables; ratios that lie exactly between two printed digits; '
        'locales that group digits', ['floating-point rounding is not '
                                      'modelled: ratios are exact rationals'])

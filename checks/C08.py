from symx.explore import Task
from symx.runner import Check, Group

LIB = ['lib/processors.py', 'lib/__init__.py', 'compressor/__init__.py']

TXT = ''.join(map(chr, range(32, 127)))


def t(name, **kw):
    d = dict(names=['x-a'], optional=True, opaque=False, lo=0, hi=2,
             alphabet='ab')
    b = kw.pop('budget', None)
    d.update(kw)
    return Task(name, 'lib.py', 'compare', d, budget=b,
                covers=['equal', 'different'])


def check(tier):
    deep = tier == 'thorough'
    k = 5 if deep else 4
    ts = [
        t('headers', names=['x-a', ':path', 'connection', ':version',
                            'te'], opaque=True),
        t('multi', hi=k, alphabet=TXT + '\0', optional=False, budget=800),
        t('semicolon', hi=k, alphabet=TXT.replace(' ', ''), optional=False, budget=800),
        t('cookie', names=['cookie'], hi=k, alphabet=TXT + '\0', optional=False,
          budget=800),
        t('two', names=['cookie', 'x-a'], lo=1, hi=1, alphabet=TXT + '\0',
          optional=True, budget=800),
    ]
    return Check(
        'C08', [Group(False, LIB, ts, ['lib.processors'])],
        'two messages of up to 5 headers with opaque values up to 300 '
        'octets, or of 1-2 headers whose values have up to %d characters '
        'including separators and blanks' % k,
        'more headers; longer separated values', [])

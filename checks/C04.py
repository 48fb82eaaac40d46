from symx.explore import Task
from symx.runner import Check, Group

PATHS = ['compressor/__init__.py', 'compressor/http1/__init__.py',
         'compressor/spdy_dictionary.py']

TXT = ''.join(map(chr, range(32, 127)))


def t(name, **kw):
    d = dict(is_request=True, full=False, n=1, nvals=1, chars=0, nlen=2,
             alphabet='')
    b = kw.pop('budget', None)
    d.update(kw)
    return Task(name, 'tool.py', 'http1', d, covers=['end'], budget=b)


def check(tier):
    deep = tier == 'thorough'
    ts = [
        t('request', full=True, n=2, nlen=3, rotate=True),
        t('response', is_request=False, full=True, n=2, nlen=3, rotate=True),
        t('response-bare', is_request=False, n=2, nlen=1),
        t('values', n=1, nvals=2, chars=3, alphabet=TXT + '\t',
          names=['x-a']),
        t('values-res', is_request=False, n=2, nvals=1, chars=3,
          alphabet=TXT, names=['x-a', 'host-x']),
    ]
    if deep:
        ts += [t('values-deep', n=2, nvals=2, chars=4, alphabet=TXT,
                 names=['x-a', 'set-cookie'], budget=600),
               t('names-deep', is_request=False, n=3, nlen=4, nvals=2,
                 rotate=True, budget=600)]
    return Check(
        'C04', [Group(False, PATHS, ts, ['compressor.http1'])],
        'messages with every request or response pseudo-header and up to 3 '
        'further headers, names of 1-4 arbitrary token characters, 1-2 '
        'values each; values opaque and up to 500 octets, or up to 4 '
        'characters including ":", ",", ";", inner blanks',
        'longer names; more headers; values with line breaks or with blanks '
        'at their ends (the text format cannot carry those); a header '
        'literally called "host" next to :host', [])

from symx.explore import Task
from symx.runner import Check, Group


TOK = ('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789'
       "!#$%&'*+-.^_`|~")


def t(name, **kw):
    d = dict(entries=1, n=1, names=['X-A'], nlen=1, nalpha='',
             schemes=['http'], status=[200], texts=['OK'], opt=[True],
             methods=['GET'], side='')
    b = kw.pop('budget', None)
    d.update(kw)
    return Task(name, 'har.py', 'har', d, covers=['end'], budget=b)


def check(tier):
    deep = tier == 'thorough'
    ts = [
        t('urls', schemes=['http', 'https', 'HTTP', 'Https', 'data', 'ftp',
                           'file', 'ws', 'httpx'], n=0, opt=[True, False],
          methods=['GET', 'post', 'Options']),
        t('names-req', names=None, n=2, nlen=2, nalpha=TOK, side='q'),
        t('names-res', names=None, n=2, nlen=2, nalpha=TOK, side='s'),
        t('repeats-req', n=3, side='q', opt=[False],
          names=['X-A', 'x-a', 'Host', 'HOST', 'Set-Cookie']),
        t('repeats-res', n=3, side='s', opt=[False],
          names=['X-A', 'x-a', 'Host', 'HOST', 'Set-Cookie']),
        t('status', n=0, status=[200, 204, 301, 304, 404, 500, 299, 599,
                                 '200', '404 Not Found', '304 '],
          texts=['OK', '', '  ', ' Found ', 'Not  Found']),
        t('status-any', n=0, status='any', texts=['Fine']),
        t('entries', entries=2, n=1, names=['X-A', 'Host'],
          schemes=['http', 'data', 'https']),
    ]
    if deep:
        ts += [t('names-deep', names=None, n=3, nlen=4, nalpha=TOK,
                 budget=600),
               t('entries-deep', entries=3, n=1, names=['X-A', 'Host'],
                 schemes=['http', 'data'], budget=800)]
    return Check(
        'C06', [Group(False, ['lib/harfile.py', 'lib/__init__.py'], ts,
                      ['lib.harfile'])],
        '%d entries; URLs with every combination of scheme, authority (1-60 '
        'octets), path, query and fragment (0-300 octets); up to 3 headers '
        'per message, each name of arbitrary case, values 0-400 octets'
        % (3 if deep else 2),
        'more entries and headers; IPv6 literals and non-ASCII URLs; reading '
        'the file and the JSON parser', 
        ['urllib.parse.urlsplit is modelled by symx/models/urlparse.py'])

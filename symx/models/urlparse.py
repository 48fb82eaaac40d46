# urllib.parse.urlsplit as CPython defines it (no IPv6 brackets, no Unicode
# normalisation: inputs are restricted accordingly), run by the engine.
import collections

SplitResult = collections.namedtuple(
    'SplitResult', ['scheme', 'netloc', 'path', 'query', 'fragment'])
SCHEME = ('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789'
          '+-.')
ALPHA = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ'


def urlsplit(url, scheme='', allow_fragments=True):
    netloc = query = fragment = ''
    i = url.find(':')
    if i > 0 and url[0] in ALPHA:
        ok = True
        for c in url[:i]:
            if c not in SCHEME:
                ok = False
                break
        if ok:
            scheme, url = url[:i].lower(), url[i + 1:]
    if url[:2] == '//':
        delim = len(url)
        for c in '#?/':
            w = url[2:delim].find(c)
            if w >= 0:
                delim = 2 + w
        netloc, url = url[2:delim], url[delim:]
    if allow_fragments and '#' in url:
        url, fragment = url.split('#', 1)
    if '?' in url:
        url, query = url.split('?', 1)
    return SplitResult(scheme, netloc, url, query, fragment)

from symx.explore import Task
from symx.runner import Check, Group

# The numbers of the names, from the table of the draft the codec is of.
IDS = dict(zip([
    ':path', 'accept-language', 'accept-encoding', 'accept', 'user-agent',
    ':scheme', 'connection', ':method', ':host', ':version', 'referer',
    'cookie', 'x-requested-with', 'content-length', 'pragma',
    'cache-control', 'content-type', ':status', 'keep-alive', 'server',
    'location', 'date', ':status-text', 'transfer-encoding', 'set-cookie',
    'expires', 'vary', 'p3p', 'content-encoding', 'x-amz-id-2',
    'x-amz-id-1', 'x-amzn-requestid', 'x-pad', 'nncoection',
    'accept-ranges', 'last-modified', 'etag', 'x-frame-options', 'x-sap-pg',
    'if-modified-since', 'via', 'x-cache', 'age', 'x-amz-cf-id',
    'cneonction', 'x-cache-lookup', 'x-xss-protection', 'if-none-match'],
    range(1, 99)))
EPOCH = 631152000          # 1990-01-01
DATES = [['Sun, 06 Nov 1994 08:49:37 GMT', 784111777 - EPOCH],
         ['Mon, 01 Jan 1990 00:00:00 GMT', 0],
         ['Thu, 29 Feb 1996 23:59:59 GMT', 825638399 - EPOCH],
         ['Tue, 19 Nov 2013 00:00:01 GMT', 1384819201 - EPOCH],
         ['0', 0], ['-1', 0], ['3600', 3600], ['never', 0]]


def check(tier):
    deep = tier == 'thorough'

    def t(name, names, req=True, **kw):
        d = dict(names=names, is_request=req, ids=IDS, dates=DATES, len=2,
                 count=[1], digits=[0, 1, 3])
        d.update(kw)
        return Task(name, 'units.py', 'bohe', d, covers=['end'])
    plain = sorted(n for n in IDS if n in (
        ':path', 'user-agent', ':scheme', ':host', 'referer', 'server',
        'content-type', 'x-cache-lookup', 'vary'))
    ts = [
        t('text', [[plain, 'text'], [3, 'text']]),
        t('other-text', [[5, 'text'], ['server', 'text']], False),
        t('values', [['server', 'text'], [1, 'text']], count=[1, 2, 3],
          len=1),
        t('numbers', [[['age', 'content-length', ':status'], 'number'],
                      [2, 'text']], False, len=1,
          digits=list(range(13 if deep else 8))),
        t('many-numbers', [['age', 'number'], ['server', 'text']],
          count=[1, 2], len=1, digits=[1, 3]),
        t('dates', [[['date', 'expires', 'last-modified',
                      'if-modified-since'], 'date'], ['server', 'text']],
          len=1),
        t('methods', [[':method', 'method'], [':path', 'text']], len=1),
        t('etags', [[['etag', 'if-none-match'], 'etag'], [2, 'text']],
          count=[1, 2], len=1),
        t('name-length', [[127, 'text']], len=1),
    ]
    groups = [Group(True, ['compressor/__init__.py', 'compressor/bohe'], ts,
                    [])]
    for mod in ('bohe', 'delta_bohe', 'delta2_bohe'):
        def u(name, kind, hdr, req=True, **kw):
            d = dict(kind=kind, name=hdr, is_request=req, dates=DATES, len=2,
                     count=[1, 2], digits=[1, 3], numbers=[], lists=[],
                     typed=mod == 'delta2_bohe')
            d.update(kw)
            return Task(name + '-' + mod, 'units.py', 'bohe_values', d,
                        covers=['end'])
        us = [
            u('age', 'number', 'age', digits=list(range(7))),
            u('length', 'number', 'content-length', False, digits=[0, 6]),
            u('method', 'method', ':method'),
            u('etag', 'etag', 'etag', False, count=[1, 2, 3]),
            u('match', 'etag', 'if-none-match'),
            u('plain', 'text', 'server', False),
            u('cache', 'cache', None,
              numbers=['max-age', 'max-stale', 'min-fresh']),
            u('cache-res', 'cache', None, False,
              numbers=['max-age', 's-maxage'], digits=[2],
              lists=['no-cache', 'private']),
        ]
        if mod != 'delta2_bohe':
            us.append(u('date', 'date', 'date'))
        groups.append(Group(True, ['compressor/' + mod + '/bohe.py'], us,
                            [], roots=['compressor/' + mod]))
    return Check(
        'C27', groups,
        'one header set of two headers, names from the table or of up to 127 '
        'characters, 1-3 values of up to 2 arbitrary visible characters, '
        'numbers of up to 7 digits, %d dates, known and other methods; '
        'cache-control of up to 5 directives' % len(DATES),
        'numbers that are none (the codec rejects them); names over 127 '
        'characters; cookies, accept and p3p headers (they are taken apart '
        'by libraries); dates with the sliding epoch of delta2_bohe',
        ['the Huffman code is exact (C18); a fixed prefix code stands in',
         'MD5 is a stand-in that tells its inputs apart'])

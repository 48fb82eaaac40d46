from symx.explore import Task
from symx.runner import Check, Group

PATHS = ['compressor/__init__.py', 'compressor/spdy3/__init__.py',
         'compressor/http1_gzip/__init__.py',
         'compressor/http1_huffman/__init__.py',
         'compressor/spdy_dictionary.py', 'lib/processors.py',
         'compressor/hyper_hpack/__init__.py']


def t(codec, params, **kw):
    d = dict(codec=codec, params=params, primed=params == ['dict'] or
             codec != 'spdy3', n=2, names=[':method', ':path', 'cookie']
             if codec == 'spdy3' else ['x-a', ':host', 'cookie'], big=True)
    d.update(kw)
    return Task('%s%s%s' % (codec, '+dict' if params else '',
                            '' if d['big'] else '-chars'), 'tool.py',
                'streams', d, covers=['end'])


def check(tier):
    n = 3 if tier == 'thorough' else 2
    ts = [t('spdy3', [], n=n), t('spdy3', ['dict'], n=n),
          t('http1_gzip', [], n=n), t('http1_huffman', [], n=n)]
    ts += [t(c, [], n=1, big=False, names=[':method', 'a'] if c == 'spdy3' else ['a', ':host'])
           for c in ('spdy3', 'http1_gzip', 'http1_huffman')]
    ts.append(Task('hyper_hpack', 'tool.py', 'hyper', dict(n=n),
                   covers=['end']))
    return Check(
        'C05', [Group(False, PATHS, ts, ['compressor.spdy3',
                                         'compressor.http1_gzip',
                                         'compressor.http1_huffman'])],
        '%d messages on a connection, each with 1-3 headers whose presence '
        'and values (0-70000 octets) are arbitrary' % n,
        'the compression ratio of zlib itself; non-ASCII values',
        ['zlib is taken to be a lossless ordered channel: what is compressed '
         'and flushed on one compressobj comes out of the matching '
         'decompressobj, in order, and only if every earlier piece went in; '
         'likewise the hpack library for header lists'])

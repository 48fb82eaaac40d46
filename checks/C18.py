from symx.explore import Task
from symx.runner import Check, Group

TEXTS = [('', ''), ('x', 'Y7'), ('%q', 'e'), ('e', '')]


def check(tier):
    deep = tier == 'thorough'
    groups = []
    for mod in ('delta', 'delta2', 'delta_bohe', 'bohe', 'delta2_bohe'):
        if 'bohe' in mod:
            pre, kw = '', dict(roots=['compressor/' + mod])
        else:
            pre, kw = 'compressor.%s.' % mod, {}
        ts = []
        for tab in ('request_freq_table', 'response_freq_table'):
            for i, (a, b) in enumerate(TEXTS if deep else TEXTS[1:2]):
                ts.append(Task('%s-%s%d' % (mod, tab[:3], i), 'bits.py',
                               'huffman', dict(
                    module=pre + 'huffman', bucket=pre + 'bit_bucket',
                    tables=pre + 'header_freq_tables', table=tab, pre=a,
                    post=b, offsets=list(range(8)) if deep else None),
                    covers=['end'], budget=600,
                    max_loop=100000))
        for n, ln, mx in ((2, 2, 7), (3, 2, 7), (4, 1, 3)):
            ts.append(Task('%s-any%d' % (mod, n), 'bits.py', 'huffman_any',
                           dict(module=pre + 'huffman',
                                bucket=pre + 'bit_bucket', n=n, len=ln,
                                max=mx), covers=['end'], budget=600,
                    max_loop=100000))
        groups.append(Group(True, ['compressor/__init__.py',
                                   'compressor/' + mod], ts,
                            [pre + 'huffman', pre + 'header_freq_tables'],
                            **kw))
    return Check(
        'C18', groups,
        'the shipped request and response codes of delta, delta2, '
        'delta_bohe, bohe and delta2_bohe: any octet between fixed texts, '
        'at %s bit offsets, with end-of-string, with length, with both and '
        'with padding; codes made from any frequencies (0-7) of 2-4 symbols'
        % ('all' if deep else 'four'), 'longer strings (each symbol is coded '
        'independently)', [])

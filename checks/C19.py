from symx.explore import Task
from symx.runner import Check, Group

OPS = {'delta': ['b8', 'b16', 'b32', 'bit'],
       'delta2': ['b4', 'b8', 'b16', 'b32', 'bit']}


def check(tier):
    deep = tier == 'thorough'
    groups = []
    for mod in ('delta', 'delta2', 'delta_bohe', 'bohe', 'delta2_bohe'):
        so = ['b8', 'b16', 'b32', 'bit'] + (['b4'] if mod == 'delta2' else []) + \
            (['b22'] if mod == 'bohe' else [])
        ro = ['b8', 'b16', 'b32'] + (['b4', 'bit'] if mod == 'delta2' else [])
        if 'bohe' in mod:
            name, kw = 'bit_bucket', dict(roots=['compressor/' + mod])
        else:
            name, kw = 'compressor.%s.bit_bucket' % mod, {}

        def t(nm, *ops):
            return Task(nm + '-' + mod, 'bits.py', 'bucket',
                        dict(module=name, ops=ops), covers=['end'])
        k8 = list(range(8))
        big = list(range(1, 42 if deep else 26))
        ts = [
            t('store', ('store', k8), ('store', big), ('store', [1, 5, 8])),
            t('store3', ('store', k8[1:]), ('store', k8[1:]),
              ('store', k8[1:] + [8])),
            t('ops', ('store', k8), ('store', so), ('store', [3]),
              ('read', [0, 1, 2, 3, 4, 5, 6, 7]), ('read', ro)),
            t('read', ('store', [40]), ('read', k8), ('read', list(range(33))),
              ('read', [1, 4, 8, 9])),
            t('mixed', ('store', [5, 8, 11]), ('read', [0, 2, 5, 8]),
              ('store', [1, 3, 8, 13]), ('read', [0, 1, 6, 9, 17]),
              ('store', [4, 8])),
        ]
        groups.append(Group(True, ['compressor/__init__.py',
                                   'compressor/' + mod], ts, [name], **kw))
    return Check(
        'C19', groups,
        'sequences of up to 3 stores and 3 reads of 0-%d bits each (all '
        'start offsets), every content; the StoreBits/GetBits '
        'variants of fixed width' % (41 if deep else 25),
        'longer sequences; AdvanceToByteBoundary', [])

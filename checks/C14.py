from symx.explore import Task
from symx.runner import Check, Group


def check(tier):
    deep = tier == 'thorough'

    def t(name, **kw):
        d = dict(files=[1], hosts=['a'], baseline=None, codecs=['stub'],
                 streamifier='host', verbose=0, hi=9, fixed=False)
        d.update(kw)
        return Task(name, 'lib.py', 'end2end', d, covers=['end'], budget=800)
    ts = [t('one'), t('one-wide', hi=150, streamifier='all_one'),
          t('hosts', files=[2], hosts=['a', 'b'], hi=4, fixed=True),
          t('files', files=[1, 1], hosts=['a', 'b'], hi=4, fixed=True),
          t('order', files=[1], codecs=['stub', 'http1'], verbose=1,
            baseline='http1'),
          t('all', files=[2], streamifier='all_one', hi=9,
            fixed=True)]
    if deep:
        ts.append(t('deep', files=[2, 1], hosts=['a', 'b'], hi=4, fixed=True))
    return Check(
        'C14', [Group(False, ['compare_compressors.py', 'lib',
                              'lib/streamifiers', 'compressor/__init__.py'],
                      ts, ['lib.processors', 'lib.stream',
                           'lib.streamifiers.host',
                           'lib.streamifiers.all_one'])],
        'up to 2 HAR files with 3 exchanges in total, 2 hosts, the baseline '
        'and a second codec, outputs of 1-9 octets (1-150 for one exchange)',
        'command-line parsing; runs without any exchange; baselines with '
        'parameters', ['codecs, HAR reading and the output files are '
                       'stand-ins; what the codecs produce is arbitrary'])

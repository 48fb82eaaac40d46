from symx.explore import Task
from symx.runner import Check, Group


def check(tier):
    n = 4 if tier == 'thorough' else 3

    def t(name, **kw):
        d = dict(bin=False, opaque=True, n=2)
        d.update(kw)
        return Task(name, 'tool.py', 'fork', d, covers=['end'], budget=800)
    ts = [t('lines', n=2), t('binary', bin=True, n=n),
          t('binary-text', bin=True, opaque=False, n=2)]
    return Check(
        'C13', [Group(False, ['compressor/__init__.py',
                              'compressor/fork/__init__.py'], ts,
                      ['compressor'])],
        'up to %d messages per process; answers of 0-2 lines of 1-200 '
        'octets, or sized answers of 0-5000 arbitrary octets' % n,
        'the process itself, short reads, and blank lines inside an answer '
        'of the line mode', ['subprocess.Popen is a stand-in whose pipes '
                             'hold the given answers'])

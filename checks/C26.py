from symx.explore import Task
from symx.runner import Check, Group


def check(tier):
    n = 3 if tier == 'thorough' else 2
    ts = [Task('sample', 'tool.py', 'sample', dict(n=n, lines=2),
               covers=['end']),
          Task('lines', 'tool.py', 'sample', dict(n=1, lines=6),
               covers=['end'])]
    return Check(
        'C26', [Group(False, ['sample_exec_codec.py'], ts, [])],
        'up to %d messages of up to 2 lines, or one of 6, of 1-200 visible '
        'characters; CRLF or LF; then the end of the input' % n,
        'lines that hold nothing but blanks; the process itself',
        ['standard input and output are stand-ins'])

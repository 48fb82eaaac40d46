from symx.runner import Check, Group
from .C22 import BOUNDS, OUTSIDE, ASSUME, PATHS, histories


def check(tier):
    ts = [t for t in histories('d_tables', tier == 'thorough')]
    return Check('C23', [Group(True, PATHS, ts, ['compressor.delta'])],
                 BOUNDS, OUTSIDE, ASSUME)

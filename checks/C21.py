from symx.runner import Check, Group
from .C20 import BOUNDS, OUTSIDE, ASSUME, PATHS, histories


def check(tier):
    ts = [t for t in histories('d2_tables', tier == 'thorough')]
    return Check('C21', [Group(True, PATHS, ts, ['compressor.delta2'])],
                 BOUNDS, OUTSIDE, ASSUME)

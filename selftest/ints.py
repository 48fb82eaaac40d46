"""Engine self-test: symbolic integer operations against Python's."""
import os
import random
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import z3
from symx import core


def run(n=3000, seed=1):
    R = random.Random(seed)
    for it in range(n):
        ctx = core.Ctx()
        core.set_ctx(ctx)
        env = []
        sub = []
        for i in range(3):
            lo = R.choice([0, 0, 0, 1, 5, -7, -128])
            hi = lo + R.choice([1, 3, 15, 200, 255, 4000])
            v = R.choice([lo, hi, R.randint(lo, hi), R.randint(lo, hi)])
            w = core.need(lo, hi)
            e = z3.BitVec('v%d' % i, w)
            sub.append((e, z3.BitVecVal(v, w)))
            ctx.assume(e == z3.BitVecVal(v, w))
            env.append((core.SymInt(e, lo, hi), v))
        pool = list(env) + [(c, c) for c in (0, 1, 2, 3, 7, 8, 31, 127, 128,
                                             255, 300, -1, -5)]
        log = []
        for k in range(R.randint(1, 8)):
            (a, x), (b, y) = R.choice(pool), R.choice(pool)
            op = R.choice(['+', '-', '*', '&', '|', '^', '<<', '>>', '//',
                           '%', '+', '-', '<', '<=', '==', 'ite', '>', '>=',
                           'neg', 'inv', 'abs'])
            if op in ('<<', '>>') and not 0 <= y <= 9:
                continue
            if op in ('//', '%') and (y == 0 or not isinstance(b, int)):
                continue
            if abs(x) > 1 << 60 or abs(y) > 1 << 60:
                continue
            if op in ('<<', '>>') and not isinstance(b, int) and b.lo < 0:
                continue
            f = {'+': lambda p, q: p + q, '-': lambda p, q: p - q,
                 '*': lambda p, q: p * q, '&': lambda p, q: p & q,
                 '|': lambda p, q: p | q, '^': lambda p, q: p ^ q,
                 '<<': lambda p, q: p << q, '>>': lambda p, q: p >> q,
                 '//': lambda p, q: p // q, '%': lambda p, q: p % q,
                 '<': lambda p, q: p < q, '<=': lambda p, q: p <= q,
                 '>': lambda p, q: p > q, '>=': lambda p, q: p >= q,
                 '==': lambda p, q: p == q, 'neg': lambda p, q: -p,
                 'inv': lambda p, q: ~p, 'abs': lambda p, q: abs(p)}
            try:
                if op == 'ite':
                    c, z = R.choice(env)
                    r = core.ite(c > 3 if not isinstance(c > 3, bool) else
                                 (c > 3), a, b)
                    rv = x if z > 3 else y
                else:
                    r, rv = f[op](a, b), f[op](x, y)
            except core.Unsupported:
                continue
            log.append((op, x, y, rv))
            if isinstance(r, core.SymBool):
                got = z3.is_true(z3.simplify(z3.substitute(r.e, *sub)))
                assert got == rv, (it, log, got)
                r, rv = core.toint(r), int(rv)
            elif isinstance(r, bool):
                assert r == rv, (it, log)
                continue
            if isinstance(r, core.SymInt):
                assert r.lo <= rv <= r.hi, (it, log, r)
                t = z3.simplify(z3.substitute(r.e, *sub))
                g = t.as_long() if r.lo >= 0 else t.as_signed_long()
                assert r.e.size() == core.need(r.lo, r.hi), log
                assert g == rv, (it, log, g, r)
            else:
                assert r == rv, (it, log, r)
            pool.append((r, rv))
    print('ints: %d expressions agree' % n)


if __name__ == '__main__':
    run(int(sys.argv[1]) if len(sys.argv) > 1 else 3000)

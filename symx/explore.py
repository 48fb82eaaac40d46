"""Explores every path of a harness, splitting the tree over processes."""
import collections
import gc
import importlib
import multiprocessing as mp
import os
import queue as _q
import random
import sys
import time
import traceback
import types

import z3

from . import containers, core, instrument, loader as _loader, rt, strs
from .core import (BoundOut, Engine, Infeasible, StepLimit, SymBool, SymInt,
                   Unknown, Unsupported, Violated)
from .strs import Atom, SymStr

MPC = mp.get_context('fork')


# -- the symbolic side of the harness interface ------------------------------
class NoHook(Engine):
    pass


class Sym(object):
    symbolic = True

    def __init__(self, ctx, loader, params, shared=None):
        self.ctx = ctx
        self.loader = loader
        self.params = params
        self.shared = shared
        self.py2 = loader.py2

    def _reg(self, name, kind, val):
        if name in self.ctx.names:
            raise Unsupported('input name reused: ' + name)
        self.ctx.names.add(name)
        self.ctx.inputs.append((name, kind, val))
        return val

    def int(self, name, lo, hi):
        if lo == hi:
            return lo
        w = core.need(lo, hi)
        e = self.ctx.fresh(name, w)
        v = SymInt(e, lo, hi)
        if lo >= 0:
            if lo > 0:
                self.ctx.assume(z3.UGE(e, lo))
            if hi != (1 << w) - 1:
                self.ctx.assume(z3.ULE(e, hi))
        else:
            self.ctx.assume(z3.And(e >= lo, e <= hi))
        return self._reg(name, 'int', v)

    def bool(self, name):
        e = self.ctx.fresh(name, 1)
        b = SymBool(e == 1)
        self._reg(name, 'int', SymInt(e, 0, 1))
        return b

    def str(self, name, n, alphabet=None):
        """A string of exactly n symbolic characters."""
        cs = []
        for i in range(n):
            v = self.ctx.fresh('%s_%d' % (name, i), 8)
            if alphabet is not None:
                self.ctx.assume(strs.in_set(v, [ord(c) for c in alphabet]))
            cs.append(v)
        return self._reg(name, 'str', strs.mkc(cs))

    def strup(self, name, lo, hi, alphabet=None):
        """A string of lo..hi symbolic characters (the length forks)."""
        n = self.choice(name + '.len', list(range(lo, hi + 1)))
        return self.str(name, n, alphabet)

    def atom(self, name, lo, hi, lits=(), alphabet=None):
        a = None if alphabet is None else frozenset(map(ord, alphabet))
        s = strs.new_atom(name, lo, hi, a, lits)
        return self._reg(name, 'str', s)

    def choice(self, name, options):
        if len(options) == 1:
            return options[0]
        i = self.int(name, 0, len(options) - 1)
        return options[core.conc(i)]

    def ints(self, name, n, lo, hi):
        return [self.int('%s%d' % (name, i), lo, hi) for i in range(n)]

    def assume(self, c):
        self.ctx.assume(c)

    def check(self, c, msg):
        self.ctx.check(c, msg)

    def check_eq(self, a, b, msg):
        self.ctx.check(rt.eq(a, b), msg)

    def fail(self, msg):
        self.ctx.check(False, msg)

    def eq(self, a, b):
        return rt.eq(a, b)

    def both(self, *xs):
        return core.and_(*xs)

    def either(self, *xs):
        return core.or_(*xs)

    def neg(self, x):
        return core.not_(x)

    def ite(self, c, a, b):
        return rt.merge(c, a, b)

    def truth(self, x):
        return x if isinstance(x, bool) else bool(x)

    def concrete(self, x):
        return core.conc(x)

    def observe(self, name, v):
        self.ctx.observed.append((name, v))

    def cover(self, label):
        self.ctx.covers[label] = self.ctx.covers.get(label, 0) + 1

    def load(self, name, fresh=False):
        if fresh:
            self.loader.mods.pop(name, None)
        return self.loader.load(name)

    def script(self, name, argv, stdin, stdout):
        """Run a program of the repository."""
        from . import shims
        y = shims.SYS
        old = y.argv, y.stdin, y.stdout
        y.argv, y.stdin, y.stdout = [name + '.py'] + argv, stdin, stdout
        try:
            self.loader.mods.pop(name, None)
            self.loader.load(name, True)
        except SystemExit:
            pass
        finally:
            self.loader.mods.pop(name, None)
            y.argv, y.stdin, y.stdout = old

    def inject(self, name, attrs):
        """Replace a module by a stand-in, before the repository's own code
        imports it."""
        self.loader.inject(name, attrs)

    def dict(self, pairs):
        return containers.SOrderedDict.pairs(pairs)

    def skip(self):
        raise Infeasible()

    def peek(self, obj, *names):
        """An internal of the implementation; where it has been renamed
        away, the path ends there without a verdict on it."""
        for n in names:
            if hasattr(obj, n):
                return getattr(obj, n)
        self.ctx.notes.add('no attribute %s: not checked' % names[0])
        raise NoHook(names[0])


# -- models ------------------------------------------------------------------
class Concretiser(object):
    def __init__(self, ctx, model):
        self.ctx = ctx
        self.m = model
        self.bylit = {k: s for s, k in ctx.lits.items()}
        self.content = {}

    def term(self, e):
        return self.m.eval(e, model_completion=True).as_long()

    def atom(self, a):
        mat = self.ctx.__dict__.get('mat', {})
        if a in mat:
            return [c if isinstance(c, int) else self.term(c)
                    for c in mat[a]]
        i = self.term(a.id)
        n = self.value(a.len)
        if i in self.bylit:
            return [ord(c) for c in self.bylit[i]]
        if i not in self.content:
            alpha = sorted(a.alphabet) if a.alphabet else \
                list(range(97, 123))
            taken = set(self.content.values())
            for b, cs in mat.items():
                taken.add(tuple(c if isinstance(c, int) else self.term(c)
                                for c in cs))
            for s in self.ctx.lits:
                taken.add(tuple(map(ord, s)))
            pick = None
            for c in alpha:
                t = tuple([c] * n)
                if t not in taken:
                    pick = t
                    break
            if pick is None:
                for c in alpha:
                    for d in alpha:
                        t = tuple([c] * (n - 1) + [d])
                        if t not in taken:
                            pick = t
                            break
                    if pick:
                        break
            if pick is None:
                raise Unsupported('cannot make distinct content')
            self.content[i] = pick
        return list(self.content[i])

    def value(self, v):
        if isinstance(v, bool) or v is None:
            return v
        if isinstance(v, int):
            return v
        if isinstance(v, SymInt):
            x = self.m.eval(v.e, model_completion=True)
            return x.as_long() if v.lo >= 0 else x.as_signed_long()
        if isinstance(v, SymBool):
            return z3.is_true(self.m.eval(v.e, model_completion=True))
        if isinstance(v, str):
            return {'s': [ord(c) for c in v]}
        if isinstance(v, (bytes, bytearray)):
            return {'s': list(v)}
        if isinstance(v, SymStr):
            r = []
            for g in v.norm():
                if isinstance(g, Atom):
                    r.extend(self.atom(g))
                else:
                    r.extend(c if isinstance(c, int) else self.term(c)
                             for c in g)
            return {'s': r}
        if isinstance(v, (list, tuple, collections.deque)):
            return [self.value(x) for x in v]
        if isinstance(v, (containers.SDict, dict)):
            return {'d': sorted([[self.value(k), self.value(x)]
                                 for k, x in v.items()], key=repr)}
        if isinstance(v, (containers.SSet, set, frozenset)):
            return {'d': sorted([self.value(k) for k in v], key=repr)}
        raise Unsupported('observing ' + type(v).__name__)


def extract(ctx, model):
    c = Concretiser(ctx, model)
    ins = {}
    for name, kind, v in ctx.inputs:
        ins[name] = c.value(v)
    return ins, c


# -- state snapshot ------------------------------------------------------------
class Snapshot(object):
    """Shallow copies of every mutable object reachable from loaded modules,
    put back after each path."""

    def __init__(self, roots, modules):
        self.items = []
        seen = set()
        todo = list(roots)
        names = set(m.__name__ for m in modules)
        for m in modules:
            todo.append(m)
        while todo:
            o = todo.pop()
            if id(o) in seen:
                continue
            seen.add(id(o))
            if isinstance(o, (str, int, float, bytes, type(None), bool,
                              types.BuiltinFunctionType)):
                continue
            if isinstance(o, types.ModuleType):
                if o.__name__ in names and o in modules:
                    d = o.__dict__
                    self.items.append((d, dict(d), None))
                    todo.extend(v for k, v in d.items()
                                if k != '__builtins__')
                continue
            if isinstance(o, types.FunctionType):
                if o.__defaults__:
                    todo.extend(o.__defaults__)
                continue
            if isinstance(o, type):
                if o.__module__ in names:
                    d = {k: v for k, v in vars(o).items()
                         if not k.startswith('__')}
                    self.items.append((o, d, 'class'))
                    todo.extend(d.values())
                continue
            if isinstance(o, tuple):
                todo.extend(o)
                continue
            if isinstance(o, (list, collections.deque)):
                c = list(o)
                self.items.append((o, c, 'seq'))
                todo.extend(c)
            elif isinstance(o, dict):
                c = dict(o)
                self.items.append((o, c, None))
                todo.extend(c.keys())
                todo.extend(c.values())
            elif isinstance(o, containers.Entry):
                self.items.append((o, (o.k, o.v, o.c), 'entry'))
                todo.extend((o.k, o.v))
                continue
            d = getattr(o, '__dict__', None)
            if isinstance(d, dict):
                mod = type(o).__module__
                if mod in names or mod.startswith('symx.') or \
                        mod == 'builtins':
                    self.items.append((d, dict(d), None))
                    todo.extend(d.values())

    def restore(self):
        for o, c, k in self.items:
            if k == 'seq':
                if len(o) != len(c) or any(
                        x is not y for x, y in zip(o, c)):
                    if isinstance(o, list):
                        list.__setitem__(o, slice(None), c)
                    else:
                        o.clear()
                        o.extend(c)
            elif k == 'class':
                for n, v in c.items():
                    if vars(o).get(n) is not v:
                        setattr(o, n, v)
                for n in [n for n in vars(o) if n not in c and
                          not n.startswith('__')]:
                    delattr(o, n)
            elif k == 'entry':
                o.k, o.v, o.c = c
            else:
                if o.keys() != c.keys() or any(
                        o[n] is not v for n, v in c.items()):
                    o.clear()
                    o.update(c)


# -- one path ----------------------------------------------------------------
class Task(object):
    """harness: path under /verif; fn: function in it; params: dict."""

    def __init__(self, name, harness, fn, params=None, max_loop=3000,
                 covers=(), budget=None, max_paths=None, py2=None,
                 samples=None, materialise=None):
        self.name = name
        self.harness = harness
        self.fn = fn
        self.params = params or {}
        self.max_loop = max_loop
        self.covers = covers
        self.budget = budget
        self.max_paths = max_paths
        self.py2 = py2
        self.samples = samples
        self.materialise = materialise


class PathResult(object):
    __slots__ = ('kind', 'msg', 'inputs', 'observed', 'covers', 'notes',
                 'tb')

    def __init__(self, kind, msg=None, inputs=None, observed=None,
                 covers=None, notes=None, tb=None):
        self.kind = kind
        self.msg = msg
        self.inputs = inputs
        self.observed = observed
        self.covers = covers
        self.notes = notes
        self.tb = tb


def run_path(fn, loader, params, prefix, max_loop, want_sample, shared):
    ctx = core.Ctx(prefix, max_steps=max_loop)
    core.set_ctx(ctx)
    containers.JYTHON = loader.py2
    kind = 'ok'
    msg = tb = model = None
    try:
        S = Sym(ctx, loader, params, shared)
        fn(S)
    except Infeasible:
        kind = 'infeasible'
    except NoHook as e:
        kind = 'ok'
    except BoundOut as e:
        kind, msg = 'boundout', str(e)
    except Unsupported as e:
        kind, msg = 'unsupported', str(e)
        tb = traceback.format_exc()
    except Unknown as e:
        kind, msg = 'unknown', str(e)
    except StepLimit as e:
        kind, msg = 'violation', 'does not terminate: ' + str(e)
    except Violated as e:
        kind, msg, model = 'violation', e.msg, e.model
    except Engine as e:
        kind, msg = 'unsupported', repr(e)
    except RecursionError:
        kind, msg = 'unsupported', 'recursion'
        tb = traceback.format_exc()
    except Exception as e:
        kind = 'violation'
        tb = traceback.format_exc()
        msg = 'exception %s: %s' % (type(e).__name__, str(e)[:200])
    res = PathResult(kind, msg, covers=ctx.covers, notes=ctx.notes, tb=tb)
    try:
        if kind == 'violation' or (kind == 'ok' and want_sample):
            if model is None:
                model = ctx.get_model()
            res.inputs, c = extract(ctx, model)
            if kind == 'ok':
                res.observed = [[n, c.value(v)] for n, v in ctx.observed]
        elif kind in ('unsupported', 'unknown') or (
                kind == 'boundout' and want_sample):
            # what the path read so far; the real code may still decide it
            try:
                res.inputs, c = extract(ctx, ctx.get_model())
            except Exception:
                res.inputs = None
    except Infeasible:
        res.kind = 'infeasible'
    except Unknown as e:
        res.kind, res.msg = 'unknown', str(e)
    except Unsupported as e:
        if kind == 'violation':
            res.kind = 'unsupported'
        res.inputs = res.observed = None
        res.msg = str(e)
    return res, ctx.alts


def _worker(wid, fn, loader, task, tasks_q, results_q, outstanding, idle,
            stop, snap, seed, shared, deadline, nworkers):
    sys.setrecursionlimit(20000)
    gc.freeze()
    gc.disable()
    if task.materialise is not None:
        strs.MATERIALISE = task.materialise
    rnd = random.Random(seed * 1000 + wid)
    local = []
    agg = collections.Counter()
    covers = collections.Counter()
    notes = set()
    rt.FUNCS.clear()
    for k in core.STATS:
        core.STATS[k] = 0
    npaths = 0
    nsample = nedge = 0
    exhausted = True
    longest = 0.0
    try:
        while not stop.value:
            if time.time() > deadline:
                exhausted = False
                break
            if local:
                prefix = local.pop()
            else:
                with idle.get_lock():
                    idle.value += 1
                try:
                    while True:
                        try:
                            prefix = tasks_q.get(timeout=0.1)
                            break
                        except _q.Empty:
                            if outstanding.value == 0 or stop.value or \
                                    time.time() > deadline:
                                prefix = None
                                break
                finally:
                    with idle.get_lock():
                        idle.value -= 1
                if prefix is None:
                    if outstanding.value > 0 and not stop.value:
                        exhausted = False
                    break
            npaths += 1
            if npaths % 100 == 0:
                gc.collect()
            want = npaths <= 4 or rnd.random() < 4.0 / npaths or \
                (agg['boundout'] and nedge < 3)
            t0 = time.time()
            res, alts = run_path(fn, loader, task.params, prefix,
                                 task.max_loop, want, shared)
            longest = max(longest, time.time() - t0)
            snap.restore()
            with outstanding.get_lock():
                outstanding.value += len(alts) - 1
            local.extend(alts)
            while len(local) > 1 and idle.value > 0 and \
                    tasks_q.qsize() < nworkers:
                tasks_q.put(local.pop(0))
            agg[res.kind] += 1
            for k, v in (res.covers or {}).items():
                covers[k] += 1
            notes |= res.notes or set()
            if res.kind in ('violation', 'unsupported', 'unknown'):
                results_q.put(('path', res.kind, res.msg, res.inputs, res.tb,
                               task.name))
                if res.kind == 'violation':
                    stop.value = 1
                elif agg['unsupported'] + agg['unknown'] >= 3:
                    stop.value = 1
            elif res.kind == 'boundout' and res.inputs and nedge < 3:
                # Left the bound; the real code decides the path's inputs.
                nedge += 1
                results_q.put(('path', res.kind, res.msg, res.inputs, None,
                               task.name))
            elif res.kind == 'ok' and want and res.inputs is not None:
                nsample += 1
                results_q.put(('sample', res.inputs, res.observed))
            if task.max_paths and npaths * nworkers > task.max_paths:
                exhausted = False
                break
    except BaseException as e:
        results_q.put(('path', 'unsupported', 'worker: %r' % (e,), None,
                       traceback.format_exc(), task.name))
        stop.value = 1
    if local:
        exhausted = False
    results_q.put(('done', dict(agg), dict(covers), sorted(notes),
                   sorted(rt.FUNCS), dict(core.STATS), exhausted, longest))
    results_q.close()
    results_q.join_thread()
    tasks_q.cancel_join_thread()
    os._exit(0)


class Outcome(object):
    pass


def explore(task, loader, hmod, seed=1, nworkers=None, budget=600,
            verbose=False):
    nworkers = nworkers or int(os.environ.get('VERIF_WORKERS', '0')) or \
        min(8, os.cpu_count() or 1)
    fn = getattr(hmod, task.fn)
    budget = task.budget or budget
    deadline = time.time() + budget
    core.set_ctx(core.Ctx())
    shared = None
    setup = getattr(hmod, 'setup_' + task.fn, None) or \
        getattr(hmod, 'setup', None)
    t0 = time.time()
    if setup is not None:
        # once, before the paths fork; it must not branch on symbols
        box = []
        res, alts = run_path(lambda S: box.append(setup(S)), loader,
                             task.params, [], task.max_loop, False, None)
        if alts and res.kind == 'ok':
            res.kind, res.msg = 'unsupported', 'symbolic branch in setup'
        if res.kind != 'ok' or not box:
            out = Outcome()
            out.task = task
            out.counts = collections.Counter({res.kind: 1})
            out.covers = collections.Counter(res.covers or {})
            out.notes = set(res.notes or ())
            out.funcs = set(rt.FUNCS)
            out.stats = collections.Counter(core.STATS)
            out.bad = [] if res.kind == 'ok' else [
                (res.kind, res.msg, res.inputs or {}, res.tb)]
            out.samples = []
            out.exhaustive = res.kind == 'ok'
            out.longest = out.wall = time.time() - t0
            return out
        shared = box[0]
    snap = Snapshot([shared], list(loader.mods.values()) + [hmod])
    tasks_q = MPC.Queue()
    results_q = MPC.Queue()
    outstanding = MPC.Value('i', 1)
    idle = MPC.Value('i', 0)
    stop = MPC.Value('i', 0)
    tasks_q.put([])
    ps = []
    for w in range(nworkers):
        p = MPC.Process(target=_worker, args=(
            w, fn, loader, task, tasks_q, results_q, outstanding, idle, stop,
            snap, seed, shared, deadline, nworkers))
        p.start()
        ps.append(p)
    out = Outcome()
    out.task = task
    out.counts = collections.Counter()
    out.covers = collections.Counter()
    out.notes = set()
    out.funcs = set()
    out.stats = collections.Counter()
    out.bad = []
    out.samples = []
    out.exhaustive = True
    out.longest = 0
    left = nworkers
    grace = None
    while left:
        try:
            r = results_q.get(timeout=1)
        except _q.Empty:
            alive = sum(p.is_alive() for p in ps)
            if not alive:
                try:
                    r = results_q.get(timeout=1)
                except _q.Empty:
                    out.exhaustive = False
                    out.bad.append(('unsupported', 'worker died', None, None))
                    break
            elif (stop.value or time.time() > deadline) and grace is None:
                grace = time.time() + 45
                continue
            elif grace is not None and time.time() > grace:
                out.exhaustive = False
                for p in ps:
                    p.kill()
                break
            else:
                continue
        if r[0] == 'path':
            out.bad.append(r[1:])
        elif r[0] == 'sample':
            out.samples.append(r[1:])
        else:
            left -= 1
            out.counts.update(r[1])
            out.covers.update(r[2])
            out.notes |= set(r[3])
            out.funcs |= set(r[4])
            out.stats.update(r[5])
            out.exhaustive = out.exhaustive and r[6]
            out.longest = max(out.longest, r[7])
    for p in ps:
        p.join(2)
        if p.is_alive():
            p.kill()
    if outstanding.value != 0:
        out.exhaustive = False
    out.wall = time.time() - t0
    return out

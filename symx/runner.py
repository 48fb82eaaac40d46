"""Runs the check of one property: explores its tasks, replays, reports."""
import collections
import json
import os
import subprocess
import sys
import tempfile
import time
import types

from . import containers, core, explore, instrument, loader as _loader, rt

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
JYTHON = '/usr/bin/jython'
PY3 = '/opt/venv/bin/python'


def load_harness(path, py2, ldr):
    import ast
    with open(path) as f:
        tree = ast.parse(f.read(), path)
    name = 'harness_' + os.path.basename(path)[:-3]
    m = types.ModuleType(name)
    m.__file__ = path
    tree = instrument.instrument(tree, name, False)
    m.__dict__['__builtins__'] = rt.make_builtins(py2, ldr._importer)
    exec(compile(tree, path, 'exec'), m.__dict__)
    return m


def concrete(py2, cases, timeout=240, env_extra=None):
    """Run cases on the real code.  -> list of outcomes (None: timeout)."""
    d = tempfile.mkdtemp(prefix='symx')
    try:
        a, b = d + '/cases.json', d + '/out.json'
        with open(a, 'w') as f:
            json.dump(cases, f)
        env = dict(os.environ)
        env['VERIF_REPO'] = _loader.REPO
        env['PYTHONDONTWRITEBYTECODE'] = '1'
        env['JYTHONPATH'] = '/opt/jylib'
        env.update(env_extra or {})
        cmd = [JYTHON, '-B'] if py2 else [PY3, '-B']
        p = subprocess.Popen(cmd + [VERIF + '/symx/replay.py', a, b], cwd=d,
                             env=env, stdout=subprocess.PIPE,
                             stderr=subprocess.STDOUT,
                             start_new_session=True)
        try:
            log, _ = p.communicate(timeout=timeout)
        except subprocess.TimeoutExpired:
            import signal
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
            return None, 'timeout'
        if not os.path.exists(b):
            return None, log.decode('latin-1')[-2000:]
        with open(b) as f:
            return json.load(f), log.decode('latin-1')[-2000:]
    finally:
        import shutil
        shutil.rmtree(d, ignore_errors=True)


def canon(x):
    return json.dumps(x, sort_keys=True)


def resort(v):
    """Canonical order of dict-like observations."""
    if isinstance(v, dict) and 'd' in v:
        return {'d': sorted((resort(x) for x in v['d']), key=canon)}
    if isinstance(v, list):
        return [resort(x) for x in v]
    return v


class Group(object):
    """Tasks that share one loader (one language, one set of sources)."""

    def __init__(self, py2, paths, tasks, preload=(), roots=None):
        self.py2 = py2
        self.paths = paths
        self.tasks = tasks
        self.preload = list(preload)
        self.roots = roots


class Check(object):
    """One property."""

    def __init__(self, pid, groups, bounds, outside, assumptions=(),
                 extra=None):
        self.pid = pid
        self.groups = groups
        self.bounds = bounds
        self.outside = outside
        self.assumptions = list(assumptions)
        self.extra = extra      # callable(tier) -> parts of another engine


def known_findings(pid):
    """Lines of KNOWN_FINDINGS: 'known: property=ID case=FILE what fails'."""
    out = []
    try:
        with open(VERIF + '/KNOWN_FINDINGS') as f:
            lines = f.read().splitlines()
    except OSError:
        return out
    for ln in lines:
        if ln.startswith('known: property=%s ' % pid):
            rest = ln.split(None, 2)[2]
            case, what = rest.split(None, 1)
            with open(os.path.join(VERIF, case.split('=', 1)[1])) as f:
                c = json.load(f)
            c['what'] = what
            out.append(c)
    return out


def confirm(py2, case, msg):
    """(how the real code fails on the case, or None; what it did)."""
    msg = msg or ''
    to = 60 if msg.startswith('does not terminate') or case.get('fill') \
        else 300
    res, log = concrete(py2, [case], timeout=to)
    if res is None and log == 'timeout':
        return 'timeout', 'timeout'
    if res is not None and res[0]['outcome'] in ('violation', 'exception'):
        return res[0]['outcome'] + ': ' + res[0]['msg'], ''
    return None, res or log


def run(check, tier, seed, verbose=False, only=None, nworkers=None):
    t0 = time.time()
    outcomes = []
    viol = None
    errors = []
    validated = 0
    mism = []
    samples_out = []
    known_lines = []
    tries = 0
    for g in check.groups:
        py2 = g.py2
        tasks = [t for t in g.tasks if only is None or t.name in only]
        if not tasks:
            continue
        core.set_ctx(core.Ctx())
        base = {'roots': g.roots, 'preload': g.preload}
        try:
            ldr = _loader.Loader(py2, g.paths, roots=g.roots and [
                os.path.join(_loader.REPO, r) for r in g.roots])
            for m in g.preload:
                ldr.load(m)
        except Exception as e:
            # The module does not load: does the real interpreter agree?
            import traceback
            case = dict(base, harness=VERIF + '/harness/loads.py',
                        fn='loads', inputs={}, params={'mods': g.preload})
            res, log = concrete(py2, [case])
            if res is not None and res[0]['outcome'] == 'ok':
                errors.append('loading: %r\n%s' % (e,
                                                   traceback.format_exc()))
            else:
                viol = (py2, tasks[0], case, 'module does not load: %r' % e,
                        {}, '')
                break
            continue
        hm = {}
        cases = []
        for t in tasks:
            hp = os.path.join(VERIF, 'harness', t.harness)
            if hp not in hm:
                hm[hp] = load_harness(hp, py2, ldr)
            o = explore.explore(t, ldr, hm[hp], seed=seed, verbose=verbose,
                                nworkers=nworkers)
            outcomes.append(o)
            if verbose:
                print('  %-34s %7.1fs paths=%s queries=%d solver=%.1fs '
                      'exh=%s longest=%.1fs %s' % (
                          t.name, o.wall, dict(o.counts), o.stats['queries'],
                          o.stats['solver_s'], o.exhaustive, o.longest,
                          dict(o.covers)), flush=True)
            edge = 0
            for b in sorted(o.bad, key=lambda b: b[0] == 'boundout')[:12]:
                kind, msg, ins, tb = b[:4]
                if kind not in ('violation', 'boundout'):
                    errors.append('%s: %s: %s\n%s' % (t.name, kind, msg,
                                                      tb or ''))
                if viol is not None or ins is None or tries >= 16:
                    continue
                if kind == 'boundout':
                    edge += 1
                    if edge > 3:
                        continue
                else:
                    tries += 1
                # Where the engine had to give up, the real code may still
                # fail on the path's inputs.
                case = dict(base, harness=hp, fn=t.fn, inputs=ins,
                            params=t.params)
                if kind != 'violation':
                    case['fill'] = True
                rep, why = confirm(py2, case, msg)
                if rep is not None:
                    viol = (py2, t, case, msg, ins, tb, rep)
                elif kind == 'violation':
                    errors.append(
                        'counterexample of %s (%s) does not reproduce: %s '
                        '%s\n%s' % (t.name, msg, why, compact(ins),
                                    tb or ''))
            if viol:
                break
            ss = o.samples[:t.samples or 12]
            for ins, obs in ss:
                cases.append((dict(base, harness=hp, fn=t.fn, inputs=ins,
                                   params=t.params), obs, t))
        if viol:
            break
        if cases:
            res, log = concrete(py2, [c[0] for c in cases], timeout=400)
            if res is None:
                errors.append('concrete validation failed to run: ' + log)
            else:
                for (c, obs, t), r in zip(cases, res):
                    if r['outcome'] in ('violation', 'exception') and \
                            viol is None:
                        viol = (py2, t, c, 'holds in the model; the real '
                                'code fails on the path\'s witness',
                                c['inputs'], '')
                    if r['outcome'] != 'ok' or \
                            canon(resort(r['observed'])) != \
                            canon(resort(obs)):
                        mism.append((t.name, c['inputs'], obs, r))
                    else:
                        validated += 1
                for c, obs, t in cases[:3]:
                    samples_out.append({'task': t.name,
                                        'inputs': compact(c['inputs'])})
    rc = 0
    replay_path = None
    kf = 0
    for c in known_findings(check.pid):
        res, log = concrete(c['py2'], [c['case']], timeout=60)
        if (res is None and log == 'timeout') or (
                res and res[0]['outcome'] in ('violation', 'exception')):
            print('KNOWN-FINDING: property=%s %s' % (check.pid, c['what']))
            kf += 1
    if viol:
        py2, t, case, msg, ins, tb = viol[:6]
        rep, why = viol[6:] and (viol[6], '') or confirm(py2, case, msg)
        if rep is None:
            errors.append('counterexample of %s (%s) does not reproduce: %s '
                          '%s\n%s' % (t.name, msg, why, compact(ins),
                                      tb or ''))
        else:
            d = os.path.join(VERIF, 'replays')
            os.makedirs(d, exist_ok=True)
            replay_path = os.path.join(d, '%s.json' % check.pid)
            with open(replay_path, 'w') as f:
                json.dump({'property': check.pid, 'task': t.name,
                           'py2': py2, 'case': case, 'solver_says': msg,
                           'replay_says': rep, 'readable': compact(ins)},
                          f, indent=1)
            print('VIOLATION property=%s replay=%s' % (check.pid,
                                                       replay_path))
            print('  task %s: %s; replay on the real code: %s' %
                  (t.name, msg, rep))
            print('  inputs: %s' % json.dumps(compact(ins))[:1500])
            rc = 1
    if mism and rc == 0:
        errors.append('%d of %d replayed paths disagree with the real code; '
                      'first: %s' % (len(mism), len(mism) + validated,
                                     json.dumps([mism[0][0],
                                                 compact(mism[0][1]),
                                                 compactv(mism[0][2]),
                                                 compactv(mism[0][3])])[:3000]
                                     ))
    ok = sum(o.counts['ok'] for o in outcomes)
    if rc == 0 and ok == 0:
        errors.append('vacuous: no path completed')
    if errors and rc == 0:
        rc = 2
        seen = collections.OrderedDict()
        for e in errors:
            seen.setdefault(e.split('\n')[0][:160], []).append(e)
        for k, es in list(seen.items())[:4 if verbose else 2]:
            e = es[0]
            if len(e) > 1500:
                e = e[:600] + '\n...\n' + e[-900:]
            print('ERROR (x%d) %s' % (len(es), e))
        if len(seen) > 2:
            print('ERROR ... %d more kinds' % (len(seen) - 2))
    # -- evidence
    funcs = sorted(set(f for o in outcomes for f in o.funcs
                       if not f.startswith('harness_')))
    ev = {
        'property': check.pid, 'tier': tier, 'seed': seed,
        'level': 'model_checking',
        'coverage': {
            'states': ok,
            'transitions': int(sum(o.stats['branches'] for o in outcomes)),
            'traces_validated_against_impl': validated,
            'samples': samples_out[:6] or ['(none)'],
            'exhaustive': bool(outcomes) and
            all(o.exhaustive and not o.counts['boundout']
                for o in outcomes) and rc == 0,
            'what_states_are': 'feasible symbolic paths run to completion; '
            'each stands for every input satisfying its path condition',
            'what_transitions_are': 'branch conditions decided',
            'solver_queries': int(sum(o.stats['queries'] for o in outcomes)),
            'solver_seconds': round(sum(o.stats['solver_s']
                                        for o in outcomes), 2),
            'assertions_checked': int(sum(o.stats['checks']
                                          for o in outcomes)),
            'functions_encoded': funcs,
            'tasks': [{
                'task': o.task.name, 'params': o.task.params,
                'paths': dict(o.counts), 'covers': dict(o.covers),
                'exhaustive': o.exhaustive, 'wall_s': round(o.wall, 2),
                'bound_notes': sorted(o.notes)} for o in outcomes],
            'bounds': check.bounds, 'outside_the_bounds': check.outside,
        },
        'assumptions': check.assumptions,
        'wall_s': round(time.time() - t0, 2),
        'violations': 1 if rc == 1 else 0,
        'known_findings_reproduced': kf,
    }
    os.makedirs(VERIF + '/evidence', exist_ok=True)
    with open(VERIF + '/evidence/%s.json' % check.pid, 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s %s: rc=%d paths=%d queries=%d solver=%.1fs validated=%d '
          'wall=%.1fs%s' % (check.pid, tier, rc, ok,
                            ev['coverage']['solver_queries'],
                            ev['coverage']['solver_seconds'], validated,
                            ev['wall_s'],
                            '' if ev['coverage']['exhaustive']
                            else ' (not exhaustive)'))
    return rc


def compactv(v):
    if isinstance(v, dict):
        if list(v) == ['s']:
            s = ''.join(map(chr, v['s']))
            if len(s) > 40 and len(set(s)) == 1:
                return '%r*%d' % (s[0], len(s))
            return s
        return {k: compactv(x) for k, x in v.items()}
    if isinstance(v, list):
        return [compactv(x) for x in v]
    return v


def compact(ins):
    return {k: compactv(v) for k, v in (ins or {}).items()}

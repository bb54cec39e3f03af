"""Runs the harnesses of a property, replays what the solver found on the real
code, writes the evidence."""
import hashlib
import importlib
import json
import multiprocessing
import os
import resource
import signal
import sys
import time
import traceback
import warnings

warnings.simplefilter('ignore')

import numpy as np  # noqa: E402

from . import engine as E  # noqa: E402
from . import loader as L  # noqa: E402
from .world import (AssumptionFailed, CheckFailed, ConcreteWorld, SymWorld,  # noqa: E402
                    Unconfirmed, Violation)

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPLAYS = os.path.join(ROOT, 'evidence', 'replay')


class Inst(object):
    """One harness with fixed sizes. fn(w, **kw) builds inputs from the world w,
    runs the real code and asserts; labels lists the assertions that must be
    reached."""

    def __init__(self, name, fn, labels=(), max_candidates=8, **kw):
        self.name, self.fn, self.labels, self.kw = name, fn, tuple(labels), kw
        self.max_candidates = max_candidates


def _profiler(found):
    base = os.path.join(L.REPO, L.PKG)

    def prof(frame, event, arg):
        if event == 'call':
            co = frame.f_code
            if co.co_filename.startswith(base):
                found.add('%s:%s' % (os.path.relpath(co.co_filename, L.REPO), co.co_qualname))
    return prof


class Hang(BaseException):
    """The code runs on without deciding anything."""


class Watch(object):
    """Raises Hang after idle seconds of CPU time in which progress() did not
    change (never checked again if progress is None)."""

    TICK = 4.

    def __init__(self, idle, progress=None):
        self.idle, self.progress = idle, progress
        self.seen, self.ticks = None, 0

    def tick(self, *args):
        now = self.progress() if self.progress else 0
        self.ticks = self.ticks + 1 if now == self.seen else 0
        self.seen = now
        if self.ticks * self.TICK >= self.idle:
            raise Hang('no end within %ds' % self.idle)

    def __enter__(self):
        self.old = signal.signal(signal.SIGPROF, self.tick)
        self.left = signal.setitimer(signal.ITIMER_PROF, self.TICK, self.TICK)
        return self

    def __exit__(self, *exc):
        signal.setitimer(signal.ITIMER_PROF, *self.left)
        signal.signal(signal.SIGPROF, self.old)


def run_concrete(inst, values):
    """('ok'|'violation'|'exception'|'skip', label, detail) on the real code."""
    w = ConcreteWorld(values)
    saved = w.patch_rng()
    old = E.ENGINE
    E.ENGINE = None
    np_err = np.seterr(all='ignore')
    try:
        with Watch(20.):
            inst.fn(w, **inst.kw)
        return 'ok', None, None
    except Hang as e:
        return 'exception', 'does not end: %s' % e, _short_tb()
    except CheckFailed as e:
        return 'violation', e.label, e.info
    except AssumptionFailed:
        return 'skip', None, None
    except Exception as e:
        return 'exception', '%s: %s' % (type(e).__name__, e), traceback.format_exc()
    except E.Unsupported as e:
        return 'skip', None, 'concrete run unsupported: %s' % e
    finally:
        np.seterr(**np_err)
        E.ENGINE = old
        w.unpatch_rng(saved)
        w.close()


def explore(inst, deadline, timeout_ms, validate):
    eng = E.Engine(timeout_ms=timeout_ms, deadline=deadline)
    E.ENGINE = eng
    funcs = set()
    res = dict(name=inst.name, candidates=[], errors=[], samples=[], validated=0,
               validation_failures=[], undecided=[], partial=[])
    n_cand = 0
    t_start = time.time()
    n_valid = 0
    stop = False
    while eng.worklist and not stop:
        prefix = eng.worklist.pop()
        eng.start_path(prefix)
        w = SymWorld(eng)
        found = None
        prof = eng.stats['paths'] < 2 or eng.stats['paths'] in (5, 17, 50, 200)
        try:
            if prof:
                sys.setprofile(_profiler(funcs))
            with Watch(60., lambda: (eng.stats['queries'], eng.stats['checks'], eng.stats['paths'])):
                inst.fn(w, **inst.kw)
            eng.stats['paths'] += 1
        except E.Infeasible:
            eng.stats['infeasible'] += 1
            continue
        except Violation as v:
            eng.stats['paths'] += 1
            found = (v.label, v.info, v.model)
        except Unconfirmed as u:
            eng.stats['paths'] += 1
            res['partial'].append('no verdict from the solver for "%s"' % u)
            if eng.model is not None:
                kind, rl, detail = run_concrete(inst, E.model_values(eng.model, eng.inputs))
                if kind in ('violation', 'exception'):
                    found = (rl if kind == 'violation' else 'unexpected ' + str(rl), detail, eng.model)
        except E.Unsupported as u:
            # this path leaves the encodable fragment: it is only run with
            # concrete values of the path, and reported as not decided
            res['undecided'].append('%s\n%s' % (u, _short_tb()))
            eng.stats['paths'] += 1
            eng.stats['undecided_paths'] += 1
            try:
                m = eng.need_model()
            except (E.Infeasible, E.BudgetExceeded):
                m = None
            if m is not None:
                for values in [E.model_values(m, eng.inputs)] + more_models(eng, m):
                    kind, rl, detail = run_concrete(inst, values)
                    if kind in ('violation', 'exception'):
                        found = (rl if kind == 'violation' else 'unexpected ' + str(rl), detail, m)
                        break
        except Hang as h:
            tb = _short_tb()
            eng.stats['paths'] += 1
            try:
                m = eng.need_model()
            except (E.Infeasible, E.BudgetExceeded):
                m = None
            if m is None:
                res['partial'].append('a path does not end, of unknown feasibility\n' + tb)
            else:
                found = ('the code does not end', tb, m)
        except E.BudgetExceeded as b:
            tb = _short_tb()
            # an endless loop over unknowns also ends here
            m = eng.model
            if m is not None and len(eng.trail) > 40:
                kind, rl, detail = run_concrete(inst, E.model_values(m, eng.inputs))
                if kind in ('violation', 'exception'):
                    found = (rl if kind == 'violation' else 'unexpected ' + str(rl), tb, m)
            if found is None:
                res['partial'].append(str(b))
                break
        except Exception as e:
            # the code raised where the property does not allow it
            eng.stats['paths'] += 1
            m = None
            try:
                m = eng.need_model()
            except E.Infeasible:
                eng.stats['infeasible'] += 1
                continue
            if m is None:
                res['partial'].append('exception on a path of unknown feasibility: %r' % e)
            else:
                found = ('unexpected %s' % type(e).__name__, '%s\n%s' % (e, _short_tb()), m)
        finally:
            if prof:
                sys.setprofile(None)
            w.close()
            E.ENGINE = eng
        if found is not None:
            label, info, model = found
            values = E.model_values(model, eng.inputs)
            kind, rl, detail = run_concrete(inst, values)
            ok = kind in ('violation', 'exception')
            if not ok:
                # other witnesses on the same path: nudge to a generic point
                for values2 in more_models(eng, model):
                    k2, rl2, d2 = run_concrete(inst, values2)
                    if k2 in ('violation', 'exception'):
                        kind, rl, detail, values, ok = k2, rl2, d2, values2, True
                        break
            res['candidates'].append(dict(label=label, info=str(info)[:1500], values=values,
                                          reproduced=ok, concrete=(kind, str(rl),
                                                                   str(detail)[:1500])))
            n_cand += 1
            if ok or n_cand >= inst.max_candidates:
                stop = True
        elif validate and n_valid < validate and eng.stats['paths'] and \
                (eng.stats['paths'] <= 3 or eng.stats['paths'] % 7 == 0):
            try:
                m = eng.need_model()
            except E.Infeasible:
                m = None
            if m is not None:
                values = E.model_values(m, eng.inputs)
                n_valid += 1
                kind, rl, detail = run_concrete(inst, values)
                if kind == 'ok':
                    res['validated'] += 1
                elif kind != 'skip':
                    # the encoding missed it, the real code fails all the same
                    res['validation_failures'].append((kind, str(rl), str(detail)[:1200], values))
                    label = rl if kind == 'violation' else 'unexpected ' + str(rl)
                    res['candidates'].append(dict(label=label, info='only on the real code', values=values, reproduced=True,
                                                  concrete=(kind, str(rl), str(detail)[:1500])))
                    stop = True
                if len(res['samples']) < 2:
                    res['samples'].append(dict(instance=inst.name, decisions=len(eng.trail),
                                               inputs=dict(list(values.items())[:12])))
        if eng.stats['paths'] >= eng.max_paths:
            res['partial'].append('path budget exhausted')
            break
        if len(res['errors']) >= 3 or len(res['partial']) >= 20:
            break
    if not stop:
        for l in inst.labels:
            if l not in eng.reached and not (res['errors'] or res['partial'] or res['undecided'] or res['candidates']):
                res['errors'].append('vacuous: assertion "%s" is never reached' % l)
    for l, ok in eng.witness.items():
        if not (ok or res['partial'] or res['undecided'] or res['candidates']):
            res['errors'].append('vacuous: no witness reaches "%s"' % l)
    res.update(stats=eng.stats, reached=eng.reached, functions=sorted(funcs),
               wall=time.time() - t_start)
    E.ENGINE = None
    return res


def more_models(eng, model):
    """A few more witnesses of the current path: away from the boundary of its
    comparisons (floats may round to the other side), in generic positions."""
    z3 = E.z3
    out = []
    reals = [e for k, e in eng.inputs.values() if k == 'real']
    if not reals:
        return out
    cons = list(eng.constraints) + ([eng.negated] if eng.negated is not None else [])
    t_end = time.time() + 20.

    def solver(ms):
        s = z3.Solver()
        s.set('timeout', ms)
        for c in cons:
            s.add(c)
        return s

    deltas = [z3.Q(1, 10 ** k) for k in (3, 6, 9, 11, 13)]
    for d in deltas:
        s = z3.Solver()
        s.set('timeout', 3000)
        for c in cons:
            s.add(E.margined(c, d))
        if s.check() == z3.sat:
            out.append(E.model_values(s.model(), eng.inputs))
            break
    else:
        # some of them can only hold exactly
        for d in deltas[1:4]:
            s = solver(2000)
            for c in cons[::-1]:
                if time.time() > t_end:
                    break
                m = E.margined(c, d)
                if m.eq(c):
                    continue
                s.push()
                s.add(m)
                if s.check() != z3.sat:
                    s.pop()
            if s.check() == z3.sat:
                out.append(E.model_values(s.model(), eng.inputs))
    for k in range(3):
        s = solver(3000)
        for i, e in enumerate(reals):
            if time.time() > t_end:
                break
            s.push()
            s.add(e > z3.Q(1 + (i * 7 + k * 3) % 11, 23))
            if s.check() != z3.sat:
                s.pop()
        if s.check() == z3.sat:
            out.append(E.model_values(s.model(), eng.inputs))
    return out


def _short_tb():
    tb = traceback.format_exc().splitlines()
    return '\n'.join(tb[-14:])


def _limit_memory():
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))


def _work(args):
    mod, i, tier, deadline, timeout_ms, validate = args
    m = importlib.import_module('props.' + mod)
    inst = m.instances(tier)[i]
    try:
        return explore(inst, deadline, timeout_ms, validate)
    except BaseException as e:
        return dict(name=inst.name, candidates=[], errors=['%s: %s\n%s' % (
            type(e).__name__, e, traceback.format_exc()[-2500:])], samples=[], validated=0,
            validation_failures=[], undecided=[], partial=[], stats={}, reached={}, functions=[], wall=0.)


def load_known(pid):
    path = os.path.join(ROOT, 'known_findings.jsonl')
    out = []
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                line = line.strip()
                if line and not line.startswith('#') and line.startswith('{'):
                    d = json.loads(line)
                    if d.get('property') == pid:
                        out.append(d)
    return out


def check_property(pid, tier='quick', seed=1, budget=None, only=None, verbose=False, jobs=8, strict=False):
    t0 = time.time()
    mod = importlib.import_module('props.' + pid)
    insts = mod.instances(tier)
    idx = [i for i in range(len(insts)) if only is None or only in insts[i].name]
    budget = budget or (780 if tier == 'quick' else 3300)
    deadline = t0 + budget
    timeout_ms = 30000 if tier == 'quick' else 120000
    validate = 6 if tier == 'quick' else 20
    args = [(pid, i, tier, deadline, timeout_ms, validate) for i in idx]
    results = []
    if jobs == 1 or len(args) == 1:
        for a in args:
            results.append(_work(a))
    else:
        ctx = multiprocessing.get_context('fork')
        with ctx.Pool(min(jobs, len(args)), maxtasksperchild=1, initializer=_limit_memory) as pool:
            for r in pool.imap_unordered(_work, args, chunksize=1):
                results.append(r)
                if any(c['reproduced'] for c in r['candidates']):
                    pool.terminate()
                    break
    return report(pid, mod, tier, seed, results, len(idx), t0, verbose, strict)


def report(pid, mod, tier, seed, results, n_inst, t0, verbose, strict=False):
    known = load_known(pid)
    violations, spurious, errors, undecided, partial = [], [], [], [], []
    for r in results:
        undecided += ['[%s] %s' % (r['name'], u) for u in r['undecided']]
        partial += ['[%s] %s' % (r['name'], e) for e in r['partial']]
        errors += ['[%s] %s' % (r['name'], e) for e in r['errors']]
        for c in r['candidates']:
            (violations if c['reproduced'] else spurious).append((r['name'], c))
    tot = {}
    for r in results:
        for k, v in r['stats'].items():
            tot[k] = max(tot.get(k, 0), v) if k == 'max_depth' else tot.get(k, 0) + v
    functions = sorted({f for r in results for f in r['functions']})
    reached = {}
    for r in results:
        for k, v in r['reached'].items():
            reached[k] = reached.get(k, 0) + v
    new = []
    for name, c in violations:
        k = [x for x in known if x.get('label') == c['label'] and x.get('instance') == name]
        if k:
            print('KNOWN-FINDING: property=%s %s' % (pid, k[0].get('what', c['label'])))
        else:
            new.append((name, c))
    wall = time.time() - t0
    evidence = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'other',
        'wall_s': round(wall, 3), 'violations': len(new),
        'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])) + COMMON_ASSUMPTIONS,
        'coverage': {
            'explanation': 'Bounded symbolic execution of the real code of /repo (read from its '
            'working tree on this run) with z3 deciding every branch and every assertion for all '
            'values of the inputs within the bounds. Bounds: ' + getattr(mod, 'BOUNDS', ''),
            'functions_encoded': functions,
            'harness_instances': n_inst,
            'paths': tot.get('paths', 0),
            'infeasible_paths': tot.get('infeasible', 0),
            'forks': tot.get('forks', 0),
            'solver_queries': tot.get('queries', 0),
            'solver_seconds': round(tot.get('solver_s', 0.), 3),
            'assertions_checked': tot.get('checks', 0),
            'assertions_discharged': tot.get('discharged', 0),
            'assertions_decided_without_unknowns': tot.get('trivial', 0),
            'solver_unknown': tot.get('unknown', 0),
            'assertions_by_label': reached,
            'max_decisions_on_a_path': tot.get('max_depth', 0),
            'traces_replayed_on_unpatched_code': sum(r['validated'] for r in results),
            'replay_mismatches': sum(len(r['validation_failures']) for r in results),
            'not_reproduced_counterexamples': len(spurious),
            'errors': errors[:20],
            'paths_outside_the_encodable_fragment': tot.get('undecided_paths', 0),
            'why_outside': undecided[:10],
            'not_explored': partial[:20],
            'samples': [s for r in results for s in r['samples']][:6],
            'per_instance': {r['name']: {'paths': r['stats'].get('paths', 0),
                                         'queries': r['stats'].get('queries', 0),
                                         'wall_s': round(r['wall'], 2)} for r in results},
        },
    }
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    with open(os.path.join(ROOT, 'evidence', pid + '.json'), 'w') as f:
        json.dump(evidence, f, indent=1, sort_keys=True, default=str)
    print('%s [%s] instances=%d paths=%d queries=%d checks=%d discharged=%d solver=%.1fs wall=%.1fs '
          'validated=%d mismatches=%d' % (
              pid, tier, n_inst, tot.get('paths', 0), tot.get('queries', 0), tot.get('checks', 0),
              tot.get('discharged', 0), tot.get('solver_s', 0.), wall,
              evidence['coverage']['traces_replayed_on_unpatched_code'],
              evidence['coverage']['replay_mismatches']))
    if verbose:
        for r in sorted(results, key=lambda r: -r['wall']):
            print('   %-40s paths=%-6d q=%-6d %.2fs' % (r['name'], r['stats'].get('paths', 0),
                                                       r['stats'].get('queries', 0), r['wall']))
        for r in results:
            for v in r['validation_failures'][:2]:
                print('   MISMATCH', r['name'], v)
    code = 0
    if new:
        for name, c in new:
            path = write_replay(pid, tier, name, c)
            print('  %s: %s' % (name, c['label']))
            if c['info']:
                print('    ' + c['info'].replace('\n', '\n    ')[:1500])
            print('    on the real code: %s' % (c['concrete'],))
            print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    for k, (name, c) in enumerate(spurious):
        if k < 3:
            print('NOT-REPRODUCED %s: %s: %s %s %s' % (name, c['label'], c['info'], c['concrete'],
                                                       str(c['values'])[:600]))
    for u in undecided[:2]:
        print('INCOMPLETE (path only run concretely) ' + u[:1500])
    for e in partial[:3]:
        print('INCOMPLETE (not explored further) ' + e[:1500])
    if strict and (undecided or partial or spurious):
        code = 2
    for k, e in enumerate(errors):
        code = 2
        if k >= 4:
            break
        print('ERROR ' + e[:1800])
    return code


COMMON_ASSUMPTIONS = [
    'floats are idealised as exact reals (rounding, overflow, signed zeros and NaN payloads are '
    'outside the claim); float constants stand for the simplest rational within 1e-13',
    'numpy is replaced by an object-array implementation of the same operations during symbolic '
    'runs; every reported violation is reproduced with the real numpy',
    'random draws are environment inputs, arbitrary within their contract (or weighted by it)',
]


def write_replay(pid, tier, name, c):
    os.makedirs(REPLAYS, exist_ok=True)
    h = hashlib.sha1(json.dumps([name, c['label'], c['values']], sort_keys=True,
                                default=str).encode()).hexdigest()[:10]
    path = os.path.join(REPLAYS, '%s-%s.json' % (pid, h))
    with open(path, 'w') as f:
        json.dump(dict(property=pid, tier=tier, instance=name, label=c['label'], info=c['info'],
                       values=c['values'], concrete=c['concrete'],
                       how='/opt/venv/bin/python /verif/check.py --replay ' + path), f, indent=1)
    return path


def replay(path):
    with open(path) as f:
        d = json.load(f)
    mod = importlib.import_module('props.' + d['property'])
    for inst in mod.instances(d['tier']):
        if inst.name == d['instance']:
            kind, label, detail = run_concrete(inst, d['values'])
            print('instance %s with %s' % (inst.name, json.dumps(d['values'], sort_keys=True)))
            print('real code: %s %s\n%s' % (kind, label, detail or ''))
            if kind in ('violation', 'exception'):
                print('VIOLATION property=%s replay=%s' % (d['property'], path))
                return 1
            return 0
    print('no such instance')
    return 2

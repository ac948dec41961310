"""Replay side of the checks: executable versions of the properties, evaluated
on the real code imported from /repo.  A case is a JSON-able dict; check(case)
raises Violation when the property is broken on it."""
import contextlib
import io
import itertools
import json
import os
import random
import sys
import time
import traceback
import warnings

REPO = os.environ.get('REPO_UNDER_TEST', '/repo')
sys.dont_write_bytecode = True
if REPO not in sys.path:
    sys.path.insert(0, REPO)
warnings.simplefilter('ignore')


class Violation(Exception):
    pass


class Skip(Exception):
    """The harness cannot evaluate this case (says nothing about the code)."""


class Known(Exception):
    def __init__(self, id):
        self.id = id


def need(cond, msg, *a):
    if not cond:
        raise Violation(msg % a if a else msg)


def close(a, b, tol=1e-6):
    return abs(a - b) <= tol * max(1.0, abs(a), abs(b))


def attr(o, *names):
    """A documented attribute of the code under test; absent -> the harness cannot look."""
    for n in names:
        if hasattr(o, n):
            return getattr(o, n)
    raise Skip(f'attribute {names[0]} is gone')


DRIVERS = {}
NOTES = {}


def note(k, n=1):
    """Counts how often an interesting situation was reached."""
    NOTES[k] = NOTES.get(k, 0) + n


def driver(pid):
    """Registers a (gen, check) pair under a property."""
    def deco(cls):
        DRIVERS.setdefault(pid, []).append(cls)
        return cls
    return deco


def mp_model(solver):
    """Exported LP/MIP: dict(vars=[(lb,ub,int,obj)], cons=[(lb,ub,{var:coef})], maxim, off)."""
    from ortools.linear_solver import linear_solver_pb2
    p = linear_solver_pb2.MPModelProto()
    solver.ExportModelToProto(p)
    vs = [(v.lower_bound, v.upper_bound, v.is_integer, v.objective_coefficient) for v in p.variable]
    cs = []
    for c in p.constraint:
        d = {}
        for i, k in zip(c.var_index, c.coefficient):
            d[i] = d.get(i, 0.0) + k
        cs.append((c.lower_bound, c.upper_bound, {i: k for i, k in d.items() if k != 0}))
    return dict(vars=vs, cons=cs, maxim=p.maximize, off=p.objective_offset, names=[v.name for v in p.variable])


def in_repo(tb):
    """Did the exception come out of the code under test?"""
    hit = False
    for f in traceback.extract_tb(tb):
        if f.filename.startswith(os.path.join(REPO, 'col_gen_estimator')) or f.filename.startswith(os.path.join(REPO, 'examples')):
            hit = True
        elif f.filename.startswith(os.path.dirname(__file__)):
            hit = False
    return hit


def evaluate(cls, case):
    """'ok' | ('violation', msg) | ('known', id) | ('skip', why)"""
    sink = io.StringIO()
    try:
        with contextlib.redirect_stdout(sink):
            random.seed(case.get('seed', 0))
            cls.check(case)
        return 'ok', ''
    except Violation as v:
        return 'violation', str(v)
    except Known as k:
        return 'known', k.id
    except Skip as s:
        return 'skip', str(s)
    except Exception as e:
        if in_repo(sys.exc_info()[2]):
            return 'violation', f'{type(e).__name__}: {e} (valid input; raised at ' + \
                '; '.join(f'{os.path.basename(f.filename)}:{f.lineno}' for f in traceback.extract_tb(sys.exc_info()[2])[-2:]) + ')'
        return 'skip', f'harness {type(e).__name__}: {e} ' + str(traceback.extract_tb(sys.exc_info()[2])[-1])


def key_of(case):
    return json.dumps(case, sort_keys=True, default=str)


def run(pid, seed, tier, budget):
    t0 = time.time()
    out = dict(property=pid, evaluations=0, distinct=0, ok=0, skipped=0, skip_reasons={}, known={}, samples=[], violation=None, suites={})
    seen = set()
    suites = DRIVERS.get(pid, [])
    for n, cls in enumerate(suites):
        rng = random.Random(f'{seed}/{pid}/{cls.__name__}')
        share = (budget - (time.time() - t0)) / (len(suites) - n)
        t1 = time.time()
        cnt = 0
        first = True
        for case in cls.gen(rng, tier):
            if time.time() - t1 > share and not case.get('always') and cnt >= getattr(cls, 'minimum', 1):
                out['suites'].setdefault(cls.__name__, {})['cut_by_budget'] = True
                break
            k = key_of(case)
            if k in seen:
                continue
            seen.add(k)
            cnt += 1
            out['evaluations'] += 1
            r, msg = evaluate(cls, case)
            if r == 'ok':
                out['ok'] += 1
                out['distinct'] += 1
                if first or rng.random() < 0.01:
                    if len(out['samples']) < 6:
                        out['samples'].append(dict(suite=cls.__name__, case=case))
                    first = False
            elif r == 'skip':
                out['skipped'] += 1
                out['skip_reasons'][msg[:200]] = out['skip_reasons'].get(msg[:200], 0) + 1
            elif r == 'known':
                out['known'].setdefault(msg, case)
                out['distinct'] += 1
            else:
                out['violation'] = dict(suite=cls.__name__, case=case, message=msg)
                out['suites'].setdefault(cls.__name__, {})['cases'] = cnt
                out['wall_s'] = time.time() - t0
                return out
        out['suites'].setdefault(cls.__name__, {})['cases'] = cnt
        out['suites'][cls.__name__]['rule'] = (cls.__doc__ or '').strip()
    out['reached'] = dict(NOTES)
    out['wall_s'] = time.time() - t0
    return out


def subsets(n):
    for m in range(2 ** n):
        yield [j for j in range(n) if m >> j & 1]

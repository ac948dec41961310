"""Verify a set of functions under contract (and every function whose contract
they rely on); plain data results."""
import ast
import copy
import hashlib
import os
import sys
import time
import traceback
import multiprocessing as mp
import multiprocessing.connection as mpc
import z3
from . import prove, run, specs, vc
from .vals import Gap, vstr


def norm(node):
    """Text of a function without docstrings, comments and layout."""
    node = copy.deepcopy(node)
    for x in ast.walk(node):
        if isinstance(x, (ast.FunctionDef, ast.ClassDef)):
            x.body = vc.strip_doc(x.body) or [ast.Pass()]
    return ast.unparse(node)


def fhash(repo, qual):
    try:
        m, c, n = repo.find(qual.split('/')[-1])
    except Gap:
        return None
    return hashlib.sha256(norm(n).encode()).hexdigest()[:16]


def key(o):
    """Identity of an obligation across runs: what is claimed, not where."""
    return o.name.split('#')[0] + ('' if not o.src else ' [' + ' '.join(o.src.split())[:160] + ']')


def _sat(conn, fs, mbqi, secs):
    ax, _ = specs.axioms_for(fs)
    s = z3.Solver()
    s.set('timeout', int(secs * 1000))
    if not mbqi:
        s.set('auto_config', False)
        s.set('smt.mbqi', False)
    s.add(*ax, *fs)
    conn.send(str(s.check()))


def satisfiable(fs, mbqi, secs):
    """In its own process: the solver does not always keep its time limit."""
    a, b = mp.Pipe(False)
    p = mp.get_context('fork').Process(target=_sat, args=(b, fs, mbqi, secs), daemon=True)
    p.start()
    b.close()
    try:
        return a.recv() if a.poll(secs + 1) else 'unknown'
    except EOFError:
        return 'unknown'
    finally:
        p.kill()
        p.join()
        a.close()


def one(C, repo, qual, budget, jobs, vacuity=True):
    t0 = time.time()
    r = dict(qual=qual, gap=None, obligations=[], inlined=[], used_contracts=[], used_ext=[], vacuity=None, error=None)
    view, full = '', qual
    if '/' in qual:
        view, qual = qual.split('/')
        C = C.views[view]
        view += '/'
    E = run.Run(repo, C)
    run.Run.mono_body.clear()
    try:
        try:
            if qual.startswith('lemma:'):
                r.update(hash='lemma', loops=0, locals=[])
                exits = E.verify_lemma(qual[6:])
                raise StopIteration
            _, _, node = repo.find(qual)
            r['hash'] = fhash(repo, qual)
            r['loops'] = len(vc.loops_of(node))
            r['locals'] = vc.locals_of(node)
            exits = E.verify(qual)
        except StopIteration:
            pass
        except Gap as g:
            r['gap'] = str(g)
            return r
        except RecursionError:
            r['gap'] = 'recursion limit in the generator'
            return r
        except Exception as e:      # an engine limit, never a verdict on the code
            r['gap'] = f'generator: {type(e).__name__}: {str(e)[:200]}'
            if os.environ.get('VERIF_DEBUG'):
                traceback.print_exc()
            return r
        ef = [f for x in E.entry_facts.values() for f in x]
        for o in E.obs:
            o.pc = ef + o.pc
        obs = list(E.obs)
        specs.axioms_for([f for o in obs for f in o.pc + [o.goal]])
        for name, (vs, k, b) in sorted(run.Run.mono_body.items()):
            obs.append(vc.Ob(f'lemma:{name}-terms-nonnegative', [], z3.ForAll(vs + [k], b >= 0), qual, 0, 'lemma', ''))
        r['gen_s'] = round(time.time() - t0, 2)
        r['inlined'] = sorted(E.inlined)
        r['inlined_hash'] = {q: fhash(repo, q) for q in E.inlined}
        r['used_contracts'] = sorted(view + q for q in E.used_contracts)
        r['used_ext'] = sorted(E.used_ext)
        res = prove.discharge(obs, budget, jobs)
        for o, (s, be, sec, note) in zip(obs, res):
            r['obligations'].append(dict(name=o.name, key=key(o), kind=o.kind, src=o.src, line=o.line, status=s, backend=be,
                                         seconds=round(sec, 2), note=note[:1500] if s != 'proved' else ''))
        if vacuity:
            r['vacuity'] = dict(requires=satisfiable(ef + E.vac, True, 1.5), exits=[satisfiable(ef + y.pc, False, 1.0) for y in exits])
    except Exception as e:
        r['error'] = f'{type(e).__name__}: {e}'
        if os.environ.get('VERIF_DEBUG'):
            traceback.print_exc()
    finally:
        r['wall_s'] = round(time.time() - t0, 2)
    return r


def _child(conn, C, repo, qual, budget, jobs, vac):
    sys.setrecursionlimit(20000)
    try:
        conn.send(one(C, repo, qual, budget, jobs, vac))
    except Exception as e:
        conn.send(failed(qual, f'{type(e).__name__}: {e}'))
    finally:
        conn.close()


def failed(q, why):
    return dict(qual=q, gap=None, error=why, obligations=[], inlined=[], used_contracts=[], used_ext=[], vacuity=None)


def verify(C, repo, roots, budget, workers=4, jobs=2, vacuity=True, deadline=None, transitive=True):
    """{qual: result} for roots and, transitively, every contract they rely on.
    Every function gets a freshly forked process, so that what the solvers see
    does not depend on the functions verified before it."""
    sys.setrecursionlimit(20000)
    out, queued, trusted = {}, set(), set()
    ctx = mp.get_context('fork')
    queue, running = [], {}

    def add(q):
        if q in queued or q.startswith('$') or (q not in C.funcs and not q.startswith('lemma:')):
            return
        queued.add(q)
        if not q.startswith('lemma:') and C.funcs[q].trusted:
            trusted.add(q)
            return
        queue.append(q)
    for q in roots:
        add(q)
    while queue or running:
        while queue and len(running) < workers:
            q = queue.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=_child, args=(b, C, repo, q, budget, jobs, vacuity))
            p.start()
            b.close()
            running[a] = (p, q)
        left = None if deadline is None else max(0.1, deadline - time.time())
        ready = mpc.wait(list(running), timeout=left)
        if not ready:
            for c, (p, q) in running.items():
                out[q] = failed(q, 'out of time')
                p.kill()
            for q in queue:
                out[q] = failed(q, 'out of time')
            break
        for c in ready:
            p, q = running.pop(c)
            try:
                out[q] = c.recv()
            except EOFError:
                out[q] = failed(q, 'the verifier process ended')
            c.close()
            p.join(5)
            if transitive:
                for x in out[q]['used_contracts']:
                    add(x)
    return out, sorted(trusted)

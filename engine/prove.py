"""Discharge obligations: z3 first, cvc5 on what z3 leaves open."""
import multiprocessing as mp
import multiprocessing.connection as mpc
import os
import time
import z3
from . import specs

def formulas(o):
    fs = list(o.pc) + [z3.Not(o.goal)]
    ax, names = specs.axioms_for(fs)
    return ax + fs


def z3_try(fs, ms, mbqi, seed=0, simple=False):
    s = z3.SimpleSolver() if simple else z3.Solver()
    s.set('timeout', ms)
    if simple:
        s.set('mbqi', mbqi)
        s.set('auto_config', False)
    elif not mbqi:
        s.set('smt.mbqi', False)
        s.set('auto_config', False)
    s.set('random_seed' if simple else 'smt.random_seed', seed)
    s.add(*fs)
    return s.check(), s


# (share of the budget, at most seconds, hypotheses, solver settings), tried in this order
STAGES = [(0.15, 99, 'plain', dict(mbqi=True)), (0.1, 2, 'all', dict(mbqi=False, simple=True)), (0.1, 2, 'all', dict(mbqi=False)),
          (0.1, 2, 'folded', dict(mbqi=False, simple=True)), (0.1, 2, 'folded', dict(mbqi=False)), (0.15, 2, 'last', dict(mbqi=False)),
          (0.1, 1, 'last', dict(mbqi=True, simple=True)), (0.1, 1, 'last25', dict(mbqi=True, simple=True)), (0.1, 1, 'all', dict(mbqi=True, simple=True)), (0.1, 1, 'last25', dict(mbqi=False, simple=True)),
          (0.3, 4, 'all', dict(mbqi=True)),
          (0.25, 4, 'folded', dict(mbqi=True)), (0.8, 8, 'cases', {}), (0.4, 99, 'all', dict(mbqi=False)), (0.4, 99, 'all', dict(mbqi=True)), (0.2, 99, 'all', dict(mbqi=False, simple=True, seed=7)),
          (0.4, 99, 'all', 'cvc5')]


def has_quant(f, _memo={}):
    k = f.get_id()
    if k not in _memo:
        stack, seen, r = [f], set(), False
        while stack:
            t = stack.pop()
            if t.get_id() in seen:
                continue
            seen.add(t.get_id())
            if z3.is_quantifier(t):
                r = True
                break
            stack += t.children()
        _memo[k] = r
    return _memo[k]


def conditions(f):
    """Conditions of the if-then-else terms of f that mention no bound variable."""
    out, seen, stack = {}, set(), [f]
    while stack:
        t = stack.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_quantifier(t):
            stack.append(t.body())
            continue
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE and not free(t.arg(0)):
            out[t.arg(0).get_id()] = t.arg(0)
        stack += t.children()
    return list(out.values())


def free(t):
    """Does t mention a bound variable (or hold a quantifier)?"""
    return z3.is_var(t) or z3.is_quantifier(t) or any(free(c) for c in t.children())


def case_split(fs, goal, ms):
    """Every obligation is proved separately for each outcome of the goal's conditions."""
    atoms = {}
    for c in conditions(goal):
        for a in (c.children() if z3.is_and(c) else [c]):
            atoms[a.get_id()] = a
    atoms = list(atoms.values())[:4]
    if not atoms:
        return z3.unknown
    t0 = time.time()
    for n in range(2 ** len(atoms)):
        val = [(a, z3.BoolVal(bool(n >> i & 1))) for i, a in enumerate(atoms)]
        gs = [a if z3.is_true(v) else z3.Not(a) for a, v in val] + [z3.simplify(z3.substitute(f, *val)) for f in fs]
        left = ms - int(1000 * (time.time() - t0))
        if left <= 0:
            return z3.unknown
        plain = [g for g in gs if not has_quant(g)]
        if not any(z3_try(x, min(left, most), mbqi)[0] == z3.unsat for x, most, mbqi in ((plain, 500, False), (gs, 3000, False), (gs, left, True))):
            return z3.unknown
    return z3.unsat


def attempt(o, stage, budget, conn):
    """One attempt in its own process (killed from outside when it overruns)."""
    try:
        _, _, which, how = STAGES[stage]
        if which == 'plain':      # hypotheses without quantifiers
            fs = [f for f in o.pc if not has_quant(f)] + [z3.Not(o.goal)]
        elif which == 'folded':   # definitions of specification functions left folded
            fs = list(o.pc) + [z3.Not(o.goal)]
            fs = specs.axioms_for(fs, True)[0] + fs
        elif which.startswith('last'):     # the latest quantified hypotheses only
            q = set([i for i, f in enumerate(o.pc) if has_quant(f)][:-int(which[4:] or 14)])
            fs = [f for i, f in enumerate(o.pc) if i not in q] + [z3.Not(o.goal)]
            fs = specs.axioms_for(fs)[0] + fs
        else:
            fs = formulas(o)
        if how == 'cvc5':
            r = cvc5_try(fs, budget)
            conn.send(('proved', 'cvc5', '') if r == 'unsat' else ('unknown', 'cvc5', 'cvc5: ' + r))
            return
        if which == 'cases':
            r = case_split(fs, o.goal, int(budget * 1000))
            conn.send(('proved', 'z3', '') if r == z3.unsat else ('unknown', 'z3', 'cases open'))
            return
        r, s = z3_try(fs, int(budget * 1000), **how)
        if r == z3.unsat:
            conn.send(('proved', 'z3', ''))
        elif r == z3.sat and which != 'all':
            conn.send(('unknown', 'z3', ''))
        elif r == z3.sat:
            m = s.model()
            txt = ', '.join(f'{d.name()}={m[d]}' for d in sorted(m.decls(), key=lambda d: d.name())
                            if d.arity() == 0 and not z3.is_array(m[d]) and '!' not in d.name())[:1500]
            conn.send(('refuted', 'z3', 'counter-model: ' + txt))
        else:
            conn.send(('unknown', 'z3', 'z3: ' + s.reason_unknown()))
    except Exception as ex:
        try:
            conn.send(('unknown', 'z3', type(ex).__name__ + ': ' + str(ex)[:200]))
        except Exception:
            pass
    finally:
        conn.close()


def cvc5_try(fs, budget):
    try:
        import cvc5
        s = z3.Solver()
        s.add(*fs)
        txt = s.to_smt2()
        tm = cvc5.TermManager()
        sl = cvc5.Solver(tm)
        sl.setOption('tlimit', str(int(budget * 1000)))
        sl.setOption('arrays-exp', 'true')
        ip = cvc5.InputParser(sl)
        ip.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, '(set-logic HO_ALL)\n' + txt, 'vc')
        sm = ip.getSymbolManager()
        while True:
            c = ip.nextCommand()
            if c.isNull():
                break
            out = c.invoke(sl, sm)
            if 'sat' in out:
                return out.strip()
        return 'no answer'
    except Exception as ex:
        return type(ex).__name__ + ': ' + str(ex)[:120]


def limit(budget, stage):
    return min(STAGES[stage][1], budget * STAGES[stage][0])


def discharge(obs, budget=10, jobs=None):
    """[(status, backend, seconds, note)] in the order of obs.  Every attempt
    runs in a forked child with a hard deadline."""
    jobs = jobs or min(8, os.cpu_count() or 1)
    ctx = mp.get_context('fork')
    out = [None] * len(obs)
    spent = [0.0] * len(obs)
    notes = [''] * len(obs)
    queue = [(i, 0) for i in range(len(obs))]
    running = {}
    while queue or running:
        while queue and len(running) < jobs:
            i, stage = queue.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=attempt, args=(obs[i], stage, limit(budget, stage), b), daemon=True)
            p.start()
            b.close()
            running[a] = (p, i, stage, time.time())
        now = time.time()
        wait = max(0.0, min(t0 + limit(budget, st) + 1.5 - now for p, i, st, t0 in running.values()))
        ready = mpc.wait(list(running), timeout=wait)
        now = time.time()
        for c in list(running):
            p, i, stage, t0 = running[c]
            if c in ready:
                try:
                    r = c.recv()
                except EOFError:
                    r = ('unknown', '', 'solver process ended')
            elif now > t0 + limit(budget, stage) + 1.4:
                p.kill()
                r = ('unknown', '', 'killed at the time limit')
            else:
                continue
            del running[c]
            c.close()
            p.join(0.5)
            if p.is_alive():
                p.kill()
                p.join()
            spent[i] += now - t0
            notes[i] = (notes[i] + '; ' + r[2]).strip('; ')
            if r[0] != 'unknown':
                out[i] = (r[0], r[1], spent[i], r[2])
            elif stage + 1 < len(STAGES):
                queue.append((i, stage + 1))
            else:
                out[i] = ('unknown', 'z3+cvc5', spent[i], notes[i])
    return out

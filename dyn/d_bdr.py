import itertools
import random
import numpy as np
from ortools.linear_solver import pywraplp
from common import *
from col_gen_estimator._bdr_classifier import (BDRMasterProblem, BDRSubProblem, BDRHeuristic,
                                               BooleanDecisionRuleClassifier, BooleanDecisionRuleClassifierWithHeuristic)


def sat(row, clause):
    return all(row[j] != 0 for j in clause)


def data(rng, nmax=6, mmax=4):
    n, m = rng.randint(1, nmax), rng.randint(1, mmax)
    if nmax > 5 and rng.random() < 0.05:
        n, m = rng.randint(10, 60), rng.randint(3, 6)
    X = [[rng.randint(0, 1) for _ in range(m)] for _ in range(n)]
    r = rng.random()
    y = [0] * n if r < 0.05 else [1] * n if r < 0.1 else [rng.randint(0, 1) for _ in range(n)]
    return X, y


def arrays(c):
    return np.array(c['X']), np.array(c['y'])


def clause_ops(rng, m, k):
    ops = []
    for _ in range(k):
        r = rng.random()
        if r < 0.1:
            ops.append([])
        elif r < 0.2 and ops:
            ops.append(rng.choice(ops))
        else:
            ops.append(sorted(rng.sample(range(m), rng.randint(1, m))))
    return ops


def check_master(mp, c, clauses, integer=True):
    X, y = c['X'], c['y']
    M = mp_model(attr(mp, 'solver_'))
    pos = [i for i in range(len(y)) if y[i] == 1]
    xi, cv, cs, cc = attr(mp, 'xi_vars_'), attr(mp, 'clause_vars_'), attr(mp, 'clause_satisfaction_'), attr(mp, 'clause_complexity_')
    d = attr(mp, 'clause_dict_')
    need(len(xi) == len(pos) and len(cs) == len(pos), '%s penalty variables and %s cover rows for %s positive examples', len(xi), len(cs), len(pos))
    need(len(M['cons']) == len(pos) + 1, '%s constraints for %s positive examples', len(M['cons']), len(pos))
    need(len(M['vars']) == len(pos) + len(clauses) and len(cv) == len(clauses), '%s variables, %s clause variables; expected %s + %s',
         len(M['vars']), len(cv), len(pos), len(clauses))
    need(sorted([*xi, *cv]) == list(range(len(M['vars']))), 'variable indices %s %s are not all variables once', xi, cv)
    need(sorted([*cs, cc]) == list(range(len(M['cons']))), 'constraint indices %s %s', cs, cc)
    need([list(d[v]) for v in cv] == [list(k) for k in clauses] and len(d) == len(cv), 'stored clauses %s, expected %s', d, clauses)
    need(not M['maxim'] and M['off'] == 0, 'objective direction or offset')
    for k, v in enumerate(xi):
        lb, ub, it, ob = M['vars'][v]
        need(lb == 0 and ub > 1e15, 'penalty variable bounds [%s, %s]', lb, ub)
        need(close(ob, c['p']), 'penalty cost %s, p = %s', ob, c['p'])
    for k, v in enumerate(cv):
        lb, ub, it, ob = M['vars'][v]
        neg = sum(1 for i in range(len(y)) if y[i] == 0 and sat(X[i], clauses[k]))
        need(lb == 0 and ub > 1e15, 'clause variable bounds [%s, %s]', lb, ub)
        need(it or not integer, 'clause variable is not integer')
        need(close(ob, neg), 'cost of clause %s is %s, but %s negative examples satisfy it', clauses[k], ob, neg)
    for k, r in enumerate(cs):
        lb, ub, co = M['cons'][r]
        want = {xi[k]: 1}
        for q, v in enumerate(cv):
            if sat(X[pos[k]], clauses[q]):
                want[v] = 1
        need(lb == 1 and ub > 1e15, 'cover row bounds [%s, %s]', lb, ub)
        need(co == want, 'cover row of positive example %s (row %s) is %s, expected %s; clauses %s', k, pos[k], co, want, clauses)
    lb, ub, co = M['cons'][cc]
    want = {v: len(clauses[q]) + 1 for q, v in enumerate(cv)}
    need(lb < -1e15 and close(ub, c['C']), 'complexity row bounds [%s, %s], C = %s', lb, ub, c['C'])
    need(co == want, 'complexity row %s, expected %s', co, want)
    return M


def build(c):
    X, y = arrays(c)
    mp = BDRMasterProblem(c['C'], c['p'], 'glop')
    mp.generate_mp(X, y)
    return mp


@driver('C01')
class Master:
    """random binary data (<=6x4, incl. one-sided labels), C, p, sequences of column additions incl. empty and duplicate clauses"""
    def gen(rng, tier):
        while True:
            X, y = data(rng)
            yield dict(X=X, y=y, C=rng.choice([1, 2, 5, 10, 7.5]), p=rng.choice([1, 0.5, 2, 10]), ops=clause_ops(rng, len(X[0]), rng.randint(0, 5)),
                       again=rng.random() < 0.3, solve=rng.random() < 0.3)

    def check(c):
        mp = build(c)
        clauses = [[]]
        check_master(mp, c, clauses)
        for o in c['ops']:
            if c['again']:
                mp.generate_mp(np.array([[1]]), np.array([1]))
                check_master(mp, c, clauses)
            if c['solve']:
                mp.solve_rmp()
            if not o:
                need(not mp.add_column([]), 'an empty clause is reported as added')
            elif o in clauses:
                try:
                    mp.add_column(list(o))
                except AssertionError:
                    pass
                else:
                    raise Violation(f'duplicate clause {o} was accepted')
            else:
                need(mp.add_column(list(o)), 'clause %s is reported as not added', o)
                clauses.append(o)
            check_master(mp, c, clauses)


@driver('C01')
class ManyColumns:
    """80-200 distinct clauses added to one master, early clauses offered again at the end"""
    minimum = 1

    def gen(rng, tier):
        while True:
            m = rng.randint(8, 9)
            X = [[rng.randint(0, 1) for _ in range(m)] for _ in range(5)]
            cl = [[j for j in range(m) if k >> j & 1] for k in rng.sample(range(1, 2 ** m), rng.randint(80, 200))]
            yield dict(X=X, y=[1, 0, 1, 0, rng.randint(0, 1)], C=10, p=1, ops=cl, again=rng.sample(range(len(cl)), 6) + [0, len(cl) - 1])

    def check(c):
        mp = build(c)
        clauses = [[]]
        for o in c['ops']:
            need(mp.add_column(list(o)), 'clause %s is reported as not added', o)
            clauses.append(o)
        check_master(mp, c, clauses)
        for k in c['again']:
            try:
                mp.add_column(list(c['ops'][k]))
            except AssertionError:
                pass
            else:
                raise Violation(f'duplicate clause {c["ops"][k]} was accepted as addition {len(clauses)}')
        check_master(mp, c, clauses)


@driver('C01')
class Lexi:
    """lexicographic clause of an index: the positions of its one bits"""
    def gen(rng, tier):
        for i in range(0, 300):
            yield dict(i=i)
        for _ in range(100):
            yield dict(i=rng.randrange(2 ** 70))

    def check(c):
        want = [j for j in range(80) if c['i'] >> j & 1]
        got = list(BDRMasterProblem.generate_lexicographic_clause(c['i']))
        need(got == want, 'clause number %s is %s', c['i'], got)


def red(X, y, clause, lam, mu):
    pos = [i for i in range(len(y)) if y[i] == 1]
    return lam * (1 + len(clause)) - sum(mu[k] for k, i in enumerate(pos) if sat(X[i], clause)) + \
        sum(1 for i in range(len(y)) if y[i] == 0 and sat(X[i], clause))


def duals(rng, y):
    n = sum(y)
    r = rng.random()
    mu = [rng.choice([0, 0, 1, 0.5, round(rng.uniform(0, 3), 2)]) for _ in range(n)]
    if r < 0.1:
        mu = [0] * n
    elif r < 0.3:
        mu = [rng.choice([v, 0.002, 0.0003, 45.5, 1200]) for v in mu]
    return [rng.choice([0, 0, 0.25, 1, round(rng.uniform(0, 1), 3)] + ([0.0004, 30] if r > 0.85 else [])), mu]


@driver('C02')
class Pricing:
    """random binary data (<=4x4), D, 1-4 consecutive calls with different duals; the exported model is evaluated on every clause and every delta"""
    def gen(rng, tier):
        while True:
            X, y = data(rng, 4, 4)
            yield dict(X=X, y=y, D=rng.choice([0, 1, 2, 3, 10, 2.5]), duals=[duals(rng, y) for _ in range(rng.randint(1, 4))])

    def check(c):
        X, y = arrays(c)
        m, n = len(c['X'][0]), len(c['X'])
        sp = BDRSubProblem(c['D'], 'cbc')
        for lam, mu in c['duals']:
            got = sp.generate_columns(X, y, (lam, list(mu)))
            M = mp_model(attr(sp, 'solver_'))
            zs, ds = attr(sp, 'z_vars_'), attr(sp, 'delta_vars_')
            need(len(zs) == m and len(M['vars']) == m + n and sorted([*zs, *ds]) == list(range(m + n)), 'variables of the pricing program')
            need(not M['maxim'], 'pricing program is maximised')
            for v in zs:
                need(M['vars'][v][:3] == (0, 1, True), 'feature variable %s', M['vars'][v])
            for v in ds:
                need(M['vars'][v][0] == 0 and M['vars'][v][1] >= 1, 'row variable %s', M['vars'][v])
            best = None
            for cl in subsets(m):
                val = None
                base = {zs[j]: (1 if j in cl else 0) for j in range(m)}
                for dl in itertools.product((0, 1), repeat=n):
                    a = dict(base)
                    a.update({ds[i]: dl[i] for i in range(n)})
                    if all(lb - 1e-9 <= sum(k * a[v] for v, k in co.items()) <= ub + 1e-9 for lb, ub, co in M['cons']):
                        o = M['off'] + sum(M['vars'][v][3] * a[v] for v in a)
                        val = o if val is None else min(val, o)
                if len(cl) > c['D']:
                    need(val is None, 'clause %s longer than D=%s is feasible', cl, c['D'])
                    continue
                rc = red(c['X'], c['y'], cl, lam, mu)
                need(val is not None, 'clause %s is infeasible', cl)
                need(close(val, rc), 'with duals %s the program values clause %s at %s, its reduced cost is %s', (lam, mu), cl, val, rc)
                best = rc if best is None else min(best, rc)
            if abs(best + 1e-6) < 1e-7:
                continue
            if best >= -1e-6:
                need(list(got) == [], 'optimum %s but returned %s', best, got)
            else:
                need(len(got) == 1, 'optimum %s but returned %s', best, got)
                g = list(got[0])
                need(len(set(g)) == len(g) and all(0 <= j < m for j in g) and len(g) <= c['D'], 'returned clause %s (D=%s)', g, c['D'])
                need(close(red(c['X'], c['y'], g, lam, mu), best), 'returned clause %s of reduced cost %s, optimum %s', g, red(c['X'], c['y'], g, lam, mu), best)
                want = [j for j in range(m) if sp.solver_.variable(zs[j]).solution_value() > 0]
                need(sorted(g) == want, 'returned clause %s, solution selects %s', g, want)


@driver('C02')
class PricingThreshold:
    """optimum on either side of -1e-6"""
    def gen(rng, tier):
        for e in (-1e-3, -1e-5, -3e-6, -1e-7, 0, 1e-7, 1e-4):
            yield dict(e=e)

    def check(c):
        X, y = np.array([[1, 0], [0, 1]]), np.array([1, 0])
        sp = BDRSubProblem(5, 'cbc')
        got = sp.generate_columns(X, y, (1.0, [2.0 - c['e']]))
        if c['e'] < -1e-6:
            need(got == [[0]], 'reduced cost %s: returned %s', c['e'], got)
        else:
            need(got == [], 'reduced cost %s: returned %s', c['e'], got)


@driver('C03')
class Heur:
    """random binary data (<=6x4), K in 0..4, random non-negative duals, compared with brute force"""
    def gen(rng, tier):
        while True:
            X, y = data(rng)
            yield dict(X=X, y=y, K=rng.choice([0, 1, 1, 2, 2, 3, 4, 5]), duals=duals(rng, y))

    def check(c):
        X, y = arrays(c)
        lam, mu = c['duals']
        got = BDRHeuristic(c['K']).generate_columns(X, y, (lam, list(mu)))
        m = len(c['X'][0])
        want, amb = [], False
        for k in range(1, c['K'] + 1):
            for cl in itertools.combinations(range(m), k):
                r = red(c['X'], c['y'], cl, lam, mu)
                amb = amb or abs(r + 1e-6) < 1e-9
                if r < -1e-6:
                    want.append(list(cl))
        if amb:
            return
        need([list(g) for g in got] == want, 'duals %s, K=%s: returned %s, improving clauses are %s', c['duals'], c['K'], got, want)


@driver('C03')
class HeurMany(Heur):
    """20-26 features, K = 2 or 3: hundreds of improving clauses, compared with brute force"""
    minimum = 1

    def gen(rng, tier):
        while True:
            m = rng.randint(20, 26)
            n = rng.randint(2, 4)
            X = [[int(rng.random() < 0.9) for _ in range(m)] for _ in range(n)]
            y = [1] + [rng.randint(0, 1) for _ in range(n - 1)]
            yield dict(X=X, y=y, K=rng.choice([2, 2, 3]), duals=[0.25, [rng.choice([4, 9, 2.5]) for _ in range(sum(y))]])


@driver('C03')
class HeurThreshold:
    """reduced cost on either side of -1e-6"""
    def gen(rng, tier):
        for e in (-1e-3, -3e-6, -1e-7, 0, 1e-4):
            yield dict(e=e)

    def check(c):
        X, y = np.array([[1, 0], [0, 1]]), np.array([1, 0])
        got = BDRHeuristic(1).generate_columns(X, y, (1.0, [2.0 - c['e']]))
        need(got == ([[0]] if c['e'] < -1e-6 else []), 'reduced cost %s: returned %s', c['e'], got)


def ip_opt(c, clauses):
    X, y = c['X'], c['y']
    best = None
    for w in itertools.product((0, 1), repeat=len(clauses)):
        if sum(k * (len(cl) + 1) for k, cl in zip(w, clauses)) > c['C']:
            continue
        best = min([ip_value(c, [cl for k, cl in zip(w, clauses) if k])] + ([best] if best is not None else []))
    return best


def ip_value(c, rule):
    X, y = c['X'], c['y']
    return sum(c['p'] for i in range(len(y)) if y[i] == 1 and not any(sat(X[i], cl) for cl in rule)) + \
        sum(1 for i in range(len(y)) if y[i] == 0 for cl in rule if sat(X[i], cl))


@driver('C04')
class Rule:
    """random data and clause sets: the stored rule is an optimal integer solution of the current master, in order of addition"""
    def gen(rng, tier):
        while True:
            X, y = data(rng, 7, 4)
            yield dict(X=X, y=y, C=rng.choice([1, 2, 3, 5, 10]), p=rng.choice([1, 0.5, 2, 3]),
                       ops=[o for o in clause_ops(rng, len(X[0]), rng.randint(0, 6)) if o], twice=rng.random() < 0.4, solve=rng.random() < 0.5)

    def check(c):
        mp = build(c)
        clauses = [[]]
        half = len(c['ops']) // 2
        for i, o in enumerate(c['ops']):
            if o in clauses:
                continue
            if c['twice'] and i == half:
                mp.solve_ip()
            mp.add_column(list(o))
            clauses.append(o)
        if c['solve']:
            mp.solve_rmp()
        spy = []
        real = pywraplp.Solver.CreateSolver

        def create(*a):
            s = real(*a)
            spy.append(s)
            return s
        pywraplp.Solver.CreateSolver = staticmethod(create)
        try:
            need(mp.solve_ip(), 'integer master reported unsolved')
        finally:
            pywraplp.Solver.CreateSolver = staticmethod(real)
        rule = [list(k) for k in attr(mp, 'explanation')]
        pos = [clauses.index(k) if k in clauses else -1 for k in rule]
        need(-1 not in pos and pos == sorted(set(pos)), 'rule %s is not a sub-list of the clauses %s', rule, clauses)
        need(sum(len(k) + 1 for k in rule) <= c['C'] + 1e-6, 'rule %s exceeds complexity %s', rule, c['C'])
        v, b = ip_value(c, rule), ip_opt(c, clauses)
        need(close(v, b), 'rule %s costs %s, the best rule over %s costs %s', rule, v, clauses, b)
        if len(spy) == 1 and spy[0].NumVariables() == len(clauses) + sum(c['y']):
            sol = [k for k, q in zip(clauses, mp.clause_vars_) if spy[0].variable(q).solution_value() > 0]
            need(rule == sol, 'rule %s, but the integer solution selects %s', rule, sol)


def fitted(labels, cls=BooleanDecisionRuleClassifier, **kw):
    clf = cls(max_iterations=1, **kw)
    clf.fit(np.array([[1, 0], [0, 1], [1, 1]]), np.array([labels[0], labels[1], labels[0]]))
    return clf


@driver('C04')
class Predict:
    """random rules (incl. no clause, the empty clause, repeated features) and random binary matrices, int and string labels"""
    def gen(rng, tier):
        while True:
            m = rng.randint(1, 5)
            yield dict(rule=[sorted(rng.sample(range(m), rng.randint(0 if rng.random() < 0.1 else 1, m))) for _ in range(rng.randint(0, 4))],
                       X=[[rng.randint(0, 1) for _ in range(m)] for _ in range(rng.randint(1, 8))],
                       labels=rng.choice([[0, 1], [1, 0], [3, -7], ['b', 'a'], ['yes', 'no']]))

    def check(c):
        clf = fitted(c['labels'])
        attr(attr(clf, 'master_problem'), 'explanation')
        clf.master_problem.explanation = [list(k) for k in c['rule']]
        got = list(clf.predict(np.array(c['X'])))
        lo, hi = sorted(c['labels'])
        want = [hi if any(sat(r, k) for k in c['rule']) else lo for r in c['X']]
        need(got == want, 'rule %s on %s predicts %s, should be %s', c['rule'], c['X'], got, want)


@driver('C04')
class EndToEnd:
    """fit on random data, predictions equal the DNF of the stored rule, which is the optimal rule over the generated clauses"""
    minimum = 3

    def gen(rng, tier):
        while True:
            n, m = rng.randint(3, 10), rng.randint(1, 4)
            X = [[rng.randint(0, 1) for _ in range(m)] for _ in range(n)]
            y = [rng.randint(0, 1) for _ in range(n)]
            if len(set(y)) == 2:
                yield dict(X=X, y=y, C=rng.choice([3, 5, 10]), p=rng.choice([1, 2]), heur=rng.random() < 0.5, labels=rng.choice([[0, 1], ['a', 'b']]))

    def check(c):
        cls = BooleanDecisionRuleClassifierWithHeuristic if c['heur'] else BooleanDecisionRuleClassifier
        clf = cls(max_iterations=-1, C=c['C'], p=c['p'])
        X = np.array(c['X'])
        clf.fit(X, np.array([c['labels'][v] for v in c['y']]))
        mp = clf.master_problem
        clauses = [list(mp.clause_dict_[v]) for v in attr(mp, 'clause_vars_')]
        check_master(mp, c, clauses)
        rule = [list(k) for k in mp.explanation]
        need(close(ip_value(c, rule), ip_opt(c, clauses)) if len(clauses) <= 12 else True, 'rule %s is not optimal over %s', rule, clauses)
        got = list(clf.predict(X))
        want = [c['labels'][1] if any(sat(r, k) for k in rule) else c['labels'][0] for r in c['X']]
        need(got == want, 'rule %s on training data predicts %s', rule, got)


@driver('C05')
class RuleDuals:
    """random data, columns and repeated solves: the returned duals are an optimal dual solution of the current linear program"""
    def gen(rng, tier):
        while True:
            X, y = data(rng, 7, 4)
            yield dict(X=X, y=y, C=rng.choice([1, 2, 3, 5, 10]), p=rng.choice([1, 0.5, 2, 3]),
                       ops=[o for o in clause_ops(rng, len(X[0]), rng.randint(0, 6)) if o])

    def check(c):
        mp = build(c)
        clauses = [[]]
        pos = [i for i in range(len(c['y'])) if c['y'][i] == 1]
        for o in [None] + c['ops']:
            if o is not None:
                if o in clauses:
                    continue
                mp.add_column(list(o))
                clauses.append(o)
            lam, mu = mp.solve_rmp()
            s = attr(mp, 'solver_')
            need(len(mu) == len(pos), '%s cover duals for %s positive examples', len(mu), len(pos))
            need(close(lam, abs(s.constraint(attr(mp, 'clause_complexity_')).dual_value())), 'complexity dual %s', lam)
            need(all(close(a, s.constraint(k).dual_value()) for a, k in zip(mu, attr(mp, 'clause_satisfaction_'))), 'cover duals %s', mu)
            need(lam >= -1e-7 and all(-1e-7 <= u <= c['p'] + 1e-6 for u in mu), 'duals %s %s infeasible for p=%s', lam, mu, c['p'])
            for cl in clauses:
                need(red(c['X'], c['y'], cl, lam, mu) >= -1e-6, 'duals %s %s price the present clause %s at %s', lam, mu, cl, red(c['X'], c['y'], cl, lam, mu))
            need(close(sum(mu) - lam * c['C'], s.Objective().Value()), 'dual value %s, master value %s', sum(mu) - lam * c['C'], s.Objective().Value())

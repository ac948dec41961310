import itertools
import random
import numpy as np
from common import *
from col_gen_estimator import _col_gen_classifier as G
from col_gen_estimator._col_gen_classifier import BaseMasterProblem, BaseSubproblem, ColGenClassifier


class Clock:
    def __init__(self):
        self.t = 1000.0

    def __call__(self):
        return self.t


class Master(BaseMasterProblem):
    def __init__(self, c, log):
        self.c, self.log, self.n = c, log, 0

    def generate_mp(self, X, y):
        self.log.append(('generate', X, y))

    def solve_rmp(self, solver_params=''):
        d = ('duals', self.n)
        self.log.append(('rmp', solver_params, d))
        self.n += 1
        return d

    def rmp_objective_improved(self):
        r = self.c['improved'][(self.n - 1) % len(self.c['improved'])]
        self.log.append(('improved', r))
        return r

    def add_column(self, column):
        self.log.append(('add', column))
        return column[1]

    def solve_ip(self, solver_params=''):
        self.log.append(('ip', solver_params))
        return self.c.get('ip_ok', True)


class Sub(BaseSubproblem):
    def __init__(self, c, log, clock, lv, ix):
        self.c, self.log, self.clock, self.lv, self.ix, self.n = c, log, clock, lv, ix, 0

    def update_subproblem(self, X, y, dual_costs):
        self.log.append(('update', self.lv, self.ix, dual_costs, X, y))

    def generate_columns(self, X, y, dual_costs, params):
        out = self.c['outcomes'][self.lv][self.ix]
        cols = out[self.n] if self.n < len(out) else []
        self.log.append(('price', self.lv, self.ix, dual_costs, params, X, y))
        self.n += 1
        self.clock.t += self.c['dt']
        return [(f'{self.lv}.{self.ix}.{self.n}.{k}', bool(a)) for k, a in enumerate(cols)]


def reference(c):
    """What the documented loop does: (pricing trace, facts)."""
    shape = [len(l) for l in c['outcomes']]
    calls = [[0] * n for n in shape]
    cnt = [[0] * n for n in shape]
    trace, it, imp, opt, tl, elapsed = [], 0, 0, False, False, 0.0
    while not (c['max_iter'] > 0 and it >= c['max_iter']):
        it += 1
        imp += bool(c['improved'][(it - 1) % len(c['improved'])])
        trace.append(('rmp', it - 1))
        done = False
        for lv in range(len(shape)):
            for ix in range(shape[lv]):
                if c['limit'] > 0 and elapsed > c['limit']:
                    tl = True
                    break
                out = c['outcomes'][lv][ix]
                k = calls[lv][ix]
                cols = out[k] if k < len(out) else []
                calls[lv][ix] += 1
                elapsed += c['dt']
                trace.append(('price', lv, ix, it - 1))
                for a in cols:
                    cnt[lv][ix] += bool(a)
                    trace.append(('add', bool(a)))
                if any(cols):
                    done = True
                    break
            if tl or done:
                break
        if not done:
            opt = not tl
            break
    return trace, dict(it=it, imp=imp, opt=opt, tl=tl, cnt=cnt)


def simulate(c):
    log, clock = [], Clock()
    m = Master(c, log)
    subs = [[Sub(c, log, clock, lv, ix) for ix in range(len(l))] for lv, l in enumerate(c['outcomes'])]
    pars = [[f'p{lv}.{ix}' for ix in range(len(l))] for lv, l in enumerate(c['outcomes'])]
    clf = ColGenClassifier(max_iterations=c['max_iter'], time_limit=c['limit'], master_problem=m, subproblems=subs, rmp_is_ip=c['ip'],
                           rmp_solver_params='RP', master_ip_solver_params='IP', subproblem_params=pars)
    X = np.array([[0, 1], [1, 0], [1, 1]])
    y = np.array([5, 3, 5])
    import time as T
    old, oldg = T.time, getattr(G, 'time', None)
    T.time = clock
    T.perf_counter, pc = clock, T.perf_counter
    T.monotonic, mo = clock, T.monotonic
    if oldg is old:
        G.time = clock
    try:
        r = clf.fit(X, y)
    finally:
        T.time, T.perf_counter, T.monotonic = old, pc, mo
        if oldg is not None:
            G.time = oldg
    return clf, r, log, X, y


def cases(rng, tier):
    base = dict(improved=[True, False, True], dt=1.0, limit=-1, max_iter=-1, ip=True)
    for outs in itertools.product([[], [[1]], [[0]], [[0, 1], []], [[1], [1]]], repeat=2):
        for two in (True, False):
            o = [[list(outs[0]), list(outs[1])]] if two else [[list(outs[0])], [list(outs[1])]]
            for mi, lim in ((-1, -1), (1, -1), (2, -1), (0, 0), (-1, 1.5), (3, 2.5)):
                yield dict(base, outcomes=o, max_iter=mi, limit=lim)
    while True:
        lv = rng.randint(1, 4)
        outs = []
        for _ in range(lv):
            l = []
            for _ in range(rng.randint(0 if rng.random() < 0.1 else 1, 3)):
                l.append([[rng.randint(0, 1) for _ in range(rng.choice([0, 0, 1, 1, 2, 3]))] for _ in range(rng.randint(0, 6))])
            outs.append(l)
        yield dict(outcomes=outs, improved=[rng.random() < 0.5 for _ in range(rng.randint(1, 4))], dt=rng.choice([0.5, 1.0, 3.0]),
                   limit=rng.choice([-1, -1, 0, 0.4, 1.5, 2.5, 7.5]), max_iter=rng.choice([-1, -1, 0, 1, 2, 3, 5, 8]), ip=rng.random() < 0.7)


@driver('C06')
class Loop:
    """scripted pricing outcomes: all combinations of two steps (same level / two levels) x limits, then random levels, steps and outcomes; event trace compared with the documented loop"""
    def gen(rng, tier):
        yield from cases(rng, tier)

    def check(c):
        clf, r, log, X, y = simulate(c)
        trace, f = reference(c)
        need(bool(attr(clf, 'mp_optimal_')) == f['opt'], 'mp_optimal_ is %s, trace %s', clf.mp_optimal_, trace)
        got = []
        duals = None
        updated = set()
        every = {(lv, ix) for lv, l in enumerate(c['outcomes']) for ix in range(len(l))}
        for e in log:
            if e[0] == 'rmp':
                duals = e[2]
                updated = set()
                need(e[1] == 'RP', 'restricted master solved with parameters %s', e[1])
                got.append(('rmp', duals[1]))
            elif e[0] == 'update':
                need(e[3] == duals, 'step %s updated with %s, latest duals %s', e[1:3], e[3], duals)
                need((e[1], e[2]) not in updated, 'step %s updated twice', e[1:3])
                updated.add((e[1], e[2]))
            elif e[0] == 'price':
                need(e[3] == duals, 'step %s priced with %s, latest duals %s', e[1:3], e[3], duals)
                need(updated == every, 'step %s priced before every step was updated: %s', e[1:3], updated)
                need(e[4] == f'p{e[1]}.{e[2]}', 'step %s priced with parameters %s', e[1:3], e[4])
                got.append(('price', e[1], e[2], duals[1]))
            elif e[0] == 'add':
                got.append(('add', e[1][1]))
        need(got == trace, 'loop did %s, documented %s', got, trace)


@driver('C07')
class Account:
    """same scripted loops: counters, limits and flags compared with the documented meaning"""
    def gen(rng, tier):
        yield from cases(rng, tier)

    def check(c):
        clf, r, log, X, y = simulate(c)
        trace, f = reference(c)
        nr = sum(1 for e in log if e[0] == 'rmp')
        need(attr(clf, 'performed_iter_') == nr, 'performed_iter_ %s, master solved %s times', clf.performed_iter_, nr)
        need(nr == f['it'], '%s master solves, documented %s', nr, f['it'])
        need(c['max_iter'] <= 0 or nr <= c['max_iter'], '%s iterations with limit %s', nr, c['max_iter'])
        acc = [[0] * len(l) for l in c['outcomes']]
        cur = None
        for e in log:
            if e[0] == 'price':
                cur = e
            elif e[0] == 'add':
                acc[cur[1]][cur[2]] += e[1][1]
        need([list(map(int, l)) for l in attr(clf, 'num_col_added_sp_')] == acc, 'num_col_added_sp_ %s, accepted %s', clf.num_col_added_sp_, acc)
        imp = sum(1 for k in range(nr) if c['improved'][k % len(c['improved'])])
        need(attr(clf, 'num_improving_iter_') == imp, 'num_improving_iter_ %s, master reported %s', clf.num_improving_iter_, imp)
        need(bool(attr(clf, 'time_limit_reached_')) == f['tl'], 'time_limit_reached_ %s, should be %s (limit %s)', clf.time_limit_reached_, f['tl'], c['limit'])
        np_ = sum(1 for e in log if e[0] == 'price')
        need(np_ == sum(1 for e in trace if e[0] == 'price'), '%s pricing calls, documented %s', np_, sum(1 for e in trace if e[0] == 'price'))
        ip = [k for k, e in enumerate(log) if e[0] == 'ip']
        need(len(ip) == (1 if c['ip'] else 0), 'integer master solved %s times (rmp_is_ip=%s)', len(ip), c['ip'])
        if ip:
            need(ip[0] == len(log) - 1 and log[-1][1] == 'IP', 'integer master not solved last with its parameters: %s', log[-1])
        need([len(l) for l in attr(clf, 'time_spent_sp_')] == [len(l) for l in c['outcomes']], 'shape of time_spent_sp_')
        need(r is clf, 'fit does not return the estimator')
        # a second fit of the same object starts its counters from zero
        for l in clf.subproblems:
            for s in l:
                s.n = 10 ** 6
        k = len(log)
        clf.max_iterations = 4
        clf.fit(X, y)
        need(clf.performed_iter_ == sum(1 for e in log[k:] if e[0] == 'rmp'), 'counters of a second fit: performed_iter_ %s', clf.performed_iter_)
        need(not any(map(any, clf.num_col_added_sp_)), 'columns of a second fit: %s', clf.num_col_added_sp_)

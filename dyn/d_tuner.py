import itertools
import math
import random
from fractions import Fraction
from types import SimpleNamespace
from common import *
from col_gen_estimator._parameter_tuner import RunningStat, Parameter
from col_gen_estimator._col_gen_classifier import BaseSubproblem
from ortools.sat.python import cp_model


def stats_of(xs):
    n = len(xs)
    m = sum(map(Fraction, xs), Fraction(0)) / n if n else Fraction(0)
    v = sum((Fraction(x) - m) ** 2 for x in xs) / (n - 1) if n > 1 else Fraction(0)
    return n, float(m), float(v)


@driver('C18')
class Stat:
    """sequences of pushed values and clears (None): all of length <= 4 over 4 values, then random ones"""
    def gen(rng, tier):
        for n in range(0, 5):
            for s in itertools.product([None, 0, 1, -2.5], repeat=n):
                yield dict(ops=list(s))
        while True:
            n = rng.randint(1, 60)
            yield dict(ops=[None if rng.random() < 0.05 else round(rng.uniform(-100, 100), rng.randint(0, 3)) for _ in range(n)])

    def check(c):
        s = RunningStat()
        xs = []
        for o in [*c['ops'], 'end']:
            n, m, v = stats_of(xs)
            need(s.num_data_values() == n, 'reports %s values after pushing %s', s.num_data_values(), xs)
            need(close(s.mean(), m, 1e-9), 'mean %s of %s should be %s', s.mean(), xs, m)
            need(close(s.variance(), v, 1e-7), 'variance %s of %s should be %s', s.variance(), xs, v)
            need(close(s.standard_deviation(), math.sqrt(v), 1e-5), 'standard deviation %s of %s should be %s', s.standard_deviation(), xs, math.sqrt(v))
            if o == 'end':
                break
            if o is None:
                s.clear()
                xs = []
            else:
                s.push(o)
                xs.append(o)


@driver('C19')
class Tuner:
    """histories of choices and scores on a parameter with 1..4 values"""
    def gen(rng, tier):
        while True:
            k = rng.choice([1, 2, 2, 3, 4])
            yield dict(k=k, c=rng.choice([0.0, 0.3, 1.0, 4.0]), explore=rng.choice([0, 0, 1, 2, 5, 12, None]),
                       flag=rng.choice([None, 1, 2, 3, 4]), seed=rng.randint(0, 10 ** 6),
                       vals=rng.sample(range(-5, 20), k),
                       ops=[rng.choice(['best', 'best', 'best+score', 'best+score', ['ix', rng.randrange(k)]]) for _ in range(rng.randint(1, 60))],
                       scores=[rng.choice([0.0, 1.0, -1.0, round(rng.uniform(-3, 0), 2)]) for _ in range(80)])

    def check(c):
        p = Parameter(c['c'], 'x', c['seed'])
        vals = c['vals']
        for i, v in enumerate(vals):
            p.add_value(v)
            need(list(attr(p, 'values_')) == vals[:i + 1], 'values after add_value: %s', p.values_)
        ex, fl = 10, 1
        if c['explore'] is not None:
            p.set_explore_count(c['explore'])
            ex = c['explore']
        if c['flag'] is not None:
            p.set_switch_flag(c['flag'])
            fl = c['flag']
        hist = [[] for _ in vals]
        final = [5.0] * len(vals)
        cur = 0
        sc = iter(c['scores'] * 2)
        for o in c['ops']:
            ix = None
            if o in ('best', 'best+score'):
                v = p.get_best_value()
                need(v in vals, 'chosen value %s is not one of %s', v, vals)
                b = vals.index(v)
                need(attr(p, 'current_index_') == b, 'chose value %s but remembers index %s', v, p.current_index_)
                cur = b
                if ex > 0:
                    if len(vals) == 2:
                        want = 1 if fl & ex else 0
                        need(b == want, 'exploration step %s with switch flag %s chose index %s', ex, fl, b)
                    ex -= 1
                elif any(len(h) < 4 for h in hist):
                    need(len(hist[b]) < 4, 'value %s with %s scores chosen while counts are %s', v, len(hist[b]), [len(h) for h in hist])
                else:
                    sd = math.sqrt(stats_of(hist[b])[2])
                    need(final[b] + sd / 10 + 1e-9 >= max(final), 'chose score %s (sd %s) although best score is %s', final[b], sd, max(final))
                if o == 'best':
                    continue
                s = next(sc)
                p.adjust_score(s)
                ix = cur
            else:
                s = next(sc)
                ix = o[1]
                p.adjust_score(s, ix)
            hist[ix].append(s)
            final[ix] = stats_of(hist[ix])[1] + c['c'] / len(hist[ix])
            for i in range(len(vals)):
                st = attr(p, 'scores_')[i]
                n, m, v = stats_of(hist[i])
                need(attr(p, 'counts_')[i] == n and st.num_data_values() == n, 'count of value %s is %s after scores %s', i, p.counts_[i], hist[i])
                need(close(st.mean(), m, 1e-7) and close(st.variance(), v, 1e-6), 'statistics of value %s are %s/%s after %s', i, st.mean(), st.variance(), hist[i])
                need(close(attr(p, 'final_scores_')[i], final[i], 1e-7), 'final score of value %s is %s, should be %s', i, p.final_scores_[i], final[i])


class FakeCp:
    def __init__(self, c, log):
        self.parameters = SimpleNamespace()
        self.c, self.log = c, log

    def Solve(self, model, callback=None):
        self.log.append(('solve', model, callback, dict(self.parameters.__dict__)))
        return {'OPTIMAL': cp_model.OPTIMAL, 'FEASIBLE': cp_model.FEASIBLE, 'UNKNOWN': cp_model.UNKNOWN,
                'INFEASIBLE': cp_model.INFEASIBLE}[self.c['status']]

    solve = Solve

    def WallTime(self):
        return self.c['wall']

    def ObjectiveValue(self):
        return self.c['obj']

    def BestObjectiveBound(self):
        return self.c['bound']

    @property
    def wall_time(self):
        return self.c['wall']

    @property
    def objective_value(self):
        return self.c['obj']

    @property
    def best_objective_bound(self):
        return self.c['bound']


@driver('C20')
class Solve:
    """sequences of solves with scripted status, time, objective and bound on a stand-in CP solver"""
    def gen(rng, tier):
        sts = ['OPTIMAL', 'FEASIBLE', 'UNKNOWN', 'INFEASIBLE']
        for st in sts:
            for obj, bd in ((0.0, 3.0), (2.0, 5.0), (-1.0, 4.0), (-5.0, -2.0), (-3.0, 0.0), (4.0, 4.5)):
                for wall, lim in ((0.5, 2), (2.25, 2), (1.0, 30), (0.0, 5)):
                    yield dict(solves=[dict(status=st, obj=obj, bound=bd, wall=wall, limit=lim)], seed=0)
        while True:
            yield dict(seed=rng.randint(0, 10 ** 6), solves=[
                dict(status=rng.choice(sts), obj=rng.choice([0.0, 1.0, rng.uniform(-9, 9)]), bound=rng.uniform(10, 20) * rng.choice([1, 1, -1]),
                     wall=round(rng.uniform(0, 3), 3), limit=rng.choice([1, 2, 30])) for _ in range(rng.randint(1, 25))])

    def check(c):
        sp = BaseSubproblem()
        log = []
        pars = attr(sp, 'tunable_params_')
        need(len(pars) > 0, 'no tunable parameters')
        chosen = {}
        scores = {k: [] for k in pars}
        for k, p in pars.items():
            def wrap(p=p, k=k, get=p.get_best_value, adj=p.adjust_score):
                def g():
                    v = get()
                    chosen.setdefault(k, []).append(v)
                    return v

                def a(score, index=None):
                    scores[k].append((score, index))
                    return adj(score, index)
                p.get_best_value, p.adjust_score = g, a
            wrap()
        for n, s in enumerate(c['solves']):
            sp.cp_solver_ = FakeCp(s, log)
            chosen.clear()
            for k in scores:
                scores[k].clear()
            cb = object()
            model = object()
            del log[:]
            r = sp.solve_model(model, time_limit=s['limit'], callback=cb)
            need(len(log) == 1, 'the model was solved %s times', len(log))
            _, m, b, par = log[0]
            need(m is model and b is cb, 'solved with another model or callback')
            need(par.get('max_time_in_seconds') == s['limit'], 'time limit parameter is %s instead of %s', par.get('max_time_in_seconds'), s['limit'])
            for k in pars:
                need(chosen.get(k), 'tuner %s was not asked', k)
                need(par.get(k) == chosen[k][-1], 'parameter %s is %s, tuner chose %s', k, par.get(k), chosen[k])
            if s['status'] == 'OPTIMAL':
                gap, total = 0, s['wall'] / s['limit']
            elif s['status'] == 'FEASIBLE':
                o, bd = s['obj'], s['bound']
                gap = abs(o - bd) / max(abs(o), abs(bd)) if o * bd >= 0 else 1
                total = 1 + gap
            else:
                gap, total = 1, 2
            for k in pars:
                need(len(scores[k]) == 1, 'tuner %s received %s scores', k, len(scores[k]))
                sc, ix = scores[k][0]
                need(close(sc, -total), 'tuner %s received score %s for %s, should be %s', k, sc, s, -total)
                need(ix is None or ix == attr(pars[k], 'current_index_'), 'score for another value')
            need(len(attr(sp, 'solve_times_')) == n + 1 and len(attr(sp, 'gaps_')) == n + 1, 'times/gaps recorded %s/%s after %s solves',
                 len(sp.solve_times_), len(sp.gaps_), n + 1)
            need(close(sp.solve_times_[-1], s['wall']) and close(sp.gaps_[-1], gap), 'recorded %s/%s for %s', sp.solve_times_[-1], sp.gaps_[-1], s)

import itertools
import random
import numpy as np
from sklearn.base import clone
from sklearn.exceptions import NotFittedError
from common import *
from d_tree import instance, objects, side, tree_paths, rand_path, mk_path, rand_rows, T
from d_fit import Master, Sub, Clock
from col_gen_estimator import _bdr_classifier as B
from col_gen_estimator._col_gen_classifier import ColGenClassifier
from col_gen_estimator._bdr_classifier import BooleanDecisionRuleClassifier, BooleanDecisionRuleClassifierWithHeuristic
from col_gen_estimator._dtree_classifier import DTreeClassifier


def same(a, b):
    if a is b:
        return True
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    try:
        return type(a) is type(b) and bool(a == b)
    except Exception:
        return False


def kept(clf, args, known=()):
    got = clf.get_params(deep=False)
    for k, v in args.items():
        need(k in got, 'get_params has no %s', k)
        if k in known:
            continue
        need(same(got[k], v), '%s(%s=%s): the parameter is %s', type(clf).__name__, k, v, got[k])


def entries(clf):
    sp, pr = clf.subproblems, clf.subproblem_params
    need(len(sp) == len(pr) and all(len(a) == len(b) for a, b in zip(sp, pr)), 'pricing steps %s, parameter entries %s', [len(l) for l in sp], [len(l) for l in pr])


def kind(s):
    return s.solver_.SolverVersion().lower()


@driver('C21')
class RuleWiring:
    """random constructor arguments of the rule classifiers: stored values, levels and steps"""
    def gen(rng, tier):
        for h in (False, True):
            yield dict(h=h, args={})
        while True:
            h = rng.random() < 0.5
            a = {}
            for k, v in dict(max_iterations=rng.randint(-1, 9), C=rng.randint(1, 30), p=rng.choice([0.5, 2, 7]), rmp_solver_params=rng.choice(['', 'a:1']),
                             rmp_solver=rng.choice(['glop', 'clp']), master_ip_solver_params=rng.choice(['', 'b']), subproblem_solver=rng.choice(['cbc', 'sat']),
                             subproblem_params=[['x'], ['y']] if h else [['z']]).items():
                if rng.random() < 0.6:
                    a[k] = v
            yield dict(h=h, args=a)

    def check(c):
        a = c['args']
        cls = BooleanDecisionRuleClassifierWithHeuristic if c['h'] else BooleanDecisionRuleClassifier
        clf = cls(**a)
        kept(clf, {**dict(max_iterations=-1, C=10, p=1, rmp_solver_params='', rmp_solver='glop', master_ip_solver_params='', subproblem_solver='cbc'), **a})
        full = cls().get_params(deep=False)
        for k in full:
            if k not in a:
                need(same(clf.get_params(deep=False)[k], full[k]), 'default of %s changed by other arguments', k)
        entries(clf)
        need(bool(clf.rmp_is_ip), 'the rule master is integer')
        need(clf.time_limit <= 0, 'a time limit of %s was set', clf.time_limit)
        levels = [[type(s).__name__ for s in l] for l in clf.subproblems]
        need(levels == ([['BDRHeuristic'], ['BDRSubProblem']] if c['h'] else [['BDRSubProblem']]), 'pricing levels %s', levels)
        if c['h']:
            need(attr(clf.subproblems[0][0], 'K_') == 1, 'heuristic size %s', clf.subproblems[0][0].K_)
        C, p = a.get('C', 10), a.get('p', 1)
        ex = clf.subproblems[-1][0]
        need(attr(ex, 'D_') == C, 'exact step built with D=%s, C=%s', ex.D_, C)
        mp = clf.master_problem
        need(attr(mp, 'C_') == C and attr(mp, 'p_') == p, 'master built with C=%s p=%s', mp.C_, mp.p_)
        need(a.get('rmp_solver', 'glop') in kind(mp), 'master solver %s', kind(mp))
        need(('cp-sat' if a.get('subproblem_solver') == 'sat' else 'cbc') in kind(ex) or ('sat' in kind(ex) and a.get('subproblem_solver') == 'sat'), 'pricing solver %s', kind(ex))
        try:
            k = clone(clf)
        except RuntimeError as e:
            need(False, 'the constructor does not keep its arguments: clone: %s', str(e)[-120:])
        need(same(k.get_params(deep=False), clf.get_params(deep=False)), 'a clone has other parameters')
        o = cls(**a)
        need(o.master_problem is not clf.master_problem and o.subproblems[0][0] is not clf.subproblems[0][0], 'two estimators share their master or pricing steps')


@driver('C21')
class TreeWiring:
    """random tree descriptions and arguments: stored values, one heuristic then one exact step per leaf (per leaf and target in the old mode)"""
    def gen(rng, tier):
        while True:
            c = instance(rng, 3, 4, 5)
            c['init'] = tree_paths(rng, c)
            c['rows'] = rand_rows(rng, len(c['X'])) if rng.random() < 0.5 else None
            if rng.random() < 0.25:
                # a consistent description of a part of the tree only
                c['keep'] = [rng.randint(0, len(c['nodes'])), rng.randint(0, 2 ** c['depth'])]
                c['init'] = [p for p in c['init'] if p['leaf'] < c['keep'][1] and all(n < c['keep'][0] for n in p['nodes'])]
            a = {}
            for k, v in dict(max_iterations=rng.randint(-1, 9), time_limit=rng.choice([-1, 5, 2.5]), num_master_cuts_round=rng.randint(0, 7),
                             master_beta_constraints_as_cuts=rng.random() < 0.5, master_generate_cuts=rng.random() < 0.5, use_old_sp=rng.random() < 0.6,
                             master_solver_type=rng.choice(['glop', 'clp']), rmp_solver_params=rng.choice(['', 'r']), master_ip_solver_params=rng.choice(['', 'm']),
                             subproblem_params=rng.choice(['', 's'])).items():
                if rng.random() < 0.6:
                    a[k] = v
            c['args'] = a
            yield c

    def check(c):
        splits, nodes, leaves, rows = objects(c)
        if c.get('keep'):
            nodes, leaves = nodes[:c['keep'][0]], leaves[:c['keep'][1]]
        a = dict(c['args'])
        desc = dict(initial_paths=[mk_path(p) for p in c['init']], leaves=leaves, nodes=nodes, splits=splits, tree_depth=c['depth'], targets=c['targets'], data_rows=rows)
        clf = DTreeClassifier(**desc, **a)
        for k, v in desc.items():
            need(clf.get_params(deep=False)[k] is v or same(clf.get_params(deep=False)[k], v), 'constructor argument %s is not kept', k)
        need(all(p.initial for p in clf.initial_paths), 'an initial path is not marked initial')
        dflt = dict(max_iterations=-1, time_limit=-1, num_master_cuts_round=3, master_beta_constraints_as_cuts=False, master_generate_cuts=False,
                    use_old_sp=False, master_solver_type='glop', rmp_solver_params='', master_ip_solver_params='')
        kept(clf, {**dflt, **{k: v for k, v in a.items() if k != 'subproblem_params'}})
        entries(clf)
        need(bool(clf.rmp_is_ip), 'the tree master is integer')
        old = a.get('use_old_sp', False)
        names = [[type(s).__name__ for s in l] for l in clf.subproblems]
        need(len(names) == 2 and names[0] == ['DTreeSubProblemHeuristic'], 'pricing levels %s', names)
        want = [(l.id, t) for l in leaves for t in (c['targets'] if old else [None])]
        need(len(names[1]) == len(want) and len(set(names[1])) <= 1, 'exact steps %s', names[1])
        need(not names[1] or (names[1][0] == 'DTreeSubProblemOld') == bool(old) and names[1][0] != 'DTreeSubProblemHeuristic', 'exact steps %s', names[1])
        for s, (l, t) in zip(clf.subproblems[1], want):
            need(attr(s, 'leaf_id_') == l and attr(s, 'leaf_') is leaves[l], 'exact step of leaf %s has leaf %s', l, s.leaf_id_)
            need(t is None or attr(s, 'target_') == t, 'exact step target %s, expected %s', getattr(s, 'target_', None), t)
            need(t is not None or attr(s, 'targets_') is clf.targets or s.targets_ == c['targets'], 'exact step targets')
        for s in [clf.subproblems[0][0], *clf.subproblems[1]]:
            need(same(attr(s, 'nodes_'), nodes) and same(attr(s, 'splits_'), splits) and attr(s, 'tree_depth_') == c['depth'] and same(attr(s, 'data_rows'), rows), 'a pricing step was built with other data: %s', type(s).__name__)
        h = clf.subproblems[0][0]
        need(same(attr(h, 'leaves_'), leaves) and list(attr(h, 'targets_')) == c['targets'], 'heuristic step data')
        mp = clf.master_problem
        need(same(attr(mp, 'leaves_'), leaves) and same(attr(mp, 'nodes_'), nodes) and same(attr(mp, 'splits_'), splits) and same(attr(mp, 'paths_'), clf.initial_paths), 'master built with other data')
        need(attr(mp, 'num_cuts_round') == a.get('num_master_cuts_round', 3) and bool(attr(mp, 'generate_cuts')) == a.get('master_generate_cuts', False)
             and bool(attr(mp, 'beta_constraints_as_cuts')) == a.get('master_beta_constraints_as_cuts', False) and same(attr(mp, 'data_rows'), rows), 'master built with other options')
        need(a.get('master_solver_type', 'glop') in kind(mp), 'master solver %s', kind(mp))
        flat = [p for l in clf.subproblem_params[1:] for p in l]
        need(all(p == a.get('subproblem_params', '') for p in flat), 'parameters of the exact steps %s', flat)
        if not same(clf.get_params(deep=False)['subproblem_params'], a.get('subproblem_params', '')):
            raise Known('dtree-subproblem-params')


@driver('C21')
class TreeRejects:
    """valid descriptions with one inconsistency planted: refused; without it: accepted"""
    def gen(rng, tier):
        ks = [None, 'node', 'leaf', 'nodeswap', 'leafswap', 'path-leaf', 'path-node', 'path-split', 'path-target', 'path-short', 'path-long', 'path-splits']
        while True:
            for k in ks:
                c = instance(rng, 3, 3, 5)
                c['init'] = tree_paths(rng, c)
                if k in ('nodeswap',) and c['depth'] == 1:
                    continue
                yield dict(c, bad=k, at=rng.randint(0, 99))

    def check(c):
        splits, nodes, leaves, _ = objects(c)
        init = [mk_path(p) for p in c['init']]
        k, at = c['bad'], c['at']
        p = init[at % len(init)]
        j = at % len(p.node_ids)
        if k == 'node':
            nodes[at % len(nodes)].id += len(nodes)
        elif k == 'leaf':
            leaves[at % len(leaves)].id += 1
        elif k == 'nodeswap':
            nodes[0], nodes[-1] = nodes[-1], nodes[0]
        elif k == 'leafswap':
            leaves[0], leaves[-1] = leaves[-1], leaves[0]
        elif k == 'path-leaf':
            p.leaf_id = len(leaves) if at % 2 else -1
        elif k == 'path-node':
            p.node_ids[j] = len(nodes)
        elif k == 'path-split':
            p.splits[j] = len(splits)
        elif k == 'path-target':
            p.target = len(c['targets'])
        elif k == 'path-short':
            p.node_ids.pop()
            p.splits.pop()
        elif k == 'path-long':
            p.node_ids.append(0)
            p.splits.append(0)
        elif k == 'path-splits':
            p.splits.append(p.splits[0])
        try:
            DTreeClassifier(initial_paths=init, leaves=leaves, nodes=nodes, splits=splits, tree_depth=c['depth'], targets=c['targets'])
        except (AssertionError, ValueError) as e:
            need(k is not None, 'a consistent description was refused: %s', e)
            return
        need(k is None, 'an inconsistent description (%s at %s) was accepted', k, at)


@driver('C21')
class BaseWiring:
    """the base classifier with random scripted levels: arguments kept, mismatching parameter lists refused, set_params before fit"""
    def gen(rng, tier):
        while True:
            shape = [rng.randint(0, 3) for _ in range(rng.randint(1, 3))]
            ps = list(shape)
            m = rng.random()
            if m < 0.3:
                ps[rng.randrange(len(ps))] += 1
            elif m < 0.4:
                ps.append(1)
            elif m < 0.5:
                ps.pop()
            yield dict(shape=shape, ps=ps, mi=rng.randint(-1, 5), tl=rng.choice([-1, 3, 0]), ip=rng.random() < 0.5)

    def check(c):
        log = []
        sc = dict(outcomes=[[[[1]] * 3 for _ in range(n)] for n in c['shape']], improved=[True], dt=0)
        m = Master(sc, log)
        subs = [[Sub(sc, log, Clock(), lv, ix) for ix in range(n)] for lv, n in enumerate(c['shape'])]
        pars = [['q'] * n for n in c['ps']]
        a = dict(max_iterations=c['mi'], time_limit=c['tl'], master_problem=m, subproblems=subs, rmp_is_ip=c['ip'], rmp_solver_params='u', master_ip_solver_params='v', subproblem_params=pars)
        try:
            clf = ColGenClassifier(**a)
        except (AssertionError, ValueError):
            need(c['shape'] != c['ps'], 'matching parameter lists were refused')
            return
        need(c['shape'] == c['ps'], 'steps %s with parameter entries %s accepted', c['shape'], c['ps'])
        kept(clf, a)
        clf.set_params(max_iterations=1, time_limit=-1, rmp_is_ip=True, rmp_solver_params='w', master_ip_solver_params='x', subproblem_params=[['s'] * n for n in c['shape']])
        clf.fit(np.array([[0], [1]]), np.array([0, 1]))
        need([e[1] for e in log if e[0] == 'rmp'] == ['w'], 'solver parameters set before fitting are not used')
        need([e[1] for e in log if e[0] == 'ip'] == ['x'], 'integer solver settings set before fitting are not used')
        need(all(e[4] == 's' for e in log if e[0] == 'price'), 'pricing parameters set before fitting are not used')


@driver('C21')
class SetParams:
    """C or p of a rule classifier changed before fitting: the master must be the one of the new values"""
    minimum = 1

    def gen(rng, tier):
        for h in (False, True):
            for k, v in (('C', 3), ('p', 5)):
                yield dict(h=h, k=k, v=v, always=1)

    def check(c):
        cls = BooleanDecisionRuleClassifierWithHeuristic if c['h'] else BooleanDecisionRuleClassifier
        X, y = np.array([[0, 1], [1, 0], [1, 1], [0, 0]]), np.array([0, 1, 1, 0])

        def model(clf):
            clf.fit(X, y)
            q = mp_model(attr(clf.master_problem, 'solver_'))
            return sorted(map(repr, q['vars'])), sorted((l, u) for l, u, _ in q['cons'])
        old, new = model(cls(max_iterations=1)), model(cls(max_iterations=1, **{c['k']: c['v']}))
        got = model(cls(max_iterations=1).set_params(**{c['k']: c['v']}))
        if got == old and got != new:
            raise Known('set-params-no-effect')
        need(got == new, 'set_params(%s=%s) before fit gives neither the old nor the new model', c['k'], c['v'])


# ------------------------------------------------------------------- labels
LABELS = [[0, 1], [1, 0], [3, 7], [-1, 1], ['no', 'yes'], ['b', 'a'], [True, False], [5, 2, 9], ['x', 'q', 'm', 'a'], [10, 9, 8, 7, 6]]


@driver('C22')
class Encode:
    """scripted master and pricing steps with int, bool and string labels (2-5 classes): codes received, data kept, degenerate input refused"""
    def gen(rng, tier):
        while True:
            lab = rng.choice(LABELS)
            n = rng.randint(len(lab), 9)
            y = [rng.randrange(len(lab)) for _ in range(n)]
            one = rng.random() < 0.2
            if one:
                y = [y[0]] * n
            yield dict(labels=lab, y=y, X=[[rng.randint(0, 1), rng.randint(0, 3)] for _ in range(n)], lists=rng.random() < 0.3, ip_ok=rng.random() < 0.8, cols=[[1], [0], []][:rng.randint(0, 3)])

    def check(c):
        log = []
        sc = dict(outcomes=[[[*c['cols']], []], [[]]], improved=[True], dt=0, ip_ok=c.get('ip_ok', True))
        m = Master(sc, log)
        subs = [[Sub(sc, log, Clock(), 0, 0), Sub(sc, log, Clock(), 0, 1)], [Sub(sc, log, Clock(), 1, 0)]]
        clf = ColGenClassifier(master_problem=m, subproblems=subs, rmp_is_ip=True, subproblem_params=[['', ''], ['']])
        y = [c['labels'][k] for k in c['y']]
        cl = sorted(set(y))
        X_, y_ = (c['X'], y) if c['lists'] else (np.array(c['X']), np.array(y))
        if len(cl) < 2:
            try:
                clf.fit(X_, y_)
            except ValueError:
                need(not log, 'one-class data reached the master: %s', log[:2])
                need(not hasattr(clf, 'is_fitted_'), 'estimator marked fitted after a refused fit')
                return
            need(False, 'one-class data %s was accepted', y)
        try:
            r = clf.fit(X_, y_)
        except Exception:
            if sc['ip_ok']:
                raise
            need(not hasattr(clf, 'is_fitted_'), 'estimator marked fitted although its fit raised')
            return
        need(r is clf, 'fit does not return the estimator')
        need(bool(attr(clf, 'is_fitted_')), 'estimator not marked fitted')
        need(list(attr(clf, 'classes_')) == cl, 'classes %s, should be %s', clf.classes_, cl)
        need(np.array_equal(np.asarray(attr(clf, 'X_')), np.array(c['X'])) and list(attr(clf, 'y_')) == y, 'original data not kept: %s', clf.y_)
        codes = [cl.index(v) for v in y]
        got = [e for e in log if e[0] in ('generate', 'update', 'price')]
        need(log[0][0] == 'generate' and sum(e[0] == 'generate' for e in log) == 1, 'master not built first, once')
        for e in got:
            Xr, yr = (e[1], e[2]) if e[0] == 'generate' else (e[4], e[5]) if e[0] == 'update' else (e[5], e[6])
            need(np.array_equal(np.asarray(Xr), np.array(c['X'])), '%s received other data', e[:3])
            need([int(v) for v in yr] == codes and all(int(v) == v for v in yr), '%s received labels %s for %s', e[0], list(yr), y)


@driver('C22')
class Predictions:
    """fitted rule and tree classifiers on random data with int and string labels: predictions among the classes; predicting before fitting refused"""
    minimum = 6

    def gen(rng, tier):
        while True:
            w = rng.choice(['rule', 'heur', 'tree', 'treeold'])
            c = instance(rng, 2, 8, 4)
            c['targets'] = [0, 1]
            n = rng.randint(3, 8)
            m = len(c['X'][0])
            c['X'] = [[rng.randint(0, 1) if w in ('rule', 'heur') else rng.randint(0, 3) for _ in range(m)] for _ in range(n)]
            c['y'] = [rng.randint(0, 1) for _ in range(n - 2)] + [0, 1]
            c['init'] = tree_paths(rng, c)
            for p in c['init']:
                p['cost'] = 0
            c['test'] = [[rng.randint(0, 1) for _ in range(m)] for _ in range(5)]
            yield dict(c, what=w, labels=rng.choice([[0, 1], [4, 2], ['u', 'k'], [-3, 8]]))

    def check(c):
        if c['what'] in ('rule', 'heur'):
            clf = (BooleanDecisionRuleClassifier if c['what'] == 'rule' else BooleanDecisionRuleClassifierWithHeuristic)(max_iterations=3)
        else:
            splits, nodes, leaves, _ = objects(c)
            clf = DTreeClassifier(initial_paths=[mk_path(p) for p in c['init']], leaves=leaves, nodes=nodes, splits=splits, tree_depth=c['depth'], targets=[0, 1],
                                  max_iterations=2, use_old_sp=c['what'] == 'treeold')
        try:
            clf.predict(np.array(c['test']))
        except NotFittedError:
            pass
        else:
            need(False, 'prediction before fitting was accepted')
        y = [c['labels'][k] for k in c['y']]
        clf.fit(np.array(c['X']), np.array(y))
        need(list(clf.classes_) == sorted(set(y)) and list(clf.y_) == y, 'classes or labels after fitting')
        for Z in (c['X'], c['test']):
            got = list(clf.predict(np.array(Z)))
            need(len(got) == len(Z) and all(g in set(y) for g in got), 'predictions %s, classes %s', got, sorted(set(y)))


@driver('C22')
class Refit:
    """one estimator fitted on two data sets in turn, compared with a fresh one"""
    minimum = 2

    def gen(rng, tier):
        yield dict(always=1, a=[[[0, 1], [1, 0], [1, 1], [0, 0]], [0, 1, 1, 0]], b=[[[0, 1], [1, 0], [1, 1], [0, 0]], [1, 0, 1, 0]])
        for _ in range(4):
            d = []
            for _ in range(2):
                X = [[rng.randint(0, 1) for _ in range(2)] for _ in range(5)]
                d.append([X, [0, 1] + [rng.randint(0, 1) for _ in range(3)]])
            yield dict(a=d[0], b=d[1])

    def check(c):
        def model(clf):
            q = mp_model(attr(clf.master_problem, 'solver_'))
            return q['vars'], q['cons']
        one, two = BooleanDecisionRuleClassifier(max_iterations=1), BooleanDecisionRuleClassifier(max_iterations=1)
        one.fit(np.array(c['a'][0]), np.array(c['a'][1]))
        first = model(one)
        two.fit(np.array(c['b'][0]), np.array(c['b'][1]))
        want, failed = model(two), None
        try:
            one.fit(np.array(c['b'][0]), np.array(c['b'][1]))
        except Exception as e:
            failed = e
        got = model(one)
        if got == want and failed is None:
            return
        # the recorded finding: the second fit went on with the model of the first data (and may then be offered a column that model already has)
        n = len(first[0])
        if got[0][:n] == first[0] and [(l, u, {v: k for v, k in co.items() if v < n}) for l, u, co in got[1]] == first[1]:
            raise Known('refit-reuses-model')
        need(failed is None, 'a second fit on other data fails: %s', failed)
        need(False, 'a second fit on other data gives another master than a fresh estimator and not that of the first data')

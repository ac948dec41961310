import itertools
import math
import random
import numpy as np
from common import *
from d_tree import *
from d_tree import T

KINDS = ('mip', 'sat', 'old')


def value(rng):
    return rng.choice([0, 0, 1, 0.5, -1, 2, 0.25, 3, 1.5]) if rng.random() < 0.6 else round(rng.uniform(-3, 3), 3)


def rand_duals(rng, c, ncuts, new):
    """A dual tuple as JSON: leaf, row, link [leaf][node][split] (string keys), cut duals, cuts added just now."""
    L = 2 ** c['depth']
    return dict(leaf=[value(rng) for _ in range(L)], row=[value(rng) for _ in c['X']],
                ns=[[[n, s, value(rng)] for n in side(c['depth'], l) for s in c['nodes'][n]] for l in range(L)],
                cut=[value(rng) for _ in range(ncuts)], new=new)


def real_duals(d):
    ns = {}
    for l, q in enumerate(d['ns']):
        ns[l] = {}
        for n, s, v in q:
            ns[l].setdefault(n, {})[s] = v
    return (list(d['leaf']), list(d['row']), ns, list(d['cut']), [list(map(bool, q)) for q in d['new']])


def row_on(c, r):
    return c.get('rows') is None or not c['rows'][r][2]


def weight(c, r):
    return 1 if c.get('rows') is None else c['rows'][r][0]


def cut_hit(c, q, p):
    sd = side(c['depth'], p['leaf'])
    return all(bool(q[s]) == sd[n] for n, s in zip(p['nodes'], p['splits']))


def path_cost(c, p, weights=True):
    return sum(weight(c, r) if weights else 1 for r in range(len(c['X'])) if row_on(c, r) and c['y'][r] == p['target'] and follows(c, c['X'][r], p))


def dual_part(c, d, p, cuts):
    ns = {(n, s): v for n, s, v in d['ns'][p['leaf']]}
    return d['leaf'][p['leaf']] + sum(d['row'][r] for r in range(len(c['X'])) if row_on(c, r) and follows(c, c['X'][r], p)) \
        + sum(d['cut'][k] for k, q in enumerate(cuts) if cut_hit(c, q, p)) + sum(ns[n, s] for n, s in zip(p['nodes'], p['splits']))


def choices(c, l, targets):
    nd = list(side(c['depth'], l))
    for q in itertools.product(*[c['nodes'][n] for n in nd]):
        for t in targets:
            yield dict(leaf=l, nodes=nd, splits=list(q), target=t, cost=0)


def make(kind, c):
    splits, nodes, leaves, rows = objects(c)
    l = c['leaf']
    if kind == 'mip':
        return T.DTreeSubProblem(leaves[l], nodes, splits, c['targets'], c['depth'], data_rows=rows)
    if kind == 'sat':
        return T.DTreeSubProblemSat(leaves[l], nodes, splits, c['targets'], c['depth'], data_rows=rows)
    return T.DTreeSubProblemOld(leaves[l], nodes, splits, c['target'], c['depth'], data_rows=rows)


def pricing_case(rng, kind, dmax, nrows, cuts=True):
    c = instance(rng, dmax, 6, 4, rows=rng.randint(1, nrows))
    if rng.random() < 0.5:
        c['nodes'] = [k[:2] for k in c['nodes']]
    c['kind'] = kind
    c['leaf'] = rng.randrange(2 ** c['depth'])
    c['target'] = rng.choice(c['targets'])
    c['rows'] = rand_rows(rng, len(c['X']))
    if kind == 'old' and c['rows'] and rng.random() < 0.9:
        c['rows'] = [[1, a, b] for _, a, b in c['rows']]
    if c['rows'] and all(q[2] for q in c['rows']):
        c['rows'][0][2] = 0
    c['steps'], n = [], 0
    for _ in range(rng.randint(1, 4)):
        k = rng.choice([0, 0, 1, 1, 2]) if cuts else 0
        n += k
        c['steps'].append(rand_duals(rng, c, n, [[rng.randint(0, 1) for _ in c['splits']] for _ in range(k)]))
    return c


def mip_arrays(M):
    vs = M['vars']
    A = [(lb, ub, [(i, k) for i, k in co.items()]) for lb, ub, co in M['cons']]
    dom = [(max(0, math.ceil(lb - 1e-9)), min(1, math.floor(ub + 1e-9))) if i else (lb, ub) for lb, ub, i, _ in vs]
    return dict(n=len(vs), cons=A, obj=[o for *_, o in vs], off=M['off'], maxim=M['maxim'], binary=all(i and lb >= 0 and ub <= 1 for lb, ub, i, _ in vs), dom=dom)


def cp_arrays(model):
    p = model.Proto()
    cons = []
    for ct in p.constraints:
        if not ct.HasField('linear') or len(ct.enforcement_literal):
            raise Skip('pricing model has a constraint the harness does not evaluate')
        d = list(ct.linear.domain)
        if len(d) != 2:
            raise Skip('domain with holes')
        cons.append((d[0], d[1], list(zip(ct.linear.vars, ct.linear.coeffs))))
    n = len(p.variables)
    if any(v < 0 for _, _, q in cons for v, _ in q):
        raise Skip('negated reference')
    obj, off = [0.0] * n, 0.0
    if p.HasField('objective'):
        sf = p.objective.scaling_factor or 1.0
        for v, k in zip(p.objective.vars, p.objective.coeffs):
            if v < 0:
                obj[-v - 1] -= sf * k
            else:
                obj[v] += sf * k
        off, maxim = sf * p.objective.offset, sf < 0
    elif p.HasField('floating_point_objective'):
        for v, k in zip(p.floating_point_objective.vars, p.floating_point_objective.coeffs):
            obj[v] += k
        off, maxim = p.floating_point_objective.offset, p.floating_point_objective.maximize
    else:
        raise Violation('pricing model has no objective')
    dom = [tuple(v.domain) for v in p.variables]
    return dict(n=n, cons=cons, obj=obj, off=off, maxim=maxim, binary=all(set(d) <= {0, 1} and len(d) == 2 for d in dom), dom=dom)


def feasible(M, S):
    """Which rows of the 0/1 matrix S satisfy every constraint."""
    ok = np.ones(len(S), bool)
    for v, d in enumerate(M['dom']):
        ok &= (S[:, v] >= d[0]) & (S[:, v] <= d[1])
    for lb, ub, q in M['cons']:
        t = np.zeros(len(S))
        for v, k in q:
            t += k * S[:, v]
        ok &= (t >= lb - 1e-9) & (t <= ub + 1e-9)
    return ok


def index_of(kind, v):
    return v if isinstance(v, int) else v.Index() if hasattr(v, 'Index') else v.index()


def check_model(c, sp, kind, d, cuts, what):
    M = mip_arrays(mp_model(attr(sp, 'solver_'))) if kind != 'sat' else cp_arrays(attr(sp, 'model_'))
    need(M['maxim'], '%s: the pricing program is minimised', what)
    need(M['binary'], '%s: a pricing variable is not binary', what)
    l, depth = c['leaf'], c['depth']
    anc = list(side(depth, l))
    u = {(n, s): index_of(kind, attr(sp, 'u_vars_')[n][s]) for n in anc for s in c['nodes'][n]}
    w = {} if kind == 'old' else {t: index_of(kind, attr(sp, 'w_vars_')[t]) for t in c['targets']}
    on = [r for r in range(len(c['X'])) if row_on(c, r)]
    y = {r: index_of(kind, attr(sp, 'y_vars_')[r]) for r in on}
    z = {} if kind == 'old' else {r: index_of(kind, attr(sp, 'z_vars_')[r]) for r in on}
    yc = {k: index_of(kind, attr(sp, 'yc_vars_')[k]) for k in range(len(cuts))}
    ids = [*u.values(), *w.values(), *y.values(), *z.values(), *yc.values()]
    need(len(set(ids)) == len(ids), '%s: two roles share a variable', what)
    used = {v for _, _, q in M['cons'] for v, k in q if k}
    extra = [v for v in range(M['n']) if v not in ids]
    if kind != 'sat' and not used & set(extra):
        # free variables: with a cost they shift the objective of every choice, without one they do not matter
        need(not any(M['obj'][v] for v in extra), '%s: variables that stand for no row, cut, split or target have a cost: %s', what, [M['obj'][v] for v in extra])
    elif extra:
        raise Skip('the pricing program has variables the harness does not know')
    targets = c['targets'] if kind != 'old' else [c['target']]
    scale = getattr(sp, 'objective_scale', None) if kind == 'sat' else 1.0
    if scale is None:
        raise Skip('objective_scale is gone')
    obj = np.array(M['obj'])
    tol = 1e-6 if kind != 'sat' else 0.51 * len(ids) + 1e-6
    best = {}
    rcs = {}
    for p in choices(c, l, targets):
        a = np.zeros(M['n'])
        for n, s in zip(p['nodes'], p['splits']):
            a[u[n, s]] = 1
        if w:
            a[w[p['target']]] = 1
        for r in on:
            a[y[r]] = follows(c, c['X'][r], p)
            if z:
                a[z[r]] = a[y[r]] and c['y'][r] == p['target']
        for k, q in enumerate(cuts):
            a[yc[k]] = cut_hit(c, q, p)
        need(feasible(M, a[None])[0], '%s: choice %s is infeasible', what, p)
        v = obj @ a
        rc = path_cost(c, p) - dual_part(c, d, p, cuts)
        if kind == 'sat':
            ok = abs(v - scale * (rc + d['leaf'][l])) <= tol
        else:
            ok = close(v + M['off'], rc)
        if not ok and kind == 'old':
            rc2 = path_cost(c, p, False) - dual_part(c, d, p, cuts)
            if close(v + M['off'], rc2) and any(weight(c, r) != 1 for r in on):
                raise Known('old-weights')
        need(ok, '%s: choice %s has objective %s, its reduced cost is %s (leaf dual %s)', what, p, v, rc, d['leaf'][l])
        # one indicator flipped: must be infeasible unless it is a z lowered to 0
        flips = np.repeat(a[None], len(ids), 0)
        flips[np.arange(len(ids)), ids] = 1 - flips[np.arange(len(ids)), ids]
        f = feasible(M, flips)
        for q in np.nonzero(f)[0]:
            v_ = ids[q]
            need(z and v_ in z.values() and a[v_] == 1, '%s: in choice %s variable %s may also be %s', what, p, v_, 1 - a[v_])
        key = tuple(a[list(u.values()) + list(w.values())])
        best[key] = (a, v)
    if M['n'] > 15:
        return
    N = M['n']
    S = ((np.arange(2 ** N)[:, None] >> np.arange(N)[None]) & 1).astype(float)
    F = S[feasible(M, S)]
    note('pricing programs enumerated completely')
    k = list(u.values()) + list(w.values())
    yi = list(y.values()) + list(yc.values())
    seen = set()
    for s in F:
        key = tuple(s[k])
        need(key in best, '%s: assignment %s of splits/targets is feasible but is no choice', what, key)
        a, v = best[key]
        need((s[yi] == a[yi]).all(), '%s: a row or cut indicator is not forced for choice %s', what, key)
        need(obj @ s <= v + 1e-6, '%s: choice %s reaches objective %s', what, key, obj @ s)
        seen.add(key)
    need(len(seen) == len(best), '%s: %s of %s choices feasible', what, len(seen), len(best))


def step(c, sp, kind, d, X, y, solve):
    """One pricing round as fit makes it; returns the columns (or None when not solved)."""
    dc = real_duals(d)
    sp.update_subproblem(X, y, dc)
    if kind == 'sat' and not solve:
        real = sp.solve_model
        sp.solve_model = lambda *a, **k: None
        try:
            sp.generate_columns(X, y, dc, '')
        finally:
            sp.solve_model = real
        return None
    return sp.generate_columns(X, y, dc, '') if solve else None


@driver('C14')
class PricingModels:
    """random descriptions (depth 1-3), rows, weights, removed rows, 1-4 successive dual vectors with new cuts: every choice evaluated in the exported model, whole 0/1 space when it has at most 15 variables"""
    def gen(rng, tier):
        k = 0
        while True:
            kind = KINDS[k % 3]
            k += 1
            small = rng.random() < 0.7
            c = pricing_case(rng, kind, 1 if small and rng.random() < 0.4 else 2 if small else 3, 2 if small else 5)
            if rng.random() < 0.25:
                for d in c['steps']:
                    for f in ('leaf', 'row', 'cut'):
                        d[f] = [rng.choice([v, 0.003, -0.0007, 80, -2500]) for v in d[f]]
                    d['ns'] = [[[n, s, rng.choice([v, 0.004, -300])] for n, s, v in q] for q in d['ns']]
            yield c

    def check(c):
        X, y = np.array(c['X']), np.array(c['y'])
        sp = make(c['kind'], c)
        cuts = []
        for k, d in enumerate(c['steps']):
            cuts += d['new']
            step(c, sp, c['kind'], d, X, y, False)
            check_model(c, sp, c['kind'], d, cuts, f'{c["kind"]} call {k + 1}')


def well_formed(c, o, leafs, targets, what):
    need(o.leaf_id in leafs, '%s: path of leaf %s', what, o.leaf_id)
    anc = set(side(c['depth'], o.leaf_id))
    need(len(o.node_ids) == len(o.splits) == len(anc) and set(o.node_ids) == anc, '%s: nodes %s, splits %s of leaf %s', what, o.node_ids, o.splits, o.leaf_id)
    for n, s in zip(o.node_ids, o.splits):
        need(s in c['nodes'][n], '%s: split %s is no candidate of node %s', what, s, n)
    need(o.target in targets, '%s: target %s', what, o.target)
    return dict(leaf=o.leaf_id, nodes=list(o.node_ids), splits=list(o.splits), target=int(o.target), cost=o.cost)


@driver('C15')
class PricingColumns:
    """random descriptions, weights, removed rows, 1-4 successive dual vectors with cuts: every returned path recomputed from the data"""
    minimum = 9

    def gen(rng, tier):
        k = 0
        while True:
            kind = KINDS[k % 3]
            k += 1
            c = pricing_case(rng, kind, 3, 6)
            for d in c['steps']:
                m = rng.random()
                if m < 0.45:
                    d['leaf'] = [v + rng.choice([2, 3, 4]) for v in d['leaf']]
                elif m < 0.75:
                    d['leaf'] = [v - 3 for v in d['leaf']]
            yield c

    def check(c):
        X, y = np.array(c['X']), np.array(c['y'])
        kind = c['kind']
        sp = make(kind, c)
        cuts = []
        targets = c['targets'] if kind != 'old' else [c['target']]
        heavy = kind == 'old' and any(weight(c, r) != 1 for r in range(len(c['X'])) if row_on(c, r))
        for k, d in enumerate(c['steps']):
            cuts += d['new']
            got = step(c, sp, kind, d, X, y, True)
            best = max(path_cost(c, p, not heavy) - dual_part(c, d, p, cuts) for p in choices(c, c['leaf'], targets))
            what = f'{kind} call {k + 1}'
            for o in got:
                p = well_formed(c, o, [c['leaf']], targets, what)
                note('columns')
                want = path_cost(c, p)
                if not close(o.cost, want) and heavy and close(o.cost, path_cost(c, p, False)):
                    raise Known('old-weights')
                need(close(o.cost, want), '%s: path %s has cost %s, should be %s', what, p, o.cost, want)
                rc = path_cost(c, p, not heavy) - dual_part(c, d, p, cuts)
                need(rc > 1e-6 - 1e-9, '%s: path %s has reduced cost %s', what, p, rc)
            if best > 1e-3:
                need(got, '%s: a choice has reduced cost %s but no path was returned', what, best)
            else:
                note('calls without improving choice')


@driver('C15')
class Callback:
    """every feasible assignment of small pricing models given to the solution callback: a path exactly when it improves"""
    def gen(rng, tier):
        while True:
            yield pricing_case(rng, 'sat', 2, 3)

    def check(c):
        X, y = np.array(c['X']), np.array(c['y'])
        sp = make('sat', c)
        cuts = []
        for k, d in enumerate(c['steps']):
            cuts += d['new']
            seen = []
            dc = real_duals(d)
            sp.update_subproblem(X, y, dc)
            hold = {}

            def fake(model, time_limit=None, callback=None):
                cb = callback if callback is not None else hold.get('none')
                if cb is None:
                    raise Skip('no callback')
                u, w = attr(sp, 'u_vars_'), attr(sp, 'w_vars_')
                M = cp_arrays(model)
                for p in choices(c, c['leaf'], c['targets']):
                    val = {v.Index(): 0 for v in [*[x for n in u for x in u[n].values()], *w]}
                    for n, s in zip(p['nodes'], p['splits']):
                        val[u[n][s].Index()] = 1
                    val[w[p['target']].Index()] = 1
                    for r in range(len(c['X'])):
                        if row_on(c, r):
                            f = follows(c, c['X'][r], p)
                            val[attr(sp, 'y_vars_')[r].Index()] = int(f)
                            val[attr(sp, 'z_vars_')[r].Index()] = int(f and c['y'][r] == p['target'])
                    for q, cut in enumerate(cuts):
                        val[attr(sp, 'yc_vars_')[q].Index()] = int(cut_hit(c, cut, p))
                    # any feasible solution may be reported: take the one with the fewest indicators set
                    a = np.array([val.get(q, 0) for q in range(M['n'])], float)
                    for r in range(len(c['X'])):
                        if row_on(c, r):
                            b = a.copy()
                            b[attr(sp, 'z_vars_')[r].Index()] = 0
                            if feasible(M, b[None])[0]:
                                val[attr(sp, 'z_vars_')[r].Index()] = 0
                    # the callback class is compiled; Value is looked up on the instance's class
                    type(cb).Value = lambda self, v: val[v.Index()]
                    type(cb).BooleanValue = lambda self, v: bool(val[v.Index()])
                    try:
                        cb.on_solution_callback()
                    finally:
                        del type(cb).Value, type(cb).BooleanValue
                    seen.append(p)
            sp.solve_model = fake
            got = sp.generate_columns(X, y, dc, '')
            want = []
            for p in seen:
                rc = path_cost(c, p) - dual_part(c, d, p, cuts)
                if abs(rc - 1e-6) < 1e-8:
                    raise Skip('ambiguous')
                if rc > 1e-6:
                    want.append((sorted(zip(p['nodes'], p['splits'])), p['target'], round(float(path_cost(c, p)), 6)))
            have = [(sorted(zip(o.node_ids, o.splits)), int(o.target), round(float(o.cost), 6)) for o in got]
            need(all(o.leaf_id == c['leaf'] for o in got), 'leaf of a returned path')
            need(have == want, 'call %s: solutions %s; returned paths %s, improving are %s', k + 1, len(seen), have, want)


@driver('C16')
class Heuristic:
    """random descriptions, weights, removed rows, cuts and duals: every returned path recomputed, attempts counted"""
    def gen(rng, tier):
        while True:
            c = instance(rng, 3, 7, 6)
            c['rows'] = rand_rows(rng, len(c['X']))
            c['steps'], n = [], 0
            for _ in range(rng.randint(1, 3)):
                k = rng.choice([0, 0, 1, 2])
                n += k
                d = rand_duals(rng, c, n, [[rng.randint(0, 1) for _ in c['splits']] for _ in range(k)])
                if rng.random() < 0.5:
                    d['leaf'] = [v - rng.choice([1, 2]) for v in d['leaf']]
                c['steps'].append(d)
            c['seed'] = rng.randint(0, 10 ** 6)
            yield c

    def check(c):
        X, y = np.array(c['X']), np.array(c['y'])
        splits, nodes, leaves, rows = objects(c)
        nc = [list(n.candidate_splits) for n in nodes]
        h = T.DTreeSubProblemHeuristic(leaves, nodes, splits, c['targets'], c['depth'], data_rows=rows)
        cuts = []
        for k, d in enumerate(c['steps']):
            cuts += d['new']
            dc = real_duals(d)
            h.update_subproblem(X, y, dc)
            for i, s in enumerate(splits):
                need(set(s.left_cuts) == {q for q, cut in enumerate(cuts) if cut[i]} and set(s.right_cuts) == {q for q, cut in enumerate(cuts) if not cut[i]},
                     'cut sides of split %s: %s %s', i, s.left_cuts, s.right_cuts)
            f0, s0 = attr(h, 'failed_rounds'), attr(h, 'success_rounds')
            got = h.generate_columns(X, y, dc, '')
            need(dc == real_duals(d), 'the duals were modified')
            f1, s1 = h.failed_rounds, h.success_rounds
            need(s1 - s0 == len(got), '%s paths returned, %s successes counted', len(got), s1 - s0)
            need(f1 + s1 - f0 - s0 == 100 or getattr(h, 'max_rounds', None), '%s attempts counted', f1 + s1 - f0 - s0)
            seen = set()
            for o in got:
                p = well_formed(c, o, range(len(leaves)), c['targets'], f'call {k + 1}')
                need(len(set(o.splits)) == len(o.splits), 'a split is used twice: %s', p)
                per = {t: path_cost(c, dict(p, target=t)) for t in c['targets']}
                m = max(per.values())
                need(per[p['target']] == m, 'path %s: target weights %s', p, per)
                need(close(o.cost, m), 'path %s has cost %s, target weights %s', p, o.cost, per)
                # the master's row constraints hold every satisfying row
                rc = m - dual_part(dict(c, rows=None), d, p, cuts)
                need(rc > 1e-6 - 1e-9, 'path %s has reduced cost %s', p, rc)
                key = (p['leaf'], tuple(sorted(zip(p['nodes'], p['splits']))), p['target'])
                need(key not in seen, 'path %s returned twice', p)
                seen.add(key)
                note('paths')
            need([n.candidate_splits for n in nodes] == nc, 'candidate splits were modified')
            for l in leaves:
                sd = side(c['depth'], l.id)
                need(set(l.left_nodes) == {n for n in sd if sd[n]} and set(l.right_nodes) == {n for n in sd if not sd[n]}, 'a leaf was modified')

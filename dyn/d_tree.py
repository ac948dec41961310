import itertools
import math
import random
import numpy as np
from ortools.linear_solver import pywraplp
from common import *
from col_gen_estimator import _dtree_classifier as T
from col_gen_estimator._dtree_classifier import Row, Path, Node, Leaf, Split, DTreeMasterProblem, DTreeClassifier


def instance(rng, dmax=2, nmax=6, smax=5, min_cand=1, rows=None):
    """A tree description as a JSON-able dict."""
    d = rng.randint(1, dmax)
    m = rng.randint(1, 3)
    pairs = [(f, t) for f in range(m) for t in (0, 1, 2)]
    ns = min(len(pairs), rng.randint(max(2, min_cand), smax))
    splits = rng.sample(pairs, ns)
    nodes = []
    for _ in range(2 ** d - 1):
        k = rng.randint(min(min_cand, ns), ns)
        nodes.append(sorted(rng.sample(range(ns), k), key=lambda x: rng.random()))
    n = rows if rows is not None else rng.randint(1, nmax)
    X = [[rng.randint(0, 3) for _ in range(m)] for _ in range(n)]
    nt = rng.choice([2, 2, 3])
    y = [rng.randrange(nt) for _ in range(n)]
    return dict(depth=d, splits=[list(s) for s in splits], nodes=nodes, X=X, y=y, targets=list(range(nt)))


def side(depth, leaf):
    """{ancestor node: is the leaf on its left} from the documented numbering."""
    out = {}
    k = 2 ** depth - 1 + leaf
    while k > 0:
        out[(k - 1) // 2] = k % 2 == 1
        k = (k - 1) // 2
    return out


def objects(c, rows=True):
    splits = []
    for i, (f, t) in enumerate(c['splits']):
        s = Split()
        s.id, s.feature, s.threshold = i, f, t
        for r, x in enumerate(c['X']):
            (s.left_rows if x[f] <= t else s.right_rows).add(r)
        splits.append(s)
    nodes = []
    for i, cand in enumerate(c['nodes']):
        nd = Node()
        nd.id, nd.candidate_splits = i, list(cand)
        nodes.append(nd)
    leaves = []
    for i in range(2 ** c['depth']):
        lf = Leaf()
        lf.id = i
        for n_, l in sorted(side(c['depth'], i).items()):
            (lf.left_nodes if l else lf.right_nodes).append(n_)
        leaves.append(lf)
    data_rows = None
    if c.get('rows') is not None:
        data_rows = []
        for w, rm, rs in c['rows']:
            r = Row()
            r.weight, r.removed_from_master, r.removed_from_sp = w, bool(rm), bool(rs)
            data_rows.append(r)
    return splits, nodes, leaves, data_rows


def rand_path(rng, c, leaf=None):
    l = rng.randrange(2 ** c['depth']) if leaf is None else leaf
    nd = list(side(c['depth'], l))
    rng.shuffle(nd)
    return dict(leaf=l, nodes=nd, splits=[rng.choice(c['nodes'][k]) for k in nd], target=rng.choice(c['targets']), cost=rng.randint(0, 5))


def mk_path(p):
    q = Path()
    q.leaf_id, q.node_ids, q.splits, q.target, q.cost = p['leaf'], list(p['nodes']), list(p['splits']), p['target'], p['cost']
    return q


def left(c, x, s):
    f, t = c['splits'][s]
    return x[f] <= t


def follows(c, x, p):
    sd = side(c['depth'], p['leaf'])
    return all(left(c, x, s) == sd[n] for n, s in zip(p['nodes'], p['splits']))


# ------------------------------------------------------------------ numbering
@driver('C08')
class Numbering:
    """every leaf of depth 1..8, then random leaves of depth up to 90"""
    def gen(rng, tier):
        for d in range(1, 9):
            for l in range(2 ** d):
                yield dict(d=d, l=l)
        for d in (20, 52, 53, 54, 60, 80):
            for l in (0, 1, 2 ** d - 1, 2 ** d // 3):
                yield dict(d=d, l=l)
        for _ in range(2000):
            d = rng.randint(9, 90)
            yield dict(d=d, l=rng.randrange(2 ** d))

    def check(c):
        sd = side(c['d'], c['l'])
        lf = Leaf()
        lf.left_nodes = [99]
        lf.create_leaf(c['l'], c['d'])
        need(lf.id == c['l'], 'leaf id %s', lf.id)
        need(sorted(lf.left_nodes) == sorted(n for n in sd if sd[n]), 'leaf %s at depth %s: left nodes %s, should be %s', c['l'], c['d'], lf.left_nodes, [n for n in sd if sd[n]])
        need(sorted(lf.right_nodes) == sorted(n for n in sd if not sd[n]), 'leaf %s at depth %s: right nodes %s', c['l'], c['d'], lf.right_nodes)
        p = Path()
        p.node_ids = [77]
        p.set_leaf(c['l'], c['d'])
        need(p.leaf_id == c['l'] and sorted(p.node_ids) == sorted(sd), 'path of leaf %s at depth %s: nodes %s', c['l'], c['d'], p.node_ids)
        need(all(isinstance(n, int) for n in [*lf.left_nodes, *lf.right_nodes, *p.node_ids]), 'node numbers are not integers')


@driver('C08')
class Children:
    """parents and children after row preprocessing, depth 1..5"""
    def gen(rng, tier):
        for d in range(1, 6):
            for k in range(3):
                ns = 2
                yield dict(depth=d, splits=[[0, 0], [0, 1]], nodes=[[rng.randrange(2)] for _ in range(2 ** d - 1)],
                           X=[[0], [1], [2]], y=[0, 1, 0], targets=[0, 1], aggr=k == 1, shuffle=rng.randint(0, 9) if k else None)

    def check(c):
        splits, nodes, leaves, _ = objects(c)
        if c['shuffle'] is not None:
            random.Random(c['shuffle']).shuffle(leaves)
            leaves.sort(key=lambda l: l.id)
        mp = DTreeMasterProblem([], leaves, nodes, splits)
        mp.X_ = np.array(c['X'])
        mp.preprocess_rows(c['aggr'])
        d = c['depth']
        for n in nodes:
            need(n.parent == (-1 if n.id == 0 else (n.id - 1) // 2), 'parent of node %s is %s', n.id, n.parent)
            a, b = 2 * n.id + 1, 2 * n.id + 2
            deep = a >= 2 ** d - 1
            if deep:
                a, b = a - (2 ** d - 1), b - (2 ** d - 1)
            need((n.left_child, n.right_child) == (a, b), 'children of node %s at depth %s: %s, %s', n.id, d, n.left_child, n.right_child)
            need(bool(n.children_are_leaves) == deep, 'children_are_leaves of node %s', n.id)


# -------------------------------------------------------------------- routing
@driver('C09')
class Routing:
    """random trees, paths and rows: row_satisfies_path, get_satisfied_rows/cuts and exactly-one-leaf"""
    def gen(rng, tier):
        while True:
            c = instance(rng, 3, 8, 6)
            c['path'] = rand_path(rng, c)
            c['tree'] = [rng.choice(k) for k in c['nodes']]
            c['cuts'] = [[rng.randint(0, 1) for _ in c['splits']] for _ in range(rng.randint(0, 3))]
            if rng.random() < 0.3:
                # values right next to the thresholds
                c['X'] = [[rng.choice([x, x + 1e-10, x - 1e-10, x + 1e-7, x - 1e-7]) for x in r] for r in c['X']]
            yield c

    def check(c):
        splits, nodes, leaves, _ = objects(c)
        for q, row in enumerate(c['cuts']):
            for i, s in enumerate(splits):
                (s.left_cuts if row[i] else s.right_cuts).add(q)
        X = np.array(c['X'])
        p = mk_path(c['path'])
        sd = side(c['depth'], p.leaf_id)
        before = [(set(s.left_rows), set(s.right_rows), set(s.left_cuts), set(s.right_cuts)) for s in splits]
        want = {r for r in range(len(X)) if follows(c, c['X'][r], c['path'])}
        got = T.get_satisfied_rows(p, leaves[p.leaf_id], splits)
        need(set(got) == want, 'rows satisfying %s: %s, should be %s', c['path'], got, want)
        wc = {q for q, row in enumerate(c['cuts']) if all(bool(row[s]) == sd[n] for n, s in zip(p.node_ids, p.splits))}
        gc = T.get_satisfied_cuts(p, leaves[p.leaf_id], splits)
        need(set(gc) == wc, 'cuts satisfied by %s: %s, should be %s', c['path'], gc, wc)
        for r in range(len(X)):
            g = bool(T.row_satisfies_path(X[r], leaves[p.leaf_id], splits, p))
            need(g == (r in want), 'row %s %s path %s: reported %s', r, c['X'][r], c['path'], g)
        need(before == [(s.left_rows, s.right_rows, s.left_cuts, s.right_cuts) for s in splits], 'split row/cut sets were modified')
        for r in range(len(X)):
            hits = []
            for l in range(2 ** c['depth']):
                nd = list(side(c['depth'], l))
                t = mk_path(dict(leaf=l, nodes=nd, splits=[c['tree'][n] for n in nd], target=0, cost=0))
                if T.row_satisfies_path(X[r], leaves[l], splits, t):
                    hits.append(l)
            need(len(hits) == 1, 'row %s satisfies %s paths of one tree', c['X'][r], len(hits))
        for sp in (T.DTreeSubProblem, T.DTreeSubProblemSat, T.DTreeSubProblemOld):
            o = sp.__new__(sp)
            o.X_ = X
            for r in range(len(X)):
                for s in splits:
                    need(bool(o.row_satisfies_split(r, s)) == (c['X'][r][s.feature] <= s.threshold), 'row %s split %s in %s', c['X'][r], (s.feature, s.threshold), sp.__name__)


# ------------------------------------------------------------------- identity
@driver('C10')
class Same:
    """random pairs of paths that differ in at most two fields or in order"""
    def gen(rng, tier):
        while True:
            n = rng.randint(0, 4)
            nodes = rng.sample(range(7), n)
            a = dict(leaf=rng.randint(0, 3), nodes=nodes, splits=[rng.randint(0, 3) for _ in nodes], target=rng.randint(0, 1), cost=rng.choice([0, 1, 2.5]))
            b = dict(a, nodes=list(a['nodes']), splits=list(a['splits']))
            o = list(range(n))
            rng.shuffle(o)
            b['nodes'] = [a['nodes'][k] for k in o]
            b['splits'] = [a['splits'][k] for k in o]
            for _ in range(rng.choice([0, 0, 1, 1, 2])):
                k = rng.choice(['leaf', 'target', 'cost', 'split', 'node', 'len', 'swap'])
                if k in ('leaf', 'target'):
                    b[k] = rng.randint(0, 3)
                elif k == 'cost':
                    b[k] = rng.choice([0, 1, 2.5, 3, a['cost'] + rng.choice([1e-3, 1e-5, 1e-8])])
                elif k == 'split' and n:
                    b['splits'][rng.randrange(len(b['splits']))] = rng.randint(0, 3)
                elif k == 'node' and n:
                    free = [x for x in range(7) if x not in b['nodes']]
                    b['nodes'][rng.randrange(len(b['nodes']))] = rng.choice(free)
                elif k == 'swap' and len(b['nodes']) > 1:
                    b['splits'][0], b['splits'][1] = b['splits'][1], b['splits'][0]
                elif k == 'len' and n:
                    if rng.random() < 0.5 and b['nodes']:
                        b['nodes'].pop()
                        b['splits'].pop()
                    else:
                        b['nodes'].append(max(b['nodes'], default=0) + 1)
                        b['splits'].append(0)
                n = len(b['nodes'])
            yield dict(a=a, b=b, ia=rng.randint(-1, 3), ib=rng.randint(-1, 3))

    def check(c):
        a, b = mk_path(c['a']), mk_path(c['b'])
        a.id, b.id = c['ia'], c['ib']
        a.initial = True
        va, vb = dict(vars(a)), dict(vars(b))
        want = all(c['a'][k] == c['b'][k] for k in ('leaf', 'target', 'cost')) and \
            set(zip(c['a']['nodes'], c['a']['splits'])) == set(zip(c['b']['nodes'], c['b']['splits']))
        need(bool(a.is_same_as(b)) == want, '%s same as %s: reported %s', c['a'], c['b'], not want)
        need(bool(b.is_same_as(a)) == want, '%s same as %s (swapped): reported %s', c['a'], c['b'], not want)
        need(bool(a.is_same_as(a)), 'a path is not the same as itself')
        need({k: (list(v) if isinstance(v, list) else v) for k, v in vars(a).items()} == va and vars(b) == vb and a.splits == c['a']['splits'], 'comparison modified a path')


# --------------------------------------------------------------------- master
def canon(M, col):
    """Order-free form of an LP: columns in col have names, the others are identified by the rows they link."""
    def rowkey(lb, ub, co):
        return (float(lb) if lb > -1e15 else None, float(ub) if ub < 1e15 else None, tuple(sorted((col[v], round(float(k), 9)) for v, k in co.items() if v in col)))
    sig = {}
    for v, (lb, ub, it, ob) in enumerate(M['vars']):
        if v not in col:
            sig[v] = (lb, ub if ub < 1e15 else None, ob, tuple(sorted((repr(rowkey(l, u, co)), co[v]) for l, u, co in M['cons'] if v in co)))
    rows = sorted(repr((rowkey(l, u, co), sorted((repr(sig[v]), k) for v, k in co.items() if v not in col))) for l, u, co in M['cons'])
    named = sorted((col[v], M['vars'][v][0], M['vars'][v][1] if M['vars'][v][1] < 1e15 else None, round(M['vars'][v][3], 9)) for v in col)
    return rows, named, sorted(map(repr, sig.values())), M['maxim'], M['off']


def expected(c, paths, rows, cuts=(), forced_ub=None):
    """The documented formulation as the same kind of model; paths by position."""
    inf = float('inf')
    vs = [(0.0, inf, True, p['cost']) for p in paths]
    cons = []
    for l in range(2 ** c['depth']):
        cons.append((1, 1, {i: 1.0 for i, p in enumerate(paths) if p['leaf'] == l}))
    for r in rows:
        cons.append((-inf, 1, {i: 1.0 for i, p in enumerate(paths) if follows(c, c['X'][r], p)}))
    for l in range(2 ** c['depth']):
        for n in side(c['depth'], l):
            for s in c['nodes'][n]:
                cons.append((0, 0, {**{i: 1.0 for i, p in enumerate(paths) if p['leaf'] == l and (n, s) in zip(p['nodes'], p['splits'])}, ('ns', n, s): -1.0}))
    for q in cuts:
        cons.append((1, 1, {i: 1.0 for i, p in enumerate(paths) if all(bool(q[s]) == side(c['depth'], p['leaf'])[n] for n, s in zip(p['nodes'], p['splits']))}))
    ns = sorted({v for _, _, co in cons for v in co if not isinstance(v, int)})
    ix = {v: len(paths) + k for k, v in enumerate(ns)}
    cons = [(l, u, {ix.get(v, v): k for v, k in co.items()}) for l, u, co in cons]
    return dict(vars=vs + [(0.0, inf, True, 0.0)] * len(ns), cons=cons, maxim=True, off=0.0)


def compare(c, mp, objs, paths, rows, cuts=(), what=''):
    M = mp_model(attr(mp, 'solver_'))
    need(len({o.id for o in objs}) == len(objs) and all(0 <= o.id < len(M['vars']) for o in objs), '%s: path variables %s', what, [o.id for o in objs])
    a = canon(M, {o.id: i for i, o in enumerate(objs)})
    b = canon(expected(c, paths, rows, cuts), {i: i for i in range(len(paths))})
    need(all(M['vars'][o.id][2] for o in objs), '%s: a path variable is not integer', what)
    for x, y, w in zip(a, b, ('constraints', 'path columns', 'link variables', 'direction', 'offset')):
        if x != y and isinstance(x, list):
            need(False, '%s: %s differ: extra %s missing %s', what, w, [k for k in x if k not in y][:3], [k for k in y if k not in x][:3])
        need(x == y, '%s: %s %s, expected %s', what, w, x, y)
    dr = attr(mp, 'data_rows')
    for r in range(len(c['X'])):
        want = {o.id for o, p in zip(objs, paths) if follows(c, c['X'][r], p)}
        need(set(dr[r].reachable_paths) == want, '%s: paths recorded for row %s: %s, satisfied %s', what, r, dr[r].reachable_paths, want)
    need(list(attr(mp, 'paths_')) == objs, '%s: current paths', what)


def reach(c, x):
    d = c['depth']
    nodes, leaves, st = set(), set(), [0]
    while st:
        n = st.pop()
        nodes.add(n)
        for s in c['nodes'][n]:
            k = 2 * n + (1 if left(c, x, s) else 2)
            if k >= 2 ** d - 1:
                leaves.add(k - (2 ** d - 1))
            elif k not in st and k not in nodes:
                st.append(k)
    return nodes, leaves


def active_rows(c, beta):
    if beta:
        return []
    if c.get('rows') is not None:
        return [r for r in range(len(c['X'])) if not c['rows'][r][1]]
    return [r for r in range(len(c['X'])) if len(reach(c, c['X'][r])[1]) > 2]


def rand_rows(rng, n):
    if rng.random() < 0.5:
        return None
    return [[rng.choice([1, 1, 2, 3, 0.25, 0.5, 2.5]), int(rng.random() < 0.3), int(rng.random() < 0.25)] for _ in range(n)]


def master(c, beta=False, gen=False, rounds=0):
    splits, nodes, leaves, rows = objects(c)
    init = [mk_path(p) for p in c['init']]
    for p in init:
        p.initial = c.get('marked', True)
    mp = DTreeMasterProblem(init, leaves, nodes, splits, beta_constraints_as_cuts=beta, generate_cuts=gen, num_cuts_round=rounds, data_rows=rows)
    X, y = np.array(c['X']), np.array(c['y'])
    mp.generate_mp(X, y)
    return mp, splits, nodes, leaves, list(init)


def tree_paths(rng, c):
    """The paths of one complete tree, so that the master is feasible."""
    tr = [rng.choice(k) for k in c['nodes']]
    out = []
    for l in range(2 ** c['depth']):
        nd = list(side(c['depth'], l))
        rng.shuffle(nd)
        out.append(dict(leaf=l, nodes=nd, splits=[tr[n] for n in nd], target=rng.choice(c['targets']), cost=rng.randint(0, 4)))
    return out


@driver('C11')
class TreeMaster:
    """random trees (depth <= 3), data, initial paths, given or computed row data, lazy rows, and added paths: exported model compared up to order"""
    def gen(rng, tier):
        while True:
            c = instance(rng, rng.choice([1, 2, 2, 3]), 6, 5)
            c['rows'] = rand_rows(rng, len(c['X']))
            c['init'] = (tree_paths(rng, c) if rng.random() < 0.6 else []) + [rand_path(rng, c) for _ in range(rng.randint(0, 3))]
            c['add'] = [rand_path(rng, c) for _ in range(rng.randint(0, 4))]
            c['beta'] = rng.random() < 0.25
            c['again'] = rng.random() < 0.3
            yield c

    def check(c):
        mp, splits, nodes, leaves, objs = master(c, c['beta'])
        paths = list(c['init'])
        rows = active_rows(c, c['beta'])
        if c.get('rows') is None and not c['beta']:
            rows = [r for r in range(len(c['X'])) if not mp.data_rows[r].removed_from_master]
        compare(c, mp, objs, paths, rows, what='after building')
        for k, p in enumerate(c['add']):
            if c['again']:
                mp.generate_mp(np.array([[5]]), np.array([0]))
            o = mk_path(p)
            need(mp.add_column(o), 'column reported as not added')
            objs.append(o)
            paths.append(p)
            compare(c, mp, objs, paths, rows, what=f'after adding path {k}')


@driver('C12')
class Preprocess:
    """random data and candidate splits (depth <= 3), with and without aggressive mode"""
    def gen(rng, tier):
        while True:
            c = instance(rng, 3, 8, 5)
            if rng.random() < 0.5:
                c['nodes'] = [k[:rng.randint(1, 2)] for k in c['nodes']]
            if rng.random() < 0.5:
                c['X'] = [rng.choice(c['X'][:3]) for _ in c['X']]
            c['init'] = [rand_path(rng, c) for _ in range(rng.randint(0, 3))]
            c['aggr'] = rng.random() < 0.6
            yield c

    def check(c):
        splits, nodes, leaves, _ = objects(c)
        init = [mk_path(p) for p in c['init']]
        for i, p in enumerate(init):
            p.id = i + 3
        mp = DTreeMasterProblem(init, leaves, nodes, splits)
        mp.X_, mp.y_ = np.array(c['X']), np.array(c['y'])
        rows = mp.preprocess_rows(c['aggr'])
        need(len(rows) == len(c['X']), '%s rows', len(rows))
        full = [reach(c, x) for x in c['X']]
        kept = []
        for r, x in enumerate(c['X']):
            q = rows[r]
            need(set(q.reachable_nodes) == full[r][0], 'row %s reaches nodes %s, computed %s', x, full[r][0], q.reachable_nodes)
            need(set(q.reachable_leaves) == full[r][1], 'row %s reaches leaves %s, computed %s', x, full[r][1], q.reachable_leaves)
            need(set(q.left_splits) == {s for s in range(len(splits)) if left(c, x, s)} and set(q.right_splits) == {s for s in range(len(splits)) if not left(c, x, s)}, 'split sides of row %s', x)
            need(set(q.reachable_paths) == {p.id for p, d in zip(init, c['init']) if follows(c, x, d)}, 'paths of row %s: %s', x, q.reachable_paths)
            if q.removed_from_master:
                dup = False
                if c['aggr']:
                    for k in kept:
                        if full[k][0] == full[r][0] and all(left(c, x, s) == left(c, c['X'][k], s) for n in full[r][0] for s in c['nodes'][n]):
                            dup = True
                need(len(full[r][1]) <= 2 or dup, 'row %s (%s reachable leaves) was dropped', x, len(full[r][1]))
            else:
                kept.append(r)
            need(not q.removed_from_sp and q.weight == 1, 'row %s removed from pricing', x)


def lp_values(mp):
    s = mp.solver_
    return [s.variable(p.id).solution_value() for p in mp.paths_]


def deep2(rng):
    """Depth-2 description with all (or most) paths and costs that favour fractional masters."""
    while True:
        m = rng.randint(2, 3)
        pairs = [(f, t) for f in range(m) for t in (0, 1)]
        ns = rng.randint(3, min(5, len(pairs)))
        sp = rng.sample(pairs, ns)
        nodes = [sorted(rng.sample(range(ns), rng.randint(2, min(3, ns)))) for _ in range(3)]
        X = [list(x) for x in itertools.product(range(3), repeat=m)]
        rng.shuffle(X)
        X = X[:rng.randint(6, 27)]
        c = dict(depth=2, splits=[list(q) for q in sp], nodes=nodes, X=X, y=[rng.randint(0, 1) for _ in X], targets=[0, 1])
        init = []
        for l in range(4):
            nd = list(side(2, l))
            for q in itertools.product(*[nodes[n] for n in nd]):
                init.append(dict(leaf=l, nodes=nd, splits=list(q), target=rng.randint(0, 1), cost=rng.choice([0, 0, 1, 5, 6, 9])))
        c['init'] = init
        return c


@driver('C13')
class Cuts:
    """masters over random path sets with lazy rows and/or cut generation: every round's added rows and cuts are compared with the definition, then columns are added"""
    minimum = 4

    def gen(rng, tier):
        while True:
            c = deep2(rng)
            c['rows'] = None if rng.random() < 0.5 else [[1, int(rng.random() < 0.2), 0] for _ in c['X']]
            c['add'] = [rand_path(rng, c) for _ in range(rng.randint(0, 3))]
            c['beta'] = rng.random() < 0.75
            c['cutgen'] = rng.random() < 0.4 or not c['beta']
            c['rounds'] = rng.randint(1, 3)
            vals = rng.choice([[0, 0, 0.25, 0.5, 0.5, 1], [0, 0, 0.5, 0.19, 0.29, 0.4], [0, 0.3, 0.1, 0.5, 0.099]])
            c['fake'] = [[rng.choice(vals) for _ in range(len(c['init']) + 3)] for _ in range(4)] if rng.random() < 0.6 else None
            if c['fake'] and rng.random() < 0.7:
                c['cutgen'], c['beta'] = True, rng.random() < 0.2
            yield c

    def check(c):
        mp, splits, nodes, leaves, objs = master(c, c['beta'], c['cutgen'], c['rounds'])
        paths = list(c['init'])
        cuts = []
        rows = set(active_rows(c, c['beta']))
        if c.get('rows') is None and not c['beta']:
            rows = {r for r in range(len(c['X'])) if not mp.data_rows[r].removed_from_master}
        dropped = {r for r in range(len(c['X'])) if mp.data_rows[r].removed_from_master}
        adds = list(c['add'])
        log = []
        ab, ac = mp.add_beta_cuts, mp.add_cuts
        if c.get('fake') and hasattr(mp, 'store_lp_solution'):
            # a fractional master solution written by hand, whatever the LP solver found
            store, turn = mp.store_lp_solution, []

            def fake_store():
                store()
                mp.path_solution_values = {o.id: c['fake'][len(turn) % 4][k] for k, o in enumerate(objs)}
                turn.append(1)
            mp.store_lp_solution = fake_store

        def values():
            return [mp.path_solution_values[o.id] for o in objs] if c.get('fake') and hasattr(mp, 'store_lp_solution') else lp_values(mp)

        def spy_beta():
            vals = values()
            had = set(r for r in range(len(c['X'])) if attr(mp, 'added_row')[r])
            n = ab()
            new = set(r for r in range(len(c['X'])) if mp.added_row[r]) - had
            log.append('b')
            note('lazy rows added', len(new))
            note('lazy rounds')
            need(n == len(new) and len(new) <= 10, 'reported %s lazily added rows, added %s', n, new)
            viol = []
            for r in range(len(c['X'])):
                v = sum(x for x, p in zip(vals, paths) if follows(c, c['X'][r], p))
                if r not in had and r not in dropped and abs(v - 1) > 1e-6:
                    viol.append(r)
                    if abs(abs(v - 1) - 1e-6) < 1e-8:
                        raise Skip('ambiguous')
            need(new <= set(viol), 'added constraints for rows %s, unsatisfied rows without one are %s', new, viol)
            need(len(new) == min(10, len(viol)), 'added constraints for rows %s of the unsatisfied rows %s', new, viol)
            rows.update(new)
            compare(c, mp, objs, paths, rows, cuts, 'after adding rows lazily')
            return n

        def none_to_find(vals, what):
            sds = [side(c['depth'], l) for l in range(len(leaves))]
            for q in itertools.product((0, 1), repeat=len(splits)):
                if not any(q[i] and not q[j] for i in range(len(splits)) for j in range(len(splits))
                           if c['splits'][i][0] == c['splits'][j][0] and c['splits'][i][1] < c['splits'][j][1]):
                    v = sum(x for x, p in zip(vals, paths) if all(bool(q[s]) == sds[p['leaf']][n] for n, s in zip(p['nodes'], p['splits'])))
                    need(v <= 1 + 1e-3, '%s although assignment %s has value %s', what, q, v)

        def spy_cuts():
            vals = values()
            n0 = len(attr(mp, 'cut_cons_'))
            rows_ = ac()
            log.append('c')
            note('cuts added', len(rows_))
            note('cut rounds')
            need(len(mp.cut_cons_) - n0 == len(rows_), '%s cut rows returned, %s constraints added', len(rows_), len(mp.cut_cons_) - n0)
            for q in rows_:
                need(len(q) == len(splits), 'cut assignment %s', q)
                for i in range(len(splits)):
                    for j in range(len(splits)):
                        if c['splits'][i][0] == c['splits'][j][0] and c['splits'][i][1] < c['splits'][j][1]:
                            need(not (q[i] and not q[j]), 'cut assignment %s is inconsistent on splits %s', q, c['splits'])
                v = sum(x for x, p in zip(vals, paths) if all(bool(q[s]) == side(c['depth'], p['leaf'])[n] for n, s in zip(p['nodes'], p['splits'])))
                need(v > 1 + 1e-7, 'cut %s has value %s in the current solution', q, v)
            if not rows_:
                none_to_find(vals, 'a cut round found none')
            k0 = len(cuts)
            cuts.extend([list(map(bool, q)) for q in rows_])
            compare(c, mp, objs, paths, rows, cuts, 'after adding cuts')
            for k in range(k0, len(cuts)):
                for i, s in enumerate(splits):
                    need((k in s.left_cuts) == cuts[k][i] and (k in s.right_cuts) == (not cuts[k][i]), 'split %s side of cut %s', i, k)
            new.extend(rows_)
            return rows_
        mp.add_beta_cuts, mp.add_cuts = spy_beta, spy_cuts
        new = []
        for it in range(31):
            del new[:]
            d = mp.solve_rmp()
            compare(c, mp, objs, paths, rows, cuts, f'after solve {it + 1}')
            need([list(q) for q in d[4]] == [list(q) for q in new], 'cuts reported to pricing %s, added %s', d[4], new)
            if it % 10 in (5, 8) and adds:
                o = mk_path(adds.pop())
                p = c['add'][len(adds)]
                need(mp.add_column(o), 'column not added')
                objs.append(o)
                paths.append(p)
                compare(c, mp, objs, paths, rows, cuts, 'after adding a column')
        if c['cutgen'] and not c['beta'] and not log:
            # thirty-one master solves and never asked for a cut: only right when there was none to find
            none_to_find(values(), 'no cut was ever generated')


@driver('C13')
class CutRounds:
    """hand-made fractional solutions: lazy-row rounds, cut rounds and added columns in random order on random trees (depth <= 3); rows, cuts and their sides recomputed"""
    minimum = 6

    def gen(rng, tier):
        while True:
            c = instance(rng, 3, 9, 5) if rng.random() < 0.6 else deep2(rng)
            many = rng.random() < 0.15
            if many:
                c['X'] = [[rng.randint(0, 3) for _ in c['X'][0]] for _ in range(14)]
                c['y'] = [rng.randrange(2) for _ in range(14)]
            c['rows'] = None if rng.random() < 0.4 and not many else [[1, int(rng.random() < 0.2), 0] for _ in c['X']]
            c['init'] = [rand_path(rng, c) for _ in range(rng.randint(1, 6))] if 'init' not in c else rng.sample(c['init'], min(8, len(c['init'])))
            c['beta'] = rng.random() < 0.7
            ops = []
            n = len(c['init'])
            for _ in range(rng.randint(2, 6)):
                o = rng.choice(['beta', 'cut', 'cut', 'col'] if c['beta'] else ['cut', 'col'])
                if o == 'col':
                    ops.append(['col', rand_path(rng, c)])
                    n += 1
                else:
                    ops.append([o, [rng.choice([0, 0, 0.25, 0.5, 0.5, 0.75, 1, 1 / 3]) for _ in range(n)]])
            c['ops'] = ops
            yield c

    def check(c):
        mp, splits, nodes, leaves, objs = master(c, c['beta'], True, 1)
        paths, cuts = list(c['init']), []
        sp = c['splits']
        dropped = {r for r in range(len(c['X'])) if attr(mp, 'data_rows')[r].removed_from_master}
        rows = set() if c['beta'] else set(range(len(c['X']))) - dropped
        pairs = [(i, j) for i in range(len(sp)) for j in range(len(sp)) if sp[i][0] == sp[j][0] and sp[i][1] < sp[j][1]]
        sds = [side(c['depth'], l) for l in range(len(leaves))]

        def hits(q, p):
            return all(bool(q[s]) == sds[p['leaf']][n] for n, s in zip(p['nodes'], p['splits']))
        for k, (op, arg) in enumerate(c['ops']):
            what = f'step {k + 1} ({op})'
            if op == 'col':
                o = mk_path(arg)
                need(mp.add_column(o), '%s: column not added', what)
                objs.append(o)
                paths.append(arg)
            else:
                mp.path_solution_values = {o.id: v for o, v in zip(objs, arg)}
            if op == 'beta':
                had = {r for r in range(len(c['X'])) if attr(mp, 'added_row')[r]}
                need(had == rows, '%s: rows marked as having a constraint %s, should be %s', what, had, rows)
                n = mp.add_beta_cuts()
                new = {r for r in range(len(c['X'])) if mp.added_row[r]} - had
                viol = [r for r in range(len(c['X'])) if r not in had and r not in dropped and abs(sum(v for v, p in zip(arg, paths) if follows(c, c['X'][r], p)) - 1) > 1e-6]
                note('lazy rows added', len(new))
                need(n == len(new), '%s: reported %s rows, added %s', what, n, new)
                need(new <= set(viol) and len(new) == min(10, len(viol)), '%s: added constraints for rows %s of the unsatisfied rows %s', what, new, viol)
                rows |= new
            if op == 'cut':
                got = mp.add_cuts()
                note('cut rounds')
                note('cuts added', len(got))
                best = 0.0
                for q in itertools.product((0, 1), repeat=len(sp)):
                    if any(q[i] and not q[j] for i, j in pairs):
                        continue
                    best = max(best, sum(v for v, p in zip(arg, paths) if hits(q, p)))
                if best > 1 + 1e-3:
                    need(len(got) > 0, '%s: an assignment of value %s exists but no cut was generated', what, best)
                for q in got:
                    need(len(q) == len(sp), '%s: cut assignment %s', what, q)
                    need(not any(q[i] and not q[j] for i, j in pairs), '%s: cut assignment %s is inconsistent on splits %s', what, q, sp)
                    v = sum(v for v, p in zip(arg, paths) if hits(q, p))
                    need(v > 1 + 1e-7, '%s: cut %s has value %s in the current solution', what, q, v)
                cuts.extend([list(map(bool, q)) for q in got])
            compare(c, mp, objs, paths, rows, cuts, what)
            for i, s in enumerate(splits):
                need(set(s.left_cuts) == {q for q in range(len(cuts)) if cuts[q][i]} and set(s.right_cuts) == {q for q in range(len(cuts)) if not cuts[q][i]}, '%s: cut sides of split %s', what, i)


@driver('C05')
class TreeDuals:
    """random tree masters, lazy rows, cuts and added columns: the returned duals are an optimal dual solution of the current linear program"""
    def gen(rng, tier):
        while True:
            c = instance(rng, rng.choice([1, 2, 2, 3]), 8, 5, 1)
            c['rows'] = None if rng.random() < 0.5 else [[1, int(rng.random() < 0.3), 0] for _ in c['X']]
            c['init'] = [p for _ in range(rng.randint(1, 3)) for p in tree_paths(rng, c)]
            c['add'] = [rand_path(rng, c) for _ in range(rng.randint(0, 4))]
            c['beta'] = rng.random() < 0.5
            c['cutgen'] = rng.random() < 0.15
            c['iters'] = rng.choice([3, 12])
            yield c

    def check(c):
        mp, splits, nodes, leaves, objs = master(c, c['beta'], c['cutgen'], 2)
        paths = list(c['init'])
        adds = list(c['add'])
        cuts = []
        for it in range(c['iters']):
            d = mp.solve_rmp()
            need(len(d) == 5, 'dual tuple')
            ld, rd, nd, cd, new = d
            cuts.extend([list(map(bool, q)) for q in new])
            if mp.rmp_result_status != pywraplp.Solver.OPTIMAL:
                raise Skip('LP not optimal')
            need(len(ld) == len(leaves) and len(rd) == len(c['X']) and len(cd) == len(cuts), 'dual vector lengths %s %s %s', len(ld), len(rd), len(cd))
            need(set(nd) == set(range(len(leaves))) and all(set(nd[l]) == set(side(c['depth'], l)) and all(set(nd[l][n]) == set(c['nodes'][n]) for n in nd[l]) for l in nd), 'link dual keys')
            for r in range(len(rd)):
                need(rd[r] >= -1e-7, 'row dual %s', rd[r])
                need(mp.added_row[r] or rd[r] == 0, 'row %s without constraint has dual %s', r, rd[r])
            for n in range(len(nodes)):
                for s in c['nodes'][n]:
                    t = sum(nd[l][n][s] for l in nd if n in nd[l])
                    need(t <= 1e-6, 'link duals of node %s split %s sum to %s', n, s, t)
            for p in paths:
                sd = side(c['depth'], p['leaf'])
                v = p['cost'] - ld[p['leaf']] - sum(rd[r] for r in range(len(rd)) if mp.added_row[r] and follows(c, c['X'][r], p)) \
                    - sum(nd[p['leaf']][n][s] for n, s in zip(p['nodes'], p['splits'])) \
                    - sum(cd[k] for k, q in enumerate(cuts) if all(bool(q[s]) == sd[n] for n, s in zip(p['nodes'], p['splits'])))
                need(v <= 1e-6, 'present path %s has reduced cost %s under the returned duals', p, v)
            z = sum(ld) + sum(rd) + sum(cd)
            need(close(z, mp.solver_.Objective().Value()), 'dual value %s, master value %s', z, mp.solver_.Objective().Value())
            if adds and it % 2 == 0:
                p = adds.pop()
                o = mk_path(p)
                mp.add_column(o)
                objs.append(o)
                paths.append(p)


@driver('C05')
class CutList:
    """several cut rounds within one master solve, the found cuts scripted: exactly the cuts of this call are handed out, in order"""
    def gen(rng, tier):
        while True:
            c = instance(rng, 2, 4, 4)
            c['rows'] = None
            c['init'] = tree_paths(rng, c)
            c['found'] = [[[rng.random() < 0.5 for _ in c['splits']] for _ in range(rng.choice([0, 1, 1, 2, 3]))] for _ in range(6)]
            c['rounds'] = rng.randint(1, 4)
            yield c

    def check(c):
        mp = master(c, False, True, c['rounds'])[0]
        attr(mp, 'add_cuts')
        todo, calls = [list(k) for k in c['found']], []

        def scripted():
            r = todo.pop(0) if todo else []
            calls.append(r)
            return r
        mp.add_cuts = scripted
        hit = 0
        for it in range(21):
            del calls[:]
            d = mp.solve_rmp()
            if mp.rmp_result_status != pywraplp.Solver.OPTIMAL:
                raise Skip('LP not optimal')
            need(len(calls) <= c['rounds'] and all(k for k in calls[:-1]), 'cut rounds %s with at most %s rounds', calls, c['rounds'])
            need(list(d[4]) == [q for k in calls for q in k], 'the rounds of this call found %s, handed to pricing: %s', calls, d[4])
            hit += len(calls) > 1
        if not hit:
            return
        note('several cut rounds in one call')


# ------------------------------------------------------- selection, prediction
@driver('C17')
class Select:
    """random masters: the selected paths are the positive variables of the integer solution, which is optimal for the current model"""
    def gen(rng, tier):
        while True:
            c = instance(rng, rng.choice([1, 1, 2]), 5, 4)
            c['rows'] = None
            c['init'] = [p for _ in range(rng.randint(1, 2)) for p in tree_paths(rng, c)]
            c['add'] = [rand_path(rng, c) for _ in range(rng.randint(0, 3))]
            c['twice'] = rng.random() < 0.3
            c['marked'] = rng.random() < 0.7
            yield c

    def check(c):
        mp, splits, nodes, leaves, objs = master(c)
        paths = list(c['init'])
        if c['twice']:
            mp.solve_ip()
        for p in c['add']:
            o = mk_path(p)
            mp.add_column(o)
            objs.append(o)
            paths.append(p)
        spy, real = [], pywraplp.Solver.CreateSolver

        def create(*a):
            s = real(*a)
            spy.append(s)
            return s
        pywraplp.Solver.CreateSolver = staticmethod(create)
        try:
            need(mp.solve_ip(), 'integer master reported unsolved')
        finally:
            pywraplp.Solver.CreateSolver = staticmethod(real)
        sel = attr(mp, 'selected_paths')
        ix = [[k for k, o in enumerate(objs) if o is s] for s in sel]
        need(all(len(k) == 1 for k in ix) and len({k[0] for k in ix}) == len(ix), 'selected paths are not distinct current paths')
        pick = [k[0] for k in ix]
        need(pick == sorted(pick), 'selected paths are out of order: %s', pick)
        E = expected(c, paths, [r for r in range(len(c['X'])) if not mp.data_rows[r].removed_from_master])

        def feasible(sub):
            if sorted(paths[k]['leaf'] for k in sub) != list(range(len(leaves))):
                return False
            use = {}
            for k in sub:
                for n, s in zip(paths[k]['nodes'], paths[k]['splits']):
                    if use.setdefault(n, s) != s:
                        return False
            return True
        need(feasible(pick), 'selected paths %s are not a tree', [paths[k] for k in pick])
        best = max((sum(paths[k]['cost'] for k in sub) for sub in itertools.product(*[[k for k, p in enumerate(paths) if p['leaf'] == l] for l in range(len(leaves))]) if feasible(sub)), default=None)
        got = sum(paths[k]['cost'] for k in pick)
        need(best is not None and close(got, best), 'selected tree has value %s, the best has %s', got, best)
        if len(spy) == 1 and spy[0].NumVariables() == mp.solver_.NumVariables():
            sol = [k for k, o in enumerate(objs) if spy[0].variable(o.id).solution_value() > 0]
            need(pick == sol, 'selected %s, the integer solution has %s', pick, sol)


@driver('C17')
class TreePredict:
    """random selected trees (and incomplete selections) and rows, int and string labels"""
    def gen(rng, tier):
        while True:
            c = instance(rng, 3, 6, 6)
            c['targets'] = [0, 1]
            c['sel'] = tree_paths(rng, c)
            rng.shuffle(c['sel'])
            if rng.random() < 0.3:
                c['sel'] += [rand_path(rng, c) for _ in range(2)]
            for p in c['sel']:
                p['target'] = rng.randint(0, 1)
            c['labels'] = rng.choice([[0, 1], [4, 2], ['x', 'a']])
            yield c

    def check(c):
        splits, nodes, leaves, _ = objects(c)
        clf = DTreeClassifier(initial_paths=[], leaves=leaves, nodes=nodes, splits=splits, tree_depth=c['depth'], targets=[0, 1])
        from sklearn.preprocessing import LabelEncoder
        clf.label_encoder_ = LabelEncoder().fit(c['labels'])
        clf.classes_ = np.array(sorted(c['labels']))
        clf.is_fitted_ = True
        clf.master_problem.selected_paths = [mk_path(p) for p in c['sel']]
        got = list(clf.predict(np.array(c['X'])))
        lab = sorted(c['labels'])
        for x, g in zip(c['X'], got):
            t = [p['target'] for p in c['sel'] if follows(c, x, p)]
            need(t and g == lab[t[0]], 'row %s satisfies selected paths with targets %s, predicted %s', x, t, g)

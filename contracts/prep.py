"""C12: why the row constraints that preprocessing drops are implied by the ones that are kept.

Values `vals` of the path variables satisfy the master's leaf rows (`leafx`: the paths of a leaf sum to 1) and consistency rows
(`linkx`: for a node and a split the paths of every leaf below sum to the same value), as generate_mp's contract says (C11)."""
from engine.vals import *
from contracts import dtm


def register(C):
    P, SP, LV, NODES, LI, PS, X = REF('Path'), LIST(REF('Split')), LIST(REF('Leaf')), LIST(REF('Node')), LIST(INT), LIST(REF('Path')), LIST(REAL)
    L, V = FMAP(BOOL), FMAP(REAL)
    lem = lambda name, params, req, ens, **k: C.lemma(name, params, req, ens, props=['C12'], **k)
    # ---- a legitimate path: it lists every ancestor of its leaf once, each with a candidate split
    C.pred('legit', {'leaves': LV, 'nodes': NODES, 'p': P, 'd': INT}, """0 <= p.leaf_id and p.leaf_id <= len(nodes) and len(p.node_ids) == len(p.splits)
        and all(any(0 <= k and k < d and p.node_ids[i] == up(p.leaf_id + len(nodes), k + 1) for k in ints()) for i in range(len(p.node_ids)))
        and all(any(p.node_ids[i] == up(p.leaf_id + len(nodes), k + 1) for i in range(len(p.node_ids))) for k in range(d))
        and all(p.node_ids[i] != p.node_ids[j] for j in range(len(p.node_ids)) for i in range(j))
        and all(has_cand(nodes[p.node_ids[i]], p.splits[i]) for i in range(len(p.node_ids)))""", opaque=True)
    # the ancestors of leaf l, as create_leaf numbers them (C08)
    C.pred('sided', {'leaves': LV, 'nodes': NODES, 'l': INT, 'd': INT}, """all(iff(up(l + len(nodes), k + 1) in leaves[l].left_nodes, up(l + len(nodes), k) % 2 == 1) for k in range(d))""", opaque=True)
    C.pred('goesleft', {'x': X, 'splits': SP, 'L': L}, 'all(iff(L[s], x[splits[s].feature] <= splits[s].threshold) for s in range(len(splits)))', opaque=True)
    C.pred('cands_in', {'nodes': NODES, 'splits': SP}, 'all(0 <= nodes[n].candidate_splits[b] and nodes[n].candidate_splits[b] < len(splits) for n in range(len(nodes)) for b in range(len(nodes[n].candidate_splits)))', opaque=True)
    TREE = ['d >= 0', 'len(nodes) == pow2(d) - 1']
    TP = {'leaves': LV, 'nodes': NODES, 'p': P, 'd': INT}
    POS = 'p.leaf_id + len(nodes)'
    GO = 'goes(x, leaves, splits, p)'
    # a path that a row follows turns, at each ancestor, to the side of its leaf
    C.pred('at_', {'nodes': NODES, 'p': P, 'L': L, 'n': INT, 'left': BOOL}, 'any(iff(L[nodes[n].candidate_splits[b]], left) and on(p, n, nodes[n].candidate_splits[b]) for b in range(len(nodes[n].candidate_splits)))', opaque=True)
    ROWD = {'x': X, 'splits': SP, 'L': L}
    lem('step_to', dict(TP, **ROWD, k=INT), TREE + ['legit(leaves, nodes, p, d)', 'sided(leaves, nodes, p.leaf_id, d)', 'goesleft(x, splits, L)', 'cands_in(nodes, splits)', GO, '0 <= k', 'k < d'],
        [f'at_(nodes, p, L, up({POS}, k + 1), up({POS}, k) % 2 == 1)', f'turn(nodes[up({POS}, k + 1)], L, up({POS}, k) % 2 == 1)'],
        asserts=[f'use up_level({POS}, d, k + 1)', f'use pow2_less(d - k - 1, d)', f'0 <= up({POS}, k + 1) and up({POS}, k + 1) < len(nodes)',
                 f'any(p.node_ids[i] == up({POS}, k + 1) and has_cand(nodes[up({POS}, k + 1)], p.splits[i]) and iff(L[p.splits[i]], up({POS}, k) % 2 == 1) for i in range(len(p.node_ids)))'])
    lem('gets_to', dict(TP, **ROWD, R=L, j=INT), TREE + ['legit(leaves, nodes, p, d)', 'sided(leaves, nodes, p.leaf_id, d)', 'goesleft(x, splits, L)', 'cands_in(nodes, splits)', GO, 'reach_ok(nodes, L, R, len(nodes))', '0 <= j', 'j < d'],
        [f'R[up({POS}, d - j)]'], induct='j', uses=['gets_to(leaves, nodes, p, d, x, splits, L, R, j - 1)'],
        asserts=[f'use up_level({POS}, d, d - j)', f'use up_level({POS}, d, d - j + 1)', 'use pow2_less(j, d)', f'implies(j > 0, up({POS}, d - j + 1) == (up({POS}, d - j) - 1) // 2)', 'use step_to(leaves, nodes, p, d, x, splits, L, d - j)'])
    lem('gets_at', dict(TP, **ROWD, R=L, k=INT), TREE + ['legit(leaves, nodes, p, d)', 'sided(leaves, nodes, p.leaf_id, d)', 'goesleft(x, splits, L)', 'cands_in(nodes, splits)', GO, 'reach_ok(nodes, L, R, len(nodes))', '0 < k', 'k <= d'],
        [f'R[up({POS}, k)]'], asserts=['use gets_to(leaves, nodes, p, d, x, splits, L, R, d - k)'])
    ARR = dict(TP, **ROWD, R=L, F=L)
    LEGIT = TREE + ['legit(leaves, nodes, p, d)', 'sided(leaves, nodes, p.leaf_id, d)', 'cands_in(nodes, splits)', 'd > 0']
    lem('arrives', ARR, LEGIT + ['goesleft(x, splits, L)', GO, 'reach_ok(nodes, L, R, len(nodes))', 'leaves_ok(nodes, L, R, F, len(nodes))'], ['F[p.leaf_id]'],
        asserts=['use gets_to(leaves, nodes, p, d, x, splits, L, R, d - 1)', 'use step_to(leaves, nodes, p, d, x, splits, L, 0)', f'up({POS}, 1) == ({POS} - 1) // 2', f'use up_level({POS}, d, 1)', 'use pow2_less(d - 1, d)'])
    # ---- rows that go to the same side of every split they can meet follow the same paths
    lem('alike_at', {'nodes': NODES, 'splits': SP, 'R': L, 'L': L, 'L2': L, 'n': INT, 's': INT}, ['alike(nodes, R, L, L2)', 'cands_in(nodes, splits)', '0 <= n', 'n < len(nodes)', 'R[n]', 'has_cand(nodes[n], s)'], ['iff(L[s], L2[s]) and 0 <= s and s < len(splits)'],
        asserts=['any(nodes[n].candidate_splits[b] == s for b in range(len(nodes[n].candidate_splits)))'])
    TWO = dict(TP, splits=SP, x=X, x2=X, L=L, L2=L, R=L)
    ONE_WAY = [GO, 'reach_ok(nodes, L, R, len(nodes))', 'goesleft(x, splits, L)', 'goesleft(x2, splits, L2)', 'alike(nodes, R, L, L2)']
    lem('alike_follow', TWO, LEGIT + ONE_WAY, [GO.replace('x,', 'x2,')],
        asserts=['use all(gets_at(leaves, nodes, p, d, x, splits, L, R, k) for k in ints())', f'use all(up_level({POS}, d, k) for k in ints())', 'use all(pow2_less(j, d) for j in ints())',
                 'all(0 <= p.node_ids[i] and p.node_ids[i] < len(nodes) and R[p.node_ids[i]] for i in range(len(p.node_ids)))',
                 'all(has_cand(nodes[p.node_ids[i]], p.splits[i]) for i in range(len(p.node_ids)))', 'use all(alike_at(nodes, splits, R, L, L2, p.node_ids[i], p.splits[i]) for i in ints())',
                 'all(iff(L[p.splits[i]], L2[p.splits[i]]) and 0 <= p.splits[i] and p.splits[i] < len(splits) for i in range(len(p.node_ids)))'])
    lem('alike_same', TWO, LEGIT + ['reach_ok(nodes, L, R, len(nodes))', 'reach_ok(nodes, L2, R, len(nodes))', 'goesleft(x, splits, L)', 'goesleft(x2, splits, L2)', 'alike(nodes, R, L, L2)'], ['iff(' + GO + ', ' + GO.replace('x,', 'x2,') + ')'],
        asserts=['use alike_follow(leaves, nodes, p, d, splits, x, x2, L, L2, R)', 'alike(nodes, R, L2, L)', 'use alike_follow(leaves, nodes, p, d, splits, x2, x, L2, L, R)'])
    MS = {'leaves': LV, 'splits': SP, 'paths': PS, 'vals': V}
    lem('covered_same', dict(MS, x=X, x2=X, n=INT), ['n >= 0', 'all(iff(goes(x, leaves, splits, paths[j]), goes(x2, leaves, splits, paths[j])) for j in range(n))'], ['covered(x, leaves, splits, paths, vals, n) == covered(x2, leaves, splits, paths, vals, n)'],
        induct='n', uses=['covered_same(leaves, splits, paths, vals, x, x2, n - 1)'])
    # ---- a row that reaches at most two leaves: sums over the paths of one leaf; of one leaf with a split at a node; ... that the row follows
    C.rec('leafx', {'paths': PS, 'vals': V, 'l': INT}, 'j', 'ite(paths[j].leaf_id == l, vals[paths[j].id], 0)', REAL)
    C.rec('linkx', {'paths': PS, 'vals': V, 'l': INT, 'v': INT, 's': INT}, 'j', 'ite(paths[j].leaf_id == l and on(paths[j], v, s), vals[paths[j].id], 0)', REAL)
    C.rec('covl', dict(MS, x=X, l=INT), 'j', 'ite(paths[j].leaf_id == l and goes(x, leaves, splits, paths[j]), vals[paths[j].id], 0)', REAL)
    # over the candidates of a node that send a row to one side
    C.rec('sidex', {'paths': PS, 'vals': V, 'l': INT, 'v': INT, 'cand': LI, 'L': L, 'left': BOOL, 'n': INT}, 'b', 'ite(L[cand[b]] == left, linkx(paths, vals, l, v, cand[b], n), 0)', REAL)
    C.rec('onex', {'p': P, 'l': INT, 'v': INT, 'cand': LI, 'L': L, 'left': BOOL, 'z': REAL}, 'b', 'ite(L[cand[b]] == left and p.leaf_id == l and on(p, v, cand[b]), z, 0)', REAL)
    SD = {'paths': PS, 'vals': V, 'l': INT, 'v': INT, 'cand': LI, 'L': L, 'left': BOOL}
    lem('side_none', dict(SD, k=INT), ['k >= 0'], ['sidex(paths, vals, l, v, cand, L, left, 0, k) == 0'], induct='k', uses=['side_none(paths, vals, l, v, cand, L, left, k - 1)'], asserts=['implies(k > 0, linkx(paths, vals, l, v, cand[k - 1], 0) == 0)'])
    lem('side_next', dict(SD, n=INT, k=INT), ['n > 0', 'k >= 0'], ['sidex(paths, vals, l, v, cand, L, left, n, k) == sidex(paths, vals, l, v, cand, L, left, n - 1, k) + onex(paths[n - 1], l, v, cand, L, left, vals[paths[n - 1].id], k)'],
        induct='k', uses=['side_next(paths, vals, l, v, cand, L, left, n, k - 1)'], asserts=['implies(k > 0, linkx(paths, vals, l, v, cand[k - 1], n) == linkx(paths, vals, l, v, cand[k - 1], n - 1) + ite(paths[n - 1].leaf_id == l and on(paths[n - 1], v, cand[k - 1]), vals[paths[n - 1].id], 0))'])
    ON = {'p': P, 'l': INT, 'v': INT, 'cand': LI, 'L': L, 'left': BOOL, 'z': REAL, 'k': INT}
    OA = 'p, l, v, cand, L, left, z'
    lem('one_pos', ON, ['k >= 0', 'z >= 0'], [f'onex({OA}, k) >= 0'], induct='k', uses=[f'one_pos({OA}, k - 1)'])
    lem('one_ge', dict(ON, b=INT), ['0 <= b', 'b < k', 'z >= 0', 'L[cand[b]] == left and p.leaf_id == l and on(p, v, cand[b])'], [f'onex({OA}, k) >= z'], induct='k', uses=[f'one_ge({OA}, k - 1, b)'], asserts=[f'use one_pos({OA}, k - 1)'])
    lem('one_none', ON, ['k >= 0', 'all(not on(p, v, cand[b]) or p.leaf_id != l for b in range(k))'], [f'onex({OA}, k) == 0'], induct='k', uses=[f'one_none({OA}, k - 1)'])
    T_, F_ = 'p, l, v, cand, L, True, z', 'p, l, v, cand, L, False, z'
    ON2 = {k: t for k, t in ON.items() if k != 'left'}
    lem('one_le', ON2, ['k >= 0', 'z >= 0', 'all(implies(on(p, v, cand[b]) and on(p, v, cand[a]), a == b) for b in range(k) for a in range(b))'], [f'onex({T_}, k) + onex({F_}, k) <= ite(p.leaf_id == l, z, 0)'], induct='k', uses=['one_le(p, l, v, cand, L, z, k - 1)'],
        asserts=[f'use one_none({T_}, k - 1)', f'use one_none({F_}, k - 1)', f'use one_none({T_}, k)', f'use one_none({F_}, k)'])
    SA = 'paths, vals, l, v, cand, L, {}'
    POSV = 'all(vals[paths[j].id] >= 0 for j in range(n))'
    MX = 'leaves, splits, paths, vals, x'
    lem('side_ge', dict(MS, x=X, l=INT, v=INT, cand=LI, L=L, left=BOOL, n=INT), ['n >= 0', POSV, 'all(implies(paths[j].leaf_id == l and goes(x, leaves, splits, paths[j]), any(L[cand[b]] == left and on(paths[j], v, cand[b]) for b in range(len(cand)))) for j in range(n))'],
        [f'covl({MX}, l, n) <= sidex(paths, vals, l, v, cand, L, left, n, len(cand))'], induct='n', uses=[f'side_ge({MX}, l, v, cand, L, left, n - 1)'],
        asserts=['use side_none(paths, vals, l, v, cand, L, left, len(cand))', 'use side_next(paths, vals, l, v, cand, L, left, n, len(cand))', 'use one_pos(paths[n - 1], l, v, cand, L, left, vals[paths[n - 1].id], len(cand))',
                 'use all(one_ge(paths[n - 1], l, v, cand, L, left, vals[paths[n - 1].id], len(cand), b) for b in ints())'])
    ONCE = 'all(implies(on(paths[j], v, cand[b]) and on(paths[j], v, cand[a]), a == b) for j in range(n) for b in range(len(cand)) for a in range(b))'
    lem('side_le', {'paths': PS, 'vals': V, 'l': INT, 'v': INT, 'cand': LI, 'L': L, 'n': INT}, ['n >= 0', POSV, ONCE], [f'sidex({SA.format("True")}, n, len(cand)) + sidex({SA.format("False")}, n, len(cand)) <= leafx(paths, vals, l, n)'],
        induct='n', uses=['side_le(paths, vals, l, v, cand, L, n - 1)'],
        asserts=[f'use side_none({SA.format(b)}, len(cand))' for b in ('True', 'False')] + [f'use side_next({SA.format(b)}, n, len(cand))' for b in ('True', 'False')] + ['use one_le(paths[n - 1], l, v, cand, L, vals[paths[n - 1].id], len(cand))'])
    lem('side_same', dict(SD, l2=INT, n=INT, k=INT), ['k >= 0', 'all(linkx(paths, vals, l, v, cand[b], n) == linkx(paths, vals, l2, v, cand[b], n) for b in range(k))'], ['sidex(paths, vals, l, v, cand, L, left, n, k) == sidex(paths, vals, l2, v, cand, L, left, n, k)'],
        induct='k', uses=['side_same(paths, vals, l, v, cand, L, left, l2, n, k - 1)'])
    lem('covl_le', dict(MS, x=X, l=INT, n=INT), ['n >= 0', POSV], [f'covl({MX}, l, n) <= leafx(paths, vals, l, n)', f'covl({MX}, l, n) >= 0'], induct='n', uses=[f'covl_le({MX}, l, n - 1)'])
    lem('covl_two', dict(MS, x=X, l=INT, l2=INT, n=INT), ['n >= 0', POSV, 'all(implies(goes(x, leaves, splits, paths[j]), paths[j].leaf_id == l or paths[j].leaf_id == l2) for j in range(n))'],
        [f'covered(x, leaves, splits, paths, vals, n) <= covl({MX}, l, n) + ite(l == l2, 0, covl({MX}, l2, n))'], induct='n', uses=[f'covl_two({MX}, l, l2, n - 1)'])
    # the node at which the ways to two leaves part
    lem('part', {'c': INT, 'c2': INT, 'd': INT}, ['d >= 0', 'c != c2', 'up(c, d) == up(c2, d)'], ['any(up(c, k) != up(c2, k) and up(c, k + 1) == up(c2, k + 1) for k in range(d))'], induct='d', uses=['part(c, c2, d - 1)'])
    lem('root', {'c': INT, 'd': INT}, ['d >= 0', 'c >= pow2(d) - 1', 'c <= 2 * pow2(d) - 2'], ['up(c, d) == 0'], asserts=['use up_level(c, d, d)'])
    ALLP = lambda t: f'all(pat(paths[j], {t}) for j in range(len(paths)))'
    ONEP = lambda t: t.replace('p.leaf_id', 'paths[j].leaf_id').replace(', p,', ', paths[j],')
    LEGITS = TREE + ['d > 0', ALLP('legit(leaves, nodes, paths[j], d)'), 'all(sided(leaves, nodes, l, d) for l in range(len(nodes) + 1))', 'cands_in(nodes, splits)',
                     'all(nodes[n].candidate_splits[a] != nodes[n].candidate_splits[b] for n in range(len(nodes)) for b in range(len(nodes[n].candidate_splits)) for a in range(b))']
    # what a solution of the reduced master satisfies
    C.pred('solves', {'nodes': NODES, 'paths': PS, 'vals': V, 'd': INT}, """all(vals[paths[j].id] >= 0 for j in range(len(paths))) and all(leafx(paths, vals, l, len(paths)) == 1 for l in range(len(nodes) + 1))
        and all(implies(up(l + len(nodes), k + 1) == up(l2 + len(nodes), k + 1), linkx(paths, vals, l, up(l + len(nodes), k + 1), nodes[up(l + len(nodes), k + 1)].candidate_splits[b], len(paths)) == linkx(paths, vals, l2, up(l + len(nodes), k + 1), nodes[up(l + len(nodes), k + 1)].candidate_splits[b], len(paths)))
            for l in range(len(nodes) + 1) for l2 in range(len(nodes) + 1) for k in range(d) for b in range(len(nodes[up(l + len(nodes), k + 1)].candidate_splits)))""", opaque=True)
    MP = dict(MS, nodes=NODES, d=INT)
    VN, CN_ = 'up(l + len(nodes), k + 1)', 'nodes[up(l + len(nodes), k + 1)].candidate_splits'
    lem('two_ways', dict(MP, x=X, L=L, l=INT, l2=INT, k=INT), LEGITS + ['solves(nodes, paths, vals, d)', 'goesleft(x, splits, L)', '0 <= l', 'l <= len(nodes)', '0 <= l2', 'l2 <= len(nodes)', '0 <= k', 'k < d', 'up(l + len(nodes), k) % 2 == 1', 'up(l2 + len(nodes), k) % 2 == 0',
        'up(l + len(nodes), k + 1) == up(l2 + len(nodes), k + 1)'], [f'covl({MX}, l, len(paths)) + covl({MX}, l2, len(paths)) <= 1'],
        asserts=[f'use up_level(l + len(nodes), d, k + 1)', 'use pow2_less(d - k - 1, d)', f'0 <= {VN} and {VN} < len(nodes)', 'use all(step_to(leaves, nodes, paths[j], d, x, splits, L, k) for j in ints())',
                 f'all(implies(paths[j].leaf_id == l and goes(x, leaves, splits, paths[j]), at_(nodes, paths[j], L, {VN}, True)) for j in range(len(paths)))', f'all(implies(paths[j].leaf_id == l2 and goes(x, leaves, splits, paths[j]), at_(nodes, paths[j], L, {VN}, False)) for j in range(len(paths)))',
                 f'use side_ge({MX}, l, {VN}, {CN_}, L, True, len(paths))', f'use side_ge({MX}, l2, {VN}, {CN_}, L, False, len(paths))',
                 f'use side_same(paths, vals, l, {VN}, {CN_}, L, False, l2, len(paths), len({CN_}))',
                 f'all(implies(on(paths[j], {VN}, {CN_}[b]) and on(paths[j], {VN}, {CN_}[a]), a == b) for j in range(len(paths)) for b in range(len({CN_})) for a in range(b))', f'use side_le(paths, vals, l, {VN}, {CN_}, L, len(paths))'])
    lem('two_leaves', dict(MP, x=X, L=L, l=INT, l2=INT), LEGITS + ['solves(nodes, paths, vals, d)', 'goesleft(x, splits, L)', '0 <= l', 'l <= len(nodes)', '0 <= l2', 'l2 <= len(nodes)',
        'all(implies(goes(x, leaves, splits, paths[j]), paths[j].leaf_id == l or paths[j].leaf_id == l2) for j in range(len(paths)))'], ['covered(x, leaves, splits, paths, vals, len(paths)) <= 1'],
        asserts=[f'use covl_two({MX}, l, l2, len(paths))', f'use covl_le({MX}, l, len(paths))', 'use root(l + len(nodes), d)', 'use root(l2 + len(nodes), d)', 'use part(l + len(nodes), l2 + len(nodes), d)',
                 'implies(l != l2, any(up(l + len(nodes), k) != up(l2 + len(nodes), k) and up(l + len(nodes), k + 1) == up(l2 + len(nodes), k + 1) and up(l + len(nodes), k) % 2 + up(l2 + len(nodes), k) % 2 == 1 for k in range(d)))',
                 'use all(two_ways(leaves, splits, paths, vals, nodes, d, x, L, l, l2, k) for k in ints())', 'use all(two_ways(leaves, splits, paths, vals, nodes, d, x, L, l2, l, k) for k in ints())'])
    L1 = 'ite(F[pick(F, 0)], pick(F, 0), ite(F[pick(F, 1)], pick(F, 1), 0))'
    lem('few_leaves', dict(MP, x=X, L=L, R=L, F=L), LEGITS + ['solves(nodes, paths, vals, d)', 'goesleft(x, splits, L)', 'reach_ok(nodes, L, R, len(nodes))', 'leaves_ok(nodes, L, R, F, len(nodes))', 'card(F) <= 2'], ['covered(x, leaves, splits, paths, vals, len(paths)) <= 1'],
        asserts=['use all(arrives(leaves, nodes, paths[j], d, x, splits, L, R, F) for j in ints())', 'all(implies(goes(x, leaves, splits, paths[j]), F[paths[j].leaf_id]) for j in range(len(paths)))',
                 f'use two_leaves(leaves, splits, paths, vals, nodes, d, x, L, {L1}, ite(F[pick(F, 1)], pick(F, 1), {L1}))'])
    # ---- what preprocess_rows returns (its postcondition): with the kept rows, every row holds
    ROWS = {'X': MAT, 'rows': LIST(REF('Row'))}
    E = lambda f, r='r': f'elems(rows[{r}].{f})'
    RROW = [f'all(sides_ok(X[r], splits, {E("left_splits")}, {E("right_splits")}, len(splits)) for r in range(len(rows)))', f'all(reach_ok(nodes, {E("left_splits")}, {E("reachable_nodes")}, len(nodes)) for r in range(len(rows)))',
            f'all(leaves_ok(nodes, {E("left_splits")}, {E("reachable_nodes")}, {E("reachable_leaves")}, len(nodes)) for r in range(len(rows)))']
    SAME = f'same(rows[q].reachable_nodes, rows[r].reachable_nodes) and alike(nodes, {E("reachable_nodes", "q")}, {E("left_splits", "q")}, {E("left_splits")})'
    COV = 'covered(X[{r}], leaves, splits, paths, vals, len(paths))'
    lem('side_goes', dict(x=X, splits=SP, L=L, G=L), ['sides_ok(x, splits, L, G, len(splits))'], ['goesleft(x, splits, L)'])
    lem('row_like', dict(MP, **ROWS, q=INT, r=INT), LEGITS + RROW + ['0 <= q', 'q < len(rows)', '0 <= r', 'r < len(rows)', SAME], [COV.format(r='q') + ' == ' + COV.format(r='r')],
        asserts=[f'use side_goes(X[{i}], splits, {E("left_splits", i)}, {E("right_splits", i)})' for i in 'qr'] + [f'use all(alike_same(leaves, nodes, paths[j], d, splits, X[q], X[r], {E("left_splits", "q")}, {E("left_splits")}, {E("reachable_nodes", "q")}) for j in ints())',
                 'use covered_same(leaves, splits, paths, vals, X[q], X[r], len(paths))'])
    lem('row_few', dict(MP, **ROWS, r=INT), LEGITS + RROW + ['solves(nodes, paths, vals, d)', '0 <= r', 'r < len(rows)', 'len(rows[r].reachable_leaves) <= 2'], [COV.format(r='r') + ' <= 1'],
        asserts=[f'use side_goes(X[r], splits, {E("left_splits")}, {E("right_splits")})', f'use few_leaves(leaves, splits, paths, vals, nodes, d, X[r], {E("left_splits")}, {E("reachable_nodes")}, {E("reachable_leaves")})'])
    lem('dropped_rows', dict(MP, **ROWS), LEGITS + RROW + ['solves(nodes, paths, vals, d)', f'all(implies(rows[r].removed_from_master and not len(rows[r].reachable_leaves) <= 2, any(not rows[q].removed_from_master and {SAME} for q in range(r))) for r in range(len(rows)))',
        'all(implies(not rows[r].removed_from_master, ' + COV.format(r='r') + ' <= 1) for r in range(len(rows)))'], ['all(' + COV.format(r='r') + ' <= 1 for r in range(len(rows)))'],
        asserts=['use all(row_few(leaves, splits, paths, vals, nodes, d, X, rows, r) for r in ints())', 'use all(row_like(leaves, splits, paths, vals, nodes, d, X, rows, q, r) for q in ints() for r in ints())'])
    K = C.funcs['DTreeMasterProblem.preprocess_rows']
    SELF = lambda t, rows: (__import__('re').sub(r'\b(leaves|nodes|splits|paths)\b(?!_)', r'self.\1_', t)).replace('vals', 'elems(self.path_solution_values)').replace('X[', 'self.X_[').replace('rows[', rows + '[').replace('len(rows)', f'len({rows})')
    K.asserts.append('use all(dropped_rows(self.leaves_, self.splits_, self.paths_, elems(self.path_solution_values), self.nodes_, d, self.X_, result) for d in ints())')
    # for any values of the path variables (a solution stored earlier is one) that solve the reduced master
    K.ensures.append(SELF('all(implies(' + ' and '.join(f'({x})' for x in LEGITS + ['solves(nodes, paths, vals, d)', 'all(implies(not rows[r].removed_from_master, ' + COV.format(r='r') + ' <= 1) for r in range(len(rows)))']) +
                          ', all(' + COV.format(r='r') + ' <= 1 for r in range(len(rows)))) for d in ints())', 'result'))

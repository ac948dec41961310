"""Pricing steps of the tree classifier."""
from engine.vals import *
from engine import ext
from contracts import dtree, dtm

DC = TUP(LIST(REAL), LIST(REAL), DICT(INT, DICT(INT, DICT(INT, REAL))), LIST(REAL), LIST(LIST(BOOL)))


def register(C):
    if 'DTreeMasterProblem' not in C.classes:
        dtm.register(C)
    P, SP, LF, NODES, ROWS = REF('Path'), LIST(REF('Split')), REF('Leaf'), LIST(REF('Node')), OPT(LIST(REF('Row')))
    LI = LIST(INT)
    C.cls('DTreeSubProblemHeuristic', 'rec', {'leaves_': LIST(LF), 'nodes_': NODES, 'splits_': SP, 'targets_': LI, 'tree_depth_': INT, 'data_rows': ROWS,
                                              'num_cuts': INT, 'failed_rounds': INT, 'success_rounds': INT})
    # ---- what a path (nodes ns, splits ss, to a leaf) collects
    C.pred('hits', {'leaf': LF, 'splits': SP, 'ns': LI, 'ss': LI, 'r': INT}, 'all(ite(ns[i] in leaf.left_nodes, r in splits[ss[i]].left_rows, r in splits[ss[i]].right_rows) for i in range(len(ns)))', opaque=True)
    C.pred('hitc', {'leaf': LF, 'splits': SP, 'ns': LI, 'ss': LI, 'r': INT}, 'all(ite(ns[i] in leaf.left_nodes, r in splits[ss[i]].left_cuts, r in splits[ss[i]].right_cuts) for i in range(len(ns)))', opaque=True)
    WAY = {'leaf': LF, 'splits': SP, 'ns': LI, 'ss': LI}
    W = 'leaf, splits, ns, ss'
    VOTE = 'ite({hit} and y[k] == t and (is_none(rows) or not the(rows)[k].removed_from_sp), ite(is_none(rows), 1, the(rows)[k].weight), 0)'
    C.rec('votes', {'y': LI, 'rows': ROWS, 'D': SETI, 't': INT}, 'k', VOTE.format(hit='k in D'), REAL)
    C.rec('support', dict({'y': LI, 'rows': ROWS}, **WAY, t=INT), 'k', VOTE.format(hit=f'hits({W}, k)'), REAL)
    C.rec('picked', {'D': FMAP(BOOL), 'v': FMAP(REAL)}, 'k', 'ite(D[k], v[k], 0)', REAL)
    C.rec('rowdual', dict(WAY, v=FMAP(REAL)), 'k', f'ite(hits({W}, k), v[k], 0)', REAL)
    C.rec('cutdual', dict(WAY, v=FMAP(REAL)), 'k', f'ite(hitc({W}, k), v[k], 0)', REAL)
    C.rec('linkdual', {'d': DICT(INT, DICT(INT, DICT(INT, REAL))), 'l': INT, 'ns': LI, 'ss': LI}, 'k', 'd[l][ns[k]][ss[k]]', REAL)
    SUM = ['C16']
    VA = {'y': LI, 'rows': ROWS, 'D': SETI, 't': INT, 'n': INT}
    C.lemma('votes_none', VA, ['n >= 0', 'all(not r in D for r in range(n))'], ['votes(y, rows, D, t, n) == 0'], induct='n', uses=['votes_none(y, rows, D, t, n - 1)'], props=SUM)
    C.lemma('votes_far', dict(VA, r=INT), ['n >= 0', 'r >= n'], ['votes(y, rows, plus(D, r), t, n) == votes(y, rows, D, t, n)'], induct='n', uses=['votes_far(y, rows, D, t, n - 1, r)'], props=SUM)
    C.lemma('votes_add', dict(VA, r=INT), ['0 <= r', 'r < n', 'not r in D'],
            ['votes(y, rows, plus(D, r), t, n) == votes(y, rows, D, t, n) + ite(y[r] == t and (is_none(rows) or not the(rows)[r].removed_from_sp), ite(is_none(rows), 1, the(rows)[r].weight), 0)'],
            induct='n', uses=['votes_add(y, rows, D, t, n - 1, r)'], asserts=['use votes_far(y, rows, D, t, n - 1, r)'], props=SUM)
    C.lemma('support_votes', dict({'y': LI, 'rows': ROWS, 'D': SETI}, **WAY, t=INT, n=INT), ['n >= 0', f'all(iff(r in D, hits({W}, r)) for r in range(n))'],
            [f'support(y, rows, {W}, t, n) == votes(y, rows, D, t, n)'], induct='n', uses=[f'support_votes(y, rows, D, {W}, t, n - 1)'], props=SUM)
    PA = {'D': FMAP(BOOL), 'v': FMAP(REAL), 'n': INT}
    C.lemma('picked_none', PA, ['n >= 0', 'all(not D[r] for r in range(n))'], ['picked(D, v, n) == 0'], induct='n', uses=['picked_none(D, v, n - 1)'], props=SUM)
    C.lemma('picked_far', {'D': SETI, 'v': FMAP(REAL), 'n': INT, 'r': INT}, ['n >= 0', 'r >= n'], ['picked(elems(plus(D, r)), v, n) == picked(elems(D), v, n)'], induct='n', uses=['picked_far(D, v, n - 1, r)'], props=SUM)
    C.lemma('picked_add', {'D': SETI, 'v': FMAP(REAL), 'n': INT, 'r': INT}, ['0 <= r', 'r < n', 'not r in D'], ['picked(elems(plus(D, r)), v, n) == picked(elems(D), v, n) + v[r]'],
            induct='n', uses=['picked_add(D, v, n - 1, r)'], asserts=['use picked_far(D, v, n - 1, r)'], props=SUM)
    for q, h in (('row', 'hits'), ('cut', 'hitc')):
        C.lemma(f'{q}s_picked', dict(WAY, **PA), ['n >= 0', f'all(iff(D[r], {h}({W}, r)) for r in range(n))'], [f'{q}dual({W}, v, n) == picked(D, v, n)'], induct='n', uses=[f'{q}s_picked({W}, D, v, n - 1)'], props=SUM)
    # ---- the sub-problem and the duals it is given
    C.pred('step_ok', {'m': None}, """tree_in(m) and len(m.leaves_) > 0 and len(m.targets_) > 0 and all(len(m.leaves_[l].left_nodes) + len(m.leaves_[l].right_nodes) > 0 for l in range(len(m.leaves_)))
        and all(0 <= m.nodes_[n].candidate_splits[b] and m.nodes_[n].candidate_splits[b] < len(m.splits_) for n in range(len(m.nodes_)) for b in range(len(m.nodes_[n].candidate_splits)))""")
    C.pred('rows_of', {'m': None, 'n': INT}, """all(implies(r in m.splits_[s].left_rows or r in m.splits_[s].right_rows, 0 <= r and r < n) for s in range(len(m.splits_)) for r in ints())
        and (is_none(m.data_rows) or len(m.data_rows) == n and all(the(m.data_rows)[r].weight >= 0 for r in range(n)))""")
    C.pred('duals_ok', {'m': None, 'dc': None, 'n': INT}, """len(dc[0]) == len(m.leaves_) and len(dc[1]) == n and all(implies(link(m, l, k, s), dkey(dc[2], l, k, s)) for l in ints() for k in ints() for s in ints())
        and all(implies(k in m.splits_[s].left_cuts or k in m.splits_[s].right_cuts, 0 <= k and k < len(dc[3])) for s in range(len(m.splits_)) for k in ints())""")
    # a path with the leaf's ancestors once each and pairwise different candidate splits of those nodes
    C.pred('covers', {'leaf': LF, 'ns': LI}, """len(ns) == len(leaf.left_nodes) + len(leaf.right_nodes) and all(has_node(leaf, ns[i]) for i in range(len(ns))) and distinct(ns)""", opaque=True)
    C.pred('hpath', {'m': None, 'p': P}, """0 <= p.leaf_id and p.leaf_id < len(m.leaves_) and covers(m.leaves_[p.leaf_id], p.node_ids) and len(p.splits) == len(p.node_ids)
        and all(has_cand(m.nodes_[p.node_ids[i]], p.splits[i]) for i in range(len(p.splits))) and distinct(p.splits)""")
    SUP = lambda t: f'support(y, m.data_rows, m.leaves_[p.leaf_id], m.splits_, p.node_ids, p.splits, {t}, n)'
    C.pred('hbest', {'m': None, 'p': P, 'y': LI, 'n': INT}, f'p.cost == {SUP("p.target")} and all({SUP("t")} <= p.cost for t in ints())')
    PW = 'm.leaves_[p.leaf_id], m.splits_, p.node_ids, p.splits'
    C.pred('rcost', {'m': None, 'p': P, 'dc': None}, f"""p.cost - dc[0][p.leaf_id] - rowdual({PW}, elems(dc[1]), len(dc[1])) - cutdual({PW}, elems(dc[3]), len(dc[3])) - linkdual(dc[2], p.leaf_id, p.node_ids, p.splits, len(p.node_ids))""", ret=REAL)
    H = 'DTreeSubProblemHeuristic.'
    C.fn(H + 'get_reduced_cost', params={'X': MAT, 'y': LI, 'dual_costs': DC, 'path': P, 'row_satisfies_path_array': LIST(BOOL)}, result=REAL,
         requires=['step_ok(self)', 'duals_ok(self, dual_costs, len(X))', '0 <= path.leaf_id and path.leaf_id < len(self.leaves_)', 'len(path.splits) == len(path.node_ids) and len(path.node_ids) > 0',
                   'all(0 <= path.splits[i] and path.splits[i] < len(self.splits_) and dkey(dual_costs[2], path.leaf_id, path.node_ids[i], path.splits[i]) for i in range(len(path.splits)))',
                   'len(row_satisfies_path_array) == len(X)', 'all(iff(row_satisfies_path_array[r], hits(self.leaves_[path.leaf_id], self.splits_, path.node_ids, path.splits, r)) for r in range(len(X)))'],
         ensures=['result == rcost(self, path, dual_costs)'],
         asserts=['apply rows_picked(self.leaves_[path.leaf_id], self.splits_, path.node_ids, path.splits, elems(row_satisfies_path_array), elems(row_duals), len(row_duals))',
                  'apply cuts_picked(self.leaves_[path.leaf_id], self.splits_, path.node_ids, path.splits, elems(satisfied_cuts), elems(cut_duals), len(cut_duals))'],
         loops={0: {'inv': ['reduced_cost == path.cost - leaves_dual[path.leaf_id] - picked(elems(row_satisfies_path_array), elems(row_duals), _k)']},
                1: {'entry': ['use picked_none(elems(_done), elems(cut_duals), len(cut_duals))'], 'inv': ['reduced_cost == pre(reduced_cost) - picked(elems(_done), elems(cut_duals), len(cut_duals))'],
                    'hint': ['use picked_add(top(_done), elems(cut_duals), len(cut_duals), c)']},
                2: {'inv': ['reduced_cost == pre(reduced_cost) - linkdual(ns_duals, path.leaf_id, path.node_ids, path.splits, _k)']}},
         props=['C16'])
    # ---- generated columns
    C.pred('samep', {'p': P, 'q': P}, 'p.leaf_id == q.leaf_id and p.target == q.target and p.cost == q.cost and len(p.node_ids) == len(q.node_ids) and pairs_in(p, q)', opaque=True)
    C.pred('voted', {'m': None, 'p': P, 'y': LI, 'n': INT}, 'p.target == m.targets_[0] or any(y[r] == p.target for r in range(n))')
    GOOD = lambda g: [f'all(isnew({g}[q]) for q in range(len({g})))', f'all(hpath(self, {g}[q]) for q in range(len({g})))', f'all(hbest(self, {g}[q], y, len(X)) for q in range(len({g})))',
                      f'all(voted(self, {g}[q], y, len(X)) for q in range(len({g})))',
                      f'all(rcost(self, {g}[q], dual_costs) > 1e-6 for q in range(len({g})))', f'all(not samep({g}[a], {g}[b]) for a in range(len({g})) for b in range(a))']
    EARLIER = [f'all(same(generated_paths[q].{f}, pre(generated_paths[q].{f})) for q in range(len(generated_paths)))' for f in ('leaf_id', 'node_ids', 'splits', 'cost', 'target')]
    LEAFW = 'leaf, self.splits_, path.node_ids, path.splits'
    VT = 'votes(y, self.data_rows, _done, t, len(X))'
    C.fn(H + 'generate_columns', params={'X': MAT, 'y': LI, 'dual_costs': DC, 'params': STR}, result=LIST(P), locals={'generated_paths': LIST(P), 'possible_targets': DICT(INT, REAL)}, allocs=True,
         requires=['step_ok(self)', 'rows_of(self, len(X))', 'duals_ok(self, dual_costs, len(X))', 'len(y) == len(X)'],
         modifies=['self.failed_rounds', 'self.success_rounds'],
         ensures=GOOD('result') + ['self.success_rounds == old(self.success_rounds) + len(result)', 'self.failed_rounds >= old(self.failed_rounds)'],
         loops={0: {'inv': GOOD('generated_paths') + ['self.failed_rounds == pre(self.failed_rounds) + _k - len(generated_paths)', 'len(generated_paths) <= _k']},
                1: {'inv': ['len(path.splits) == _k', 'all(has_cand(self.nodes_[path.node_ids[i]], path.splits[i]) for i in range(_k))', 'distinct(path.splits)', 'success', 'isnew(path)',
                            'same(path.node_ids, pre(path.node_ids))', 'same(path.leaf_id, pre(path.leaf_id))'] + EARLIER,
                    'hint': ['chosen_split in candidate_splits', 'not any(path.splits[q] == chosen_split for q in range(_k))', 'all(path.splits[q] != chosen_split for q in range(_k))', 'path.splits[_k] == chosen_split']},
                2: {'inv': ['distinct(candidate_splits)', 'all(iff(s in candidate_splits, s in node.candidate_splits and not any(path.splits[q] == s for q in range(_k))) for s in ints())']},
                3: {'entry': ['all(implies(r in satisfied_rows, ite(path.node_ids[0] in leaf.left_nodes, r in self.splits_[path.splits[0]].left_rows, r in self.splits_[path.splits[0]].right_rows)) for r in ints())',
                              'all(implies(r in satisfied_rows, 0 <= r and r < len(X)) for r in ints())',
                              f'all(iff(r in satisfied_rows, hits({LEAFW}, r)) for r in range(len(X)))', 'use all(votes_none(y, self.data_rows, _done, t, len(X)) for t in ints())'],
                    'inv': ['len(row_satisfies_path_array) == len(X)', 'all(implies(r in _done, 0 <= r and r < len(X)) for r in ints())', 'all(iff(row_satisfies_path_array[r], r in _done) for r in range(len(X)))',
                            f'all(ite(t in possible_targets, possible_targets[t], 0) == {VT} for t in ints())', f'best_target_count == votes(y, self.data_rows, _done, best_target, len(X))',
                            f'all({VT} <= best_target_count for t in ints())', 'best_target == self.targets_[0] or any(y[r] == best_target for r in range(len(X)))'],
                    'hint': ['use all(votes_add(y, self.data_rows, top(_done), t, len(X), row) for t in ints())']},
                4: {'entry': [f'use all(support_votes(y, self.data_rows, satisfied_rows, {LEAFW}, t, len(X)) for t in ints())', 'hbest(self, path, y, len(X))', 'voted(self, path, y, len(X))', 'hpath(self, path)'],
                    'inv': ['implies(not already_generated, all(not samep(path, generated_paths[q]) for q in range(_k)))']}},
         props=['C16'])

    # ---- cuts arrive
    N0 = 'old(self.num_cuts)'
    CUTS = lambda upto: f"""all(iff(k in self.splits_[s].left_cuts, old(k in self.splits_[s].left_cuts) or ({N0} <= k and k < {N0} + {upto} and dual_costs[4][k - {N0}][s]))
        and iff(k in self.splits_[s].right_cuts, old(k in self.splits_[s].right_cuts) or ({N0} <= k and k < {N0} + {upto} and not dual_costs[4][k - {N0}][s])) for s in range(len(self.splits_)) for k in ints())"""
    C.fn(H + 'update_subproblem', params={'X': MAT, 'y': LI, 'dual_costs': DC}, modifies=['self.num_cuts', 'Split.left_cuts', 'Split.right_cuts'],
         requires=['all(self.splits_[s].id == s for s in range(len(self.splits_)))', 'all(len(dual_costs[4][q]) == len(self.splits_) for q in range(len(dual_costs[4])))'],
         ensures=[f'self.num_cuts == {N0} + len(dual_costs[4])', CUTS('len(dual_costs[4])')],
         loops={0: {'inv': [CUTS('_k')]}, 1: {'inv': [CUTS('_k0 + ite(s < _k, 1, 0)')]}}, props=['C16', 'C14'])

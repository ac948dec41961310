from engine.vals import *
from engine import ext


def classes(C):
    if 'MPSolver' not in C.classes:
        ext.register(C)
    C.cls('Row', 'heap', {'id': INT, 'reachable_nodes': SETI, 'reachable_paths': SETI, 'reachable_leaves': SETI, 'target': INT,
                          'left_splits': SETI, 'right_splits': SETI, 'removed_from_master': BOOL, 'removed_from_sp': BOOL, 'weight': REAL})
    C.cls('Path', 'heap', {'leaf_id': INT, 'node_ids': LIST(INT), 'splits': LIST(INT), 'cost': REAL, 'id': INT, 'target': INT, 'initial': BOOL})
    C.cls('Node', 'heap', {'id': INT, 'candidate_splits': LIST(INT), 'candidate_splits_count': LIST(INT), 'last_split': INT, 'parent': INT,
                           'left_child': INT, 'right_child': INT, 'children_are_leaves': BOOL})
    C.cls('Leaf', 'heap', {'id': INT, 'left_nodes': LIST(INT), 'right_nodes': LIST(INT)})
    C.cls('Split', 'heap', {'id': INT, 'feature': INT, 'threshold': REAL, 'removed': BOOL, 'left_rows': SETI, 'right_rows': SETI,
                            'left_cuts': SETI, 'right_cuts': SETI})


def register(C):
    classes(C)
    # ---- C08: position k steps above position c of the complete binary tree
    C.it('up', {'c': INT}, 'k', 'c', '(prev - 1) // 2')
    POS = 'pow2(depth) - 1 + id'
    # position k steps above leaf lies on level depth - k
    LEVEL = ['count == up({p}, _k)', 'count >= pow2(depth - _k) - 1', 'count <= 2 * pow2(depth - _k) - 2', '_k <= depth']
    def numbered(p, left, right, upto):
        return [f'len({left}) + len({right}) == {upto}',
                f'all(any(0 <= k and k < {upto} and {left}[a] == up({p}, k + 1) and up({p}, k) % 2 == 1 for k in ints()) for a in range(len({left})))',
                f'all(any(0 <= k and k < {upto} and {right}[a] == up({p}, k + 1) and up({p}, k) % 2 == 0 for k in ints()) for a in range(len({right})))',
                f'all(implies(up({p}, k) % 2 == 1, up({p}, k + 1) in {left}) and implies(up({p}, k) % 2 == 0, up({p}, k + 1) in {right}) for k in range({upto}))']
    L = ('self.left_nodes', 'self.right_nodes')
    C.fn('Leaf.create_leaf', params={'id': INT, 'depth': INT}, requires=['depth >= 0', '0 <= id', 'id < pow2(depth)'],
         modifies=['self.id', 'self.left_nodes', 'self.right_nodes'],
         ensures=['self.id == id', f'up({POS}, depth) == 0'] + numbered(POS, *L, 'depth'),
         loops={0: {'inv': [x.format(p=POS) for x in LEVEL] + numbered(POS, *L, '_k')}}, props=['C08'])
    POS = 'pow2(depth) - 1 + leaf_id'
    C.fn('Path.set_leaf', params={'leaf_id': INT, 'depth': INT}, requires=['depth >= 0', '0 <= leaf_id', 'leaf_id < pow2(depth)'],
         modifies=['self.leaf_id', 'self.node_ids'],
         ensures=['self.leaf_id == leaf_id', 'len(self.node_ids) == depth', f'all(self.node_ids[k] == up({POS}, k + 1) for k in range(depth))'],
         loops={0: {'inv': [x.format(p=POS) for x in LEVEL] + ['len(self.node_ids) == _k', f'all(self.node_ids[k] == up({POS}, k + 1) for k in range(_k))']}},
         props=['C08'])

    # ---- C10
    C.pred('has_pair', {'p': REF('Path'), 'n': INT, 's': INT}, 'any(p.node_ids[j] == n and p.splits[j] == s for j in range(len(p.node_ids)))')
    C.pred('pairs_in', {'p': REF('Path'), 'q': REF('Path')}, 'all(has_pair(q, p.node_ids[i], p.splits[i]) for i in range(len(p.node_ids)))')
    INJ = 'all(0 <= f[i] and f[i] < {m} for i in range(n)) and all(f[i] != f[j] for i in range(n) for j in range(n) if i != j)'
    C.lemma('pigeon', {'f': FMAP(INT), 'n': INT, 'm': INT}, ['n >= 0', 'm >= 0', INJ.format(m='m')], ['n <= m'], induct='n',
            uses=['pigeon(fun(lambda i: ite(f[i] == m - 1, f[n - 1], f[i])), n - 1, m - 1)'], props=['C10'])
    C.lemma('onto', {'f': FMAP(INT), 'n': INT, 'w': INT}, [INJ.format(m='n'), '0 <= w', 'w < n'], ['any(f[i] == w for i in range(n))'],
            uses=['pigeon(fun(lambda i: ite(f[i] == n - 1, w, f[i])), n, n - 1)'], props=['C10'])
    C.pred('path_wf', {'p': REF('Path')}, 'len(p.splits) == len(p.node_ids) and all(p.node_ids[i] != p.node_ids[j] for i in range(len(p.node_ids)) for j in range(len(p.node_ids)) if i != j)')
    PQ = {'p': REF('Path'), 'q': REF('Path')}
    AT = 'fun(lambda i: pos(p.node_ids[i], q.node_ids))'
    KNOWN = ['all(p.node_ids[i] in q.node_ids for i in range(len(p.node_ids)))']
    C.lemma('pairs_count', PQ, ['path_wf(p)', 'path_wf(q)', 'pairs_in(p, q)'], ['len(p.node_ids) <= len(q.node_ids)'],
            asserts=KNOWN + [f'use pigeon({AT}, len(p.node_ids), len(q.node_ids))'], props=['C10'])
    C.lemma('pairs_sym', PQ, ['path_wf(p)', 'path_wf(q)', 'pairs_in(p, q)', 'len(p.node_ids) == len(q.node_ids)'], ['pairs_in(q, p)'],
            asserts=KNOWN + [f'use all(onto({AT}, len(p.node_ids), j) for j in range(len(q.node_ids)))'], props=['C10'])
    C.fn('Path.is_same_as', params={'path': REF('Path')}, result=BOOL,
         requires=['len(self.splits) == len(self.node_ids)', 'len(path.splits) == len(path.node_ids)'],
         asserts=['use pairs_count(self, path)', 'use pairs_count(path, self)', 'use pairs_sym(self, path)'],
         ensures=['result == (self.leaf_id == path.leaf_id and self.target == path.target and self.cost == path.cost and len(self.node_ids) == len(path.node_ids) and pairs_in(self, path))',
                  'implies(path_wf(self) and path_wf(path), result == (self.leaf_id == path.leaf_id and self.target == path.target and self.cost == path.cost and pairs_in(self, path) and pairs_in(path, self)))'],
         loops={0: {'inv': ['all(has_pair(path, self.node_ids[i], self.splits[i]) for i in range(_k))']},
                1: {'inv': ['not found', 'all(path.node_ids[j] != node_id or path.splits[j] != split_id for j in range(_k))']}}, props=['C10'])

    # ---- C09
    C.pred('follows', {'X_row': LIST(REAL), 'leaf': REF('Leaf'), 'splits': LIST(REF('Split')), 'p': REF('Path'), 'n': INT},
           'all(iff(p.node_ids[i] in leaf.left_nodes, X_row[splits[p.splits[i]].feature] <= splits[p.splits[i]].threshold) for i in range(n))')
    ROUTE = ['len(path.splits) == len(path.node_ids)', 'all(0 <= path.splits[i] and path.splits[i] < len(splits) for i in range(len(path.splits)))']
    C.fn('_dtree_classifier:row_satisfies_path', params={'X_row': LIST(REAL), 'leaf': REF('Leaf'), 'splits': LIST(REF('Split')), 'path': REF('Path')}, result=BOOL,
         requires=ROUTE + ['all(0 <= splits[i].feature and splits[i].feature < len(X_row) for i in range(len(splits)))'],
         ensures=['result == follows(X_row, leaf, splits, path, len(path.node_ids))'],
         loops={0: {'inv': ['follows(X_row, leaf, splits, path, _k)']}}, props=['C09'])
    for kind in ('rows', 'cuts'):
        C.pred(f'sat_{kind}', {'path': REF('Path'), 'leaf': REF('Leaf'), 'splits': LIST(REF('Split')), 'r': INT, 'n': INT},
               f'all(ite(path.node_ids[i] in leaf.left_nodes, r in splits[path.splits[i]].left_{kind}, r in splits[path.splits[i]].right_{kind}) for i in range(n))')
        C.fn(f'_dtree_classifier:get_satisfied_{kind}', params={'path': REF('Path'), 'leaf': REF('Leaf'), 'splits': LIST(REF('Split'))}, result=SETI, lends=[f'Split.left_{kind}', f'Split.right_{kind}'],
             requires=ROUTE + ['len(path.node_ids) > 0'],
             ensures=[f'all(iff(r in result, sat_{kind}(path, leaf, splits, r, len(path.node_ids))) for r in ints())'],
             loops={0: {'inv': [f'all(iff(r in satisfied_{kind}, sat_{kind}(path, leaf, splits, r, _k + 1)) for r in ints())']}}, props=['C09'])

    # ---- exactly one leaf of a complete tree is reached: `down` is the position after d turns
    C.it('down', {'left': FMAP(BOOL)}, 'k', '0', 'ite(left[prev], 2 * prev + 1, 2 * prev + 2)')
    LEVEL_D = ['d >= 0', 'c >= pow2(d) - 1', 'c <= 2 * pow2(d) - 2']
    TURNS = 'turns(left, c, d)'
    C.pred('turns', {'left': FMAP(BOOL), 'c': INT, 'd': INT}, 'all(iff(up(c, k) % 2 == 1, left[up(c, k + 1)]) for k in range(d))', opaque=True)
    SHIFT = ['use all(up_shift(c, k) for k in ints())', 'use all(up_shift(c, k - 1) for k in ints())']
    C.lemma('up_shift', {'c': INT, 'k': INT}, ['k >= 0'], ['up((c - 1) // 2, k) == up(c, k + 1)'], induct='k', uses=['up_shift(c, k - 1)'], props=['C08', 'C09'])
    C.lemma('reached', {'left': FMAP(BOOL), 'c': INT, 'd': INT}, LEVEL_D + [TURNS], ['c == down(left, d)'], induct='d',
            asserts=SHIFT, uses=['reached(left, (c - 1) // 2, d - 1)'], props=['C09'])
    C.lemma('reach', {'left': FMAP(BOOL), 'c': INT, 'd': INT}, ['d >= 0', 'c == down(left, d)'], LEVEL_D + [TURNS], induct='d',
            asserts=SHIFT, uses=['reach(left, (c - 1) // 2, d - 1)'], props=['C09'])
    C.lemma('up_level', {'c': INT, 'd': INT, 'k': INT}, LEVEL_D + ['0 <= k', 'k <= d'], ['up(c, k) >= pow2(d - k) - 1', 'up(c, k) <= 2 * pow2(d - k) - 2'],
            induct='k', uses=['up_level(c, d, k - 1)'], props=['C08', 'C09'])
    C.lemma('up_less', {'c': INT, 'd': INT, 'k': INT, 'j': INT}, LEVEL_D + ['0 <= j', 'j < k', 'k <= d'], ['up(c, k) < up(c, j)'],
            induct='k', uses=['up_less(c, d, k - 1, j)', 'up_level(c, d, k - 1)'], props=['C08', 'C09'])
    GOES = 'X_row[splits[choice[v]].feature] <= splits[choice[v]].threshold'
    WF = ['len(path.node_ids) == d', 'len(path.splits) == d', 'all(any(0 <= k and k < d and path.node_ids[i] == up(c, k + 1) and up(c, k + 1) == (up(c, k) - 1) // 2 for k in ints()) for i in range(d))',
          'all(up(c, k + 1) in path.node_ids for k in range(d))', 'all(path.splits[i] == choice[path.node_ids[i]] for i in range(d))']
    C.lemma('routed', {'X_row': LIST(REAL), 'leaf': REF('Leaf'), 'splits': LIST(REF('Split')), 'path': REF('Path'), 'choice': FMAP(INT), 'left': FMAP(BOOL), 'c': INT, 'd': INT},
            LEVEL_D + [f'all(iff(left[v], {GOES}) for v in ints())'] + numbered('c', 'leaf.left_nodes', 'leaf.right_nodes', 'd') + WF,
            ['iff(follows(X_row, leaf, splits, path, d), c == down(left, d))'],
            asserts=['use all(up_less(c, d, k + 1, j + 1) for k in ints() for j in ints())',
                     'all(iff(up(c, k + 1) in leaf.left_nodes, up(c, k) % 2 == 1) for k in range(d))',
                     'implies(follows(X_row, leaf, splits, path, d), turns(left, c, d))', 'implies(turns(left, c, d), all(iff(path.node_ids[i] in leaf.left_nodes, left[path.node_ids[i]]) for i in range(d)))',
                     'all(iff(left[path.node_ids[i]], X_row[splits[path.splits[i]].feature] <= splits[path.splits[i]].threshold) for i in range(d))',
                     'implies(turns(left, c, d), follows(X_row, leaf, splits, path, d))',
                     'use reached(left, c, d)', 'use reach(left, c, d)'], props=['C09'])

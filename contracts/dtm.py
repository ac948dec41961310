"""The tree master problem (DTreeMasterProblem) and prediction."""
from engine.vals import *
from engine import ext
from contracts import dtree


def register(C):
    if 'Path' not in C.classes:
        dtree.register(C)
    P, SP = REF('Path'), LIST(REF('Split'))
    C.cls('DTreeMasterProblem', 'rec', {
        'solver_': REC('MPSolver'), 'cut_gen_model_': REC('CpModel'), 'cut_obj_scale': INT, 'generated_': BOOL, 'paths_': LIST(P), 'generated_paths_': SETI,
        'leaves_': LIST(REF('Leaf')), 'nodes_': LIST(REF('Node')), 'splits_': SP, 'data_rows': OPT(LIST(REF('Row'))), 'num_cuts_round': INT, 'generate_cuts': BOOL,
        'beta_constraints_as_cuts': BOOL, 'total_cuts_added': INT, 'cut_gen_time': REAL, 'rmp_objective_': REAL, 'prev_rmp_objective_': REAL, 'iter_': INT,
        'last_reset_iter_': INT, 'reset_timer_': BOOL, 'X_': MAT, 'y_': LIST(INT), 'path_vars_': LIST(INT), 'leaf_cons_': LIST(CON('self.solver_')),
        'row_cons_': LIST(OPT(CON('self.solver_'))), 'added_row': LIST(BOOL), 'cut_cons_': LIST(CON('self.solver_')),
        'ns_vars': DICT(TUP(INT, INT), INT), 'ns_constraints_': DICT(INT, DICT(INT, DICT(INT, CON('self.solver_')))),
        'path_solution_values': DICT(INT, REAL), 'rmp_result_status': INT, 'selected_paths': LIST(P), 'cut_split_vars_': LIST(CPV('self.cut_gen_model_')),
        'cut_path_vars_': LIST(CPV('self.cut_gen_model_'))})
    C.share('DTreeMasterProblem.y_', 0)
    # ---- C09
    for c in ('DTreeSubProblem', 'DTreeSubProblemSat', 'DTreeSubProblemOld'):
        if c not in C.classes:
            C.cls(c, 'rec', {'X_': MAT})
        C.fn(f'{c}.row_satisfies_split', params={'row': INT, 'split': REF('Split')}, result=BOOL,
             requires=['0 <= row and row < len(self.X_)', '0 <= split.feature and split.feature < self.X_.shape[1]'],
             ensures=['result == (self.X_[row][split.feature] <= split.threshold)'], props=['C09', 'C14'])

    # ---- C17
    C.rec('nchosen', {'sol': FMAP(REAL), 'ps': LIST(P)}, 'k', 'ite(sol[ps[k].id] > 0, 1, 0)', mono=True)
    C.fn('DTreeMasterProblem.solve_ip', params={'solver_params': STR}, result=BOOL, raises=True,
         requires=['self.generated_', 'all(0 <= self.paths_[j].id and self.paths_[j].id < self.solver_.nvars for j in range(len(self.paths_)))'],
         modifies=['self.selected_paths'],
         ensures=['result'],
         local_ensures=['solver.solved and solver.solves == 1 and (solver.status == 0 or solver.status == 1)',
                        'len(self.selected_paths) == nchosen(solver.sol, self.paths_, len(self.paths_))',
                        'all(implies(solver.sol[self.paths_[k].id] > 0, same(self.selected_paths[nchosen(solver.sol, self.paths_, k)], self.paths_[k])) for k in range(len(self.paths_)))'] +
                       [f'same(solver.{f}, self.solver_.{f})' for f in ('nvars', 'ncons', 'vlb', 'vub', 'vint', 'coef', 'clb', 'cub', 'obj', 'off', 'maxim')],
         loops={0: {'inv': ['len(self.selected_paths) == nchosen(solver.sol, self.paths_, _k)',
                            'all(implies(solver.sol[self.paths_[k].id] > 0, same(self.selected_paths[nchosen(solver.sol, self.paths_, k)], self.paths_[k])) for k in range(_k))']}},
         props=['C17'])
    C.cls('DTreeClassifier', 'rec', {'master_problem': REC('DTreeMasterProblem'), 'label_encoder_': REC('LabelEncoder'), 'is_fitted_': BOOL, 'has__is_fitted_': BOOL,
                                     'leaves': LIST(REF('Leaf')), 'splits': SP})
    SEL = 'self.master_problem.selected_paths'
    C.pred('goes', {'X_row': LIST(REAL), 'leaves': LIST(REF('Leaf')), 'splits': SP, 'p': P}, 'follows(X_row, leaves[p.leaf_id], splits, p, len(p.node_ids))', opaque=True)
    FOL = f'goes(X[i], self.leaves, self.splits, {SEL}[s])'
    FIRST = lambda arr, lab: [f'all(implies({FOL} and all(not {FOL.replace("[s]", "[q]")} for q in range(s)), {arr}[i] == {lab}) for i in range({{n}}) for s in range(len({SEL})))',
                              f'all(implies(all(not {FOL} for s in range(len({SEL}))), {arr}[i] == {{zero}}) for i in range({{n}}))']
    C.fn('DTreeClassifier.predict', params={'X': MAT}, result=LIST(INT), raises='not hasattr(self, "is_fitted_")',
         requires=['len(self.label_encoder_.classes_) >= 1', f'all(0 <= {SEL}[s].leaf_id and {SEL}[s].leaf_id < len(self.leaves) and 0 <= {SEL}[s].target and {SEL}[s].target < len(self.label_encoder_.classes_) for s in range(len({SEL})))',
                   f'all(len({SEL}[s].splits) == len({SEL}[s].node_ids) for s in range(len({SEL})))',
                   f'all(0 <= {SEL}[s].splits[j] and {SEL}[s].splits[j] < len(self.splits) for s in range(len({SEL})) for j in range(len({SEL}[s].splits)))',
                   'all(0 <= self.splits[j].feature and self.splits[j].feature < X.shape[1] for j in range(len(self.splits)))'],
         ensures=['len(result) == len(X)'] + [x.format(n='len(X)', zero='self.label_encoder_.classes_[0]') for x in FIRST('result', f'self.label_encoder_.classes_[{SEL}[s].target]')] +
                 ['all(any(result[i] == self.label_encoder_.classes_[c] for c in range(len(self.label_encoder_.classes_))) for i in range(len(result)))'],
         loops={0: {'inv': ['len(y_predict) == X.shape[0]', 'all(y_predict[i] == 0 for i in range(_k, len(y_predict)))', 'all(0 <= y_predict[i] and y_predict[i] < len(self.label_encoder_.classes_) for i in range(len(y_predict)))'] +
                           [x.format(n='_k', zero='0') for x in FIRST('y_predict', f'{SEL}[s].target')]},
                1: {'inv': ['len(y_predict) == X.shape[0]', 'all(y_predict[i] == pre(y_predict)[i] for i in range(len(y_predict)))',
                            f'all(not {FOL.replace("[i]", "[_k0]")} for s in range(_k))']}},
         props=['C17', 'C22'])

    # ---- C11: the master program, as a representation invariant
    C.pred('on', {'p': P, 'n': INT, 's': INT}, 'any(p.node_ids[j] == n and p.splits[j] == s for j in range(len(p.node_ids)))', opaque=True)
    C.pred('has_node', {'leaf': REF('Leaf'), 'n': INT}, 'n in leaf.left_nodes or n in leaf.right_nodes', opaque=True)
    C.pred('has_cand', {'node': REF('Node'), 's': INT}, 's in node.candidate_splits', opaque=True)
    C.pred('link', {'m': None, 'l': INT, 'n': INT, 's': INT}, '0 <= l and l < len(m.leaves_) and has_node(m.leaves_[l], n) and has_cand(m.nodes_[n], s)')
    C.pred('tree_in', {'m': None}, """
        all(m.leaves_[l].id == l for l in range(len(m.leaves_))) and all(m.nodes_[n].id == n for n in range(len(m.nodes_)))
        and all(0 <= m.leaves_[l].left_nodes[a] and m.leaves_[l].left_nodes[a] < len(m.nodes_) for l in range(len(m.leaves_)) for a in range(len(m.leaves_[l].left_nodes)))
        and all(0 <= m.leaves_[l].right_nodes[a] and m.leaves_[l].right_nodes[a] < len(m.nodes_) for l in range(len(m.leaves_)) for a in range(len(m.leaves_[l].right_nodes)))
        and all(m.leaves_[l].left_nodes[a] != m.leaves_[l].left_nodes[b] for l in range(len(m.leaves_)) for a in range(len(m.leaves_[l].left_nodes)) for b in range(a))
        and all(m.leaves_[l].right_nodes[a] != m.leaves_[l].right_nodes[b] for l in range(len(m.leaves_)) for a in range(len(m.leaves_[l].right_nodes)) for b in range(a))
        and all(not m.leaves_[l].right_nodes[a] in m.leaves_[l].left_nodes for l in range(len(m.leaves_)) for a in range(len(m.leaves_[l].right_nodes)))
        and all(m.nodes_[n].candidate_splits[a] != m.nodes_[n].candidate_splits[b] for n in range(len(m.nodes_)) for a in range(len(m.nodes_[n].candidate_splits)) for b in range(a))""")
    C.pred('path_in', {'m': None, 'p': P}, """0 <= p.leaf_id and p.leaf_id < len(m.leaves_) and len(p.node_ids) > 0 and len(p.splits) == len(p.node_ids)
        and all(0 <= p.splits[i] and p.splits[i] < len(m.splits_) for i in range(len(p.splits)))""")
    SPLITS_DIFFER = 'all(implies(m.splits_[s].feature == m.splits_[t].feature, m.splits_[s].threshold != m.splits_[t].threshold) for t in range(len(m.splits_)) for s in range(t))'
    C.pred('splits_in', {'m': None}, SPLITS_DIFFER + ' and all(0 <= m.splits_[s].feature and m.splits_[s].feature < m.X_.shape[1] for s in range(len(m.splits_)))')
    C.pred('paths_in', {'m': None}, 'all(path_in(m, m.paths_[j]) for j in range(len(m.paths_))) and all(m.paths_[i] != m.paths_[j] for j in range(len(m.paths_)) for i in range(j))')
    ROW = lambda r, j, m='m': f'goes({m}.X_[{r}], {m}.leaves_, {m}.splits_, {m}.paths_[{j}])'
    C.pred('rows_ok', {'m': None, 'n': INT}, f"""all(all(iff(m.paths_[j].id in m.data_rows[r].reachable_paths, {ROW('r', 'j')}) for j in range(len(m.paths_))) for r in range(n))
        and all(implies(v in m.data_rows[r].reachable_paths, any(m.paths_[j].id == v for j in range(len(m.paths_)))) for r in range(n) for v in ints())""")
    C.pred('rows_in', {'m': None}, 'len(m.data_rows) == len(m.X_) and all(m.data_rows[r] != m.data_rows[q] for r in range(len(m.data_rows)) for q in range(r))')

    C.pred('pvars_ok', {'m': None}, """len(m.path_vars_) == len(m.paths_) and all(m.path_vars_[j] == m.paths_[j].id for j in range(len(m.paths_)))
        and all(0 <= m.paths_[j].id and m.paths_[j].id < m.solver_.nvars for j in range(len(m.paths_))) and all(m.paths_[i].id != m.paths_[j].id for j in range(len(m.paths_)) for i in range(j))
        and all(m.solver_.vlb[m.paths_[j].id] == 0 and m.solver_.vub[m.paths_[j].id] == INF() and m.solver_.obj[m.paths_[j].id] == m.paths_[j].cost for j in range(len(m.paths_)))
        and m.solver_.maxim and m.solver_.off == 0""")
    # ghost keys of a variable / constraint: what it was created for
    C.pred('var_named', {'m': None, 'v': INT}, '''(0 <= m.solver_.vk0[v] and m.solver_.vk0[v] < len(m.paths_) and m.paths_[m.solver_.vk0[v]].id == v)
        or ((m.solver_.vk1[v], m.solver_.vk2[v]) in m.ns_vars and m.ns_vars[m.solver_.vk1[v], m.solver_.vk2[v]] == v)''')
    C.pred('nvars_ok', {'m': None}, """all(implies((n, s) in m.ns_vars, 0 <= m.ns_vars[n, s] and m.ns_vars[n, s] < m.solver_.nvars and m.solver_.obj[m.ns_vars[n, s]] == 0
            and m.solver_.vlb[m.ns_vars[n, s]] == 0 and m.solver_.vub[m.ns_vars[n, s]] == INF()) for n in ints() for s in ints())
        and all(implies((n, s) in m.ns_vars, all(m.ns_vars[n, s] != m.paths_[j].id for j in range(len(m.paths_)))) for n in ints() for s in ints())
        and all(implies((n, s) in m.ns_vars and (n2, s2) in m.ns_vars and m.ns_vars[n, s] == m.ns_vars[n2, s2], n == n2 and s == s2) for n in ints() for s in ints() for n2 in ints() for s2 in ints())
        and all(implies((n, s) in m.ns_vars, key(m, m.solver_.vk0[m.ns_vars[n, s]], n, s)) for n in ints() for s in ints())
        and all(var_named(m, v) for v in range(m.solver_.nvars))""")
    ON_NS = lambda c, val='0': f'all(implies((n2, s2) in m.ns_vars, m.solver_.coef[{c}][m.ns_vars[n2, s2]] == {val}) for n2 in ints() for s2 in ints())'
    def rows_of(c, b, lo, hi, cell, ns=True):
        return f"""all(0 <= {c} and {c} < m.solver_.ncons and m.solver_.clb[{c}] == {lo} and m.solver_.cub[{c}] == {hi} for {b})
            and all(m.solver_.coef[{c}][m.paths_[j].id] == ite({cell}, 1, 0) for {b} for j in range(len(m.paths_)))""" + (f' and all({ON_NS(c)} for {b})' if ns else '')
    LEAFC = lambda n, ns: 'len(m.leaf_cons_) == len(m.leaves_) and ' + rows_of('m.leaf_cons_[l]', f'l in range({n})', '1', '1', 'm.paths_[j].leaf_id == l', ns)
    ROWC = lambda n, ns: f'len(m.row_cons_) == len(m.X_) and len(m.added_row) >= len(m.X_) and all(iff(is_none(m.row_cons_[r]), not m.added_row[r]) for r in range({n})) and ' + \
        ' and '.join(f'all(implies(m.added_row[r], {x}) for r in range({n}))' for x in (
            '0 <= the(m.row_cons_[r]) and the(m.row_cons_[r]) < m.solver_.ncons and m.solver_.clb[the(m.row_cons_[r])] == -INF() and m.solver_.cub[the(m.row_cons_[r])] == 1',
            f"all(m.solver_.coef[the(m.row_cons_[r])][m.paths_[j].id] == ite({ROW('r', 'j')}, 1, 0) for j in range(len(m.paths_)))") + ((ON_NS('the(m.row_cons_[r])'),) if ns else ()))
    CK = lambda c, *ks: ' and '.join(f'm.solver_.ck{i}[{c}] == {k}' for i, k in enumerate(ks))
    C.pred('leafc_ok', {'m': None}, LEAFC('len(m.leaves_)', True) + f" and all({CK('m.leaf_cons_[l]', 'l', -1)} for l in range(len(m.leaves_)))")
    C.pred('rowc_ok', {'m': None}, ROWC('len(m.X_)', True) + f" and all(implies(m.added_row[r], {CK('the(m.row_cons_[r])', 'r', -2)}) for r in range(len(m.X_)))" + """ and all(implies(m.added_row[r], not m.data_rows[r].removed_from_master) for r in range(len(m.X_)))
        and implies(not m.beta_constraints_as_cuts, all(m.added_row[r] == (not m.data_rows[r].removed_from_master) for r in range(len(m.X_))))""")
    C.pred('cutc_ok', {'m': None}, rows_of('m.cut_cons_[k]', 'k in range(len(m.cut_cons_))', '1', '1', 'enters(m.leaves_, m.splits_, m.paths_[j], k)') + f" and all({CK('m.cut_cons_[k]', 'k', -3)} for k in range(len(m.cut_cons_)))")
    C.pred('enters', {'leaves': LIST(REF('Leaf')), 'splits': SP, 'p': P, 'k': INT}, 'sat_cuts(p, leaves[p.leaf_id], splits, k, len(p.node_ids))', opaque=True)
    C.pred('key', {'m': None, 'l': INT, 'n': INT, 's': INT}, 'l in m.ns_constraints_ and n in m.ns_constraints_[l] and s in m.ns_constraints_[l][n]')
    NSC = 'm.ns_constraints_[l][n][s]'
    KEYS = 'for l in ints() for n in ints() for s in ints()'
    C.pred('ns_vals', {'m': None}, f"""all(implies(key(m, l, n, s), 0 <= {NSC} and {NSC} < m.solver_.ncons and 0 <= n and {CK(NSC, 'l', 'n', 's')} and m.solver_.clb[{NSC}] == 0 and m.solver_.cub[{NSC}] == 0 and (n, s) in m.ns_vars) {KEYS})
        and all(implies(key(m, l, n, s), all(m.solver_.coef[{NSC}][m.paths_[j].id] == ite(m.paths_[j].leaf_id == l and on(m.paths_[j], n, s), 1, 0) for j in range(len(m.paths_)))) {KEYS})
        and all(implies(key(m, l, n, s), all(implies((n2, s2) in m.ns_vars, m.solver_.coef[{NSC}][m.ns_vars[n2, s2]] == ite(n2 == n and s2 == s, -1, 0)) for n2 in ints() for s2 in ints())) {KEYS})""")
    C.pred('ns_keys', {'m': None, 'n0': INT}, 'all(iff(l in m.ns_constraints_, 0 <= l and l < n0) for l in ints()) and ns_below(m, n0)')
    C.pred('ns_below', {'m': None, 'n0': INT}, """all(implies(0 <= l and l < n0, iff(n in m.ns_constraints_[l], has_node(m.leaves_[l], n))) for l in ints() for n in ints())
        and all(implies(0 <= l and l < n0 and has_node(m.leaves_[l], n), iff(s in m.ns_constraints_[l][n], has_cand(m.nodes_[n], s))) for l in ints() for n in ints() for s in ints())""")
    K0 = 'm.solver_.ck0[c]'
    NSROW = 'key(m, m.solver_.ck0[c], m.solver_.ck1[c], m.solver_.ck2[c]) and m.ns_constraints_[m.solver_.ck0[c]][m.solver_.ck1[c]][m.solver_.ck2[c]] == c'
    C.pred('ns_named', {'m': None, 'c': INT}, NSROW)
    C.pred('named', {'m': None, 'c': INT}, f"""(m.solver_.ck1[c] == -1 and 0 <= {K0} and {K0} < len(m.leaves_) and m.leaf_cons_[{K0}] == c)
        or (m.solver_.ck1[c] == -2 and 0 <= {K0} and {K0} < len(m.X_) and m.added_row[{K0}] and the(m.row_cons_[{K0}]) == c)
        or (m.solver_.ck1[c] == -3 and 0 <= {K0} and {K0} < len(m.cut_cons_) and m.cut_cons_[{K0}] == c) or (m.solver_.ck1[c] >= 0 and ns_named(m, c))""")
    C.pred('in_ok', {'m': None}, 'tree_in(m) and splits_in(m) and paths_in(m)')
    C.pred('cuts_in', {'m': None}, 'all(implies(k in m.splits_[s].left_cuts or k in m.splits_[s].right_cuts, 0 <= k and k < len(m.cut_cons_)) for s in range(len(m.splits_)) for k in ints())')
    SIDEROWS = lambda X, m: f'''all(iff(r in {m}.splits_[s].left_rows, 0 <= r and r < len({X}) and {X}[r][{m}.splits_[s].feature] <= {m}.splits_[s].threshold) for s in range(len({m}.splits_)) for r in ints())
        and all(iff(r in {m}.splits_[s].right_rows, 0 <= r and r < len({X}) and {X}[r][{m}.splits_[s].feature] > {m}.splits_[s].threshold) for s in range(len({m}.splits_)) for r in ints())'''
    C.pred('rsides', {'m': None}, SIDEROWS('m.X_', 'm'))
    C.pred('dm_core', {'m': None}, """in_ok(m) and not is_none(m.data_rows) and rows_in(m) and rows_ok(m, len(m.X_)) and pvars_ok(m) and nvars_ok(m) and leafc_ok(m) and rowc_ok(m) and cutc_ok(m) and cut_ok(m) and rsides(m)
        and ns_vals(m) and ns_keys(m, len(m.leaves_)) and all(pat(m.solver_.ck1[c], named(m, c)) for c in range(m.solver_.ncons))""")
    C.pred('dm_ok', {'m': None}, 'dm_core(m) and cuts_in(m)')
    # ---- C13: what the solutions of the cut model are
    SOL = FMAP(BOOL)
    C.pred('feas', {'m': None, 'sol': SOL}, 'feasible(m.cut_gen_model_, sol)')
    C.pred('sides', {'leaf': REF('Leaf'), 'z': LIST(INT), 'p': P, 'sol': SOL}, 'all(iff(p.node_ids[i] in leaf.left_nodes, sol[z[p.splits[i]]]) for i in range(len(p.node_ids)))', opaque=True)
    SIDES = lambda j, m: f'sides({m}.leaves_[{m}.paths_[{j}].leaf_id], {m}.cut_split_vars_, {m}.paths_[{j}], sol)'
    C.pred('ordered', {'z': LIST(INT), 'splits': SP, 'sol': SOL, 'i': INT, 'j': INT}, """implies(splits[i].feature == splits[j].feature, implies(splits[i].threshold < splits[j].threshold and sol[z[i]], sol[z[j]])
        and implies(splits[j].threshold < splits[i].threshold and sol[z[j]], sol[z[i]]))""", opaque=True)
    C.pred('cut_vars', {'m': None, 'n': INT}, """len(m.cut_split_vars_) == len(m.splits_) and m.cut_gen_model_.nvars >= len(m.splits_) and all(m.cut_split_vars_[i] == i for i in range(len(m.splits_)))
        and all(len(m.splits_) <= m.cut_path_vars_[j] and m.cut_path_vars_[j] < m.cut_gen_model_.nvars for j in range(n))
        and all(m.cut_path_vars_[i] != m.cut_path_vars_[j] for j in range(n) for i in range(j))""")
    C.pred('meant_', {'leaves': LIST(REF('Leaf')), 'paths': LIST(P), 'z': LIST(INT), 'pv': LIST(INT), 'n': INT, 'sol': SOL},
           'all(iff(sol[pv[j]], sides(leaves[paths[j].leaf_id], z, paths[j], sol)) for j in range(n))', opaque=True)
    C.pred('meant', {'m': None, 'n': INT, 'sol': SOL}, 'meant_(m.leaves_, m.paths_, m.cut_split_vars_, m.cut_path_vars_, n, sol)')
    # the first i0 splits against every later one, split i0 against those before j0
    C.pred('sorted_', {'z': LIST(INT), 'splits': SP, 'i0': INT, 'j0': INT, 'sol': SOL}, 'all(implies(i < i0 or (i == i0 and j < j0), ordered(z, splits, sol, i, j)) for j in range(len(splits)) for i in range(j))', opaque=True)
    C.pred('sorted', {'m': None, 'i0': INT, 'j0': INT, 'sol': SOL}, 'sorted_(m.cut_split_vars_, m.splits_, i0, j0, sol)')
    C.pred('cut_ok', {'m': None}, """m.cut_gen_model_.ncons >= 0 and cut_vars(m, len(m.paths_)) and len(m.cut_path_vars_) == len(m.paths_)
        and all(iff(feas(m, sol), meant(m, len(m.paths_), sol) and sorted(m, len(m.splits_), len(m.splits_) + 1, sol)) for sol in sols())""")
    SAMECONS = 'all(' + ' and '.join(f'same(self.cut_gen_model_.{f}[c], top(self.cut_gen_model_.{f})[c])' for f in ext.CROW) + ' for c in range(top(self.cut_gen_model_.ncons)))'
    # two more constraints: the variable of path j is one exactly if the assignment sends it down that path
    C.pred('way', {'lits': LIST(INT), 'leaf': REF('Leaf'), 'z': LIST(INT), 'p': P}, """len(lits) == len(p.node_ids) and all(z[p.splits[q]] >= 0 for q in range(len(lits)))
        and all(lits[q] == ite(p.node_ids[q] in leaf.left_nodes, z[p.splits[q]], -z[p.splits[q]] - 1) for q in range(len(lits)))""", opaque=True)
    C.pred('negated', {'a': LIST(INT), 'b': LIST(INT)}, 'len(a) == len(b) and all(a[q] == -b[q] - 1 for q in range(len(b)))', opaque=True)
    WAY = {'lits': LIST(INT), 'leaf': REF('Leaf'), 'z': LIST(INT), 'p': P, 'v': INT, 'sol': SOL}
    EACH = 'all(iff(lit(sol, lits[q]), iff(p.node_ids[q] in leaf.left_nodes, sol[z[p.splits[q]]])) for q in range(len(lits)))'
    C.lemma('down_path', WAY, ['way(lits, leaf, z, p)', 'v >= 0'], ['iff(holds(1, lits, True, v, sol), implies(sol[v], sides(leaf, z, p, sol)))'], asserts=[EACH], props=['C13'])
    C.lemma('off_path', dict(WAY, neg=LIST(INT)), ['way(lits, leaf, z, p)', 'v >= 0', 'negated(neg, lits)'], ['iff(holds(2, neg, True, -v - 1, sol), implies(sides(leaf, z, p, sol), sol[v]))'], asserts=[EACH, 'all(lit(sol, neg[q]) == (not lit(sol, lits[q])) for q in range(len(lits)))'], props=['C13'])
    CF = ext.CROW
    CFT = {f: ext.CPF[f] for f in CF}
    CFN = lambda n, i='': ', '.join(f + i + f'[{n}]' for f in CF)
    CFA = lambda i='': ', '.join(f + i for f in CF)
    C.lemma('one_more', dict(CFT, n=INT, sol=SOL), ['n >= 0'], [f'iff(feas_({CFA()}, n + 1, sol), feas_({CFA()}, n, sol) and rowholds({CFN("n")}, sol))'], props=['C13'])
    C.lemma('same_rows', dict(CFT, **{k + '0': t for k, t in CFT.items()}, n=INT, sol=SOL), ['all(' + ' and '.join(f'same({f}[c], {f}0[c])' for f in CF) + ' for c in range(n))'],
            [f'iff(feas_({CFA()}, n, sol), feas_({CFA("0")}, n, sol))'], props=['C13'])
    MODEL = ', '.join('self.cut_gen_model_.' + f for f in CF)
    def MORE(was, k):
        """feas after k more constraints"""
        n0 = f'{was}(self.cut_gen_model_.ncons)'
        return [f'self.cut_gen_model_.ncons == {n0} + {k}', SAMECONS.replace('top(', was + '('), f"apply all(same_rows({MODEL}, {', '.join(f'{was}(self.cut_gen_model_.{f})' for f in CF)}, {n0}, sol) for sol in sols())"] + \
            [f'apply all(one_more({MODEL}, {n0} + {i}, sol) for sol in sols())' for i in range(k)]
    def ONEPATH(was, j):
        v = f'self.cut_path_vars_[{j}]'
        return ['way(literals, leaf, self.cut_split_vars_, path)', 'negated(negated_literals, literals)',
                f'apply all(down_path(literals, leaf, self.cut_split_vars_, path, {v}, sol) for sol in sols())', f'apply all(off_path(literals, leaf, self.cut_split_vars_, path, {v}, sol, negated_literals) for sol in sols())',
                f"all(iff(meant(self, {j} + 1, sol), {was}(meant(self, {j}, sol)) and iff(sol[{v}], {SIDES(j, 'self')})) for sol in sols())"] + MORE(was, 2) + \
               [f"all(iff(feas(self, sol), {was}(feas(self, sol)) and iff(sol[{v}], {SIDES(j, 'self')})) for sol in sols())"]
    ALLSORTED = 'sorted(self, len(self.splits_), len(self.splits_) + 1, sol)'
    LITS = ['len(literals) == _k', 'all(literals[q] == ite(node_ids[q] in leaf.left_nodes, self.cut_split_vars_[split_ids[q]], -self.cut_split_vars_[split_ids[q]] - 1) for q in range(_k))']
    C.fn('DTreeMasterProblem.create_cut_gen_model', params={}, modifies=['self.cut_gen_model_', 'self.cut_split_vars_', 'self.cut_path_vars_'],
         requires=['self.cut_gen_model_.nvars == 0 and self.cut_gen_model_.ncons == 0', 'all(path_in(self, self.paths_[j]) for j in range(len(self.paths_)))', SPLITS_DIFFER.replace('m.', 'self.')],
         ensures=['cut_ok(self)'],
         loops={0: {'inv': ['len(self.cut_split_vars_) == len(self.splits_)', 'self.cut_gen_model_.nvars == _k', 'all(self.cut_split_vars_[i] == i for i in range(_k))']},
                1: {'inv': ['len(self.cut_path_vars_) == len(self.paths_)', 'self.cut_gen_model_.nvars >= len(self.splits_)', 'cut_vars(self, _k)', "all(iff(feas(self, sol), meant(self, _k, sol)) for sol in sols())"],
                    'hint': ONEPATH('top', '_k')},
                2: {'inv': LITS},
                3: {'inv': ['all(iff(feas(self, sol), meant(self, len(self.paths_), sol) and sorted(self, _k, _k + 1, sol)) for sol in sols())'],
                    'hint': ['all(iff(sorted(self, _k, len(self.splits_), sol), sorted(self, _k + 1, _k + 2, sol)) for sol in sols())']},
                4: {'inv': ['all(iff(feas(self, sol), meant(self, len(self.paths_), sol) and sorted(self, _k0, _k0 + 1 + _k, sol)) for sol in sols())'],
                    'hint': ['all(iff(sorted(self, _k0, _k0 + 2 + _k, sol), sorted(self, _k0, _k0 + 1 + _k, sol) and ordered(self.cut_split_vars_, self.splits_, sol, _k0, _k0 + 1 + _k)) for sol in sols())',
                             SAMECONS, 'all(implies(feas(self, sol), top(feas(self, sol))) for sol in sols())']}},
         props=['C13'])
    # ---- C12 (and C08): what a row can reach in the tree, L being the splits at which it goes left
    SPLITID = 'all(self.splits_[s].id == s for s in range(len(self.splits_)))'
    NODES = LIST(REF('Node'))
    C.pred('turn', {'node': REF('Node'), 'L': FMAP(BOOL), 'left': BOOL}, 'any(iff(L[node.candidate_splits[b]], left) for b in range(len(node.candidate_splits)))', opaque=True)
    C.pred('reach_ok', {'nodes': NODES, 'L': FMAP(BOOL), 'R': FMAP(BOOL), 'k': INT}, """all(iff(R[n], 0 <= n and n < len(nodes) and ite(n == 0, k > 0, (n - 1) // 2 < k and R[(n - 1) // 2] and turn(nodes[(n - 1) // 2], L, n % 2 == 1))) for n in ints())""", opaque=True)
    LP = '(l + len(nodes) - 1) // 2'
    C.pred('leaves_ok', {'nodes': NODES, 'L': FMAP(BOOL), 'R': FMAP(BOOL), 'F': FMAP(BOOL), 'k': INT}, f"""all(iff(F[l], 0 <= l and l <= len(nodes) and {LP} < k and R[{LP}] and turn(nodes[{LP}], L, (l + len(nodes)) % 2 == 1)) for l in ints())""", opaque=True)
    C.pred('sides_ok', {'x': LIST(REAL), 'splits': SP, 'L': FMAP(BOOL), 'G': FMAP(BOOL), 'k': INT}, """all(iff(L[s], 0 <= s and s < k and x[splits[s].feature] <= splits[s].threshold) for s in ints())
        and all(iff(G[s], 0 <= s and s < k and x[splits[s].feature] > splits[s].threshold) for s in ints())""", opaque=True)
    C.pred('row_paths', {'m': None, 'x': LIST(REAL), 'S': FMAP(BOOL), 'k': INT}, """all(iff(S[m.paths_[j].id], goes(x, m.leaves_, m.splits_, m.paths_[j])) for j in range(k))
        and all(implies(S[v], any(m.paths_[j].id == v for j in range(k))) for v in ints())""")
    C.pred('alike', {'nodes': NODES, 'R': FMAP(BOOL), 'A': FMAP(BOOL), 'B': FMAP(BOOL)}, 'all(implies(R[n], iff(A[nodes[n].candidate_splits[b]], B[nodes[n].candidate_splits[b]])) for n in range(len(nodes)) for b in range(len(nodes[n].candidate_splits)))', opaque=True)
    C.pred('numbered', {'nodes': NODES, 'k': INT}, """all(nodes[n].parent == ite(n == 0, -1, (n - 1) // 2) and nodes[n].children_are_leaves == (2 * n + 1 >= len(nodes))
        and nodes[n].left_child == 2 * n + 1 - ite(2 * n + 1 >= len(nodes), len(nodes), 0) and nodes[n].right_child == 2 * n + 2 - ite(2 * n + 1 >= len(nodes), len(nodes), 0) for n in range(k))""")
    E = lambda r, f: f'elems({r}.{f})'
    def DROW(d, r, m='self'):
        return [f'sides_ok({m}.X_[{r}], {m}.splits_, {E(d, "left_splits")}, {E(d, "right_splits")}, len({m}.splits_))', f'reach_ok({m}.nodes_, {E(d, "left_splits")}, {E(d, "reachable_nodes")}, len({m}.nodes_))',
                f'leaves_ok({m}.nodes_, {E(d, "left_splits")}, {E(d, "reachable_nodes")}, {E(d, "reachable_leaves")}, len({m}.nodes_))', f'row_paths({m}, {m}.X_[{r}], {E(d, "reachable_paths")}, len({m}.paths_))',
                f'{d}.weight == 1 and not {d}.removed_from_sp']
    NEWROWS = lambda rows, n: [f'len({rows}) == {n}', f'all(isnew({rows}[r]) for r in range({n}))', f'all({rows}[r] != {rows}[q] for r in range({n}) for q in range(r))']
    FEW = lambda d: f'len({d}.reachable_leaves) <= 2'
    SAMEROW = lambda rows, q, r: f'(same({rows}[{q}].reachable_nodes, {rows}[{r}].reachable_nodes) and alike(self.nodes_, {E(rows + "[" + q + "]", "reachable_nodes")}, {E(rows + "[" + q + "]", "left_splits")}, {E(rows + "[" + r + "]", "left_splits")}))'
    DROPPED = lambda rows, upto='True': f'all(implies({rows}[r].removed_from_master and not {FEW(rows + "[r]")}, any({upto} and not {rows}[q].removed_from_master and {SAMEROW(rows, "q", "r")} for q in range(r))) for r in range(len({rows})))'
    KEPT_FEW = lambda rows: f'all(implies({FEW(rows + "[r]")}, {rows}[r].removed_from_master) for r in range(len({rows})))'
    TREE = 'len(self.leaves_) == len(self.nodes_) + 1 and any(d >= 0 and len(self.leaves_) == pow2(d) for d in ints())'
    FRESH_NODES = 'all(implies(self.nodes_[n].children_are_leaves, 2 * n + 1 >= len(self.nodes_)) for n in range(len(self.nodes_)))'
    ALLROWS = lambda n, rows='data_rows': [f'all({x} for r in range({n}))' for x in DROW(rows + '[r]', 'r')]
    EARLIER = lambda *fs: ['all(' + ' and '.join(f'same(data_rows[q].{f}, pre(data_rows[q].{f}))' for f in fs) + ' for q in range(len(data_rows)))']
    C.lemma('pow2_less', {'a': INT, 'b': INT}, ['0 <= a', 'a < b'], ['2 * pow2(a) <= pow2(b)'], induct='b', uses=['pow2_less(a, b - 1)'], props=['C08', 'C12'])
    C.fn('DTreeMasterProblem.preprocess_rows', params={'aggressive': BOOL}, result=LIST(REF('Row')), allocs=True, locals={'data_rows': LIST(REF('Row'))},
         requires=['in_ok(self)', SPLITID, TREE, FRESH_NODES, 'len(self.X_) > 0', 'all(self.paths_[i].id != self.paths_[j].id for j in range(len(self.paths_)) for i in range(j))'], modifies=['Node.parent', 'Node.left_child', 'Node.right_child', 'Node.children_are_leaves'] + ['Row.' + f for f in 'id reachable_nodes reachable_paths reachable_leaves target left_splits right_splits removed_from_master removed_from_sp weight'.split()],
         ensures=['numbered(self.nodes_, len(self.nodes_))'] + NEWROWS('result', 'len(self.X_)') + ALLROWS('len(self.X_)', 'result') + [KEPT_FEW('result'), DROPPED('result', 'aggressive')],
         loops={0: {'entry': ['use all(pow2_less(depth, d) for d in ints())', 'use all(pow2_less(d, depth + 1) for d in ints())', 'use all(pow2_less(d, depth) for d in ints())', 'pow2(depth) == len(self.leaves_)'],
                    'inv': ['pow2(depth) == len(self.leaves_)', 'numbered(self.nodes_, _k)', 'all(implies(self.nodes_[n].children_are_leaves, 2 * n + 1 >= len(self.nodes_)) for n in range(_k, len(self.nodes_)))']},
                1: {'inv': NEWROWS('data_rows', '_k') + ALLROWS('_k') + [f'all(data_rows[r].removed_from_master == ({FEW("data_rows[r]")}) for r in range(_k))']},
                2: {'inv': ['sides_ok(self.X_[_k0], self.splits_, elems(data_row.left_splits), elems(data_row.right_splits), _k)'] + EARLIER('left_splits', 'right_splits')},
                3: {'inv': EARLIER('reachable_nodes', 'reachable_leaves') + ['reach_ok(self.nodes_, elems(data_row.left_splits), elems(data_row.reachable_nodes), _k)', 'leaves_ok(self.nodes_, elems(data_row.left_splits), elems(data_row.reachable_nodes), elems(data_row.reachable_leaves), _k)']},
                4: {'inv': EARLIER('reachable_nodes', 'reachable_leaves') + ['all(iff(n in data_row.reachable_nodes, n in pre(data_row.reachable_nodes) or (n > 0 and (n - 1) // 2 == _k1 and n < len(self.nodes_) and any(iff(node.candidate_splits[b] in data_row.left_splits, n % 2 == 1) for b in range(_k)))) for n in ints())',
                            'all(iff(l in data_row.reachable_leaves, l in pre(data_row.reachable_leaves) or (0 <= l and l <= len(self.nodes_) and (l + len(self.nodes_) - 1) // 2 == _k1 and any(iff(node.candidate_splits[b] in data_row.left_splits, (l + len(self.nodes_)) % 2 == 1) for b in range(_k)))) for l in ints())']},
                5: {'inv': EARLIER('reachable_paths') + ['row_paths(self, self.X_[_k0], elems(data_row.reachable_paths), _k)']},
                6: {'inv': [KEPT_FEW('data_rows'), DROPPED('data_rows', 'q < _k')]},
                7: {'inv': [KEPT_FEW('data_rows'), DROPPED('data_rows', 'q < _k0 + 1'), 'not data_rows[r1].removed_from_master']},
                8: {'inv': ['all(iff(s in valid_splits, any(n in _done and has_cand(self.nodes_[n], s) for n in range(len(self.nodes_)))) for s in ints())']},
                9: {'inv': ['all(iff(s in valid_splits, s in pre(valid_splits) or any(node.candidate_splits[b] == s for b in range(_k))) for s in ints())']},
                10: {'inv': ['not found_mismatch_split', 'all(implies(s in _done, iff(s in data_rows[r1].left_splits, s in data_rows[r2].left_splits)) for s in ints())']}},
         props=['C08', 'C12'])
    C.fn('DTreeMasterProblem.compute_satisfied_paths', params={}, requires=['in_ok(self)', 'not is_none(self.data_rows)', 'rows_in(self)', 'all(not v in self.data_rows[r].reachable_paths for r in range(len(self.data_rows)) for v in ints())',
                                                                           'all(self.paths_[i].id != self.paths_[j].id for j in range(len(self.paths_)) for i in range(j))'],
         modifies=['Row.reachable_paths'], ensures=['rows_ok(self, len(self.X_))'],
         loops={0: {'inv': ['rows_ok(self, _k)', 'all(not v in self.data_rows[r].reachable_paths for r in range(_k, len(self.data_rows)) for v in ints())']},
                1: {'inv': ['rows_ok(self, _k0)', 'all(not v in self.data_rows[r].reachable_paths for r in range(_k0 + 1, len(self.data_rows)) for v in ints())',
                            f"all(iff(self.paths_[j].id in self.data_rows[_k0].reachable_paths, j < _k and {ROW('_k0', 'j', 'self')}) for j in range(len(self.paths_)))",
                            'all(implies(v in self.data_rows[_k0].reachable_paths, any(self.paths_[j].id == v for j in range(len(self.paths_)))) for v in ints())']}},
         props=['C11'])
    SELF = lambda t: t.replace('m.', 'self.')
    sv = lambda *fs: [f'self.solver_.{f}' for f in fs]
    NP, NL = 'len(self.paths_)', 'len(self.leaves_)'
    IDS = f'all(self.paths_[j].id == j for j in range({NP}))'
    OLDROWS = ['all(self.solver_.coef[c][v] == pre(self.solver_.coef)[c][v] for c in range(pre(self.solver_.ncons)) for v in ints())',
               'all(self.solver_.clb[c] == pre(self.solver_.clb)[c] and self.solver_.cub[c] == pre(self.solver_.cub)[c] for c in range(pre(self.solver_.ncons)))']
    LASTKEEP = 'all(self.solver_.coef[c][v] == pre(self.solver_.coef)[c][v] for c in range(pre(self.solver_.ncons) - 1) for v in ints())'
    LAST = 'pre(self.solver_.ncons) - 1'
    C0 = 'self.solver_.ncons'
    NS0 = 'self.ns_constraints_[_k0]'
    NSB = ['all(iff(l in self.ns_constraints_, 0 <= l and l < _k0 + 1) for l in ints())', 'ns_below(self, _k0)']
    NSLAST = f'all(implies(not (0 <= v and v < {NP}), self.solver_.coef[{LAST}][v] == pre(self.solver_.coef)[{LAST}][v]) for v in ints())'
    L5 = ['self.solver_.nvars >= ' + NP, IDS, 'ns_vals(self)', 'nvars_ok(self)', 'pvars_ok(self)',
          'all(named(self, c) for c in range(self.solver_.ncons))',
          'self.solver_.ncons >= pre(self.solver_.ncons)',
          'all(self.solver_.ck0[c] == pre(self.solver_.ck0)[c] and self.solver_.ck1[c] == pre(self.solver_.ck1)[c] for c in range(pre(self.solver_.ncons)))'] + OLDROWS
    C.fn('DTreeMasterProblem.generate_mp', params={'X': MAT, 'y': LIST(INT)}, captures=['y'], allocs=True,
         requires=['implies(self.generated_, dm_ok(self))', 'implies(not self.generated_, self.solver_.nvars == 0 and self.solver_.ncons == 0 and self.solver_.off == 0 and self.cut_gen_model_.nvars == 0 and self.cut_gen_model_.ncons == 0)',
                   f'implies(not self.generated_, {SIDEROWS("X", "self")} and {SPLITS_DIFFER.replace("m.", "self.")} and all(not k in self.splits_[s].left_cuts and not k in self.splits_[s].right_cuts for s in range(len(self.splits_)) for k in ints()))',
                   'tree_in(self) and paths_in(self)', 'all(0 <= self.splits_[s].feature and self.splits_[s].feature < X.shape[1] for s in range(len(self.splits_)))',
                   f'implies(not self.generated_ and is_none(self.data_rows), {SPLITID} and {TREE} and {FRESH_NODES} and len(X) > 0)',
                   'implies(not self.generated_ and not is_none(self.data_rows), len(self.data_rows) == len(X) and all(self.data_rows[r] != self.data_rows[q] for r in range(len(self.data_rows)) for q in range(r)) and all(not v in self.data_rows[r].reachable_paths for r in range(len(self.data_rows)) for v in ints()))'],
         modifies=['self.' + f for f in 'solver_ X_ y_ path_vars_ leaf_cons_ data_rows row_cons_ added_row cut_cons_ ns_vars ns_constraints_ generated_ cut_gen_model_ cut_split_vars_ cut_path_vars_'.split()] + ['Path.id'] +
                  C.funcs['DTreeMasterProblem.preprocess_rows'].modifies,
         ensures=['self.generated_', 'dm_ok(self)', 'implies(old(self.generated_), same(self.X_, old(self.X_)))', 'implies(not old(self.generated_), same(self.X_, X) and same(self.y_, y) and len(self.cut_cons_) == 0)'],
         loops={0: {'inv': ['self.solver_.nvars == _k', 'len(self.path_vars_) == ' + NP, 'all(self.path_vars_[j] == j and self.paths_[j].id == j and self.solver_.vk0[j] == j for j in range(_k))',
                            'all(self.solver_.vlb[j] == 0 and self.solver_.vub[j] == INF() and self.solver_.obj[j] == self.paths_[j].cost for j in range(_k))']},
                1: {'inv': ['self.solver_.ncons == _k', f'len(self.leaf_cons_) == {NL}', 'all(self.leaf_cons_[l] == l and self.solver_.ck0[l] == l and self.solver_.ck1[l] == -1 for l in range(_k))', 'all(self.solver_.clb[l] == 1 and self.solver_.cub[l] == 1 for l in range(_k))',
                            f'all(self.solver_.coef[l][j] == ite(self.paths_[j].leaf_id == l, 1, 0) for l in range(_k) for j in range({NP}))'],
                    'keys': {'con': ['leaf.id', '-1', '-1']}},
                2: {'inv': [f'all(self.solver_.coef[_k0][j] == ite(j < _k and self.paths_[j].leaf_id == _k0, 1, 0) for j in range({NP}))', LASTKEEP]},
                3: {'inv': [f'all(self.added_row[r] == (r < _k and not self.beta_constraints_as_cuts and not self.data_rows[r].removed_from_master) for r in range(len(self.X_)))', 'len(self.added_row) == len(self.X_)',
                            'all(implies(r >= _k or not self.added_row[r], is_none(self.row_cons_[r])) for r in range(len(self.X_)))', f'self.solver_.ncons >= {NL}',
                            SELF(ROWC('_k', False)), f'all(implies(self.added_row[r], self.solver_.ck0[the(self.row_cons_[r])] == r and self.solver_.ck1[the(self.row_cons_[r])] == -2) for r in range(_k))', f'all(implies(self.added_row[r], the(self.row_cons_[r]) >= {NL}) for r in range(_k))', 'all(self.solver_.ck0[l] == l and self.solver_.ck1[l] == -1 for l in range(len(self.leaves_)))', f'all(implies({NL} <= c, self.solver_.ck1[c] == -2 and 0 <= self.solver_.ck0[c] and self.solver_.ck0[c] < _k and self.added_row[self.solver_.ck0[c]] and the(self.row_cons_[self.solver_.ck0[c]]) == c) for c in range(self.solver_.ncons))'] + OLDROWS,
                    'keys': {'con': ['r', '-2', '-2']}},
                4: {'inv': [LASTKEEP, f"all(self.solver_.coef[{LAST}][j] == ite(j < _k and {ROW('_k0', 'j', 'self')}, 1, 0) for j in range({NP}))"]},
                5: {'inv': L5 + ['ns_keys(self, _k)'], 'hint': ['all(iff(n in nodes, has_node(leaf, n)) for n in ints())']},
                6: {'inv': L5 + NSB + [f'all(iff(n in {NS0}, any(nodes[a] == n for a in range(_k))) for n in ints())',
                                       f'all(implies(any(nodes[a] == n for a in range(_k)), iff(s in {NS0}[n], has_cand(self.nodes_[n], s))) for n in ints() for s in ints())']},
                7: {'inv': L5 + NSB + [f'all(iff(n in {NS0}, any(nodes[a] == n for a in range(_k1 + 1))) for n in ints())',
                                       f'all(implies(any(nodes[a] == n for a in range(_k1)), iff(s in {NS0}[n], has_cand(self.nodes_[n], s))) for n in ints() for s in ints())',
                                       f'all(iff(s in {NS0}[node.id], any(node.candidate_splits[b] == s for b in range(_k))) for s in ints())'],
                    'keys': {'con': ['leaf.id', 'node.id', 'split'], 'var': ['leaf.id', 'node.id', 'split']}},
                8: {'inv': [LASTKEEP, NSLAST, f"all(self.solver_.coef[{LAST}][j] == ite(j < _k and self.paths_[j].leaf_id == leaf.id and on(self.paths_[j], node.id, split), 1, 0) for j in range({NP}))"]},
                9: {'inv': [LASTKEEP, NSLAST, f"all(implies(j != _k3, self.solver_.coef[{LAST}][j] == pre(self.solver_.coef)[{LAST}][j]) for j in range({NP}))",
                            f"self.solver_.coef[{LAST}][_k3] == ite(path.leaf_id == leaf.id and any(path.node_ids[q] == node.id and path.splits[q] == split for q in range(_k)), 1, 0)"]},
                },
         props=['C11'])
    # ---- rows added lazily
    PV = FMAP(REAL)
    C.rec('xsum', {'s': FMAP(REAL)}, 'k', 's[k]', REAL)
    C.lemma('xsum_same', {'s': FMAP(REAL), 't': FMAP(REAL), 'n': INT}, ['n >= 0', 'all(s[i] == t[i] for i in range(n))'], ['xsum(s, n) == xsum(t, n)'], induct='n', uses=['xsum_same(s, t, n - 1)'], props=['C13'])
    C.lemma('xsum_but', {'s': FMAP(REAL), 't': FMAP(REAL), 'n': INT, 'q': INT}, ['0 <= q', 'q < n', 'all(s[i] == t[i] for i in range(n) if i != q)'], ['xsum(s, n) - s[q] == xsum(t, n) - t[q]'],
            induct='n', asserts=['use xsum_same(s, t, n - 1)'], uses=['xsum_but(s, t, n - 1, q)'], props=['C13'])
    SEL_ = 'fun(lambda i: a[{f}[i]])'
    KEPT = 'fun(lambda j: ite(keep[j], a[j], 0))'
    # summing over an enumeration f (inverse g) of the kept indices is summing over all indices
    C.lemma('xsum_list', {'f': FMAP(INT), 'n': INT, 'g': FMAP(INT), 'keep': FMAP(BOOL), 'a': FMAP(REAL), 'm': INT},
            ['n >= 0', 'm >= 0', 'all(0 <= f[i] and f[i] < m and keep[f[i]] and g[f[i]] == i for i in range(n))', 'all(implies(keep[j], 0 <= g[j] and g[j] < n and f[g[j]] == j) for j in range(m))'],
            [f'xsum({SEL_.format(f="f")}, n) == xsum({KEPT}, m)'], induct='m',
            uses=['implies(not keep[m - 1], xsum_list(f, n, g, keep, a, m - 1))',
                  'implies(keep[m - 1], xsum_list(fun(lambda i: ite(i == g[m - 1], f[n - 1], f[i])), n - 1, fun(lambda j: ite(j == f[n - 1], g[m - 1], g[j])), keep, a, m - 1))'],
            asserts=[f'implies(m > 0 and keep[m - 1], n > 0)', f'use xsum_but({SEL_.format(f="f")}, fun(lambda i: a[ite(i == g[m - 1], f[n - 1], f[i])]), n, g[m - 1])'], props=['C13'])
    C.rec('covered', {'row': LIST(REAL), 'leaves': LIST(REF('Leaf')), 'splits': SP, 'paths': LIST(P), 'vals': FMAP(REAL)}, 'j', 'ite(goes(row, leaves, splits, paths[j]), vals[paths[j].id], 0)', REAL)
    C.lemma('covered_sum', {'row': LIST(REAL), 'leaves': LIST(REF('Leaf')), 'splits': SP, 'paths': LIST(P), 'vals': FMAP(REAL), 's': FMAP(REAL), 'n': INT},
            ['n >= 0', 'all(s[j] == ite(goes(row, leaves, splits, paths[j]), vals[paths[j].id], 0) for j in range(n))'], ['covered(row, leaves, splits, paths, vals, n) == xsum(s, n)'], induct='n',
            uses=['covered_sum(row, leaves, splits, paths, vals, s, n - 1)'], props=['C13'])
    COVER = lambda r: f'covered(self.X_[{r}], self.leaves_, self.splits_, self.paths_, elems(self.path_solution_values), len(self.paths_))'
    FAR = lambda x: f'(abs({x} - 1) > 1e-6)'
    HAVE = 'all(self.paths_[j].id in self.path_solution_values for j in range(len(self.paths_)))'
    C.fn('DTreeMasterProblem.get_satisfied_path_ids', params={'row': INT}, result=LIST(INT), requires=['not is_none(self.data_rows)', '0 <= row and row < len(self.data_rows)'],
         ensures=['all(iff(v in result, v in self.data_rows[row].reachable_paths) for v in ints())', 'all(result[i] in self.data_rows[row].reachable_paths for i in range(len(result)))', 'distinct(result)'], props=['C13'])
    IDS = 'satisfied_path_ids'
    ARE_PATHS = f'all(pat({IDS}[i], any(self.paths_[j].id == {IDS}[i] and self.path_vars_[j] == {IDS}[i] for j in range(len(self.paths_)))) for i in range(len({IDS})))'
    AMONG = f'all(iff(self.paths_[j].id in {IDS}, goes(self.X_[r], self.leaves_, self.splits_, self.paths_[j])) for j in range(len(self.paths_)))'
    C.fn('DTreeMasterProblem.violated_row_constraint', params={IDS: LIST(INT)}, result=BOOL,
         requires=['pvars_ok(self)', HAVE, f'distinct({IDS})', ARE_PATHS],
         ensures=[f'all(implies({AMONG}, result == {FAR(COVER("r"))}) for r in range(len(self.X_)))'],
         asserts=[f'all({IDS}[i] in self.path_vars_ for i in range(len({IDS})))', 'all(self.path_vars_[i] != self.path_vars_[j] for j in range(len(self.path_vars_)) for i in range(j))',
                  f'apply xsum_list(fun(lambda i: pos({IDS}[i], self.path_vars_)), len({IDS}), fun(lambda j: pos(self.path_vars_[j], {IDS})), fun(lambda j: self.path_vars_[j] in {IDS}), fun(lambda j: self.path_solution_values[self.path_vars_[j]]), len(self.paths_))',
                  f'apply xsum_same(fun(lambda i: self.path_solution_values[{IDS}[i]]), fun(lambda i: self.path_solution_values[self.path_vars_[pos({IDS}[i], self.path_vars_)]]), len({IDS}))',
                  f'use all(covered_sum(self.X_[r], self.leaves_, self.splits_, self.paths_, elems(self.path_solution_values), fun(lambda j: ite(self.path_vars_[j] in {IDS}, self.path_solution_values[self.path_vars_[j]], 0)), len(self.paths_)) for r in range(len(self.X_)))'],
         loops={0: {'inv': [f'path_sum == xsum(fun(lambda i: self.path_solution_values[{IDS}[i]]), _k)']}}, props=['C13'])
    ANSWER = lambda c, was: f'implies({c}, ' + ' and '.join(f'same(self.solver_.{f}, {was}(self.solver_.{f}))' for f in ('status', 'solved', 'objval', 'sol', 'dual')) + ')'
    VIOL = lambda r: FAR(COVER(r))
    C.fn('DTreeMasterProblem.add_beta_cuts', params={}, result=INT, modifies=sv() + ['self.solver_', 'self.added_row', 'self.row_cons_'],
         requires=['self.generated_', 'dm_ok(self)', HAVE],
         ensures=['dm_ok(self)', '0 <= result and result <= 10', ANSWER('result == 0', 'old'), 'self.solver_.ncons == old(self.solver_.ncons) + result', 'self.solver_.nvars == old(self.solver_.nvars)',
                  'len(self.added_row) == old(len(self.added_row))', 'all(implies(old(self.added_row)[r], self.added_row[r]) for r in range(len(self.X_)))',
                  f'all(implies(self.added_row[r] and not old(self.added_row)[r], not self.data_rows[r].removed_from_master and {VIOL("r")}) for r in range(len(self.X_)))',
                  f'implies(result < 10, all(implies(not self.added_row[r] and not self.data_rows[r].removed_from_master, not {VIOL("r")}) for r in range(len(self.X_))))'],
         loops={0: {'inv': ['dm_ok(self)', '0 <= num_cuts and num_cuts <= 10', ANSWER('num_cuts == 0', 'pre'), 'self.solver_.ncons == pre(self.solver_.ncons) + num_cuts', 'len(self.added_row) == pre(len(self.added_row))',
                            'all(implies(pre(self.added_row)[r], self.added_row[r]) for r in range(len(self.X_)))', 'all(implies(r >= _k and self.added_row[r], pre(self.added_row)[r]) for r in range(len(self.X_)))',
                            f'all(implies(self.added_row[r] and not pre(self.added_row)[r], not self.data_rows[r].removed_from_master and {VIOL("r")}) for r in range(len(self.X_)))',
                            f'all(implies(not self.added_row[r] and not self.data_rows[r].removed_from_master, not {VIOL("r")}) for r in range(_k))'],
                    'keys': {'con': ['r', '-2', '-2']}},
                1: {'inv': [LASTKEEP, ARE_PATHS, f'not is_none(self.row_cons_[_k0]) and the(self.row_cons_[_k0]) >= {LAST} and the(self.row_cons_[_k0]) <= {LAST}', f'all(self.solver_.coef[{LAST}][v] == ite(any(satisfied_path_ids[i] == v for i in range(_k)), 1, 0) for v in ints())']}},
         props=['C13'])
    # ---- the solution and the duals of the restricted master
    VALUES = ['all(iff(v in self.path_solution_values, v in self.path_vars_) for v in ints())', 'all(self.path_solution_values[self.path_vars_[j]] == self.solver_.sol[self.path_vars_[j]] for j in range(len(self.path_vars_)))']
    C.fn('DTreeMasterProblem.store_lp_solution', params={}, modifies=['self.rmp_objective_', 'self.path_solution_values'],
         requires=['self.solver_.solved', 'all(0 <= self.path_vars_[j] and self.path_vars_[j] < self.solver_.nvars for j in range(len(self.path_vars_)))'],
         ensures=['self.rmp_objective_ == self.solver_.objval'] + VALUES,
         loops={0: {'inv': ['all(iff(v in self.path_solution_values, any(self.path_vars_[j] == v for j in range(_k))) for v in ints())',
                            'all(self.path_solution_values[self.path_vars_[j]] == self.solver_.sol[self.path_vars_[j]] for j in range(_k))']}}, props=['C05', 'C13'])
    # cut k of the master is the assignment of sides `row`
    C.pred('cut_is', {'splits': SP, 'k': INT, 'row': LIST(BOOL)}, """len(row) == len(splits) and all(iff(k in splits[s].left_cuts, row[s]) and iff(k in splits[s].right_cuts, not row[s]) for s in range(len(splits)))""", opaque=True)
    NEWCUTS = lambda rows, was: f'len(self.cut_cons_) == {was} + len({rows}) and all(cut_is(self.splits_, {was} + i, {rows}[i]) for i in range(len({rows})))'
    SPLITID = 'all(self.splits_[s].id == s for s in range(len(self.splits_)))'
    CUTMOD = ['self.' + f for f in ('solver_', 'added_row', 'cut_cons_', 'cut_gen_model_')] + ['Split.left_cuts', 'Split.right_cuts']
    OLDCUTS = lambda was: f'all(implies(k < {was}(len(self.cut_cons_)), iff(k in self.splits_[s].left_cuts, {was}(k in self.splits_[s].left_cuts)) and iff(k in self.splits_[s].right_cuts, {was}(k in self.splits_[s].right_cuts))) for s in range(len(self.splits_)) for k in ints())'
    # the callback that records the cuts: one assignment at a time
    C.cls('CutGenerator', 'rec', {'path_vars': LIST(INT), 'split_vars': LIST(INT), 'solution_count': INT, 'cuts_': LIST(LIST(BOOL)), 'cut_rows': LIST(LIST(BOOL)), 'orig_path_coeffs': LIST(REAL),
                                  'cur': SOL, 'seen': FMAP(SOL), 'nseen': INT, 'best': INT})
    C.fn('CutGenerator.Value', params={'v': INT}, result=INT, trusted=True, ensures=['result == ite(lit(self.cur, v), 1, 0)'])
    CBV = lambda sol: f'wdot(elems(self.path_vars), elems(self.orig_path_coeffs), {sol}, len(self.path_vars))'
    C.fn('CutGenerator.on_solution_callback', params={}, modifies=['self.solution_count', 'self.cuts_', 'self.cut_rows'],
         requires=['len(self.orig_path_coeffs) == len(self.path_vars)', 'len(self.cuts_) == len(self.cut_rows)'],
         ensures=['len(self.cuts_) == len(self.cut_rows)', f'len(self.cuts_) == old(len(self.cuts_)) + ite({CBV("self.cur")} > 1 + 1e-6, 1, 0)',
                  'all(same(self.cuts_[q], old(self.cuts_)[q]) and same(self.cut_rows[q], old(self.cut_rows)[q]) for q in range(old(len(self.cuts_))))',
                  'all(len(self.cuts_[q]) == len(self.path_vars) and all(self.cuts_[q][i] == lit(self.cur, self.path_vars[i]) for i in range(len(self.path_vars))) for q in range(old(len(self.cuts_)), len(self.cuts_)))',
                  'all(len(self.cut_rows[q]) == len(self.split_vars) and all(self.cut_rows[q][i] == lit(self.cur, self.split_vars[i]) for i in range(len(self.split_vars))) for q in range(old(len(self.cuts_)), len(self.cuts_)))'],
         loops={0: {'inv': ['orig_obj == wdot(elems(self.path_vars), elems(self.orig_path_coeffs), self.cur, _k)', 'len(cut) == len(self.path_vars)', 'all(cut[i] == (i < _k and lit(self.cur, self.path_vars[i])) for i in range(len(cut)))']},
                1: {'inv': ['len(cut_row) == len(self.split_vars)', 'all(cut_row[i] == (i < _k and lit(self.cur, self.split_vars[i])) for i in range(len(cut_row)))']}},
         props=['C13'])
    # an assignment of sides to the splits; the paths it takes; how much of the current solution they carry
    C.pred('takes', {'leaf': REF('Leaf'), 'p': P, 'row': LIST(BOOL)}, 'all(iff(p.node_ids[i] in leaf.left_nodes, row[p.splits[i]]) for i in range(len(p.node_ids)))', opaque=True)
    C.pred('ordered_row', {'splits': SP, 'row': LIST(BOOL), 'i': INT, 'j': INT}, """implies(splits[i].feature == splits[j].feature, implies(splits[i].threshold < splits[j].threshold and row[i], row[j])
        and implies(splits[j].threshold < splits[i].threshold and row[j], row[i]))""", opaque=True)
    C.pred('consistent', {'splits': SP, 'row': LIST(BOOL)}, 'len(row) == len(splits) and all(ordered_row(splits, row, i, j) for j in range(len(splits)) for i in range(j))', opaque=True)
    C.rec('carried', {'row': LIST(BOOL), 'leaves': LIST(REF('Leaf')), 'paths': LIST(P), 'vals': FMAP(REAL)}, 'j', 'ite(takes(leaves[paths[j].leaf_id], paths[j], row), vals[paths[j].id], 0)', REAL)
    FOUND = {'leaves': LIST(REF('Leaf')), 'splits': SP, 'paths': LIST(P), 'vals': FMAP(REAL), 'row': LIST(BOOL)}
    C.pred('cutting', FOUND, 'consistent(splits, row) and carried(row, leaves, paths, vals, len(paths)) > 1 + 1e-6')
    C.pred('path_taken', {'leaves': LIST(REF('Leaf')), 'paths': LIST(P), 'row': LIST(BOOL), 'cut': LIST(BOOL)}, 'len(cut) == len(paths) and all(cut[j] == takes(leaves[paths[j].leaf_id], paths[j], row) for j in range(len(paths)))', opaque=True)
    ARGS = 'leaves, splits, paths, vals, row'
    SOLROW = {'z': LIST(INT), 'sol': SOL, 'row': LIST(BOOL)}
    ISROW = ['len(row) == len(z)', 'all(z[s] == s and row[s] == sol[s] for s in range(len(z)))']
    C.lemma('row_takes', dict(SOLROW, leaf=REF('Leaf'), p=P), ISROW + ['len(p.splits) == len(p.node_ids)', 'all(0 <= p.splits[i] and p.splits[i] < len(z) for i in range(len(p.splits)))'],
            ['sides(leaf, z, p, sol) == takes(leaf, p, row)'], props=['C13'])
    C.lemma('row_sorted', dict(SOLROW, splits=SP), ISROW + ['len(z) == len(splits)', 'sorted_(z, splits, len(splits), len(splits) + 1, sol)'], ['consistent(splits, row)'],
            asserts=['all(iff(ordered(z, splits, sol, i, j), ordered_row(splits, row, i, j)) for j in range(len(splits)) for i in range(j))'], props=['C13'])
    C.lemma('row_carried', dict(FOUND, pv=FMAP(INT), co=FMAP(REAL), sol=SOL, n=INT), ['n >= 0', 'all(lit(sol, pv[j]) == takes(leaves[paths[j].leaf_id], paths[j], row) and co[j] == vals[paths[j].id] for j in range(n))'],
            ['wdot(pv, co, sol, n) == carried(row, leaves, paths, vals, n)'], induct='n', uses=[f'row_carried({ARGS}, pv, co, sol, n - 1)'], props=['C13'])
    C.lemma('scaled', {'pv': FMAP(INT), 'fl': FMAP(REAL), 'co': FMAP(REAL), 'sol': SOL, 'scale': INT, 'n': INT}, ['n >= 0', 'all(fl[j] <= co[j] * scale and co[j] * scale < fl[j] + 1 for j in range(n))'],
            ['wdot(pv, fl, sol, n) <= wdot(pv, co, sol, n) * scale', 'wdot(pv, co, sol, n) * scale <= wdot(pv, fl, sol, n) + n'], induct='n', uses=['scaled(pv, fl, co, sol, scale, n - 1)'], props=['C13'])
    MINE = 'self.leaves_, self.splits_, self.paths_, elems(self.path_solution_values)'
    PVC = 'elems(self.cut_path_vars_), elems(orig_path_coeffs)'
    NP_ = 'len(self.paths_)'
    RECORDED = f'len(cb.cuts_) == len(cb.cut_rows) and all(cutting({MINE}, cb.cut_rows[q]) and path_taken(self.leaves_, self.paths_, cb.cut_rows[q], cb.cuts_[q]) for q in range(len(cb.cuts_)))'
    NEW = 'len(cb.cuts_) - 1'
    N0 = 'old(len(self.cut_cons_))'
    ROWQ = 'cut_rows[k - {n}][s]'
    SPLITCUTS = lambda upto, more='True': f"""all(iff(k in self.splits_[s].left_cuts, old(k in self.splits_[s].left_cuts) or ({N0} <= k and k < {N0} + {upto} and cut_rows[k - {N0}][s]))
        and iff(k in self.splits_[s].right_cuts, old(k in self.splits_[s].right_cuts) or ({N0} <= k and k < {N0} + {upto} and not cut_rows[k - {N0}][s])) for s in range(len(self.splits_)) for k in ints())"""
    ADDED = 'len(cb.cuts_) > top(len(cb.cuts_))'
    NROW = f'cb.cut_rows[{NEW}]'
    ZS = 'self.cut_split_vars_'
    ENT = lambda j, k: f'enters(self.leaves_, self.splits_, self.paths_[{j}], {k})'
    SCALED = lambda sol: f'apply all(scaled(elems(self.cut_path_vars_), elems(path_coeffs), elems(orig_path_coeffs), {sol}, self.cut_obj_scale, {NP_})'
    C.fn('DTreeMasterProblem.add_cuts', params={}, result=LIST(LIST(BOOL)), result_shared=True, modifies=CUTMOD,
         requires=['self.generated_', 'dm_ok(self)', HAVE, SPLITID, 'self.cut_obj_scale > 0'],
         ensures=['dm_ok(self)', ANSWER('len(result) == 0', 'old'), NEWCUTS('result', N0), OLDCUTS('old'), 'self.solver_.nvars == old(self.solver_.nvars)',
                  f'all(cutting({MINE}, result[q]) for q in range(len(result)))'],
         local_ensures=[f'implies(len(result) == 0 and status == 4, all(implies(feas(self, sol), wdot({PVC}, sol, {NP_}) * self.cut_obj_scale <= (1 + 1e-6) * self.cut_obj_scale + {NP_}) for sol in sols()))',
                        f'all(orig_path_coeffs[j] == self.path_solution_values[self.paths_[j].id] for j in range({NP_}))'],
         asserts=[SCALED('cut_generator.seen[cut_generator.best]') + ' for _ in range(1))', SCALED('sol') + ' for sol in sols())',
                  f'implies(len(cuts) == 0 and status == 4, wdot({PVC}, cut_generator.seen[cut_generator.best], {NP_}) <= 1 + 1e-6)',
                  f'implies(len(cuts) == 0 and status == 4, wdot({PVC}, cut_generator.seen[cut_generator.best], {NP_}) * self.cut_obj_scale <= (1 + 1e-6) * self.cut_obj_scale)'],
         callbacks={0: {'inv': [RECORDED, f'implies(len(cb.cuts_) == 0, all(wdot({PVC}, cb.seen[k], {NP_}) <= 1 + 1e-6 for k in range(cb.nseen)))'],
                        'hint': [f'meant(self, {NP_}, cb.cur) and sorted(self, len(self.splits_), len(self.splits_) + 1, cb.cur)',
                                 f'implies({ADDED}, len({NROW}) == len({ZS}) and all({ZS}[s] == s and {NROW}[s] == cb.cur[s] for s in range(len({ZS}))))',
                                 f'use row_sorted({ZS}, cb.cur, {NROW}, self.splits_)',
                                 f'use all(row_takes({ZS}, cb.cur, {NROW}, self.leaves_[self.paths_[j].leaf_id], self.paths_[j]) for j in range({NP_}))',
                                 f'implies({ADDED}, all(lit(cb.cur, self.cut_path_vars_[j]) == takes(self.leaves_[self.paths_[j].leaf_id], self.paths_[j], {NROW}) for j in range({NP_})))',
                                 f'use row_carried({MINE}, {NROW}, elems(self.cut_path_vars_), elems(orig_path_coeffs), cb.cur, {NP_})',
                                 f'implies({ADDED}, cutting({MINE}, {NROW}) and path_taken(self.leaves_, self.paths_, {NROW}, cb.cuts_[{NEW}]))']}},
         loops={0: {'inv': ['len(path_coeffs) == _k and len(orig_path_coeffs) == _k', 'all(orig_path_coeffs[j] == self.path_solution_values[self.paths_[j].id] for j in range(_k))',
                            'all(path_coeffs[j] <= orig_path_coeffs[j] * self.cut_obj_scale and orig_path_coeffs[j] * self.cut_obj_scale < path_coeffs[j] + 1 for j in range(_k))']},
                1: {'inv': [SPLITCUTS('_k')]},
                2: {'inv': [SPLITCUTS('_k0 + ite(s < _k, 1, 0)')]},
                3: {'inv': [f"all(iff({ENT('j', 'k')}, old({ENT('j', 'k')})) for j in range({NP_}) for k in range({N0}))",
                            f"all(iff({ENT('j', N0 + ' + q')}, cuts[q][j]) for j in range({NP_}) for q in range(len(cuts)))",
                            f'len(self.cut_cons_) == {N0} + _k', 'dm_core(self)'],
                    'keys': {'con': ['r', '-3', '-3']}},
                4: {'inv': [LASTKEEP, f'all(self.solver_.coef[{LAST}][self.paths_[j].id] == ite(j < _k and cut[j], 1, 0) for j in range({NP_}))',
                            f'all(implies((n, s) in self.ns_vars, self.solver_.coef[{LAST}][self.ns_vars[n, s]] == 0) for n in ints() for s in ints())']}},
         props=['C13'])
    DUAL = lambda l, c: f'{l} == self.solver_.dual[{c}]'
    NSD = 'ns_duals'
    DONE = 'any(nodes[a] == n for a in range({k}))'
    C.pred('dkey', {'d': DICT(INT, DICT(INT, DICT(INT, REAL))), 'l': INT, 'n': INT, 's': INT}, 'l in d and n in d[l] and s in d[l][n]')
    NSDUAL = lambda d, more='True': f'all(implies(dkey({d}, l, n, s) and {more}, key(self, l, n, s) and {d}[l][n][s] == self.solver_.dual[self.ns_constraints_[l][n][s]]) for l in ints() for n in ints() for s in ints())'
    C.fn('DTreeMasterProblem.solve_rmp', params={'solver_params': STR}, result=TUP(LIST(REAL), LIST(REAL), DICT(INT, DICT(INT, DICT(INT, REAL))), LIST(REAL), LIST(LIST(BOOL))),
         requires=['self.generated_', 'dm_ok(self)', SPLITID, 'self.cut_obj_scale > 0'], locals={'ns_duals': DICT(INT, DICT(INT, DICT(INT, REAL)))},
         modifies=CUTMOD + ['self.' + f for f in 'row_cons_ prev_rmp_objective_ rmp_objective_ iter_ rmp_result_status path_solution_values total_cuts_added cut_gen_time'.split()],
         ensures=['dm_ok(self)', 'self.solver_.solved and self.rmp_result_status == self.solver_.status', 'self.prev_rmp_objective_ == old(self.rmp_objective_)',
                  'implies(self.rmp_result_status == 0, self.rmp_objective_ == self.solver_.objval and len(result[0]) == len(self.leaves_) and len(result[1]) == len(self.X_) and len(result[3]) == len(self.cut_cons_))',
                  'implies(self.rmp_result_status == 0, all(result[0][l] == self.solver_.dual[self.leaf_cons_[l]] for l in range(len(self.leaves_))))',
                  'implies(self.rmp_result_status == 0, all(result[1][r] == ite(self.added_row[r], self.solver_.dual[the(self.row_cons_[r])], 0) for r in range(len(self.X_))))',
                  'implies(self.rmp_result_status == 0, all(result[3][k] == self.solver_.dual[self.cut_cons_[k]] for k in range(len(self.cut_cons_))))',
                  'implies(self.rmp_result_status == 0, all(iff(dkey(result[2], l, n, s), key(self, l, n, s)) for l in ints() for n in ints() for s in ints()) and ' + NSDUAL('result[2]') + ')',
                  NEWCUTS('result[4]', 'old(len(self.cut_cons_))')],
         loops={0: {'inv': ['dm_ok(self)', 'self.solver_.solved and self.rmp_result_status == self.solver_.status', NEWCUTS('newly_added_cuts', 'pre(len(self.cut_cons_))')]},
                1: {'inv': ['len(leaf_duals) == _k', 'all(leaf_duals[l] == self.solver_.dual[self.leaf_cons_[l]] for l in range(_k))']},
                2: {'inv': ['len(row_duals) == _k', 'all(row_duals[r] == ite(self.added_row[r], self.solver_.dual[the(self.row_cons_[r])], 0) for r in range(_k))']},
                3: {'inv': ['len(cut_duals) == _k', 'all(cut_duals[k] == self.solver_.dual[self.cut_cons_[k]] for k in range(_k))']},
                4: {'inv': ['all(iff(l in ns_duals, 0 <= l and l < _k) for l in ints())', 'all(implies(0 <= l and l < _k, iff(dkey(ns_duals, l, n, s), key(self, l, n, s))) for l in ints() for n in ints() for s in ints())', NSDUAL(NSD)],
                    'hint': ['all(iff(n in nodes, has_node(leaf, n)) for n in ints())']},
                5: {'inv': ['all(iff(l in ns_duals, 0 <= l and l < _k0 + 1) for l in ints())', 'all(implies(0 <= l and l < _k0, iff(dkey(ns_duals, l, n, s), key(self, l, n, s))) for l in ints() for n in ints() for s in ints())',
                            'all(iff(n in ns_duals[_k0], any(nodes[a] == n for a in range(_k))) for n in ints())',
                            'all(implies(any(nodes[a] == n for a in range(_k)), iff(s in ns_duals[_k0][n], has_cand(self.nodes_[n], s))) for n in ints() for s in ints())', NSDUAL(NSD)]},
                6: {'inv': ['all(iff(l in ns_duals, 0 <= l and l < _k0 + 1) for l in ints())', 'all(implies(0 <= l and l < _k0, iff(dkey(ns_duals, l, n, s), key(self, l, n, s))) for l in ints() for n in ints() for s in ints())',
                            'all(iff(n in ns_duals[_k0], any(nodes[a] == n for a in range(_k1 + 1))) for n in ints())',
                            'all(implies(any(nodes[a] == n for a in range(_k1)), iff(s in ns_duals[_k0][n], has_cand(self.nodes_[n], s))) for n in ints() for s in ints())',
                            'all(iff(s in ns_duals[_k0][node.id], any(node.candidate_splits[b] == s for b in range(_k))) for s in ints())', NSDUAL(NSD)]}},
         props=['C05'])
    # ---- a column is added
    COLS = 'all(self.solver_.coef[c][v] == pre(self.solver_.coef)[c][v] for c in ints() for v in ints() if v != xp_var.index())'
    COEF = lambda val, rng='range(self.solver_.ncons)': f'all(self.solver_.coef[c][xp_var.index()] == {val} for c in {rng})'
    ISL, ISR, ISC = ('self.solver_.ck1[c] == -%d' % i for i in (1, 2, 3))
    CK0, CK1, CK2 = (f'self.solver_.ck{i}[c]' for i in range(3))
    WL, WR = f'ite({CK0} == path.leaf_id, 1, 0)', f'ite({CK0} in satisfied_rows, 1, 0)'
    WN = f'ite({CK0} == path.leaf_id and on(path, {CK1}, {CK2}), 1, 0)'
    LR = f'ite({ISL}, {WL}, ite({ISR}, {WR}, {{}}))'
    NS = lambda done: LR.format(f'ite({CK1} >= 0 and ({done}), {WN}, 0)')
    AC = ['path', 'leaf', 'node', 'split']
    C.fn('DTreeMasterProblem.add_column', params={'path': P}, result=BOOL, captures=['path'],
         requires=['self.generated_', 'dm_ok(self)', 'path_in(self, path)', 'all(self.paths_[j] != path for j in range(len(self.paths_)))'],
         modifies=['self.' + f for f in 'solver_ path_vars_ paths_ generated_paths_ cut_gen_model_ cut_path_vars_'.split()] + ['Path.id', 'Row.reachable_paths'],
         ensures=['result', 'dm_ok(self)', 'len(self.paths_) == old(len(self.paths_)) + 1', 'same(self.paths_[len(self.paths_) - 1], path)',
                  'all(same(self.paths_[j], old(self.paths_)[j]) for j in range(old(len(self.paths_))))',
                  'self.solver_.ncons == old(self.solver_.ncons)', 'self.solver_.nvars == old(self.solver_.nvars) + 1'],
         asserts=ONEPATH('old', 'old(len(self.paths_))') + ['len(self.paths_) == old(len(self.paths_)) + 1',
                 f'all(iff({ALLSORTED}, old({ALLSORTED})) for sol in sols())',
                 f'all(iff(feas(self, sol), meant(self, len(self.paths_), sol) and {ALLSORTED}) for sol in sols())'],
         keys={'var': ['old(len(self.paths_))', '-1', '-1']},
         loops={0: {'inv': [COLS, COEF(f'ite({ISL} and {CK0} < _k, {WL}, 0)')]},
                1: {'inv': [COLS, COEF(f'ite({ISL}, {WL}, ite({ISR} and {CK0} in _done, 1, 0))'),
                            'all(iff(v in self.data_rows[r].reachable_paths, v in old(self.data_rows[r].reachable_paths) or (v == path.id and r in _done)) for r in range(len(self.data_rows)) for v in ints())'],
                    'hint': ['all(pat(self.solver_.ck1[q], implies(self.solver_.ck1[q] == -2, iff(self.solver_.ck0[q] == r and self.added_row[r], self.added_row[r] and the(self.row_cons_[r]) == q))) for q in range(self.solver_.ncons))']},
                2: {'inv': [COLS, COEF(NS(f'{CK0} < _k'))]},
                3: {'inv': [COLS, COEF(NS(f'{CK0} < _k0 or ({CK0} == _k0 and any(nodes[a] == {CK1} for a in range(_k)))'))]},
                4: {'inv': [COLS, COEF(NS(f'{CK0} < _k0 or ({CK0} == _k0 and (any(nodes[a] == {CK1} for a in range(_k1)) or ({CK1} == node.id and any(node.candidate_splits[b] == {CK2} for b in range(_k)))))'))]},
                5: {'inv': [COLS, 'all(self.solver_.coef[c][xp_var.index()] == pre(self.solver_.coef)[c][xp_var.index()] for c in range(self.solver_.ncons) if c != ns_constraint.index())',
                            'self.solver_.coef[ns_constraint.index()][xp_var.index()] == ite(path.leaf_id == leaf.id and any(path.node_ids[q] == node.id and path.splits[q] == split for q in range(_k)), 1, 0)']},
                6: {'inv': [COLS, COEF(LR.format(f'ite({ISC}, ite({CK0} in _done, 1, 0), {WN})'))],
                    'hint': ['all(pat(self.solver_.ck1[q], iff(self.solver_.ck1[q] == -3 and self.solver_.ck0[q] == c, self.cut_cons_[c].index() == q)) for q in range(self.solver_.ncons))']},
                7: {'inv': LITS}},
         props=['C11', 'C13'])

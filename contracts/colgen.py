"""The column generation loop, against abstract masters and pricing steps whose contracts only keep ghost counters: `solves` numbers
the master solves (the duals of solve n are the token n), `upd`/`asked` are the tokens a step was last updated / asked with, `acc_at` is
the solve after which the last column was accepted, `acc` counts the accepted columns of a step."""
from engine.vals import *
from engine import ext

SUBS = 'for l in range(len(self.subproblems)) for i in range(len(self.subproblems[l]))'
S = 'self.subproblems[l][i]'
NOW = 'self.master_problem.solves'


def register(C):
    if 'MPSolver' not in C.classes:
        ext.register(C)
    C.cls('AnyMaster', 'rec', {'gen': INT, 'solves': INT, 'checks': INT, 'imp': INT, 'acc_at': INT, 'ip': INT, 'ip_ok': BOOL, 'ip_at': INT,
                               'reset_timer_': BOOL, 'has__reset_timer_': BOOL})
    C.cls('AnySub', 'heap', {'upd': INT, 'asked': INT, 'acc': INT})
    T = dict(trusted=True)
    DATA = {'X': MAT, 'y': LIST(INT)}
    C.fn('AnyMaster.generate_mp', params=DATA, modifies=['self.gen'], captures=['y'], ensures=['self.gen == old(self.gen) + 1'], **T)
    C.fn('AnyMaster.solve_rmp', params={'solver_params': INT}, result=INT, modifies=['self.solves', 'self.reset_timer_'],
         ensures=['self.solves == old(self.solves) + 1', 'result == self.solves'], **T)
    C.fn('AnyMaster.rmp_objective_improved', params={}, result=BOOL, modifies=['self.imp', 'self.checks'],
         ensures=['self.imp == old(self.imp) + ite(result, 1, 0)', 'self.checks == old(self.checks) + 1'], **T)
    C.fn('AnyMaster.add_column', params={'column': TUP(REF('AnySub'), INT)}, result=BOOL, modifies=['self.acc_at', 'column[0].acc'],
         ensures=['self.acc_at == ite(result, self.solves, old(self.acc_at))', 'column[0].acc == old(column[0].acc) + ite(result, 1, 0)'], **T)
    C.fn('AnyMaster.solve_ip', params={'solver_params': INT}, result=BOOL, modifies=['self.ip', 'self.ip_ok', 'self.ip_at'],
         ensures=['self.ip == old(self.ip) + 1', 'self.ip_ok == result', 'self.ip_at == self.solves'], **T)
    C.fn('AnySub.update_subproblem', params=dict(DATA, dual_costs=INT), modifies=['self.upd'], captures=['y'], ensures=['self.upd == dual_costs'], **T)
    C.fn('AnySub.generate_columns', params=dict(DATA, dual_costs=INT, params=INT), result=LIST(TUP(REF('AnySub'), INT)), modifies=['self.asked'],
         captures=['y'], ensures=['self.asked == dual_costs', 'all(same(result[j][0], self) for j in range(len(result)))'], **T)
    C.cls('ColGenClassifier', 'rec', {
        'max_iterations': INT, 'time_limit': REAL, 'master_problem': REC('AnyMaster'), 'subproblems': LIST(LIST(REF('AnySub'))), 'rmp_is_ip': BOOL,
        'rmp_solver_params': INT, 'master_ip_solver_params': INT, 'subproblem_params': LIST(LIST(INT)),
        'classes_': LIST(INT), 'X_': MAT, 'y_': LIST(INT), 'label_encoder_': REC('LabelEncoder'), 'processed_y_': LIST(INT),
        'performed_iter_': INT, 'num_improving_iter_': INT, 'mp_optimal_': BOOL, 'time_limit_reached_': BOOL, 'num_col_added_sp_': LIST(LIST(INT)),
        'time_spent_sp_': LIST(LIST(REAL)), 'time_add_col_': REAL, 'time_spent_master_': REAL, 'time_spent_master_ip_': REAL, 'iter_': INT,
        'time_elapsed_': REAL, 'is_fitted_': BOOL, 'has__is_fitted_': BOOL})
    C.share('ColGenClassifier.y_', 0)
    C.share('ColGenClassifier.processed_y_', 0)
    C.pred('encoded', {'self': None, 'y': LIST(INT)}, '''len(self.processed_y_) == len(y) and same(self.classes_, labels(y)) and same(self.label_encoder_.classes_, self.classes_)
        and all(0 <= self.processed_y_[i] and self.processed_y_[i] < len(self.classes_) and self.classes_[self.processed_y_[i]] == y[i] for i in range(len(y)))
        and len(self.classes_) >= 2''')
    SAME_DATA = ['same(call_X, X)', 'same(call_y, self.processed_y_)', 'encoded(self, y)']
    TOKENS = [f'all({S}.upd <= {NOW} and {S}.asked <= {NOW} {SUBS})', f'self.master_problem.acc_at <= {NOW}']
    SHAPE = ['len(self.num_col_added_sp_) == len(self.subproblems)', 'all(len(self.num_col_added_sp_[l]) == len(self.subproblems[l]) for l in range(len(self.subproblems)))',
             'len(self.time_spent_sp_) == len(self.subproblems)', 'all(len(self.time_spent_sp_[l]) == len(self.subproblems[l]) for l in range(len(self.subproblems)))']
    COUNTS = [f'all(self.num_col_added_sp_[l][i] == {S}.acc - old({S}.acc) {SUBS})']
    SET = 'gen solves checks imp acc_at ip ip_ok ip_at reset_timer_ has__reset_timer_'.split()
    OUT = '''classes_ X_ y_ processed_y_ performed_iter_ num_improving_iter_ mp_optimal_ time_limit_reached_ num_col_added_sp_ time_spent_sp_
        time_add_col_ time_spent_master_ time_spent_master_ip_ iter_ time_elapsed_ is_fitted_ has__is_fitted_'''.split()
    TSHAPE = SHAPE[2:]
    DONE = lambda upto: f'all({S}.asked == ite({upto}, {NOW}, {S}.asked) and ({upto} or {S}.asked < {NOW}) {SUBS})'
    C.fn('ColGenClassifier.fit', params=DATA, captures=['y'], raises=True,
         requires=['len(self.subproblem_params) == len(self.subproblems)', 'all(len(self.subproblem_params[l]) == len(self.subproblems[l]) for l in range(len(self.subproblems)))',
                   f'all(implies(l != l2 or i != i2, not same({S}, self.subproblems[l2][i2])) {SUBS} for l2 in range(len(self.subproblems)) for i2 in range(len(self.subproblems[l2])))'] + TOKENS,
         modifies=['self.' + f for f in OUT] + ['self.label_encoder_'] + ['self.master_problem.' + f for f in SET] + ['AnySub.upd', 'AnySub.asked', 'AnySub.acc'],
         at={'generate_mp': SAME_DATA + ['self.master_problem.gen == old(self.master_problem.gen)', f'{NOW} == old({NOW})'],
             'solve_rmp': ['call_solver_params == self.rmp_solver_params', 'self.master_problem.gen == old(self.master_problem.gen) + 1'],
             'update_subproblem': SAME_DATA + [f'call_dual_costs == {NOW}', f'{NOW} > old({NOW})'],
             'generate_columns': SAME_DATA + [f'call_dual_costs == {NOW}', f'{NOW} > old({NOW})', f'call_self.asked < {NOW}', f'self.master_problem.acc_at < {NOW}',
                                              f'all({S}.upd == {NOW} {SUBS})', f'any(same({S}, call_self) {SUBS})',
                                              f'all(implies(same({S}, call_self), call_params == self.subproblem_params[l][i]) {SUBS})',
                                              f'all(implies(same(self.subproblems[l2][i2], call_self) and (l < l2 or (l == l2 and i < i2)), {S}.asked == {NOW}) {SUBS} for l2 in range(len(self.subproblems)) for i2 in range(len(self.subproblems[l2])))',
                                              'not self.time_limit_reached_', 'implies(self.time_limit > 0, self.time_elapsed_ <= self.time_limit)'],
             'solve_ip': ['self.rmp_is_ip', 'call_solver_params == self.master_ip_solver_params', 'self.master_problem.ip == old(self.master_problem.ip)']},
         raise_ensures=['iff(hasattr(self, "is_fitted_"), old(hasattr(self, "is_fitted_")))', 'implies(self.master_problem.gen == old(self.master_problem.gen), all(y[i] == y[0] for i in range(len(y))))', f'implies(self.master_problem.gen == old(self.master_problem.gen), {NOW} == old({NOW}))',
                        'implies(self.master_problem.gen != old(self.master_problem.gen), self.master_problem.gen == old(self.master_problem.gen) + 1 and self.rmp_is_ip and self.master_problem.ip == old(self.master_problem.ip) + 1 and not self.master_problem.ip_ok)'],
         ensures=['result_is_self(result)', 'self.is_fitted_', 'hasattr(self, "is_fitted_")', 'same(self.X_, X)', 'same(self.y_, y)', 'encoded(self, y)', 'self.master_problem.gen == old(self.master_problem.gen) + 1',
                  # C06
                  f'{NOW} > old({NOW})', f'iff(self.mp_optimal_, all({S}.asked == {NOW} {SUBS}) and self.master_problem.acc_at < {NOW})',
                  # C07
                  f'self.performed_iter_ == {NOW} - old({NOW})', 'implies(self.max_iterations > 0, self.performed_iter_ <= self.max_iterations)',
                  f'implies(not self.mp_optimal_ and not self.time_limit_reached_, self.performed_iter_ == self.max_iterations and self.master_problem.acc_at == {NOW})',
                  'self.num_improving_iter_ == self.master_problem.imp - old(self.master_problem.imp)', 'self.master_problem.checks - old(self.master_problem.checks) == self.performed_iter_',
                  'implies(self.time_limit_reached_, self.time_limit > 0 and self.time_elapsed_ > self.time_limit)',
                  'self.master_problem.ip == old(self.master_problem.ip) + ite(self.rmp_is_ip, 1, 0)',
                  f'implies(self.rmp_is_ip, self.master_problem.ip_ok and self.master_problem.ip_at == {NOW})'] + SHAPE[:2] + COUNTS,
         loops={0: {'inv': ['len(self.num_col_added_sp_) == _k', 'all(len(self.num_col_added_sp_[l]) == len(self.subproblems[l]) for l in range(_k))',
                            'len(self.time_spent_sp_) == _k', 'all(len(self.time_spent_sp_[l]) == len(self.subproblems[l]) for l in range(_k))',
                            'all(self.num_col_added_sp_[l][i] == 0 for l in range(_k) for i in range(len(self.subproblems[l])))']},
                1: {'inv': ['self.iter_ == self.performed_iter_', f'self.iter_ == {NOW} - old({NOW})', 'self.iter_ >= 0', f'self.iter_ == 0 or self.master_problem.acc_at == {NOW}',
                            'implies(self.max_iterations > 0, self.iter_ <= self.max_iterations)', 'self.num_improving_iter_ == self.master_problem.imp - old(self.master_problem.imp)',
                            'self.master_problem.checks - old(self.master_problem.checks) == self.iter_', 'not self.mp_optimal_', 'not self.time_limit_reached_'] + SHAPE + COUNTS + TOKENS},
                2: {'inv': TSHAPE + [f'all({S}.upd == {NOW} for l in range(_k) for i in range(len(self.subproblems[l])))']},
                3: {'inv': TSHAPE + [f'all({S}.upd == {NOW} for l in range(_k1) for i in range(len(self.subproblems[l])))', f'all(self.subproblems[_k1][i].upd == {NOW} for i in range(_k))']},
                4: {'inv': SHAPE + COUNTS + ['not rmp_updated', 'not self.time_limit_reached_', DONE('l < _k'), f'self.master_problem.acc_at < {NOW}']},
                5: {'inv': SHAPE + COUNTS + ['not rmp_updated', 'not self.time_limit_reached_', DONE('(l < _k1 or (l == _k1 and i < _k))'), f'implies(_k < len(self.subproblems[_k1]), self.subproblems[_k1][_k].asked < {NOW})', f'self.master_problem.acc_at < {NOW}']},
                6: {'inv': SHAPE[:2] + COUNTS + [f'iff(rmp_updated, self.master_problem.acc_at == {NOW})', f'self.master_problem.acc_at <= {NOW}']}},
         props=['C06', 'C07', 'C22'])


    # ---- C20
    TUN = ['max_presolve_iterations', 'cp_model_probing_level', 'min_num_lns_workers']
    C.cls('Tunables', 'rec', {t: REF('Parameter') for t in TUN})
    C.cls('BaseSubproblem', 'rec', {'cp_solver_': REC('CpSolver'), 'solver_': REC('MPSolver'), 'tunable_params_': REC('Tunables'),
                                    'solve_times_': LIST(REAL), 'gaps_': LIST(REAL)})
    C.pred('disjoint', {'p': REF('Parameter'), 'q': REF('Parameter')}, 'p != q and all(p.scores_[i] != q.scores_[j] for i in range(len(p.scores_)) for j in range(len(q.scores_)))')
    R = lambda t: f"result['{t}']"
    C.pred('new_scores', {'p': REF('Parameter')}, 'all(isnew(p.scores_[i]) for i in range(len(p.scores_)))')
    C.fn('BaseSubproblem.get_tunable_params', params={}, result=REC('Tunables'), locals={'params': REC('Tunables')}, allocs=True,
         modifies=['Parameter.' + f for f in 'values_ scores_ final_scores_ counts_ c_fac_ current_index_ total_counts_ explore_count_ switch_flag_'.split()] +
                  ['RunningStat.' + f for f in 'num_data_ old_mean_ new_mean_ old_std_ new_std_'.split()],
         ensures=[x for i, t in enumerate(TUN) for x in
                  [f'isnew({R(t)})', f'par_ok({R(t)})', f'len({R(t)}.values_) > 0', f'0 <= {R(t)}.current_index_ and {R(t)}.current_index_ < len({R(t)}.values_)'] +
                  [f'disjoint({R(t)}, {R(u)})' for u in TUN[:i]]], props=['C20'])
    P = lambda t: f"self.tunable_params_['{t}']"
    C.pred('tun_ok', {'self': None}, ' and '.join(f'par_ok({P(t)}) and len({P(t)}.values_) > 0 and 0 <= {P(t)}.current_index_ and {P(t)}.current_index_ < len({P(t)}.values_)' for t in TUN) +
           ''.join(f' and disjoint({P(t)}, {P(u)})' for i, t in enumerate(TUN) for u in TUN[:i]))
    C.fn('BaseSubproblem.__init__', params={'solver_str': STR}, allocs=True, modifies=['self.cp_solver_', 'self.solver_', 'self.tunable_params_', 'self.solve_times_', 'self.gaps_'] +
         C.funcs['BaseSubproblem.get_tunable_params'].modifies,
         ensures=['tun_ok(self)', 'len(self.solve_times_) == 0', 'len(self.gaps_) == 0'], props=['C20', 'C21'])
    GAP = 'ite(self.cp_solver_.status == 4, 0.0, ite(self.cp_solver_.status == 2 and self.cp_solver_.objval * self.cp_solver_.bound >= 0, abs(self.cp_solver_.objval - self.cp_solver_.bound) / max(abs(self.cp_solver_.objval), abs(self.cp_solver_.bound)), 1.0))'
    SCORE = f'ite(self.cp_solver_.status == 4, self.cp_solver_.wall / time_limit, 1.0) + {GAP}'
    STAT = ['RunningStat.' + f for f in 'num_data_ old_mean_ new_mean_ old_std_ new_std_'.split()]
    C.fn('BaseSubproblem.solve_model', params={'model': REC('CpModel'), 'time_limit': REAL, 'callback': OPT(REF('Callback'))}, reports=('model', 'callback', 'self.cp_solver_.status'),
         requires=['tun_ok(self)', 'time_limit > 0'],
         modifies=['self.cp_solver_', 'self.solve_times_', 'self.gaps_'] + STAT + [f'{P(t)}.{f}' for t in TUN for f in
                   'explore_count_ current_index_ counts_ total_counts_ final_scores_'.split()],
         at={'Solve': ['same(call_model, model)', 'same(call_callback, callback)', 'self.cp_solver_.parameters.max_time_in_seconds == time_limit'] +
                      [f'self.cp_solver_.parameters.{t} == {P(t)}.values_[{P(t)}.current_index_]' for t in TUN] +
                      [f'{P(t)}.explore_count_ == ite(old({P(t)}.explore_count_) > 0, old({P(t)}.explore_count_) - 1, old({P(t)}.explore_count_))' for t in TUN],
             'adjust_score': [f'call_score == -({SCORE})', 'is_none(call_index)'] +
                             [f'self.cp_solver_.parameters.{t} == {P(t)}.values_[{P(t)}.current_index_]' for t in TUN]},
         ensures=['tun_ok(self)', 'self.cp_solver_.solves == old(self.cp_solver_.solves) + 1'] +
                 [f'{P(t)}.total_counts_ == old({P(t)}.total_counts_) + 1' for t in TUN] +
                 ['len(self.solve_times_) == old(len(self.solve_times_)) + 1', 'self.solve_times_[len(self.solve_times_) - 1] == self.cp_solver_.wall',
                  'len(self.gaps_) == old(len(self.gaps_)) + 1', f'self.gaps_[len(self.gaps_) - 1] == {GAP}'],
         props=['C20'])

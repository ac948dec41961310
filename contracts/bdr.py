from engine.vals import *
from engine import ext

SOLVE = ['sol', 'dual', 'objval', 'status', 'solved', 'solves']


def sv(*fs):
    return [f'self.solver_.{f}' for f in fs]


def register(C):
    if 'MPSolver' not in C.classes:
        ext.register(C)
    C.cls('BDRMasterProblem', 'rec', {
        'solver_': REC('MPSolver'), 'generated_': BOOL, 'C_': REAL, 'p_': REAL, 'X_': MAT, 'y__': LIST(INT),
        'clause_vars_': LIST(INT), 'xi_vars_': LIST(INT), 'clause_satisfaction_': LIST(INT), 'clause_complexity_': INT,
        'clause_dict_': DICT(INT, LIST(INT)), 'explanation': LIST(LIST(INT))})
    C.cls('BDRSubProblem', 'rec', {
        'solver_': REC('MPSolver'), 'generated_': BOOL, 'D_': REAL, 'X_': MAT, 'y_': LIST(INT),
        'delta_vars_': LIST(INT), 'z_vars_': LIST(INT)})
    C.cls('BDRHeuristic', 'rec', {'K_': INT})
    for f, d in (('BDRMasterProblem.y__', 0), ('BDRSubProblem.y_', 0), ('BDRMasterProblem.clause_dict_', 1), ('BDRMasterProblem.explanation', 1)):
        C.share(f, d)

    # ---- specification functions
    C.pred('satrow', {'entry': LIST(REAL), 'c': LIST(INT)}, 'all(entry[c[j]] != 0 for j in range(len(c)))', opaque=True)
    C.pred('in_range', {'c': LIST(INT), 'n': INT}, 'all(0 <= c[j] and c[j] < n for j in range(len(c)))', opaque=True)
    C.rec('npos', {'y': LIST(INT)}, 'i', 'ite(y[i] == 1, 1, 0)', mono=True)
    C.rec('nneg', {'X': MAT, 'y': LIST(INT), 'c': LIST(INT)}, 'i', 'ite(y[i] == 1, 0, ite(satrow(X[i], c), 1, 0))')
    C.rec('nsel', {'sol': FMAP(REAL), 'n0': INT}, 'k', 'ite(sol[n0 + k] > 0, 1, 0)', mono=True)
    C.pred('data_ok', {'X': MAT, 'y': LIST(INT)}, 'len(y) == len(X) and all(y[i] == 0 or y[i] == 1 for i in range(len(y)))')

    # ---- shared column functions
    C.fn('BDRMasterProblem.satisfies_clause', params={'entry': LIST(REAL), 'clause': LIST(INT)},
         requires=['in_range(clause, len(entry))'], result=INT,
         ensures=['result == ite(satrow(entry, clause), 1, 0)'],
         loops={0: {'inv': ['all(entry[clause[j]] != 0 for j in range(_k))']}}, props=['C01', 'C03', 'C04'])
    C.fn('BDRMasterProblem.get_objective_coeff_mp', params={'clause': LIST(INT)}, result=INT,
         requires=['data_ok(self.X_, self.y__)', 'implies(len(self.X_) > 0, in_range(clause, self.X_.shape[1]))'],
         ensures=['result == nneg(self.X_, self.y__, clause, len(self.X_))'],
         loops={0: {'inv': ['num_entries_satisfying_clause == nneg(self.X_, self.y__, clause, _k)']}}, props=['C01'])
    C.fn('BDRMasterProblem.get_clause_coeffs', params={'clause': LIST(INT)}, result=LIST(INT),
         requires=['data_ok(self.X_, self.y__)', 'implies(len(self.X_) > 0, in_range(clause, self.X_.shape[1]))'],
         ensures=['len(result) == npos(self.y__, len(self.X_)) + 1', 'result[len(result) - 1] == len(clause) + 1',
                  'all(implies(self.y__[r] == 1, result[npos(self.y__, r)] == ite(satrow(self.X_[r], clause), 1, 0)) for r in range(len(self.X_)))'],
         loops={0: {'inv': ['len(coeffs) == npos(self.y__, _k)',
                            'all(implies(self.y__[r] == 1, npos(self.y__, r) < len(coeffs) and coeffs[npos(self.y__, r)] == ite(satrow(self.X_[r], clause), 1, 0)) for r in range(_k))']}},
         props=['C01'])
    C.fn('BDRMasterProblem.generate_lexicographic_clause', params={'index': INT}, result=LIST(INT), requires=['index >= 0'],
         ensures=['all(implies(0 <= j, iff(bit(index, j), j in result)) for j in ints())',
                  'all(result[a] < result[b] for a in range(len(result)) for b in range(len(result)) if a < b)',
                  'all(0 <= result[a] and bit(index, result[a]) for a in range(len(result)))',
                  'implies(index == 0, len(result) == 0)'],
         props=['C01'])
    # ---- the master program, as a representation invariant
    C.pred('mp_n', {'m': None}, 'npos(m.y__, len(m.y__))', ret=INT)
    C.pred('mp_ok', {'m': None}, """
        data_ok(m.X_, m.y__) and len(m.xi_vars_) == mp_n(m) and len(m.clause_satisfaction_) == mp_n(m) and len(m.clause_vars_) >= 1
        and m.solver_.nvars == mp_n(m) + len(m.clause_vars_) and m.solver_.ncons == mp_n(m) + 1
        and all(m.xi_vars_[i] == i for i in range(mp_n(m)))
        and all(m.clause_vars_[k] == mp_n(m) + k for k in range(len(m.clause_vars_)))
        and 0 <= m.clause_complexity_ and m.clause_complexity_ <= mp_n(m)
        and all(0 <= m.clause_satisfaction_[i] and m.clause_satisfaction_[i] <= mp_n(m) and m.clause_satisfaction_[i] != m.clause_complexity_ for i in range(mp_n(m)))
        and all(m.clause_satisfaction_[i] != m.clause_satisfaction_[j] for i in range(mp_n(m)) for j in range(mp_n(m)) if i != j)
        and all(iff(v in m.clause_dict_, mp_n(m) <= v and v < m.solver_.nvars) for v in ints())
        and all(implies(len(m.X_) > 0, in_range(m.clause_dict_[v], m.X_.shape[1])) for v in range(mp_n(m), m.solver_.nvars))
        and len(m.clause_dict_[mp_n(m)]) == 0
        and all(m.solver_.vlb[v] == 0 and m.solver_.vub[v] == INF() for v in range(m.solver_.nvars))
        and all(m.solver_.obj[v] == m.p_ for v in range(mp_n(m)))
        and all(m.solver_.obj[v] == nneg(m.X_, m.y__, m.clause_dict_[v], len(m.X_)) for v in range(mp_n(m), m.solver_.nvars))
        and not m.solver_.maxim
        and m.solver_.clb[m.clause_complexity_] == -INF() and m.solver_.cub[m.clause_complexity_] == m.C_
        and all(m.solver_.clb[m.clause_satisfaction_[i]] == 1 and m.solver_.cub[m.clause_satisfaction_[i]] == INF() for i in range(mp_n(m)))
        and all(m.solver_.coef[m.clause_complexity_][v] == 0 for v in range(mp_n(m)))
        and all(m.solver_.coef[m.clause_complexity_][v] == len(m.clause_dict_[v]) + 1 for v in range(mp_n(m), m.solver_.nvars))
        and all(m.solver_.coef[m.clause_satisfaction_[i]][v] == ite(v == i, 1, 0) for i in range(mp_n(m)) for v in range(mp_n(m)))
        and all(implies(m.y__[r] == 1, m.solver_.coef[m.clause_satisfaction_[npos(m.y__, r)]][v] == ite(satrow(m.X_[r], m.clause_dict_[v]), 1, 0))
                for r in range(len(m.y__)) for v in range(mp_n(m), m.solver_.nvars))""")
    BUILD = ['self.X_', 'self.y__', 'self.generated_', 'self.xi_vars_', 'self.clause_vars_', 'self.clause_dict_', 'self.clause_satisfaction_',
             'self.clause_complexity_', 'self.solver_']
    C.pred('mp_same', {'m': None}, ' and '.join(f'same(m.{f}, old(m.{f}))' for f in
           ['X_', 'y__', 'generated_', 'xi_vars_', 'clause_vars_', 'clause_dict_', 'clause_satisfaction_', 'clause_complexity_'] +
           ['solver_.' + f for f in ('nvars', 'ncons', 'vlb', 'vub', 'vint', 'coef', 'clb', 'cub', 'obj', 'off', 'maxim')]))
    C.fn('BDRMasterProblem.generate_mp', params={'X': MAT, 'y': LIST(INT)}, captures=['y'], counts=['npos(y, _i)'],
         asserts=['implies(not old(self.generated_), all(implies(y[r] == 1, 0 <= npos(y, r) and npos(y, r) < mp_n(self)) for r in range(len(y))))'],
         requires=['data_ok(X, y)', 'self.generated_ or (self.solver_.nvars == 0 and self.solver_.ncons == 0 and all(not (v in self.clause_dict_) for v in ints()))'],
         modifies=BUILD,
         ensures=['implies(old(self.generated_), mp_same(self))', 'self.generated_',
                  'implies(not old(self.generated_), mp_ok(self) and len(self.clause_vars_) == 1 and same(self.X_, X) and same(self.y__, y))'],
         loops={0: {'inv': ['self.solver_.nvars == _k', 'all(self.xi_vars_[j] == j for j in range(_k))', 'len(self.xi_vars_) == n_positive_examples',
                            'all(self.solver_.vlb[v] == 0 and self.solver_.vub[v] == INF() for v in range(_k))', 'all(self.solver_.obj[v] == self.p_ for v in range(_k))']},
                1: {'inv': ['self.solver_.nvars == n_positive_examples + _k', 'len(self.clause_vars_) == n_clauses',
                            'all(self.clause_vars_[j] == n_positive_examples + j for j in range(_k))',
                            'all(iff(v in self.clause_dict_, n_positive_examples <= v and v < n_positive_examples + _k) for v in ints())',
                            'all(len(self.clause_dict_[v]) == 0 for v in range(n_positive_examples, n_positive_examples + _k))',
                            'all(self.solver_.vlb[v] == 0 and self.solver_.vub[v] == INF() for v in range(n_positive_examples + _k))',
                            'all(self.solver_.obj[v] == self.p_ for v in range(n_positive_examples))',
                            'all(self.solver_.obj[v] == nneg(X, y, self.clause_dict_[v], len(X)) for v in range(n_positive_examples, n_positive_examples + _k))']},
                2: {'inv': ['self.solver_.ncons == pre(self.solver_.ncons) + _k', 'len(self.clause_satisfaction_) == n_positive_examples', 'len(clause_satisfaction_cons) == n_positive_examples',
                            'all(self.clause_satisfaction_[j] == pre(self.solver_.ncons) + j for j in range(_k))',
                            'all(not is_none(clause_satisfaction_cons[j]) and the(clause_satisfaction_cons[j]) == pre(self.solver_.ncons) + j for j in range(_k))',
                            'all(self.solver_.clb[pre(self.solver_.ncons) + j] == 1 and self.solver_.cub[pre(self.solver_.ncons) + j] == INF() for j in range(_k))',
                            'all(self.solver_.clb[c] == pre(self.solver_.clb)[c] and self.solver_.cub[c] == pre(self.solver_.cub)[c] for c in range(pre(self.solver_.ncons)))',
                            'all(self.solver_.coef[c][v] == ite(pre(self.solver_.ncons) <= c and c < pre(self.solver_.ncons) + _k and v == c - pre(self.solver_.ncons), 1, 0) for c in ints() for v in ints())']},
                3: {'inv': ['all(self.solver_.coef[c][v] == pre(self.solver_.coef)[c][v] for c in ints() for v in range(n_positive_examples))',
                            'all(self.solver_.coef[self.clause_complexity_][v] == len(self.clause_dict_[v]) + 1 for v in range(n_positive_examples, n_positive_examples + _k))',
                            'all(implies(y[r] == 1, self.solver_.coef[self.clause_satisfaction_[npos(y, r)]][v] == ite(satrow(X[r], self.clause_dict_[v]), 1, 0)) for r in range(len(y)) for v in range(n_positive_examples, n_positive_examples + _k))']},
                4: {'inv': ['all(implies(v != n_positive_examples + _k0, self.solver_.coef[c][v] == pre(self.solver_.coef)[c][v]) for c in ints() for v in ints())',
                            'self.solver_.coef[self.clause_complexity_][n_positive_examples + _k0] == pre(self.solver_.coef)[self.clause_complexity_][n_positive_examples + _k0]',
                            'all(self.solver_.coef[self.clause_satisfaction_[j]][n_positive_examples + _k0] == coeffs[j] for j in range(_k))']}},
         props=['C01'])
    C.fn('BDRMasterProblem.add_column', params={'clause': LIST(INT)}, result=BOOL, captures=['clause'],
         requires=['self.generated_', 'mp_ok(self)', 'implies(len(self.X_) > 0, in_range(clause, self.X_.shape[1]))'],
         raises='len(clause) > 0 and any(v in self.clause_dict_ and self.clause_dict_[v] == clause for v in ints())',
         modifies=['self.clause_vars_', 'self.clause_dict_', 'self.solver_'],
         asserts=['all(implies(self.y__[r] == 1, 0 <= npos(self.y__, r) and npos(self.y__, r) < mp_n(self)) for r in range(len(self.y__)))',
                  'implies(len(clause) > 0, all(implies(self.y__[r] == 1, self.solver_.coef[self.clause_satisfaction_[npos(self.y__, r)]][self.solver_.nvars - 1] == ite(satrow(self.X_[r], clause), 1, 0)) for r in range(len(self.y__))))'],
         ensures=['implies(len(clause) == 0, not result and mp_same(self))', 'implies(len(clause) > 0, result)', 'mp_ok(self)',
                  'implies(result, len(self.clause_vars_) == old(len(self.clause_vars_)) + 1 and same(self.clause_dict_[self.solver_.nvars - 1], clause))',
                  'all(implies(old(v in self.clause_dict_), same(self.clause_dict_[v], old(self.clause_dict_)[v])) for v in ints())'],
         loops={0: {'inv': ['all(implies(v != pre(self.solver_.nvars) - 1, self.solver_.coef[c][v] == pre(self.solver_.coef)[c][v]) for c in ints() for v in ints())',
                            'all(self.solver_.coef[self.clause_satisfaction_[j]][pre(self.solver_.nvars) - 1] == coeffs[j] for j in range(_k))']}},
         props=['C01'])
    C.fn('BDRMasterProblem.solve_rmp', params={'solver_params': STR}, result=TUP(REAL, LIST(REAL)), requires=['self.generated_', 'mp_ok(self)'],
         modifies=sv(*SOLVE),
         ensures=['result[0] == abs(self.solver_.dual[self.clause_complexity_])', 'len(result[1]) == mp_n(self)',
                  'all(result[1][i] == self.solver_.dual[self.clause_satisfaction_[i]] for i in range(mp_n(self)))',
                  'self.solver_.solves == old(self.solver_.solves) + 1', 'self.solver_.solved'],
         loops={0: {'inv': ['len(cs_duals) == _k', 'all(cs_duals[i] == self.solver_.dual[self.clause_satisfaction_[i]] for i in range(_k))']}},
         props=['C05'])
    C.fn('BDRMasterProblem.solve_ip', params={'solver_params': STR}, result=BOOL, requires=['self.generated_', 'mp_ok(self)'], raises=True,
         modifies=['self.explanation'],
         ensures=['result', 'all(implies(len(self.X_) > 0, in_range(self.explanation[e], self.X_.shape[1])) for e in range(len(self.explanation)))'],
         local_ensures=['solver.solved and solver.solves == 1 and (solver.status == 0 or solver.status == 1)',
                        'len(self.explanation) == nsel(solver.sol, mp_n(self), len(self.clause_vars_))',
                        'all(implies(solver.sol[mp_n(self) + k] > 0, same(self.explanation[nsel(solver.sol, mp_n(self), k)], self.clause_dict_[self.clause_vars_[k]])) for k in range(len(self.clause_vars_)))'] +
                       [f'same(solver.{f}, self.solver_.{f})' for f in ('nvars', 'ncons', 'vlb', 'vub', 'vint', 'coef', 'clb', 'cub', 'obj', 'off', 'maxim')],
         loops={0: {'inv': ['len(self.explanation) == nsel(solver.sol, num_xi_vars, _k)',
                            'all(implies(solver.sol[num_xi_vars + k] > 0, same(self.explanation[nsel(solver.sol, num_xi_vars, k)], self.clause_dict_[self.clause_vars_[k]])) for k in range(_k))',
                            'all(implies(len(self.X_) > 0, in_range(self.explanation[e], self.X_.shape[1])) for e in range(len(self.explanation)))']}},
         props=['C04'])
    C.cls('BooleanDecisionRuleClassifier', 'rec', {'master_problem': REC('BDRMasterProblem'), 'label_encoder_': REC('LabelEncoder'), 'is_fitted_': BOOL, 'has__is_fitted_': BOOL})
    C.fn('BooleanDecisionRuleClassifier.predict', params={'X': MAT}, result=LIST(INT), raises='not hasattr(self, "is_fitted_")',
         requires=['len(self.label_encoder_.classes_) == 2', 'all(implies(len(X) > 0, in_range(self.master_problem.explanation[e], X.shape[1])) for e in range(len(self.master_problem.explanation)))'],
         ensures=['len(result) == len(X)',
                  'all(result[i] == self.label_encoder_.classes_[ite(any(satrow(X[i], self.master_problem.explanation[e]) for e in range(len(self.master_problem.explanation))), 1, 0)] for i in range(len(X)))'],
         loops={0: {'inv': ['len(y_predict) == X.shape[0]', 'all(y_predict[i] == ite(any(satrow(X[i], explanation[e]) for e in range(len(explanation))), 1, 0) for i in range(_k))', 'all(y_predict[i] == 0 for i in range(_k, len(y_predict)))']},
                1: {'inv': ['len(y_predict) == X.shape[0]', 'all(not satrow(X[i], explanation[e]) for e in range(_k))', 'all(y_predict[i] == pre(y_predict)[i] for i in range(len(y_predict)))']}},
         props=['C04', 'C22'])

    # ---- exact pricing: formulation (2)
    C.rec('zcnt', {'e': LIST(REAL)}, 'j', 'ite(e[j] == 0, 1, 0)', mono=True)
    C.rec('ncs', {'X': MAT, 'y': LIST(INT)}, 'i', 'ite(y[i] == 1, zcnt(X[i], X.shape[1]), 1)', mono=True)
    C.pred('bsp_obj', {'s': None, 'lam': REAL, 'duals': LIST(REAL)}, """
        all(s.solver_.obj[j] == lam for j in range(s.X_.shape[1])) and s.solver_.off == lam and not s.solver_.maxim
        and all(s.solver_.obj[s.X_.shape[1] + i] == ite(s.y_[i] == 1, -duals[npos(s.y_, i)], 1) for i in range(len(s.y_)))""")
    C.pred('bsp_vars', {'s': None}, """
        len(s.z_vars_) == s.X_.shape[1] and len(s.delta_vars_) == len(s.X_) and s.solver_.nvars == s.X_.shape[1] + len(s.X_)
        and all(s.z_vars_[j] == j for j in range(s.X_.shape[1])) and all(s.delta_vars_[i] == s.X_.shape[1] + i for i in range(len(s.X_)))
        and all(s.solver_.vlb[v] == 0 and s.solver_.vub[v] == 1 and s.solver_.vint[v] for v in range(s.solver_.nvars))""")
    C.pred('bsp_rows', {'s': None, 'n': INT}, """
        all(implies(s.y_[i] == 1 and s.X_[i][j] == 0, s.solver_.clb[ncs(s.X_, s.y_, i) + zcnt(s.X_[i], j)] == 0 and s.solver_.cub[ncs(s.X_, s.y_, i) + zcnt(s.X_[i], j)] == 1)
            for i in range(n) for j in range(s.X_.shape[1]))
        and all(implies(s.y_[i] == 1 and s.X_[i][j] == 0, s.solver_.coef[ncs(s.X_, s.y_, i) + zcnt(s.X_[i], j)][v] == ite(v == j or v == s.X_.shape[1] + i, 1, 0))
            for i in range(n) for j in range(s.X_.shape[1]) for v in ints())
        and all(implies(s.y_[i] != 1, s.solver_.clb[ncs(s.X_, s.y_, i)] == 1 and s.solver_.cub[ncs(s.X_, s.y_, i)] == INF()) for i in range(n))
        and all(implies(s.y_[i] != 1, s.solver_.coef[ncs(s.X_, s.y_, i)][v] == ite(v == s.X_.shape[1] + i or (0 <= v and v < s.X_.shape[1] and s.X_[i][v] == 0), 1, 0)) for i in range(n) for v in ints())""")
    C.pred('bsp_ok', {'s': None}, """
        data_ok(s.X_, s.y_) and bsp_vars(s) and bsp_rows(s, len(s.X_)) and s.solver_.ncons == ncs(s.X_, s.y_, len(s.X_)) + 1
        and s.solver_.clb[ncs(s.X_, s.y_, len(s.X_))] == 0 and s.solver_.cub[ncs(s.X_, s.y_, len(s.X_))] == s.D_
        and all(s.solver_.coef[ncs(s.X_, s.y_, len(s.X_))][v] == ite(0 <= v and v < s.X_.shape[1], 1, 0) for v in ints())""")
    DU = {'cc_dual': REAL, 'cs_duals': LIST(REAL)}
    ROWKEEP = ['all(self.solver_.clb[c] == pre(self.solver_.clb)[c] and self.solver_.cub[c] == pre(self.solver_.cub)[c] for c in range(pre(self.solver_.ncons)))',
               'all(self.solver_.coef[c][v] == pre(self.solver_.coef)[c][v] for c in range(pre(self.solver_.ncons)) for v in ints())']
    DUALS = ['data_ok(self.X_, self.y_)', 'len(cs_duals) == npos(self.y_, len(self.y_))']
    DELTA = ['n_positive_examples == npos(self.y_, _k)', 'all(self.solver_.obj[j] == cc_dual for j in range(n_words))',
             'all(self.solver_.obj[n_words + i] == ite(self.y_[i] == 1, -cs_duals[npos(self.y_, i)], 1) for i in range(_k))']
    C.fn('BDRSubProblem.create_submip', params=DU, requires=['not self.generated_', 'self.solver_.nvars == 0', 'self.solver_.ncons == 0'] + DUALS,
         modifies=['self.z_vars_', 'self.delta_vars_', 'self.solver_', 'self.generated_'],
         ensures=['self.generated_', 'bsp_ok(self)', 'bsp_obj(self, cc_dual, cs_duals)'],
         loops={0: {'inv': ['self.solver_.nvars == _k', 'len(self.z_vars_) == n_words', 'all(self.z_vars_[j] == j for j in range(_k))',
                            'all(self.solver_.vlb[v] == 0 and self.solver_.vub[v] == 1 and self.solver_.vint[v] for v in range(_k))',
                            'all(self.solver_.obj[v] == cc_dual for v in range(_k))']},
                1: {'inv': ['self.solver_.nvars == n_words + _k', 'len(self.delta_vars_) == n_samples', 'all(self.delta_vars_[i] == n_words + i for i in range(_k))',
                            'all(self.solver_.vlb[v] == 0 and self.solver_.vub[v] == 1 and self.solver_.vint[v] for v in range(n_words + _k))'] + DELTA},
                2: {'inv': ['self.solver_.ncons == ncs(self.X_, self.y_, _k)', 'bsp_rows(self, _k)']},
                3: {'inv': ['self.solver_.ncons == ncs(self.X_, self.y_, _k0) + zcnt(self.X_[_k0], _k)',
                            'all(implies(self.X_[_k0][j] == 0, self.solver_.clb[ncs(self.X_, self.y_, _k0) + zcnt(self.X_[_k0], j)] == 0 and self.solver_.cub[ncs(self.X_, self.y_, _k0) + zcnt(self.X_[_k0], j)] == 1) for j in range(_k))',
                            'all(implies(self.X_[_k0][j] == 0, self.solver_.coef[ncs(self.X_, self.y_, _k0) + zcnt(self.X_[_k0], j)][v] == ite(v == j or v == n_words + _k0, 1, 0)) for j in range(_k) for v in ints())'] + ROWKEEP},
                4: {'inv': ['all(self.solver_.coef[c][v] == pre(self.solver_.coef)[c][v] for c in range(pre(self.solver_.ncons) - 1) for v in ints())',
                            'all(self.solver_.coef[ncs(self.X_, self.y_, _k0)][v] == ite(v == n_words + _k0 or (0 <= v and v < _k and self.X_[_k0][v] == 0), 1, 0) for v in ints())']},
                5: {'inv': ['all(self.solver_.coef[c][v] == pre(self.solver_.coef)[c][v] for c in range(pre(self.solver_.ncons) - 1) for v in ints())',
                            'all(self.solver_.coef[ncs(self.X_, self.y_, n_samples)][v] == ite(0 <= v and v < _k, 1, 0) for v in ints())']}},
         props=['C02'])
    C.fn('BDRSubProblem.update_objective', params=DU, requires=['self.generated_', 'bsp_ok(self)'] + DUALS,
         modifies=['self.solver_.obj', 'self.solver_.off', 'self.solver_.maxim', 'self.solver_.solved'],
         ensures=['bsp_ok(self)', 'bsp_obj(self, cc_dual, cs_duals)'],
         loops={0: {'inv': ['all(self.solver_.obj[v] == cc_dual for v in range(_k))']}, 1: {'inv': DELTA}}, props=['C02'])
    C.fn('BDRSubProblem.generate_columns', params={'X': MAT, 'y': LIST(INT), 'dual_costs': TUP(REAL, LIST(REAL)), 'params': STR}, raises=True, captures=['y'],
         result=LIST(LIST(INT)),
         requires=['data_ok(X, y)', 'len(dual_costs[1]) == npos(y, len(y))',
                   'implies(self.generated_, bsp_ok(self) and same(X, self.X_) and same(y, self.y_))', 'implies(not self.generated_, self.solver_.nvars == 0 and self.solver_.ncons == 0)'],
         modifies=['self.X_', 'self.y_', 'self.z_vars_', 'self.delta_vars_', 'self.solver_', 'self.generated_'],
         ensures=['same(self.X_, X)', 'same(self.y_, y)', 'self.generated_', 'bsp_ok(self)', 'bsp_obj(self, dual_costs[0], dual_costs[1])', 'self.solver_.solved',
                  'self.solver_.status == 0 or self.solver_.status == 1', 'len(result) == ite(self.solver_.objval >= -1e-06, 0, 1)', 'dual_costs[0] >= 0', 'all(dual_costs[1][i] >= 0 for i in range(len(dual_costs[1])))',
                  'implies(len(result) == 1, all(iff(j in result[0], 0 <= j and j < X.shape[1] and self.solver_.sol[j] > 0) for j in ints()))',
                  'implies(len(result) == 1, all(result[0][a] < result[0][b] for a in range(len(result[0])) for b in range(len(result[0])) if a < b))'],
         loops={0: {'inv': ['all(dual_costs[1][i] >= 0 for i in range(_k))']},
                1: {'inv': ['all(0 <= clause[a] and clause[a] < _k and self.solver_.sol[clause[a]] > 0 for a in range(len(clause)))',
                            'all(implies(self.solver_.sol[j] > 0, j in clause) for j in range(_k))',
                            'all(clause[a] < clause[b] for a in range(len(clause)) for b in range(len(clause)) if a < b)']}},
         props=['C02'])

    # ---- heuristic
    C.rec('rcsum', {'X': MAT, 'y': LIST(INT), 'duals': LIST(REAL), 'c': LIST(INT)}, 'i', 'ite(satrow(X[i], c), ite(y[i] == 1, -duals[npos(y, i)], 1.0), 0.0)', REAL)
    HP = {'X': MAT, 'y': LIST(INT), 'duals': LIST(REAL), 'lam': REAL}
    C.pred('redcost', dict(HP, c=LIST(INT)), 'lam * (1 + len(c)) + rcsum(X, y, duals, c, len(y))', ret=REAL)
    C.rec('nimp', dict(HP, s=INT), 'p', 'ite(redcost(X, y, duals, lam, combo(0, X.shape[1], s, p)) < -1e-06, 1, 0)', mono=True)
    C.rec('ntot', HP, 'q', 'nimp(X, y, duals, lam, q + 1, ncomb(0, X.shape[1], q + 1))', mono=True)
    A = 'X, y, dual_costs[1], dual_costs[0]'
    PL = 'neg_red_cost_clauses'
    def listed(l, sizes, extra=''):
        return f'all(implies(redcost({A}, combo(0, X.shape[1], q + 1, p)) < -1e-06, {l}[ntot({A}, q) + nimp({A}, q + 1, p)] == combo(0, X.shape[1], q + 1, p)) for q in range({sizes}) for p in range(ncomb(0, X.shape[1], q + 1)))'
    C.fn('BDRHeuristic.generate_columns', params={'X': MAT, 'y': LIST(INT), 'dual_costs': TUP(REAL, LIST(REAL)), 'params': STR}, raises=True,
         result=LIST(LIST(INT)), requires=['data_ok(X, y)', 'len(dual_costs[1]) == npos(y, len(y))', 'self.K_ >= 0'],
         ensures=[f'len(result) == ntot({A}, self.K_)', listed('result', 'self.K_'), 'dual_costs[0] >= 0', 'all(dual_costs[1][i] >= 0 for i in range(len(dual_costs[1])))'],
         loops={0: {'inv': ['all(dual_costs[1][i] >= 0 for i in range(_k))']},
                1: {'inv': [f'len({PL}) == ntot({A}, _k)', listed(PL, '_k')]},
                2: {'inv': [f'len({PL}) == ntot({A}, _k0) + nimp({A}, _k0 + 1, _k)', listed(PL, '_k0'),
                            f'all(implies(redcost({A}, combo(0, X.shape[1], _k0 + 1, p)) < -1e-06, {PL}[ntot({A}, _k0) + nimp({A}, _k0 + 1, p)] == combo(0, X.shape[1], _k0 + 1, p)) for p in range(_k))']},
                3: {'inv': ['pos_ind == npos(y, _k) - 1', 'reduced_cost == cc_dual * (1 + len(clause)) + rcsum(X, y, cs_duals, clause, _k)']}},
         props=['C03'])

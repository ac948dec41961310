"""How classifiers, masters and pricing steps are put together: the constructors.  A view of its own (known as build/...): every master
and pricing step is an object on the heap here, texts are tokens, solvers and models are opaque new objects."""
from engine.vals import *
from engine.specs import Contracts
from contracts import dtree


def register(C):
    V = Contracts()
    V.tokens = True
    dtree.classes(V)
    fill(V)
    C.view('build', V)
    order(C)
    # the numbering of the old mode's steps: step l * m + t is that of leaf l and target t
    C.lemma('slot', {'m': INT, 'n': INT, 'l': INT, 't': INT}, ['m > 0', 'l >= 0', '0 <= t', 't < m', 'n == l * m + t'], ['row_(m, n) == l', 'col_(m, n) == t'], induct='n',
            uses=['slot(m, n - 1, ite(t == 0, l - 1, l), ite(t == 0, m - 1, t - 1))'], props=['C21'])


def order(C):
    C.it('col_', {'m': INT}, 'q', '0', 'ite(prev + 1 == m, 0, prev + 1)')
    C.it('row_', {'m': INT}, 'q', '0', 'ite(col_(m, q) + 1 == m, prev + 1, prev)')


def fill(C):
    P, SP, LF, NODES, ROWS, LI = REF('Path'), LIST(REF('Split')), REF('Leaf'), LIST(REF('Node')), OPT(LIST(REF('Row'))), LIST(INT)
    LS = LIST(LF)
    # ---- what is outside
    C.cls('Solver', 'heap', {'engine': INT})
    C.cls('Engine', 'heap', {})
    C.cls('Model', 'heap', {})
    C.cls('Tuned', 'heap', {})
    T = dict(trusted=True, allocs=True)
    C.fn('pywraplp.Solver.CreateSolver', params={'name': INT}, result=REF('Solver'), ensures=['isnew(result)', 'result.engine == name'], **T)
    C.fn('cp_model.CpSolver', params={}, result=REF('Engine'), ensures=['isnew(result)'], **T)
    C.fn('cp_model.CpModel', params={}, result=REF('Model'), ensures=['isnew(result)'], **T)
    C.fn('BaseSubproblem.get_tunable_params', params={}, result=REF('Tuned'), ensures=['isnew(result)'], **T)
    BASE = {'cp_solver_': REF('Engine'), 'solver_': REF('Solver'), 'tunable_params_': REF('Tuned'), 'solve_times_': LIST(REAL), 'gaps_': LIST(REAL)}

    def cls(name, fields, shared=(), kind='heap', bases=()):
        C.cls(name, kind, fields, bases)
        for f in shared:
            C.share(f'{name}.{f}', 0)

    def ctor(name, params, ensures, captures=(), own=(), **kw):
        """The constructor of a heap class: sets its own fields, those of the new object only."""
        C.fn(f'{name}.__init__', params=params, captures=list(captures), allocs=True, modifies=[f'self.{f}' for f in own], ensures=ensures, props=['C21'], **kw)
    FRESH = ['isnew(self.cp_solver_)', 'isnew(self.tunable_params_)', 'len(self.solve_times_) == 0', 'len(self.gaps_) == 0']
    KEEP = lambda *fs: [f'same(self.{f}, {a})' for f, a in (x.split('=') if '=' in x else (x, x) for x in fs)]
    SOLVER = lambda e: ['isnew(self.solver_)', f'self.solver_.engine == {e}']

    # ---- boolean rules
    F = {'solver_': REF('Solver'), 'generated_': BOOL, 'C_': REAL, 'p_': REAL, 'clause_vars_': OPT(INT), 'xi_vars_': OPT(INT), 'clause_satisfaction_': OPT(INT), 'clause_complexity_': OPT(INT),
         'clause_dict_': DICT(INT, LIST(INT))}
    cls('BDRMasterProblem', F)
    ctor('BDRMasterProblem', {'C': REAL, 'p': REAL, 'solver_str': INT}, KEEP('C_=C', 'p_=p') + SOLVER('solver_str') + ['not self.generated_', 'all(not k in self.clause_dict_ for k in ints())'], own=F)
    F = dict(BASE, D_=REAL, generated_=BOOL, delta_vars_=OPT(INT), z_vars_=OPT(INT))
    cls('BDRSubProblem', F)
    ctor('BDRSubProblem', {'D': REAL, 'solver_str': INT}, KEEP('D_=D') + SOLVER('solver_str') + FRESH + ['not self.generated_'], own=F)
    cls('BDRHeuristic', {'K_': INT})
    ctor('BDRHeuristic', {'K': INT}, KEEP('K_=K'), own=['K_'])

    # ---- trees
    F = {'solver_': REF('Solver'), 'cut_gen_model_': REF('Model'), 'cut_obj_scale': INT, 'generated_': BOOL, 'paths_': LIST(P), 'generated_paths_': SETI, 'leaves_': LS, 'nodes_': NODES, 'splits_': SP,
         'data_rows': ROWS, 'num_cuts_round': INT, 'generate_cuts': BOOL, 'beta_constraints_as_cuts': BOOL, 'total_cuts_added': INT, 'cut_gen_time': REAL, 'rmp_objective_': REAL, 'iter_': INT,
         'last_reset_iter_': INT, 'reset_timer_': BOOL}
    cls('DTreeMasterProblem', F, ['paths_', 'leaves_', 'nodes_', 'splits_', 'data_rows'])
    ctor('DTreeMasterProblem', {'initial_paths': LIST(P), 'leaves': LS, 'nodes': NODES, 'splits': SP, 'beta_constraints_as_cuts': BOOL, 'generate_cuts': BOOL, 'num_cuts_round': INT, 'solver_type': INT, 'data_rows': ROWS},
         KEEP('paths_=initial_paths', 'leaves_=leaves', 'nodes_=nodes', 'splits_=splits', 'data_rows', 'num_cuts_round', 'generate_cuts', 'beta_constraints_as_cuts') + SOLVER('solver_type') +
         ['isnew(self.cut_gen_model_)', 'self.cut_obj_scale == 1000000', 'not self.generated_', 'all(not k in self.generated_paths_ for k in ints())', 'self.total_cuts_added == 0', 'self.cut_gen_time == 0',
          'self.iter_ == 0', 'self.last_reset_iter_ == 0', 'not self.reset_timer_'],
         captures=['initial_paths', 'leaves', 'nodes', 'splits', 'data_rows'], own=F)
    STEP = {'leaf_id_': INT, 'leaf_': LF, 'nodes_': NODES, 'splits_': SP, 'tree_depth_': INT, 'data_rows': ROWS}
    SHARED = ['nodes_', 'splits_', 'data_rows']
    KEPT = KEEP('leaf_id_=leaf.id', 'leaf_=leaf', 'nodes_=nodes', 'splits_=splits', 'tree_depth_=depth', 'data_rows')
    ARGS = lambda target, solver=False: dict({'leaf': LF, 'nodes': NODES, 'splits': SP}, **target, depth=INT, data_rows=ROWS, **({'solver_str': INT} if solver else {}))
    CAP = ['nodes', 'splits', 'data_rows']
    NEW = ['not self.generated_', 'self.cut_rows_starting_index == 0']
    F = dict(BASE, **STEP, targets_=LI, generated_=BOOL, z_vars_=OPT(INT), yc_vars_=OPT(INT), cut_rows_starting_index=INT, iter_=INT)
    cls('DTreeSubProblem', F, SHARED + ['targets_'])
    ctor('DTreeSubProblem', ARGS({'targets': LI}, True), KEPT + KEEP('targets_=targets') + SOLVER('solver_str') + FRESH + NEW, captures=CAP + ['targets'], own=F)
    F = dict(BASE, **STEP, targets_=LI, model_=REF('Model'), objective_scale=INT, orig_obj_coeffs=DICT(INT, REAL), generated_=BOOL, z_vars_=OPT(INT), yc_vars_=OPT(INT), cut_rows_starting_index=INT)
    cls('DTreeSubProblemSat', F, SHARED + ['targets_'])
    ctor('DTreeSubProblemSat', ARGS({'targets': LI}), KEPT + KEEP('targets_=targets') + FRESH + NEW + ['isnew(self.model_)', 'self.objective_scale == 100000', 'all(not k in self.orig_obj_coeffs for k in ints())'], captures=CAP + ['targets'], own=F)
    F = dict(BASE, **STEP, target_=INT, generated_=BOOL, yc_vars_=OPT(INT), cut_rows_starting_index=INT, iter_=INT)
    cls('DTreeSubProblemOld', F, SHARED)
    ctor('DTreeSubProblemOld', ARGS({'target': INT}, True), KEPT + KEEP('target_=target') + SOLVER('solver_str') + FRESH + NEW, captures=CAP, own=F)
    F = dict(BASE, leaves_=LS, nodes_=NODES, splits_=SP, targets_=LI, tree_depth_=INT, data_rows=ROWS, num_cuts=INT, failed_rounds=INT, success_rounds=INT)
    cls('DTreeSubProblemHeuristic', F, SHARED + ['leaves_', 'targets_'])
    ctor('DTreeSubProblemHeuristic', {'leaves': LS, 'nodes': NODES, 'splits': SP, 'targets': LI, 'depth': INT, 'data_rows': ROWS},
         KEEP('leaves_=leaves', 'nodes_=nodes', 'splits_=splits', 'targets_=targets', 'tree_depth_=depth', 'data_rows') + FRESH + ['self.num_cuts == 0', 'self.failed_rounds == 0', 'self.success_rounds == 0'],
         captures=CAP + ['leaves', 'targets'], own=F)

    # ---- the classifiers
    C.cls('BaseMasterProblem', 'heap', {'solver_': REF('Solver')})
    C.cls('BaseSubproblem', 'heap', BASE)
    SUBS = LIST(LIST(REF('BaseSubproblem')))
    LOOP = {'max_iterations': INT, 'time_limit': REAL, 'master_problem': REF('BaseMasterProblem'), 'subproblems': SUBS, 'rmp_is_ip': BOOL, 'rmp_solver_params': INT, 'master_ip_solver_params': INT, 'subproblem_params': LIST(LI)}
    C.cls('ColGenClassifier', 'rec', LOOP)
    for c in ('ColGenClassifier', 'BooleanDecisionRuleClassifier', 'BooleanDecisionRuleClassifierWithHeuristic', 'DTreeClassifier'):
        if c != 'DTreeClassifier':
            C.share(c + '.subproblems', 0)
            C.share(c + '.subproblem_params', 0)
    ENTRIES = lambda a, b: f'len({a}) == len({b}) and all(len({a}[l]) == len({b}[l]) for l in range(len({a})))'
    C.fn('ColGenClassifier.__init__', params=LOOP, captures=['subproblems', 'subproblem_params'], modifies=[f'self.{f}' for f in LOOP], props=['C21'],
         raises=f'not ({ENTRIES("subproblems", "subproblem_params")})', ensures=[f'same(self.{f}, old({f}))' for f in LOOP] + [ENTRIES('self.subproblems', 'self.subproblem_params')],
         loops={0: {'inv': ['all(len(subproblems[l]) == len(subproblem_params[l]) for l in range(_k))']}})
    ARGS = {'max_iterations': INT, 'C': REAL, 'p': REAL, 'rmp_solver_params': INT, 'rmp_solver': INT, 'master_ip_solver_params': INT, 'subproblem_solver': INT, 'subproblem_params': LIST(LI)}
    MINE = {'C': REAL, 'p': REAL, 'rmp_solver': INT, 'subproblem_solver': INT}
    M = 'as_(self.master_problem, BDRMasterProblem)'
    for c, levels in (('BooleanDecisionRuleClassifier', 1), ('BooleanDecisionRuleClassifierWithHeuristic', 2)):
        C.cls(c, 'rec', MINE, ['ColGenClassifier'])
        S = f'self.subproblems[{levels - 1}][0]'
        X = f'as_({S}, BDRSubProblem)'
        H = 'self.subproblems[0][0]'
        C.fn(f'{c}.__init__', params=ARGS, captures=['subproblem_params'], modifies=[f'self.{f}' for f in dict(LOOP, **MINE)], props=['C21'], allocs=True,
             raises=f'not (len(subproblem_params) == {levels} and all(len(subproblem_params[l]) == 1 for l in range({levels})))',
             ensures=[f'same(self.{f}, {f})' for f in ARGS] + ['self.time_limit == -1', 'self.rmp_is_ip', f'len(self.subproblems) == {levels}', f'all(len(self.subproblems[l]) == 1 for l in range({levels}))',
                      'isnew(self.master_problem)', 'isa(self.master_problem, BDRMasterProblem)', f'{M}.C_ == C', f'{M}.p_ == p', f'isnew({M}.solver_)', f'{M}.solver_.engine == rmp_solver', f'not {M}.generated_',
                      f'isnew({S})', f'isa({S}, BDRSubProblem)', f'{X}.D_ == C', f'isnew({X}.solver_)', f'{X}.solver_.engine == subproblem_solver', f'not same({X}.solver_, {M}.solver_)', f'not {X}.generated_'] +
                     ([f'isnew({H})', f'isa({H}, BDRHeuristic)', f'as_({H}, BDRHeuristic).K_ == 1'] if levels == 2 else []))

    # ---- trees: the steps of the old mode, leaf after leaf, target after target
    order(C)
    TREE = {'initial_paths': LIST(P), 'leaves': LS, 'nodes': NODES, 'splits': SP, 'tree_depth': INT, 'targets': LI, 'max_iterations': INT, 'time_limit': REAL, 'num_master_cuts_round': INT,
            'master_beta_constraints_as_cuts': BOOL, 'master_generate_cuts': BOOL, 'data_rows': ROWS, 'use_old_sp': BOOL, 'master_solver_type': INT, 'rmp_solver_params': INT, 'master_ip_solver_params': INT,
            'subproblem_params': INT}
    MINE = {f: t for f, t in TREE.items() if f not in LOOP}
    C.cls('DTreeClassifier', 'rec', MINE, ['ColGenClassifier'])
    for f in ('initial_paths', 'leaves', 'nodes', 'splits', 'targets', 'data_rows'):
        C.share('DTreeClassifier.' + f, 0)
    C.pred('known_split', {'v': INT, 'splits': SP, 'n': INT}, 'any(splits[i].id == v for i in range(n))', opaque=True)
    C.pred('path_ok', {'p': P, 'leaves': INT, 'nodes': INT, 'splits': SP, 'targets': LI, 'depth': INT}, """0 <= p.leaf_id and p.leaf_id < leaves and all(0 <= p.node_ids[i] and p.node_ids[i] < nodes for i in range(len(p.node_ids)))
        and all(known_split(p.splits[i], splits, len(splits)) for i in range(len(p.splits))) and any(targets[j] == p.target for j in range(len(targets))) and len(p.node_ids) == depth and len(p.splits) == depth""")
    NUMBERED = lambda l, n: f'all({l}[i].id == i for i in range({n}))'
    PATHS = lambda n: f'all(path_ok(initial_paths[j], len(leaves), len(nodes), splits, targets, tree_depth) for j in range({n}))'
    GOOD = f'{NUMBERED("nodes", "len(nodes)")} and {NUMBERED("leaves", "len(leaves)")} and {PATHS("len(initial_paths)")}'
    M, H = 'as_(self.master_problem, DTreeMasterProblem)', 'as_(self.subproblems[0][0], DTreeSubProblemHeuristic)'
    S, X, O = 'self.subproblems[1][q]', 'as_(self.subproblems[1][q], DTreeSubProblemSat)', 'as_(self.subproblems[1][q], DTreeSubProblemOld)'
    COMMON = lambda o, leaf: f'same({o}.leaf_, {leaf}) and {o}.leaf_id_ == {leaf}.id and same({o}.nodes_, nodes) and same({o}.splits_, splits) and {o}.tree_depth_ == tree_depth and same({o}.data_rows, data_rows) and not {o}.generated_'
    SAT = lambda n: f'all(isa({S}, DTreeSubProblemSat) and isnew({S}) and {COMMON(X, "leaves[q]")} and same({X}.targets_, targets) for q in range({n}))'
    OLD = lambda n: f'all(isa({S}, DTreeSubProblemOld) and isnew({S}) and {COMMON(O, "leaves[row_(len(targets), q)]")} and {O}.target_ == targets[col_(len(targets), q)] and {O}.solver_.engine == "sat" for q in range({n}))'
    MASTER = ['isnew(self.master_problem)', 'isa(self.master_problem, DTreeMasterProblem)'] + [f'same({M}.{a}, {b})' for a, b in (
        ('paths_', 'initial_paths'), ('leaves_', 'leaves'), ('nodes_', 'nodes'), ('splits_', 'splits'), ('data_rows', 'data_rows'), ('num_cuts_round', 'num_master_cuts_round'), ('generate_cuts', 'master_generate_cuts'),
        ('beta_constraints_as_cuts', 'master_beta_constraints_as_cuts'))] + [f'{M}.solver_.engine == master_solver_type', f'not {M}.generated_']
    HEUR = ['isnew(self.subproblems[0][0])', 'isa(self.subproblems[0][0], DTreeSubProblemHeuristic)'] + [f'same({H}.{a}, {b})' for a, b in (
        ('leaves_', 'leaves'), ('nodes_', 'nodes'), ('splits_', 'splits'), ('targets_', 'targets'), ('data_rows', 'data_rows'))] + [f'{H}.tree_depth_ == tree_depth', f'{H}.num_cuts == 0']
    N1 = 'len(self.subproblems[1])'
    PAR = 'all_subproblem_params'
    LEVELS = ['len(self.subproblems) == 2', 'len(self.subproblems[0]) == 1', f'len({PAR}) == 2', f'len({PAR}[0]) == 1', f'{PAR}[0][0] == ""', f'len({PAR}[1]) == {N1}', f'all({PAR}[1][q] == subproblem_params for q in range({N1}))'] + HEUR
    C.fn('DTreeClassifier.__init__', params=TREE, captures=['initial_paths', 'leaves', 'nodes', 'splits', 'targets', 'data_rows'], allocs=True, locals={PAR: LIST(LI)}, props=['C21'],
         modifies=[f'self.{f}' for f in dict(LOOP, **MINE)] + ['Path.initial'], raises=f'not ({GOOD})',
         ensures=[f'same(self.{f}, {f})' for f in TREE if f != 'subproblem_params'] + ['self.rmp_is_ip', 'len(self.subproblem_params) == 2', 'len(self.subproblem_params[0]) == 1', 'self.subproblem_params[0][0] == ""',
                  f'len(self.subproblem_params[1]) == {N1}', f'all(self.subproblem_params[1][q] == subproblem_params for q in range({N1}))', 'len(self.subproblems) == 2', 'len(self.subproblems[0]) == 1'] + MASTER + HEUR +
                 [f'implies(not use_old_sp, {N1} == len(leaves) and {SAT(N1)})', f'implies(use_old_sp, {N1} == len(leaves) * len(targets) and {OLD(N1)})',
                  'all(initial_paths[j].initial for j in range(len(initial_paths)))', 'all(implies(all(p != initial_paths[j] for j in range(len(initial_paths))), p.initial == old(p.initial)) for p in refs("Path"))'],
         loops={0: {'inv': ['len(split_ids) == _k', 'all(split_ids[i] == splits[i].id for i in range(_k))', 'all(iff(v in split_ids, known_split(v, splits, _k)) for v in ints())']},
                1: {'inv': ['node_id == _k', 'len(node_ids) == _k', 'all(node_ids[i] == i for i in range(_k))', 'all(iff(v in node_ids, 0 <= v and v < _k) for v in ints())', NUMBERED('nodes', '_k')]},
                2: {'inv': ['leaf_id == _k', 'len(leaf_ids) == _k', 'all(leaf_ids[i] == i for i in range(_k))', 'all(iff(v in leaf_ids, 0 <= v and v < _k) for v in ints())', NUMBERED('leaves', '_k')]},
                3: {'inv': [PATHS('_k'), 'all(initial_paths[j].initial for j in range(_k))', 'all(implies(all(p != initial_paths[j] for j in range(_k)), p.initial == old(p.initial)) for p in refs("Path"))']},
                4: {'inv': ['all(0 <= initial_paths[_k0].node_ids[i] and initial_paths[_k0].node_ids[i] < len(nodes) for i in range(_k))']},
                5: {'inv': ['all(known_split(initial_paths[_k0].splits[i], splits, len(splits)) for i in range(_k))']},
                6: {'inv': LEVELS + [f'implies(not use_old_sp, {N1} == _k and {SAT(N1)})', f'implies(use_old_sp, {N1} == _k * len(targets) and {OLD(N1)})', f'implies(use_old_sp and len(targets) > 0, row_(len(targets), {N1}) == _k and col_(len(targets), {N1}) == 0)']},
                7: {'inv': LEVELS + [f'{N1} == _k0 * len(targets) + _k', OLD(N1), f'implies(_k < len(targets), row_(len(targets), {N1}) == _k0 and col_(len(targets), {N1}) == _k)',
                                     f'implies(_k == len(targets), implies(len(targets) > 0, row_(len(targets), {N1}) == _k0 + 1 and col_(len(targets), {N1}) == 0))']}})

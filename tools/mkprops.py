#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that statements stay in one place)."""
import json
B, G, D, T, X = ('col_gen_estimator/_bdr_classifier.py', 'col_gen_estimator/_col_gen_classifier.py',
                 'col_gen_estimator/_dtree_classifier.py', 'col_gen_estimator/_parameter_tuner.py',
                 'examples/dtree_experiment.py')
P = []


def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=' '.join(statement.split()),
                  quantifier=dict(over=over.split(), text=' '.join(text.split())), why_tests_cant=' '.join(why.split()),
                  anchors=dict(files=files, state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=list(observe), hook_needed=hook)))


p('C01', 'The rule master is exactly the published program for the clauses it holds',
  '''After the rule master is built and after any sequence of column additions, its linear program is exactly formulation (1)
  restricted to the initial empty clause and the added clauses: one penalty variable of cost p and one cover row (>= 1) per
  positive example, one non-negative variable per clause whose cost is the number of negative examples satisfying it, whose
  entry in a cover row is 1 exactly when that positive example satisfies it, and whose entry in the single complexity row
  (<= C) is one plus its length; the objective is minimised. Building twice changes nothing, an empty clause is refused
  without any change and a clause already present is rejected.''',
  'inputs histories', 'every binary data set and label vector, every C and p, every sequence of column additions',
  'the tests build one 4-row data set and add at most two clauses', [B],
  [('model construction', 'BDRMasterProblem.generate_mp'), ('column addition', 'BDRMasterProblem.add_column'),
   ('coefficients', 'BDRMasterProblem.get_objective_coeff_mp, get_clause_coeffs, satisfies_clause')],
  [('clause_dict_', 'clause of every clause variable', 'BDRMasterProblem'), ('solver_', 'the restricted master', 'BDRMasterProblem')],
  ['the MPModelProto exported from solver_'])
p('C02', 'The exact rule pricing program and the clause it yields are right',
  '''Given non-negative duals, the exact pricing step of the rule classifier solves exactly formulation (2) - on its first call and,
  with the new duals, on every later call - so that for any clause of at most D features the best objective value with that
  clause selected is its reduced cost. It returns no clause when the optimum is not below -1e-6 and otherwise exactly one: the
  features selected in the optimal solution, whose reduced cost is the optimum.''',
  'inputs histories', 'every binary data set, labels, D, and every sequence of dual vectors passed to one instance',
  'the tests solve one instance with one dual vector', [B],
  [('program', 'BDRSubProblem.create_submip'), ('re-pricing', 'BDRSubProblem.update_objective'),
   ('column', 'BDRSubProblem.generate_columns')], (), ['exported model of the pricing solver', 'returned clauses'])
p('C03', 'The rule heuristic returns exactly the improving clauses up to size K',
  '''Given non-negative duals, the rule heuristic returns exactly the clauses with 1 to K distinct features whose reduced cost
  lambda*(1+size) - sum of the cover duals of the positive examples satisfying it + number of negative examples satisfying it
  is below -1e-6, each once, as increasing feature lists, by size and then lexicographically.''',
  'inputs', 'every binary data set, labels, K and non-negative dual vector',
  'two small samples with K = 1 and 2', [B], [('enumeration and reduced cost', 'BDRHeuristic.generate_columns')])
p('C04', 'The learned rule is the integer solution and predictions are its DNF',
  '''After solving the integer master the stored rule is exactly the list of clauses whose variables are positive in that integer
  solution of the current restricted master, in the order they were added. Prediction labels an example with the second of the
  two original class labels exactly when it satisfies all features of some clause of the rule, and with the first otherwise.''',
  'inputs histories', 'every data set, every set of generated clauses, every rule, every input matrix to predict, any two labels',
  'one fitted data set', [B], [('rule', 'BDRMasterProblem.solve_ip'), ('prediction', 'BooleanDecisionRuleClassifier.predict')],
  [('explanation', 'the learned rule', 'BDRMasterProblem')])
p('C05', 'Dual values handed to pricing belong to the right constraints',
  '''After each solve of a restricted master the duals returned to the pricing steps are those of the optimal solution just
  computed, each for the constraint it is used for: for the rule master the absolute dual of the complexity row and the cover
  duals in the order of the positive examples; for the tree master one dual per leaf, per data row (0 for a row without
  constraint), per (leaf, node, split) link row and per cut, plus the list of cuts added in this very call.''',
  'inputs histories', 'every model state reachable by column, row and cut additions, every solver answer',
  'the tests look at the duals of two fixed models', [B, D],
  [('rule duals', 'BDRMasterProblem.solve_rmp'), ('tree duals', 'DTreeMasterProblem.solve_rmp')])
p('C06', 'Optimality is claimed only when every pricing step has come up empty',
  '''A fit reports the master as optimal exactly when, in its last iteration, every pricing step of every level was asked in order
  with the duals of the latest master solve and none produced a column that was added, without a limit cutting it short. In each
  iteration all pricing steps are first updated with the latest duals, level k+1 is asked only if no step of level k added a
  column, and the steps after one that added a column are not asked.''',
  'schedules histories configurations', 'every number of levels and steps, every outcome of every pricing call, limits',
  'the tests run the loop on two fixed problems', [G], [('column generation loop', 'ColGenClassifier.fit')],
  [('mp_optimal_', 'optimality claim', 'ColGenClassifier')])
p('C07', 'Fit accounting and limits are truthful',
  '''After any fit the reported number of iterations is the number of restricted-master solves, the per-step column counts equal
  the columns from that step that the master accepted, improving iterations count the solves the master reported as improving,
  and all counters start from zero. A positive iteration limit is never exceeded, a non-positive limit means none, the
  time-limit flag is set only when a positive time limit was really exceeded (then no further pricing call is made),
  and the integer master is solved exactly once, after the loop, with the given parameters.''',
  'schedules histories configurations', 'every limit, every outcome of every pricing call, every clock reading',
  'no test checks the counters or limits', [G], [('loop bookkeeping', 'ColGenClassifier.fit')])
p('C08', 'Tree numbering is consistent',
  '''For every depth and every leaf number, the ancestors of a leaf of the complete binary tree are numbered by (k-1)//2 from leaf
  position 2^depth-1+id up to the root; a leaf lists an ancestor as left exactly when the path to it turns left there and as
  right otherwise, each ancestor once, and setting a path's leaf lists the same ancestors. Node parents and children computed
  by row preprocessing follow the same numbering, children being leaf numbers exactly at the deepest level.''',
  'inputs', 'every depth and leaf number', 'four leaves of a depth-3 tree are tested', [D],
  [('leaf', 'Leaf.create_leaf'), ('path', 'Path.set_leaf'), ('nodes', 'DTreeMasterProblem.preprocess_rows')])
p('C09', 'Row routing is consistent and unambiguous',
  '''An example satisfies a path exactly when at every node of the path it goes to the side on which the path's leaf lies (feature
  value <= threshold means left), and the row set and the cut set computed for a path are exactly the intersections of the sides
  its splits prescribe. Consequently an example satisfies exactly one of the paths of any complete tree built from per-node splits.''',
  'inputs', 'every path, leaf, split table and example', 'a handful of rows are sampled', [D],
  [('routing', 'row_satisfies_path, row_satisfies_split'), ('row and cut sets', 'get_satisfied_rows, get_satisfied_cuts')])
p('C10', 'Path identity ignores only order and bookkeeping',
  '''Two paths are reported the same exactly when they have the same leaf, target and cost and the same set of (node, split) pairs;
  listing order, identifiers and the initial flag do not matter, and the comparison is symmetric and changes neither path.''',
  'inputs', 'every pair of paths with distinct nodes', 'one test with a few pairs', [D], [('comparison', 'Path.is_same_as')])
p('C11', 'The tree master is exactly the published program for the paths it holds',
  '''After building and after any sequence of column additions, the tree master is exactly the path formulation restricted to its
  current paths: a non-negative variable per path with its cost, maximised; an equality to one per leaf; at most one satisfied
  path for each row with an active row constraint; for each leaf, ancestor node and candidate split an equality linking the
  paths of that leaf using the split there to one variable shared by all leaves. Each row's record of satisfied paths contains
  exactly the current paths it satisfies.''',
  'inputs histories', 'every tree description, data set, initial paths and sequence of added paths',
  'one depth-1 and one depth-2 model', [D],
  [('model construction', 'DTreeMasterProblem.generate_mp'), ('column addition', 'DTreeMasterProblem.add_column')])
p('C12', 'Row preprocessing only drops redundant rows',
  '''Row preprocessing computes exactly the nodes and leaves each row can reach under the candidate splits and drops a row
  constraint only if the row can reach at most two leaves or, in aggressive mode, an earlier kept row is on the same side of
  every split it can meet and reaches the same nodes; so every solution of the reduced master satisfies the dropped row
  constraints.''',
  'inputs', 'every data set and every set of candidate splits per node', 'not tested', [D],
  [('preprocessing', 'DTreeMasterProblem.preprocess_rows')])
p('C13', 'Lazily added rows and generated cuts are correct',
  '''When row constraints are added lazily, a constraint is added only for non-dropped rows still without one whose satisfied paths do
  not sum to one in the current solution, at most ten per round, covering exactly the current paths the row satisfies. Every generated cut is an equality to
  one over exactly the paths satisfied by one consistent assignment of sides to all splits whose value in the current solution
  exceeds one, one is generated whenever such
  an assignment exists, that assignment is what pricing receives, and columns added later enter exactly the cuts they satisfy.''',
  'inputs histories', 'every master state, every solution, every cut found', 'never exercised', [D],
  [('lazy rows', 'DTreeMasterProblem.add_beta_cuts'), ('cuts', 'DTreeMasterProblem.add_cuts, create_cut_gen_model, CutGenerator')])
p('C14', 'Exact tree pricing models encode the reduced cost',
  '''For each exact tree pricing step, first call or later, with or without cuts: the feasible choices are exactly one candidate
  split per ancestor of the leaf and one target; the row, cut and correct-classification indicators are forced to what that
  path satisfies; and the objective of a choice is the path's weighted number of correctly classified rows minus the duals of
  its leaf, of the (non-removed) rows and cuts it satisfies and of its (node,
  split) links, for the latest duals (up to the fixed scaling and constant of the CP model).''',
  'inputs histories', 'every tree description, data set, weights, and every sequence of duals and cuts passed to one instance',
  'two fixed models with one dual vector', [D],
  [('MIP', 'DTreeSubProblem'), ('CP-SAT', 'DTreeSubProblemSat'), ('one target', 'DTreeSubProblemOld')])
p('C15', 'Columns from exact tree pricing are well formed and improving',
  '''Every path returned by an exact tree pricing step belongs to that step's leaf, lists each ancestor of the leaf once with a
  candidate split of that node, carries a valid target, has as cost the (weighted) number of non-removed rows that satisfy it
  and have its target, and has reduced cost above 1e-6 under the duals it was priced with; no path is returned when none of
  the solutions found improves, and one is when the optimum improves.''',
  'inputs histories', 'every pricing instance, every solution reported by the solver', 'two fixed instances', [D],
  [('MIP', 'DTreeSubProblem.generate_columns, DTreeSubProblemOld.generate_columns'),
   ('CP-SAT', 'PathGenerator.on_solution_callback, DTreeSubProblemSat.generate_columns')])
p('C16', 'The tree heuristic returns distinct well-formed improving paths',
  '''Every path returned by the tree heuristic uses one leaf, its ancestors once each, pairwise different candidate splits of those
  nodes, the most frequent target by row weight among the non-removed rows satisfying it (any target on a tie) with that weight
  as cost, and has reduced cost above 1e-6; no two returned paths are the same, and every attempt is counted either as a
  success or as a failure.''',
  'inputs schedules', 'every tree description, data set, weights, duals and every random draw', 'one seeded sample', [D],
  [('heuristic', 'DTreeSubProblemHeuristic.generate_columns, get_reduced_cost, update_subproblem')])
p('C17', 'The selected tree and its predictions',
  '''After the integer master is solved the selected paths are exactly those current paths whose variable is positive in that
  integer solution of the current model. Prediction gives each example the original label of the target of the first selected
  path it satisfies, so for a selected complete tree the label of the leaf the example falls in.''',
  'inputs histories', 'every master state, integer solution, and input matrix', 'one fitted data set', [D],
  [('selection', 'DTreeMasterProblem.solve_ip'), ('prediction', 'DTreeClassifier.predict')])
p('C18', 'Running statistics equal the statistics of the pushed values',
  '''After any sequence of values since creation or the last clear, the running statistic reports their number, their mean (0 if
  none), and their unbiased sample variance and its square root (0 for fewer than two values).''',
  'histories', 'every sequence of pushes and clears (exact arithmetic)', 'one sequence of a few values', [T],
  [('Welford update', 'RunningStat.push')])
p('C19', 'The parameter tuner scores and chooses as documented',
  '''Recording a score for a value (by default the value last chosen) updates only that value's count, statistics and final score
  (mean plus c_fac over its count). Choosing always returns one of the values and remembers which: during exploration
  a two-valued parameter follows its switch flag; later any value with fewer than four scores goes first, and otherwise the
  returned value's final score is within a tenth of its own standard deviation of the best.''',
  'histories schedules', 'every history of scores and choices, every random draw', 'two short histories', [T],
  [('choice', 'Parameter.get_best_value'), ('scores', 'Parameter.adjust_score')])
p('C20', 'Solver tuning feedback reflects the solve',
  '''Each CP-SAT pricing solve runs the given model with the parameter values just chosen by the tuners and the given time limit
  and callback, and then feeds every tuner exactly one score: minus the time share plus gap, being elapsed/limit for an
  optimal solve, one plus the relative gap (one when objective and bound differ in sign) for a feasible one, and two when nothing was found; the solve time
  and gap are recorded once per solve.''',
  'histories', 'every solver status, time, objective and bound', 'not tested', [G, T],
  [('solve and score', 'BaseSubproblem.solve_model')])
p('C21', 'Classifier construction wires the pricing steps as documented',
  '''Every classifier keeps each constructor argument it was given, has the pricing levels its documentation describes - for trees
  a heuristic level then one exact step per leaf (per leaf and target in the old mode), for rules the exact step, preceded by a
  size-1 heuristic level in the heuristic variant - each built with the given parameters, and one parameter entry per step.
  Tree descriptions whose node or leaf numbering or initial paths are inconsistent are rejected, and a parameter changed before
  fitting acts as if it had been given at construction.''',
  'configurations', 'every constructor argument combination', 'default parameters only', [B, D, G],
  [('constructors', 'ColGenClassifier.__init__, DTreeClassifier.__init__, BooleanDecisionRuleClassifier.__init__')])
p('C22', 'Labels are encoded consistently and degenerate input is rejected',
  '''Fitting passes labels to the master and every pricing step as codes 0..k-1 in sorted label order, keeps the original data and
  the sorted classes, refuses data with fewer than two classes before touching the master, returns the estimator marked fitted,
  and predictions are always among the original classes; predicting before fitting is refused. Fitting again depends only on
  the data of that fit.''',
  'inputs', 'every label set and data set', 'one label set', [G, B, D],
  [('encoding', 'ColGenClassifier.fit'), ('decoding', 'predict')])
if __name__ == '__main__':
    with open('/verif/properties.jsonl', 'w') as f:
        for x in P:
            f.write(json.dumps(x) + '\n')

"""CP-SAT pricing step of the tree classifier."""
from engine.vals import *
from engine import ext
from contracts import tsp, dsp, colgen, tuner


def register(C):
    if 'DTreeSubProblem' not in C.classes:
        tsp.register(C)
    if 'Tunables' not in C.classes:
        tuner.register(C)
        colgen.register(C)
    SP, LF, NODES, ROWS, LI, SOL, UD, DL = LIST(REF('Split')), REF('Leaf'), LIST(REF('Node')), OPT(LIST(REF('Row'))), LIST(INT), FMAP(BOOL), DICT(INT, DICT(INT, INT)), DICT(INT, DICT(INT, DICT(INT, REAL)))
    CV = CPV('self.model_')
    OV = LIST(OPT(CV))
    CN = 'DTreeSubProblemSat'
    C.cls(CN, 'rec', {'leaf_id_': INT, 'leaf_': LF, 'nodes_': NODES, 'splits_': SP, 'targets_': LI, 'tree_depth_': INT, 'model_': REC('CpModel'), 'cp_solver_': REC('CpSolver'), 'generated_': BOOL, 'objective_scale': INT,
                      'orig_obj_coeffs': DICT(INT, REAL), 'z_vars_': OV, 'y_vars_': OV, 'yc_vars_': OV, 'w_vars_': OV, 'u_vars_': DICT(INT, DICT(INT, CV)), 'data_rows': ROWS, 'cut_rows_starting_index': INT, 'X_': MAT, 'y_': LI,
                      'tunable_params_': REC('Tunables'), 'solve_times_': LIST(REAL), 'gaps_': LIST(REAL), 'sides': FMAP(SOL)})      # sides: ghost
    C.share(CN + '.y_', 0)
    M = 'self.model_'
    NC, NV, O = f'{M}.ncons', f'{M}.nvars', f'{M}.obj'
    T, N = 'self.leaf_, self.nodes_, self.u_vars_', 'nanc(self.leaf_)'
    VAR = lambda v, a, b: f'0 <= {v} and {v} < {NV} and {M}.vk0[{v}] == {a} and {M}.vk1[{v}] == {b}'
    FAM = lambda f, kind: lambda i: f'not is_none(self.{f}[{i}]) and {VAR(f"the(self.{f}[{i}])", i, kind)}'
    z, y, yc, w = (FAM(f, -k - 1) for k, f in enumerate(('z_vars_', 'y_vars_', 'yc_vars_', 'w_vars_')))
    ROWV = lambda fam, f, n: f'all(ite(gone(self, r), is_none(self.{f}[r]), {fam("r")}) for r in range({n}))'
    VZY = lambda n: f'len(self.z_vars_) == len(self.X_) and len(self.y_vars_) == len(self.X_) and {ROWV(z, "z_vars_", n)} and {ROWV(y, "y_vars_", n)}'
    VYC = lambda n: f'all({yc("k")} for k in range({n}))'
    VW = lambda n: f'all({w("i")} for i in range({n}))'
    VU = f'all(implies(ukey(self, n, s), 0 <= n and {VAR("self.u_vars_[n][s]", "n", "s")}) for n in ints() for s in ints())'
    UKEYS = lambda k: f"""all(iff(n in self.u_vars_, any(anc(self.leaf_, a) == n for a in range({k}))) for n in ints())
            and all(implies(n in self.u_vars_, iff(s in self.u_vars_[n], has_cand(self.nodes_[n], s))) for n in ints() for s in ints())"""
    K0, K1 = f'{M}.vk0[v]', f'{M}.vk1[v]'
    isv = lambda kind, f, n: f'({K1} == {kind} and 0 <= {K0} and {K0} < {n} and not is_none(self.{f}[{K0}]) and the(self.{f}[{K0}]) == v)'
    WHICH = [isv(-1, 'z_vars_', 'len(self.X_)'), isv(-2, 'y_vars_', 'len(self.X_)'), isv(-3, 'yc_vars_', 'len(self.yc_vars_)'), isv(-4, 'w_vars_', 'len(self.w_vars_)'), f'({K1} >= 0 and ukey(self, {K0}, {K1}) and self.u_vars_[{K0}][{K1}] == v)']
    NAMED = lambda *ks: f'all({" or ".join(WHICH[k] for k in ks)} for v in range({NV}))'
    UV = lambda n, s: f'self.u_vars_[{n}][{s}]'
    # ---- the objective: scaled coefficients, and the unscaled ones that are kept
    SC = lambda x: f'round({x} * self.objective_scale)'
    A0 = 'self.orig_obj_coeffs'
    HAS = lambda v, x: f'({v} in {A0} and {A0}[{v}] == {x})'
    OZY = lambda n, o: f'all(implies(not gone(self, r), {o}[the(self.z_vars_[r])] == {SC("heavy(self, r)")} and {o}[the(self.y_vars_[r])] == {SC("-row_duals[r]")}) for r in range({n}))'
    KZY = lambda n: f'all(implies(not gone(self, r), {HAS("the(self.z_vars_[r])", "heavy(self, r)")} and {HAS("the(self.y_vars_[r])", "-row_duals[r]")}) for r in range({n}))'
    OC = lambda n, o: f'all({o}[the(self.yc_vars_[k])] == {SC("-cut_duals[k]")} for k in range({n}))'
    KC = lambda n: f'all({HAS("the(self.yc_vars_[k])", "-cut_duals[k]")} for k in range({n}))'
    ND = 'ns_duals[self.leaf_id_][n][s]'
    OU = lambda o: f'all(implies(ukey(self, n, s), {o}[{UV("n", "s")}] == {SC("-" + ND)}) for n in ints() for s in ints())'
    KU = f'all(implies(ukey(self, n, s), {HAS(UV("n", "s"), "-" + ND)}) for n in ints() for s in ints())'
    LD = {'leaf_dual': REAL, 'row_duals': LIST(REAL), 'ns_duals': DL, 'cut_duals': LIST(REAL)}
    C.fn(f'{CN}.scale_obj_coeff', params={'value': REAL}, result=INT, ensures=['result == round(value * self.objective_scale)'], props=['C14'])
    C.fn(f'{CN}.row_satisfies_split', params={'row': INT, 'split': REF('Split')}, result=BOOL, requires=['0 <= row and row < len(self.X_)', '0 <= split.feature and split.feature < self.X_.shape[1]'],
         ensures=['result == (self.X_[row][split.feature] <= split.threshold)'], props=['C14'])
    # ---- rows of the model
    CF = ext.CROW
    CFT = {f: ext.CPF[f] for f in CF}
    CFA = lambda i='': ', '.join(f + i for f in CF)
    CFN = lambda n: ', '.join(f'{f}[{n}]' for f in CF)
    C.lemma('rows_more', dict(CFT, n=INT, n2=INT, sol=SOL), ['0 <= n', 'n <= n2'], [f'iff(feas_({CFA()}, n2, sol), feas_({CFA()}, n, sol) and all(pat(kind[c], rowholds({CFN("c")}, sol)) for c in range(n, n2)))'], props=['C14'])
    FEAS = f'feasible({M}, sol)'
    MODEL = ', '.join(f'{M}.{f}' for f in CF)
    ROW = lambda c: f"rowholds({', '.join(f'{M}.{f}[{c}]' for f in CF)}, sol)"
    WAS = lambda was: ', '.join(f'{was}({M}.{f})' for f in CF)
    AFTER = lambda k: ', '.join(f'after({k}, {M}.{f})' for f in CF)
    SAMEROWS = lambda n, was='top': 'all(' + ' and '.join(f'same({M}.{f}[c], {was}({M}.{f})[c])' for f in CF) + f' for c in range({n}))'
    TN = f'top({NC})'
    NEWROWS = [SAMEROWS(TN), f'apply all(same_rows({MODEL}, {WAS("top")}, {TN}, sol) for sol in sols())', f'apply all(rows_more({MODEL}, {TN}, {NC}, sol) for sol in sols())']
    ALL = 'all({} for sol in sols())'
    G = 'lefts(self.X_[{r}], self.splits_)'
    COMES = lambda r: f'comes({T}, {G.format(r=r)}, the(self.y_vars_[{r}]), sol)'
    ROWSF = lambda upto: f'all(implies(not gone(self, r), {COMES("r")}) for r in range({upto}))'
    ONES = lambda k: f'ones_({T}, {k}, sol)'
    WS = 'wsel(self.w_vars_, sol, len(self.w_vars_))'
    ZR = lambda upto: f'all(implies(not gone(self, r), iff(sol[the(self.z_vars_[r])], sol[the(self.y_vars_[r])] and sol[the(self.w_vars_[self.y_[r]])])) for r in range({upto}))'
    CAND = 'self.nodes_[node_id].candidate_splits'
    NODES_IS = 'len(nodes) == nanc(self.leaf_) and all(nodes[k] == anc(self.leaf_, k) for k in range(len(nodes)))'
    DKEYS = ['self.leaf_id_ in ns_duals', 'all(nodes[k] in ns_duals[self.leaf_id_] for k in range(len(nodes)))', 'all(self.nodes_[nodes[k]].candidate_splits[b] in ns_duals[self.leaf_id_][nodes[k]] for k in range(len(nodes)) for b in range(len(self.nodes_[nodes[k]].candidate_splits)))']
    DKEY = ['node.id == node_id', 'node_id in ns_duals[self.leaf_id_]', f'all({CAND}[b] in ns_duals[self.leaf_id_][node_id] for b in range(len({CAND})))']
    LISTED = f'len(obj_vars) == {NV} and len(obj_coeffs) == {NV} and all(obj_vars[q] == q for q in range({NV}))'
    OBJ, OBC = O, 'obj_coeffs'
    ZY = lambda n: [VZY(n), OZY(n, OBC), KZY(n)]
    ZYC = lambda n: ZY('len(self.X_)') + ['len(self.yc_vars_) == num_cuts', VYC(n), OC(n, OBC), KC(n)]
    UNEW = lambda k: f'all(iff(s in self.u_vars_[node_id], any({CAND}[b] == s for b in range({k}))) for s in ints())'
    UREST = '''all(iff(n in self.u_vars_, any(anc(self.leaf_, a) == n for a in range(_k0 + 1))) for n in ints())
        and all(implies(n in self.u_vars_ and n != node_id, iff(s in self.u_vars_[n], has_cand(self.nodes_[n], s))) for n in ints() for s in ints())'''
    UAB = UV("anc(self.leaf_, a)", "self.nodes_[anc(self.leaf_, a)].candidate_splits[b]")
    UFACT = f'all(0 <= {UAB} and {UAB} < {NV} and {M}.vk0[{UAB}] == anc(self.leaf_, a) and {M}.vk1[{UAB}] == self.nodes_[anc(self.leaf_, a)].candidate_splits[b] for a in range({N}) for b in range(len(self.nodes_[anc(self.leaf_, a)].candidate_splits)))'
    C.lemma('usel_sum', {'ud': DICT(INT, INT), 'cand': LI, 'vars': FMAP(INT), 'sol': SOL, 'n': INT}, ['n >= 0', 'all(vars[q] == ud[cand[q]] and vars[q] >= 0 for q in range(n))'], ['sumof(vars, sol, n) == usel(ud, cand, sol, n)'], induct='n', uses=['usel_sum(ud, cand, vars, sol, n - 1)'], props=['C14'])
    C.lemma('wsel_sum', {'w': LIST(OPT(INT)), 'vars': FMAP(INT), 'sol': SOL, 'n': INT}, ['n >= 0', 'all(vars[q] == the(w[q]) and vars[q] >= 0 for q in range(n))'], ['sumof(vars, sol, n) == wsel(w, sol, n)'], induct='n', uses=['wsel_sum(w, vars, sol, n - 1)'], props=['C14'])

    def arrows(g, yv, skip, lb, rn):
        """Loop contracts of one family of forced indicators: `g` the splits sending row _k0 left, `yv` its indicator, `skip` whether it has none"""
        yi = f'ite(sol[the({yv})], 1, 0)'
        at = lambda x: x.replace('_k0', '_k')
        if_ = lambda x: f'implies(not ({skip}), {x})' if skip else x
        stp = lambda c: f'step({T}, {g}, sol, {c})'
        side = lambda left: {'inv': [f'all(dot({lb}, sol) == dot(pre({lb}), sol) + uside(self.u_vars_[node_id], {CAND}, sol, {g}, {left}, _k) for sol in sols())',
                                     f'all(dot({rn}, sol) == dot(pre({rn}), sol) - uside(self.u_vars_[node_id], {CAND}, sol, {g}, {left}, _k) for sol in sols())']}
        inner = {'inv': [f'{NC} == pre({NC}) + _k', SAMEROWS(f'pre({NC})', 'pre'), f'all(dot({lb}, sol) == ways({T}, {g}, sol, _k) - {yi} for sol in sols())',
                         f'all(iff({ROW("c")}, {yi} <= {stp(f"c - pre({NC})")}) for c in range(pre({NC}), {NC}) for sol in sols())'],
                 'hint': [f'all({stp("_k")} == uside(self.u_vars_[node_id], {CAND}, sol, {g}, node_id in self.leaf_.left_nodes, len({CAND})) for sol in sols())',
                          f'all(dot({rn}, sol) == {yi} - {stp("_k")} for sol in sols())', f'all(iff({ROW(NC + " - 1")}, {yi} <= {stp("_k")}) for sol in sols())']}
        hint = NEWROWS + [if_(f'{NC} == {TN} + 1 + {N}'),
            if_(ALL.format(f'iff({ROW(NC + " - 1")}, ways({T}, {at(g)}, sol, {N}) - {at(yi)} <= {N} - 1)')),
            if_(f'all(iff({ROW("c")}, {at(yi)} <= step({T}, {at(g)}, sol, c - {TN})) for c in range({TN}, {NC} - 1) for sol in sols())'),
            if_(f'all(iff({ROW(TN + " + q")}, {at(yi)} <= step({T}, {at(g)}, sol, q)) for q in range({N}) for sol in sols())'),
            if_(ALL.format(f'iff(all(pat({M}.kind[c], {ROW("c")}) for c in range({TN}, {NC} - 1)), all({at(yi)} <= step({T}, {at(g)}, sol, q) for q in range({N})))')),
            f'use all(row_means({T}, {at(g)}, the({at(yv)}), sol) for sol in sols())']
        return hint, inner, side('True'), side('False')
    hint, inner, left, right = arrows(G.format(r='_k0'), 'self.y_vars_[_k0]', 'gone(self, _k)', 'y_lb_expr', 'rn_expr')
    ZK = ['implies(sol[the(self.z_vars_[_k])], sol[the(self.y_vars_[_k])])', 'implies(sol[the(self.z_vars_[_k])], sol[the(self.w_vars_[self.y_[_k]])])',
          'implies(sol[the(self.y_vars_[_k])] and sol[the(self.w_vars_[self.y_[_k]])], sol[the(self.z_vars_[_k])])']
    BASE = f'{ONES(N)} and {ROWSF("len(self.X_)")} and {WS} == 1 and {ZR("len(self.X_)")}'
    BUILT = [VZY('len(self.X_)'), VYC('len(self.yc_vars_)'), VW('len(self.w_vars_)'), 'len(self.w_vars_) == len(self.targets_)', VU, UKEYS(N), NAMED(0, 1, 2, 3, 4)]
    PRICED = [OZY('len(self.X_)', O), KZY('len(self.X_)'), OC('len(cut_duals)', O), KC('len(cut_duals)'), OU(O), KU, f'all({O}[the(self.w_vars_[i])] == 0 for i in range(len(self.w_vars_)))', f'{M}.off == -leaf_dual', f'{M}.maxim', f'{M}.hasobj']
    C.fn(f'{CN}.create_submip', params=LD, requires=['not self.generated_', f'{NV} == 0', f'{NC} == 0', 'tp_in(self)', 'tp_data(self)', 'tp_duals(self, self.X_, row_duals, ns_duals)'],
         modifies=['self.' + f for f in 'z_vars_ y_vars_ yc_vars_ u_vars_ w_vars_ model_ generated_ orig_obj_coeffs'.split()],
         ensures=['self.generated_', 'len(self.yc_vars_) == len(cut_duals)'] + BUILT + PRICED + [ALL.format(f'iff({FEAS}, {BASE})')],
         loops={0: {'inv': [LISTED] + ZY('_k') + ['all(is_none(self.z_vars_[r]) and is_none(self.y_vars_[r]) for r in range(_k, len(self.X_)))', NAMED(0, 1)],
                    'hint': ['mark self.model_ self.z_vars_[_k] if not gone(self, _k) : _k ; -1 ; 0', 'mark self.model_ self.y_vars_[_k] if not gone(self, _k) : _k ; -2 ; 0']},
                1: {'inv': [LISTED] + ZYC('_k') + ['all(is_none(self.yc_vars_[k]) for k in range(_k, num_cuts))', NAMED(0, 1, 2)], 'hint': ['mark self.model_ self.yc_vars_[_k] : _k ; -3 ; 0']},
                2: {'entry': [NODES_IS] + DKEYS, 'inv': [LISTED] + ZYC('num_cuts') + [VU, UKEYS('_k'), NAMED(0, 1, 2, 4), OU(OBC), KU]},
                3: {'entry': DKEY, 'inv': [LISTED] + ZYC('num_cuts') + [VU, UNEW('_k'), UREST, NAMED(0, 1, 2, 4), OU(OBC), KU], 'hint': ['mark self.model_ self.u_vars_[node.id][split] : node.id ; split ; 0']},
                4: {'entry': [UFACT, 'distinct(obj_vars)', f'all({O}[obj_vars[q]] == obj_coeffs[q] for q in range({NV}))', f'all({O}[v] == obj_coeffs[v] for v in range({NV}))', f'all(implies(not v in obj_vars, {O}[v] == 0) for v in ints())', f'all(implies(v < 0 or {NV} <= v, {O}[v] == 0) for v in ints())',
                    OZY('len(self.X_)', O), OC('num_cuts', O), OU(O)], 'inv': [ALL.format(f'iff({FEAS}, {ONES("_k")})')],
                    'hint': NEWROWS + [f'apply all(usel_sum(self.u_vars_[node_id], {CAND}, elems(cons_vars), sol, len(cons_vars)) for sol in sols())', ALL.format(f'chosen({T}, sol, _k) == dot({M}.lin[{NC} - 1], sol)'), ALL.format(f'iff({ROW(NC + " - 1")}, chosen({T}, sol, _k) == 1)')]},
                5: {'inv': ['len(cons_vars) == _k', f'all(cons_vars[q] == self.u_vars_[node_id][{CAND}[q]] for q in range(_k))']},
                6: {'inv': [ALL.format(f'iff({FEAS}, {ONES(N)} and {ROWSF("_k")})')], 'hint': hint}, 7: inner, 8: left, 9: right,
                10: {'inv': [VZY('len(self.X_)'), VYC('num_cuts'), VU, NAMED(0, 1, 2, 3, 4), f'pre({NV}) <= {NV}', f'all(pre({NV}) <= the(self.w_vars_[q]) for q in range(_k))', 'len(self.w_vars_) == len(self.targets_)', VW('_k'), 'all(is_none(self.w_vars_[q]) for q in range(_k, len(self.w_vars_)))'],
                     'hint': ['mark self.model_ self.w_vars_[_k] : _k ; -4 ; 0']},
                11: {'entry': [f'apply all(wsel_sum(self.w_vars_, somes(self.w_vars_), sol, len(self.w_vars_)) for sol in sols())', ALL.format(f'dot({M}.lin[{NC} - 1], sol) == {WS}'),
                               f'apply all(one_more({MODEL}, {NC} - 1, sol) for sol in sols())', ALL.format(f'iff({FEAS}, feas_({MODEL}, {NC} - 1, sol) and {WS} == 1)'),
                               f'apply all(same_rows({MODEL}, {AFTER(10)}, {NC} - 1, sol) for sol in sols())'],
                     'inv': [ALL.format(f'iff({FEAS}, pre({FEAS}) and {ZR("_k")})')],
                     'hint': NEWROWS + [f'implies(not gone(self, _k), {NC} == {TN} + 3)'] + [
                         f'implies(not gone(self, _k), {ALL.format(f"iff({ROW(TN + j)}, {cond})")})' for j, cond in (('', ZK[0]), (' + 1', ZK[1]), (' + 2', ZK[2]))] + [
                         f'implies(not gone(self, _k), {ALL.format("iff(all(pat(" + M + ".kind[c], " + ROW("c") + f") for c in range({TN}, {NC})), " + " and ".join(ROW(TN + j) for j in ("", " + 1", " + 2")) + ")")})',
                         f'implies(not gone(self, _k), {ALL.format("iff(all(pat(" + M + ".kind[c], " + ROW("c") + f") for c in range({TN}, {NC})), " + " and ".join(ZK) + ")")})']}},
         props=['C14'])
    # ---- later calls: what is owed for variable v, by its keys
    KV = lambda q: f'{M}.vk1[obj_vars[{q}]]'
    KI = lambda q: f'{M}.vk0[obj_vars[{q}]]'
    C.pred('owes', {'kind': INT, 'scale': INT, 'a': REAL, 'b': REAL, 'c': REAL, 'd': REAL}, 'round(ite(kind == -1, a, ite(kind == -2, b, ite(kind == -3, c, d))) * scale)', opaque=True, ret=INT)
    OWES = lambda k, i: f'owes({k}, self.objective_scale, heavy(self, {i}), -row_duals[{i}], -cut_duals[{i}], -ns_duals[self.leaf_id_][{i}][{k}])'
    OWED = lambda n: f'all(0 <= obj_vars[q] and obj_vars[q] < {NV} and obj_coeffs[q] == {OWES(KV("q"), KI("q"))} for q in range(len(obj_vars)))'
    FROM = lambda *c: 'all((' + ' or '.join(f'({x.format(k=KV("q"), i=KI("q"))})' for x in c) + ') for q in range(len(obj_vars)))'
    ISZ = lambda n: '({k} == -1 or {k} == -2) and {i} < ' + n
    ISC = lambda n: '{k} == -3 and {i} < ' + n
    ISU = lambda n: '{k} >= 0 and any(anc(self.leaf_, a) == {i} for a in range(' + n + '))'
    LISTS = ['len(obj_coeffs) == len(obj_vars)', 'distinct(obj_vars)', OWED('_k')]
    INZ = lambda n: f'all(implies(not gone(self, r), the(self.z_vars_[r]) in obj_vars and the(self.y_vars_[r]) in obj_vars) for r in range({n}))'
    INC = lambda n: f'all(the(self.yc_vars_[k]) in obj_vars for k in range({n}))'
    SOFAR = f'all(implies(ukey(self, n, s) and any(anc(self.leaf_, a) == n for a in range({{k}})), {{x}}) for n in ints() for s in ints())'
    KSOFAR = lambda k: SOFAR.format(k=k, x=HAS(UV('n', 's'), '-' + ND))
    INU = lambda k: SOFAR.format(k=k, x=UV('n', 's') + ' in obj_vars')
    XR = 'len(self.X_)'
    NY = 'len(self.yc_vars_)'
    SAMECON = lambda was: f'{NC} == {was}({NC}) and ' + ' and '.join(f'same({M}.{f}, {was}({M}.{f}))' for f in CF)
    LONGER = lambda was, n: f'len(self.yc_vars_) == ite({was}({NY}) <= {n}, {n}, {was}({NY})) and all(same(self.yc_vars_[k], {was}(self.yc_vars_)[k]) for k in range({was}({NY})))'
    COEFS = [f'all({O}[obj_vars[q]] == obj_coeffs[q] for q in range(len(obj_vars)))', f'all(implies(not v in obj_vars, {O}[v] == 0) for v in ints())', f'all(implies(v in obj_vars, {O}[v] == {OWES(M + ".vk1[v]", M + ".vk0[v]")}) for v in ints())',
             INZ(XR), INC('len(cut_duals)'), f'all(implies(ukey(self, n, s), {UV("n", "s")} in obj_vars) for n in ints() for s in ints())'] + [
             x for v, kk, ii in (('the(self.z_vars_[r])', '-1', 'r'), ('the(self.y_vars_[r])', '-2', 'r')) for x in (
                 f'all(implies(not gone(self, r), {M}.vk1[{v}] == {kk} and {M}.vk0[{v}] == r) for r in range({XR}))', f'all(implies(not gone(self, r), {O}[{v}] == {OWES(kk, ii)}) for r in range({XR}))')] + [
             f'all({M}.vk1[the(self.yc_vars_[k])] == -3 and {M}.vk0[the(self.yc_vars_[k])] == k for k in range(len(cut_duals)))', f'all(implies(ukey(self, n, s), s >= 0 and {M}.vk1[{UV("n", "s")}] == s and {M}.vk0[{UV("n", "s")}] == n) for n in ints() for s in ints())',
             f'all(implies(not gone(self, r), {O}[the(self.z_vars_[r])] == {OWES("-1", "r")} and {O}[the(self.y_vars_[r])] == {OWES("-2", "r")}) for r in range({XR}))', f'all({O}[the(self.yc_vars_[k])] == {OWES("-3", "k")} for k in range(len(cut_duals)))',
             f'all(implies(ukey(self, n, s), {O}[{UV("n", "s")}] == {OWES("s", "n")}) for n in ints() for s in ints())', f'all(implies(not gone(self, r), {OWES("-1", "r")} == {SC("heavy(self, r)")} and {OWES("-2", "r")} == {SC("-row_duals[r]")}) for r in range({XR}))', f'all({OWES("-3", "k")} == {SC("-cut_duals[k]")} for k in range(len(cut_duals)))',
             f'all(implies(ukey(self, n, s), {OWES("s", "n")} == {SC("-" + ND)}) for n in ints() for s in ints())']
    C.fn(f'{CN}.update_objective', params=LD, locals={'obj_vars': LIST(CV), 'obj_coeffs': LI}, requires=['self.generated_', 'tp_in(self)', 'tp_data(self)', 'tp_duals(self, self.X_, row_duals, ns_duals)', f'{NY} <= len(cut_duals)'] + BUILT,
         modifies=['self.yc_vars_', 'self.model_', 'self.orig_obj_coeffs'], ensures=BUILT + PRICED + [SAMECON('old'), LONGER('old', 'len(cut_duals)')], asserts=COEFS,
         loops={0: {'inv': LISTS + [FROM(ISZ('_k')), INZ('_k'), KZY('_k')], 'hint': ['top(len(obj_vars)) <= len(obj_vars)', 'all(pat(top(obj_vars)[q], obj_vars[q] == top(obj_vars)[q]) for q in range(top(len(obj_vars))))', 'implies(not gone(self, _k), len(obj_vars) == top(len(obj_vars)) + 2 and obj_vars[top(len(obj_vars))] == the(self.z_vars_[_k]) and obj_vars[top(len(obj_vars)) + 1] == the(self.y_vars_[_k]))', 'all(implies(top(v in obj_vars), v in obj_vars) for v in ints())', 'implies(not gone(self, _k), the(self.z_vars_[_k]) in obj_vars and the(self.y_vars_[_k]) in obj_vars)']},
                1: {'inv': LISTS + BUILT + [FROM(ISZ(XR), ISC('_k')), INZ(XR), KZY(XR), INC('_k'), KC('_k'), SAMECON('pre'), LONGER('pre', '_k')], 'hint': ['mark self.model_ self.yc_vars_[_k] if _k >= existing_cuts : _k ; -3 ; 0', f'obj_coeffs[len(obj_vars) - 1] == {SC("-cut_duals[_k]")}', f'{OWES("-3", "_k")} == {SC("-cut_duals[_k]")}', f'obj_vars[len(obj_vars) - 1] == the(self.yc_vars_[_k]) and {M}.vk1[the(self.yc_vars_[_k])] == -3 and {M}.vk0[the(self.yc_vars_[_k])] == _k', f'all(obj_vars[q] < top({NV}) for q in range(top(len(obj_vars))))',
                    'len(obj_vars) == top(len(obj_vars)) + 1', f'all(obj_vars[q] == top(obj_vars)[q] and obj_coeffs[q] == top(obj_coeffs)[q] for q in range(top(len(obj_vars))))', f'all(obj_coeffs[q] == {OWES(KV("q"), KI("q"))} for q in range(top(len(obj_vars))))', f'obj_coeffs[len(obj_vars) - 1] == {OWES(KV("len(obj_vars) - 1"), KI("len(obj_vars) - 1"))}']},
                2: {'entry': [NODES_IS] + DKEYS, 'inv': LISTS + [FROM(ISZ(XR), ISC('num_cuts'), ISU('_k')), INZ(XR), KZY(XR), INC('num_cuts'), KC('num_cuts'), INU('_k'), KSOFAR('_k')]},
                3: {'entry': DKEY, 'inv': LISTS + [FROM(ISZ(XR), ISC('num_cuts'), ISU('_k0'), '{i} == node_id and any(' + CAND + '[b] == {k} for b in range(_k))'), INZ(XR), KZY(XR), INC('num_cuts'), KC('num_cuts'), INU('_k0'), KSOFAR('_k0'),
                    f'all({UV("node_id", CAND + "[b]")} in obj_vars and {HAS(UV("node_id", CAND + "[b]"), "-ns_duals[self.leaf_id_][node_id][" + CAND + "[b]]")} for b in range(_k))'],
                    'hint': [f'all(obj_coeffs[q] == {OWES(KV("q"), KI("q"))} for q in range(top(len(obj_vars))))', 'split >= 0 and node.id >= 0', f'{OWES("split", "node.id")} == {SC("-ns_duals[self.leaf_id_][node.id][split]")}', f'obj_vars[len(obj_vars) - 1] == {UV("node.id", "split")} and {M}.vk1[{UV("node.id", "split")}] == split and {M}.vk0[{UV("node.id", "split")}] == node.id',
                             f'obj_coeffs[len(obj_vars) - 1] == {OWES("split", "node.id")}', f'obj_coeffs[len(obj_vars) - 1] == {OWES(KV("len(obj_vars) - 1"), KI("len(obj_vars) - 1"))}', 'len(obj_vars) == top(len(obj_vars)) + 1', f'all(obj_vars[q] == top(obj_vars)[q] and obj_coeffs[q] == top(obj_coeffs)[q] for q in range(top(len(obj_vars))))']}},
         props=['C14'])
    # ---- cut rows
    CY = 'self.yc_vars_[_k0 + self.cut_rows_starting_index]'
    hint, inner, left, right = arrows('elems(cut_rows[_k0])', CY, None, 'yc_lb_expr', 'cn_expr')
    CUTS = lambda n, start='self.cut_rows_starting_index': f'all(comes({T}, elems(cut_rows[q]), the(self.yc_vars_[q + {start}]), sol) for q in range({n}))'
    KEEPS = lambda was: f'{NV} == {was}({NV}) and {M}.off == {was}({M}.off) and {M}.maxim == {was}({M}.maxim) and {M}.hasobj == {was}({M}.hasobj) and ' + ' and '.join(f'same({M}.{f}, {was}({M}.{f}))' for f in ('obj', 'vk0', 'vk1'))
    C.fn(f'{CN}.add_cut_rows', params={'cut_rows': LIST(LIST(BOOL))},
         requires=['self.generated_', 'tp_in(self)', 'all(len(cut_rows[q]) == len(self.splits_) for q in range(len(cut_rows)))', '0 <= self.cut_rows_starting_index', f'self.cut_rows_starting_index + len(cut_rows) <= {NY}', ALL.format(f'implies({FEAS}, {ONES(N)})')] + BUILT,
         modifies=['self.model_', 'self.cut_rows_starting_index'],
         ensures=[KEEPS('old'), 'self.cut_rows_starting_index == old(self.cut_rows_starting_index) + len(cut_rows)', ALL.format(f'iff({FEAS}, old({FEAS}) and {CUTS("len(cut_rows)", "old(self.cut_rows_starting_index)")})')],
         loops={0: {'entry': [NODES_IS, UFACT], 'inv': [ALL.format(f'iff({FEAS}, pre({FEAS}) and {CUTS("_k")})')], 'hint': hint}, 1: inner, 2: left, 3: right},
         props=['C14'])
    # ---- every call
    DC = dsp.DC
    NOW = lambda xs: [x.replace('leaf_dual', 'dual_costs[0][self.leaf_id_]').replace('row_duals', 'dual_costs[1]').replace('ns_duals', 'dual_costs[2]').replace('cut_duals', 'dual_costs[3]') for x in xs]
    ANDCUTS = CUTS('len(dual_costs[4])', 'old(self.cut_rows_starting_index)').replace('cut_rows[q]', 'dual_costs[4][q]')
    CALLED = ['tp_in(self)', 'tp_data_(self, X, y)', 'tp_duals(self, X, dual_costs[1], dual_costs[2])', '0 <= self.leaf_id_ and self.leaf_id_ < len(dual_costs[0])', f'implies(not self.generated_, {NV} == 0 and {NC} == 0)',
              f'implies(self.generated_, same(self.X_, X) and same(self.y_, y) and {NY} <= len(dual_costs[3]))', 'implies(self.generated_, ' + ALL.format(f'implies({FEAS}, {ONES(N)})') + ')'] + [f'implies(self.generated_, {x})' for x in BUILT]
    WHERE = ['self.' + f for f in 'X_ y_ z_vars_ y_vars_ yc_vars_ u_vars_ w_vars_ model_ generated_ orig_obj_coeffs'.split()]
    KEPT = 'implies(old(self.generated_), ' + ' and '.join(f'same(self.{f}, old(self.{f}))' for f in ('u_vars_', 'y_vars_', 'z_vars_', 'w_vars_')) + f' and all(same(self.yc_vars_[k], old(self.yc_vars_)[k]) for k in range(old({NY}))))'
    SOME = lambda x: f'implies(len(dual_costs[4]) > 0, {x})'
    BUILD_NOW = ['self.generated_', 'same(self.X_, X)', 'same(self.y_, y)'] + BUILT + NOW(PRICED) + [f'{NY} == len(dual_costs[3])', KEPT, ALL.format(f'implies({FEAS}, {ONES(N)})')]
    SAMEALL = 'self.generated_ == old(self.generated_) and ' + ' and '.join(f'same(self.{f}, old(self.{f}))' for f in 'X_ y_ z_vars_ y_vars_ yc_vars_ u_vars_ w_vars_ model_ orig_obj_coeffs'.split()) + ' and self.cut_rows_starting_index == old(self.cut_rows_starting_index)'
    C.fn(f'{CN}.update_subproblem', params={'X': MAT, 'y': LI, 'dual_costs': DC}, captures=['y'],
         requires=CALLED + ['all(len(dual_costs[4][q]) == len(self.splits_) for q in range(len(dual_costs[4])))', '0 <= self.cut_rows_starting_index', 'self.cut_rows_starting_index + len(dual_costs[4]) <= len(dual_costs[3])'],
         modifies=WHERE + ['self.cut_rows_starting_index'],
         ensures=[f'implies(len(dual_costs[4]) == 0, {SAMEALL})'] + [SOME(x) for x in BUILD_NOW] + [
             'self.cut_rows_starting_index == old(self.cut_rows_starting_index) + len(dual_costs[4])',
             SOME(f'implies(not old(self.generated_), {ALL.format(f"iff({FEAS}, {BASE} and {ANDCUTS})")})'),
             SOME(f'implies(old(self.generated_), {ALL.format(f"iff({FEAS}, old({FEAS}) and {ANDCUTS})")})')], props=['C14'])
    # ---- columns (lemmas and the solution callback: contracts/gen.py)
    PG = 'path_generator'
    LD0, ALLC = 'dual_costs[0][self.leaf_id_]', f'{ONES(N)} and {WS} == 1 and {ROWSF("len(self.X_)")} and {ZR("len(self.X_)")}'
    SIDED = lambda n: f'all(comes({T}, self.sides[q], the(self.yc_vars_[q]), sol) for q in range({n}))'
    IFF = ALL.format(f'implies({FEAS}, {ALLC} and {SIDED("self.cut_rows_starting_index")})')
    CO = 'elems(self.orig_obj_coeffs)'
    FAMV = lambda f, sol: f'fam(self.{f}, {CO}, {sol}, len(self.{f}))'
    VAL = lambda sol: f'({FAMV("z_vars_", sol)} + {FAMV("y_vars_", sol)} + {FAMV("yc_vars_", sol)} + usum({T}, {CO}, {sol}, {N}) - {LD0})'
    DATA = 'X, y, self.data_rows, self.splits_, self.leaf_'
    COST = lambda p: f'pcost({DATA}, {p}.node_ids, {p}.splits, {p}.target, len(X))'
    RED = lambda p: f'({p}.cost - {LD0} - prow(X, self.data_rows, self.splits_, self.leaf_, {p}.node_ids, {p}.splits, dual_costs[1], len(X)) - pcut(self.leaf_, {p}.node_ids, {p}.splits, self.sides, dual_costs[3], len(dual_costs[3])) - linkdual(dual_costs[2], self.leaf_id_, {p}.node_ids, {p}.splits, {N}))'
    FORM = lambda p: [f'isnew({p})', f'{p}.leaf_id == self.leaf_id_ and 0 <= {p}.target and {p}.target < len(self.targets_)', f'len({p}.node_ids) == {N} and len({p}.splits) == {N} and all({p}.node_ids[a] == anc(self.leaf_, a) and has_cand(self.nodes_[anc(self.leaf_, a)], {p}.splits[a]) for a in range({N}))',
                      f'{p}.cost == {COST(p)}', f'{RED(p)} > 1e-6']
    LP = 'cb.paths[len(cb.paths) - 1]'
    SAMECB = ' and '.join(f'same(cb.{a}, self.{b})' for a, b in (('u_vars', 'u_vars_'), ('w_vars', 'w_vars_'), ('z_vars', 'z_vars_'), ('y_vars', 'y_vars_'), ('yc_vars', 'yc_vars_'), ('leaf', 'leaf_'), ('targets', 'targets_'), ('nodes', 'nodes_'), ('orig_obj_coeffs', 'orig_obj_coeffs')))
    BEST = f'{PG}.seen[{PG}.best]'
    NEWCB = 'len(cb.paths) == top(len(cb.paths)) + 1'
    W = f'self.leaf_, {LP}.node_ids, {LP}.splits'
    RA = f'{W}, self.nodes_, self.u_vars_, cb.cur'
    G_R = G.format(r='r')
    NEW = lambda x: f'implies({NEWCB}, {x})'
    AT = lambda x: x.replace('sol[', 'cb.cur[').replace(', sol)', ', cb.cur)').replace(', sol,', ', cb.cur,')
    SENDS = f'sends({W}, {G_R})'
    READ = [AT(ONES(N)), AT(f'{WS} == 1'), AT(ROWSF('len(self.X_)')), AT(ZR('len(self.X_)')), AT(SIDED('len(dual_costs[3])')),
            NEW(f'reads_({RA}, {N})'), f'use all(comes_is({RA}, {G_R}, the(self.y_vars_[r]), cb.cur) for r in ints())'.replace(', cb.cur)', ')').replace(f'{RA}, {G_R}', f'{RA}, {G_R}'),
            NEW(f'all(implies(not gone(self, r), iff(cb.cur[the(self.y_vars_[r])], {SENDS})) for r in range(len(X)))'),
            f'use all(wsel_one(self.w_vars_, cb.cur, len(self.w_vars_), i, {LP}.target) for i in ints())',
            NEW(f'all(iff(cb.cur[the(self.w_vars_[i])], i == {LP}.target) for i in range(len(self.w_vars_)))'),
            NEW(f'all(implies(not gone(self, r), iff(cb.cur[the(self.z_vars_[r])], y[r] == {LP}.target and {SENDS})) for r in range(len(X)))'),
            f'use all(comes_is({RA}, self.sides[q], the(self.yc_vars_[q])) for q in ints())',
            NEW(f'all(iff(cb.cur[the(self.yc_vars_[q])], sends({W}, self.sides[q])) for q in range(len(dual_costs[3])))'),
            f'use cost_is({DATA}, {LP}.node_ids, {LP}.splits, self.z_vars_, {CO}, cb.cur, {LP}.target, len(X))',
            f'use rows_are(X, self.data_rows, self.splits_, {W}, self.y_vars_, {CO}, cb.cur, dual_costs[1], len(X))',
            f'use cuts_are({W}, self.yc_vars_, {CO}, cb.cur, self.sides, dual_costs[3], len(dual_costs[3]))',
            f'use links_are({RA}, {CO}, dual_costs[2], self.leaf_id_, {N})',
            NEW(f'{FAMV("z_vars_", "cb.cur")} == {COST(LP)}'), NEW(f'{LP}.cost == {FAMV("z_vars_", "cb.cur")}'),
            NEW(f'{FAMV("y_vars_", "cb.cur")} == -prow(X, self.data_rows, self.splits_, {W}, dual_costs[1], len(X))'),
            NEW(f'{FAMV("yc_vars_", "cb.cur")} == -pcut({W}, self.sides, dual_costs[3], len(dual_costs[3]))'),
            NEW(f'usum({T}, {CO}, cb.cur, {N}) == -linkdual(dual_costs[2], self.leaf_id_, {LP}.node_ids, {LP}.splits, {N})'),
            NEW(f'{VAL("cb.cur")} > 1e-6')]
    OLDC = [f'implies(old(self.generated_), {SAMEROWS(NC, "old")} and {NC} == old({NC}))', f'use all(same_rows({MODEL}, {WAS("old")}, {NC}, sol) for sol in sols())',
            ALL.format(f'implies(old(self.generated_), iff({FEAS}, old({FEAS})))'), f'implies(old(self.generated_), all(same(self.yc_vars_[k], old(self.yc_vars_)[k]) for k in range(self.cut_rows_starting_index)))',
            f'implies(old(self.generated_), {IFF})', f'implies(not old(self.generated_), {IFF})', IFF]
    C.fn(f'{CN}.generate_columns', params={'X': MAT, 'y': LI, 'dual_costs': DC, 'params': STR}, result=LIST(REF('Path')), captures=['y'], allocs=True,
         requires=CALLED + ['tun_ok(self)', 'len(dual_costs[3]) == self.cut_rows_starting_index', 'implies(not self.generated_, self.cut_rows_starting_index == 0)', f'implies(self.generated_, {NY} == self.cut_rows_starting_index)', f'implies(self.generated_, {IFF})'],
         modifies=WHERE + ['self.cp_solver_', 'self.solve_times_', 'self.gaps_'] + [m for m in C.funcs['BaseSubproblem.solve_model'].modifies if m.startswith('RunningStat') or 'tunable' in m],
         callbacks={0: {'entry': OLDC, 'inv': [f'all({x} for q in range(len(cb.paths)))' for x in FORM('cb.paths[q]')] + [f'implies(len(cb.paths) == 0, all({VAL("cb.seen[k]")} <= 1e-6 for k in range(cb.nseen)))'],
                        'hint': READ + [NEW(x) for x in FORM(LP)] + ['all(same(cb.paths[q], top(cb.paths)[q]) for q in range(top(len(cb.paths))))', 'all(isnew(top(cb.paths)[q]) for q in range(top(len(cb.paths))))', 'all(implies(q < top(len(cb.paths)), isnew(cb.paths[q])) for q in range(len(cb.paths)))']}},
         ensures=['self.generated_', 'same(self.X_, X)', 'same(self.y_, y)'] + BUILT + NOW(PRICED) + [IFF] + [f'all({x} for q in range(len(result)))' for x in FORM('result[q]')],
         local_ensures=[f'same(result, {PG}.paths)', f'implies(len(result) == 0, all({VAL(PG + ".seen[k]")} <= 1e-6 for k in range({PG}.nseen)))',
                        f'implies(self.cp_solver_.status == 4 and len(result) == 0, 0 <= {PG}.best and {PG}.best < {PG}.nseen and {VAL(BEST)} <= 1e-6)', f'implies(self.cp_solver_.status == 4, {ALL.format(f"implies({FEAS}, dot({O}, sol) <= dot({O}, {BEST}))")})'],
         props=['C15'])

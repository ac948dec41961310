"""Exact pricing steps of the tree classifier."""
from engine.vals import *
from engine import ext
from contracts import dtree, dtm, dsp


def register(C):
    if 'DTreeSubProblemHeuristic' not in C.classes:
        dsp.register(C)
    P, SP, LF, NODES, ROWS, LI, SOL = REF('Path'), LIST(REF('Split')), REF('Leaf'), LIST(REF('Node')), OPT(LIST(REF('Row'))), LIST(INT), FMAP(BOOL)
    UD = DICT(INT, DICT(INT, INT))
    DL = DICT(INT, DICT(INT, DICT(INT, REAL)))
    C.cls('DTreeSubProblem', 'rec', {'leaf_id_': INT, 'leaf_': LF, 'nodes_': NODES, 'splits_': SP, 'targets_': LI, 'tree_depth_': INT, 'solver_': REC('MPSolver'), 'generated_': BOOL,
                                     'z_vars_': LIST(OPT(INT)), 'y_vars_': LIST(OPT(INT)), 'yc_vars_': LIST(OPT(INT)), 'w_vars_': LIST(OPT(INT)), 'u_vars_': UD, 'data_rows': ROWS, 'cut_rows_starting_index': INT, 'iter_': INT, 'X_': MAT, 'y_': LI, 'sides': FMAP(SOL)})
    C.share('DTreeSubProblem.y_', 0)
    C.cls('DTreeSubProblemOld', 'rec', {'leaf_id_': INT, 'leaf_': LF, 'nodes_': NODES, 'splits_': SP, 'target_': INT, 'tree_depth_': INT, 'solver_': REC('MPSolver'), 'generated_': BOOL,
                                        'y_vars_': LIST(OPT(INT)), 'yc_vars_': LIST(OPT(INT)), 'u_vars_': UD, 'data_rows': ROWS, 'cut_rows_starting_index': INT, 'iter_': INT, 'X_': MAT, 'y_': LI, 'sides': FMAP(SOL)})
    C.share('DTreeSubProblemOld.y_', 0)
    # ---- 0/1 points of a linear program
    C.pred('mrow', {'co': FMAP(REAL), 'lo': REAL, 'hi': REAL, 'sol': SOL}, '(lo == -INF() or lo <= dot(co, sol)) and (hi == INF() or dot(co, sol) <= hi)')
    C.pred('mfeas', {'coef': FMAP(FMAP(REAL)), 'clb': FMAP(REAL), 'cub': FMAP(REAL), 'n': INT, 'sol': SOL}, 'all(pat(coef[c], mrow(coef[c], clb[c], cub[c], sol)) for c in range(n))', opaque=True)
    FE = lambda m, n='{m}.solver_.ncons': f'mfeas({m}.solver_.coef, {m}.solver_.clb, {m}.solver_.cub, {n.format(m=m)}, sol)'
    # ---- what is chosen at one ancestor, and the choices that send a row (a cut) towards the leaf: G holds the splits that send it left
    U1 = {'ud': DICT(INT, INT), 'cand': LI, 'sol': SOL}
    C.rec('usel', U1, 'k', 'ite(sol[ud[cand[k]]], 1, 0)')
    C.rec('uside', dict(U1, G=SOL, left=BOOL), 'k', 'ite(sol[ud[cand[k]]] and G[cand[k]] == left, 1, 0)')
    C.lemma('uside_le', dict(U1, G=SOL, left=BOOL, n=INT), ['n >= 0'], ['0 <= uside(ud, cand, sol, G, left, n)', 'uside(ud, cand, sol, G, left, n) <= usel(ud, cand, sol, n)'],
            induct='n', uses=['uside_le(ud, cand, sol, G, left, n - 1)'], props=['C14'])
    C.pred('anc', {'leaf': LF, 'k': INT}, 'ite(k < len(leaf.left_nodes), leaf.left_nodes[k], leaf.right_nodes[k - len(leaf.left_nodes)])', ret=INT, opaque=True)
    C.pred('nanc', {'leaf': LF}, 'len(leaf.left_nodes) + len(leaf.right_nodes)', ret=INT)
    TREE = {'leaf': LF, 'nodes': NODES, 'u': UD}
    AK = 'anc(leaf, k)'
    US = lambda k: f'uside(u[anc(leaf, {k})], nodes[anc(leaf, {k})].candidate_splits, sol, G, anc(leaf, {k}) in leaf.left_nodes, len(nodes[anc(leaf, {k})].candidate_splits))'
    STEP = US('k')
    C.pred('step', dict(TREE, G=SOL, sol=SOL, k=INT), STEP, opaque=True, ret=INT)
    US = lambda k: f'step(leaf, nodes, u, G, sol, {k})'
    C.rec('ways', dict(TREE, G=SOL, sol=SOL), 'k', US('k'))
    USEL = f'usel(u[{AK}], nodes[{AK}].candidate_splits, sol, len(nodes[{AK}].candidate_splits))'
    C.pred('chosen', dict(TREE, sol=SOL, k=INT), USEL, opaque=True, ret=INT)
    C.pred('ones_', dict(TREE, n=INT, sol=SOL), 'all(chosen(leaf, nodes, u, sol, k) == 1 for k in range(n))', opaque=True)
    # the indicator v is one exactly if every chosen split sends the row towards the leaf
    C.pred('comes', dict(TREE, G=SOL, v=INT, sol=SOL), f'iff(sol[v], all({US("k")} >= 1 for k in range(nanc(leaf))))', opaque=True)
    C.lemma('ways_le', dict(TREE, G=SOL, sol=SOL, n=INT), ['n >= 0', f'all({US("k")} <= 1 for k in range(n))'], ['ways(leaf, nodes, u, G, sol, n) <= n', f'iff(ways(leaf, nodes, u, G, sol, n) == n, all({US("k")} >= 1 for k in range(n)))'],
            induct='n', uses=['ways_le(leaf, nodes, u, G, sol, n - 1)'], props=['C14'])
    C.lemma('step_le', dict(TREE, G=SOL, sol=SOL, k=INT), ['ones_(leaf, nodes, u, nanc(leaf), sol)', '0 <= k', 'k < nanc(leaf)', f'len(nodes[{AK}].candidate_splits) >= 0'], [f'0 <= {US("k")}', f'{US("k")} <= 1'],
            asserts=[f'use uside_le(u[{AK}], nodes[{AK}].candidate_splits, sol, G, {AK} in leaf.left_nodes, len(nodes[{AK}].candidate_splits))', f'{US("k")} == ' + STEP,
                     f'chosen(leaf, nodes, u, sol, k) == {USEL}'], props=['C14'])
    C.lemma('row_means', dict(TREE, G=SOL, v=INT, sol=SOL), ['nanc(leaf) > 0', 'ones_(leaf, nodes, u, nanc(leaf), sol)', f'all(len(nodes[{AK}].candidate_splits) >= 0 for k in range(nanc(leaf)))'],
            [f'iff(all(ite(sol[v], 1, 0) <= {US("k")} for k in range(nanc(leaf))) and ways(leaf, nodes, u, G, sol, nanc(leaf)) - ite(sol[v], 1, 0) <= nanc(leaf) - 1, comes(leaf, nodes, u, G, v, sol))'],
            asserts=['use all(step_le(leaf, nodes, u, G, sol, k) for k in ints())', 'use ways_le(leaf, nodes, u, G, sol, nanc(leaf))'], props=['C14'])
    # ---- the sub-problem's input
    C.pred('tp_in', {'m': None}, """m.leaf_.id == m.leaf_id_ and m.tree_depth_ == nanc(m.leaf_) and nanc(m.leaf_) > 0 and nanc(m.leaf_) < INF()
        and all(m.nodes_[n].id == n for n in range(len(m.nodes_))) and all(0 <= anc(m.leaf_, k) and anc(m.leaf_, k) < len(m.nodes_) for k in range(nanc(m.leaf_)))
        and all(anc(m.leaf_, k) != anc(m.leaf_, q) for k in range(nanc(m.leaf_)) for q in range(k))
        and all(m.nodes_[n].candidate_splits[a] != m.nodes_[n].candidate_splits[b] for n in range(len(m.nodes_)) for a in range(len(m.nodes_[n].candidate_splits)) for b in range(a))
        and all(0 <= m.nodes_[n].candidate_splits[a] and m.nodes_[n].candidate_splits[a] < len(m.splits_) for n in range(len(m.nodes_)) for a in range(len(m.nodes_[n].candidate_splits)))""")
    C.pred('tp_data_', {'m': None, 'X': MAT, 'y': LI}, """all(0 <= m.splits_[s].feature and m.splits_[s].feature < X.shape[1] for s in range(len(m.splits_)))
        and len(m.targets_) > 0 and all(m.targets_[i] == i for i in range(len(m.targets_))) and len(y) == len(X) and all(0 <= y[r] and y[r] < len(m.targets_) for r in range(len(y)))
        and (is_none(m.data_rows) or len(the(m.data_rows)) == len(X))""")
    C.pred('tp_data', {'m': None}, 'tp_data_(m, m.X_, m.y_)')
    # the step with a fixed target counts rows, not weights (known finding C14 old-weights): specified for rows of weight 1
    C.pred('tp_data_old', {'m': None, 'X': MAT, 'y': LI}, """all(0 <= m.splits_[s].feature and m.splits_[s].feature < X.shape[1] for s in range(len(m.splits_))) and len(y) == len(X)
        and (is_none(m.data_rows) or (len(the(m.data_rows)) == len(X) and all(the(m.data_rows)[r].weight == 1 for r in range(len(X)))))""")
    C.pred('tp_duals', {'m': None, 'X': MAT, 'row_duals': LIST(REAL), 'ns_duals': DL}, '''len(row_duals) == len(X) and m.leaf_id_ in ns_duals and all(anc(m.leaf_, k) in ns_duals[m.leaf_id_] for k in range(nanc(m.leaf_)))
        and all(m.nodes_[anc(m.leaf_, k)].candidate_splits[b] in ns_duals[m.leaf_id_][anc(m.leaf_, k)] for k in range(nanc(m.leaf_)) for b in range(len(m.nodes_[anc(m.leaf_, k)].candidate_splits)))''')
    C.pred('gone', {'m': None, 'r': INT}, 'not is_none(m.data_rows) and the(m.data_rows)[r].removed_from_sp')
    C.pred('heavy', {'m': None, 'r': INT}, 'ite(is_none(m.data_rows), 1, the(m.data_rows)[r].weight)', ret=REAL)
    C.pred('ukey', {'m': None, 'n': INT, 's': INT}, 'n in m.u_vars_ and s in m.u_vars_[n]')

    C.pred('lefts', {'x': LIST(REAL), 'splits': SP}, 'fun(lambda s: x[splits[s].feature] <= splits[s].threshold)', opaque=True, ret=SOL)
    C.rec('wsel', {'w': LIST(OPT(INT)), 'sol': SOL}, 'k', 'ite(sol[the(w[k])], 1, 0)')
    CFS = {'coef': FMAP(FMAP(REAL)), 'clb': FMAP(REAL), 'cub': FMAP(REAL)}
    C.lemma('mfeas_same', dict(CFS, coef0=CFS['coef'], clb0=CFS['clb'], cub0=CFS['cub'], n=INT, sol=SOL), ['all(same(coef[c], coef0[c]) and clb[c] == clb0[c] and cub[c] == cub0[c] for c in range(n))'],
            ['iff(mfeas(coef, clb, cub, n, sol), mfeas(coef0, clb0, cub0, n, sol))'], props=['C14'])
    C.lemma('mfeas_more', dict(CFS, n=INT, n2=INT, sol=SOL), ['0 <= n', 'n <= n2'], ['iff(mfeas(coef, clb, cub, n2, sol), mfeas(coef, clb, cub, n, sol) and all(pat(coef[c], mrow(coef[c], clb[c], cub[c], sol)) for c in range(n, n2)))'], props=['C14'])
    C.lemma('wsel_same', {'w': LIST(OPT(INT)), 'w0': LIST(OPT(INT)), 'sol': SOL, 'k': INT}, ['k >= 0', 'all(same(w[q], w0[q]) for q in range(k))'], ['wsel(w, sol, k) == wsel(w0, sol, k)'], induct='k', uses=['wsel_same(w, w0, sol, k - 1)'], props=['C14'])

    C.formulations = {}
    for CN, OLD in (('DTreeSubProblem', False), ('DTreeSubProblemOld', True)):
        C.formulations[CN] = formulate(C, CN, OLD)


def formulate(C, CN, OLD):
    """The contracts of one MIP pricing step; OLD is the one with a fixed target: no class variables, no correct-classification variables"""
    P, SP, LF, NODES, ROWS, LI, SOL = REF('Path'), LIST(REF('Split')), REF('Leaf'), LIST(REF('Node')), OPT(LIST(REF('Row'))), LIST(INT), FMAP(BOOL)
    UD, DL = DICT(INT, DICT(INT, INT)), DICT(INT, DICT(INT, DICT(INT, REAL)))
    def program(cls, sv):
        """The program of a pricing step, S being the solver's (model's) variables"""
        S = f'm.{sv}'
        VAR = lambda v, a, b: f'0 <= {v} and {v} < {S}.nvars and {S}.vk0[{v}] == {a} and {S}.vk1[{v}] == {b}'
        FAM = lambda f, kind: lambda i: f'not is_none(m.{f}[{i}]) and {VAR(f"the(m.{f}[{i}])", i, kind)}'
        z, y, yc, w = (FAM(f, -k - 1) for k, f in enumerate(('z_vars_', 'y_vars_', 'yc_vars_', 'w_vars_')))
        d = {}
        ROWV = lambda fam, f, n: f'all(ite(gone(m, r), is_none(m.{f}[r]), {fam("r")}) for r in range({n}))'
        if OLD:
            d['zy'] = lambda n: f'len(m.y_vars_) == len(m.X_) and {ROWV(y, "y_vars_", n)}'
        else:
            d['zy'] = lambda n: f'len(m.z_vars_) == len(m.X_) and len(m.y_vars_) == len(m.X_) and {ROWV(z, "z_vars_", n)} and {ROWV(y, "y_vars_", n)}'
        d['yc'] = lambda n: f'all({yc("k")} for k in range({n}))'
        d['w'] = lambda n: f'all({w("i")} for i in range({n}))'
        d['u'] = f'all(implies(ukey(m, n, s), 0 <= n and {VAR("m.u_vars_[n][s]", "n", "s")}) for n in ints() for s in ints())'
        d['ukeys'] = lambda k: f"""all(iff(n in m.u_vars_, any(anc(m.leaf_, a) == n for a in range({k}))) for n in ints())
            and all(implies(n in m.u_vars_, iff(s in m.u_vars_[n], has_cand(m.nodes_[n], s))) for n in ints() for s in ints())"""
        K0, K1 = f'{S}.vk0[v]', f'{S}.vk1[v]'
        def isv(kind, f, n, more='True'):
            return f'({K1} == {kind} and 0 <= {K0} and {K0} < {n} and {more} and not is_none(m.{f}[{K0}]) and the(m.{f}[{K0}]) == v)'
        d['var'] = isv(-1, 'z_vars_', 'len(m.X_)') + ' or ' + isv(-2, 'y_vars_', 'len(m.X_)') + ' or ' + isv(-3, 'yc_vars_', 'len(m.yc_vars_)') + ' or ' + isv(-4, 'w_vars_', 'len(m.w_vars_)') + \
            f' or ({K1} >= 0 and ukey(m, {K0}, {K1}) and m.u_vars_[{K0}][{K1}] == v)'
        if OLD:
            p = d['var'].split(' or ')
            d['var'] = ' or '.join(['False', p[1], p[2], 'False', p[4]])
        d['bool'] = f'all({S}.vlb[v] == 0 and {S}.vub[v] == 1 and {S}.vint[v] for v in range({S}.nvars))'
        return d
    D = program('DTreeSubProblem', 'solver_')
    me = lambda x: x.replace('m.', 'self.').replace('(m,', '(self,')
    T = 'self.leaf_, self.nodes_, self.u_vars_'
    DATA = 'tp_data_old(self, {})' if OLD else 'tp_data_(self, {})'
    new = lambda *xs: [] if OLD else list(xs)
    FIELDS = lambda fs: ['self.' + f for f in fs.split() if not (OLD and f in ('z_vars_', 'w_vars_'))]
    G = 'lefts(self.X_[{r}], self.splits_)'
    N = 'nanc(self.leaf_)'
    ONES = f'ones_({T}, {{k}}, sol)'
    COMES = f'comes({T}, {G}, the(self.y_vars_[{{r}}]), sol)'
    MF = 'mfeas(self.solver_.coef, self.solver_.clb, self.solver_.cub, {n}, sol)'
    NC = 'self.solver_.ncons'
    ALL = 'all({} for sol in sols())'
    ROWSF = lambda upto: f'all(implies(not gone(self, r), {COMES.format(r="r")}) for r in range({upto}))'
    WS = 'wsel(self.w_vars_, sol, {n})'
    ZR = lambda upto: f'all(implies(not gone(self, r), implies(sol[the(self.z_vars_[r])], sol[the(self.y_vars_[r])] and sol[the(self.w_vars_[self.y_[r]])])) for r in range({upto}))'
    BASE = f'{ONES.format(k=N)} and {ROWSF("len(self.X_)")}' + ('' if OLD else f' and {WS.format(n="len(self.w_vars_)")} == 1 and {ZR("len(self.X_)")}')
    SAMEROWS = lambda n, was='pre': f'all(same(self.solver_.coef[c], {was}(self.solver_.coef)[c]) and self.solver_.clb[c] == {was}(self.solver_.clb)[c] and self.solver_.cub[c] == {was}(self.solver_.cub)[c] for c in range({n}))'
    C0 = f'pre({NC}) - 1'
    UV = lambda n, s: f'self.u_vars_[{n}][{s}]'
    HERE = lambda c, k, val='0': f'all(implies(ukey(self, n, s) and not any(anc(self.leaf_, a) == n for a in range({k})), self.solver_.coef[{c}][{UV("n", "s")}] == {val}) for n in ints() for s in ints())'
    DOT = lambda c, val: f'all(dot(self.solver_.coef[{c}], sol) == {val} for sol in sols())'
    INTRO = ['self.leaf_.left_nodes', 'self.leaf_.right_nodes']
    LD = {'leaf_dual': REAL, 'row_duals': LIST(REAL), 'ns_duals': DL, 'cut_duals': LIST(REAL)}
    O = 'self.solver_.obj'
    OBJ_ZY = lambda n: [f'all(implies(not gone(self, r), {O}[the(self.z_vars_[r])] == heavy(self, r) and {O}[the(self.y_vars_[r])] == -row_duals[r]) for r in range({n}))']
    if OLD:
        OBJ_ZY = lambda n: [f'all(implies(not gone(self, r), {O}[the(self.y_vars_[r])] == ite(self.y_[r] == self.target_, heavy(self, r), 0) - row_duals[r]) for r in range({n}))']
    OBJ_C = lambda n: [f'all({O}[the(self.yc_vars_[k])] == -cut_duals[k] for k in range({n}))']
    OBJ_U = f'all(implies(ukey(self, n, s), {O}[{UV("n", "s")}] == -ns_duals[self.leaf_id_][n][s]) for n in ints() for s in ints())'
    USED = lambda sol_k: None
    CAND = 'self.nodes_[node_id].candidate_splits'
    DKEYS = ['self.leaf_id_ in ns_duals', 'all(nodes[k] in ns_duals[self.leaf_id_] for k in range(len(nodes)))', 'all(self.nodes_[nodes[k]].candidate_splits[b] in ns_duals[self.leaf_id_][nodes[k]] for k in range(len(nodes)) for b in range(len(self.nodes_[nodes[k]].candidate_splits)))']
    DKEY = ['node.id == node_id', 'node_id in ns_duals[self.leaf_id_]', f'all({CAND}[b] in ns_duals[self.leaf_id_][node_id] for b in range(len({CAND})))']
    UNEW = lambda k: f'all(iff(s in self.u_vars_[node_id], any({CAND}[b] == s for b in range({k}))) for s in ints())'
    C.fn(f'{CN}.row_satisfies_split', params={'row': INT, 'split': REF('Split')}, result=BOOL, requires=['0 <= row and row < len(self.X_)', '0 <= split.feature and split.feature < self.X_.shape[1]'],
         ensures=['result == (self.X_[row][split.feature] <= split.threshold)'], props=['C14'])
    NAMED = lambda *ks: f'all({" or ".join(me(D["var"]).split(" or ")[k] for k in ks)} for v in range(self.solver_.nvars))'
    ZY = [me(D['zy']('len(self.X_)'))] + OBJ_ZY('len(self.X_)')
    ZYC = ZY + [me(D['yc']('len(self.yc_vars_)')), 'len(self.yc_vars_) == num_cuts'] + OBJ_C('num_cuts')
    NODES_IS = 'len(nodes) == nanc(self.leaf_) and all(nodes[k] == anc(self.leaf_, k) for k in range(len(nodes)))'
    UREST = f'''all(iff(n in self.u_vars_, any(anc(self.leaf_, a) == n for a in range(_k0 + 1))) for n in ints())
        and all(implies(n in self.u_vars_ and n != node_id, iff(s in self.u_vars_[n], has_cand(self.nodes_[n], s))) for n in ints() for s in ints())'''
    GR = G.format(r='_k0')
    KEEPB = lambda c: f'self.solver_.clb[{c}] == pre(self.solver_.clb)[{c}] and self.solver_.cub[{c}] == pre(self.solver_.cub)[{c}]'
    # no coefficient yet on what is selected at ancestor k and later
    UNTOUCHED = lambda c, k: f'all(self.solver_.coef[{c}][{UV("anc(self.leaf_, a)", "self.nodes_[anc(self.leaf_, a)].candidate_splits[b]")}] == 0 for a in range({k}, {N}) for b in range(len(self.nodes_[anc(self.leaf_, a)].candidate_splits)))'
    UAB = UV("anc(self.leaf_, a)", "self.nodes_[anc(self.leaf_, a)].candidate_splits[b]")
    UFACT = f'all(0 <= {UAB} and {UAB} < self.solver_.nvars and self.solver_.vk0[{UAB}] == anc(self.leaf_, a) and self.solver_.vk1[{UAB}] == self.nodes_[anc(self.leaf_, a)].candidate_splits[b] for a in range({N}) for b in range(len(self.nodes_[anc(self.leaf_, a)].candidate_splits)))'
    RN = f'{NC} - 1'
    YL = 'pre(y_lb_cons)'
    SIDE = lambda left: {'inv': [f'all(implies(c != y_lb_cons and c != rn_cons, same(self.solver_.coef[c], pre(self.solver_.coef)[c])) for c in ints())',
        f'all(dot(self.solver_.coef[y_lb_cons], sol) == dot(pre(self.solver_.coef)[y_lb_cons], sol) + uside(self.u_vars_[node_id], {CAND}, sol, {GR}, {left}, _k) for sol in sols())',
        f'all(dot(self.solver_.coef[rn_cons], sol) == dot(pre(self.solver_.coef)[rn_cons], sol) - uside(self.u_vars_[node_id], {CAND}, sol, {GR}, {left}, _k) for sol in sols())',
        f'all(self.solver_.coef[rn_cons][self.u_vars_[node_id][{CAND}[b]]] == 0 and self.solver_.coef[y_lb_cons][self.u_vars_[node_id][{CAND}[b]]] == 0 for b in range(_k, len({CAND})))', UNTOUCHED('y_lb_cons', '_k1 + 1')]}
    YI = 'ite(sol[the(self.y_vars_[_k0])], 1, 0)'
    SVS = 'self.solver_.coef, self.solver_.clb, self.solver_.cub'
    # the rows added since the top of the iteration
    NEWROWS = lambda was='top': [f'apply all(mfeas_same({SVS}, {was}(self.solver_.coef), {was}(self.solver_.clb), {was}(self.solver_.cub), {was}({NC}), sol) for sol in sols())', f'apply all(mfeas_more({SVS}, {was}({NC}), {NC}, sol) for sol in sols())']
    CM = f'self.solver_.coef[c], self.solver_.clb[c], self.solver_.cub[c], sol'
    TN = f'top({NC})'
    STEPS = f'all({YI} <= step({T}, {GR}, sol, q) for q in range({N}))'
    ROWHINT = NEWROWS() + [f'implies(not gone(self, _k), {NC} == {TN} + 1 + {N})',
        f'implies(not gone(self, _k), {ALL.format(f"iff(mrow(self.solver_.coef[{TN}], self.solver_.clb[{TN}], self.solver_.cub[{TN}], sol), ways({T}, {GR}, sol, {N}) - {YI} <= {N} - 1)")})',
        f'implies(not gone(self, _k), all(iff(mrow({CM}), {YI} <= step({T}, {GR}, sol, c - {TN} - 1)) for c in range({TN} + 1, {NC}) for sol in sols()))',
        f'implies(not gone(self, _k), all(iff(mrow({CM.replace("[c]", f"[{TN} + 1 + q]")}), {YI} <= step({T}, {GR}, sol, q)) for q in range({N}) for sol in sols()))',
        f'implies(not gone(self, _k), {ALL.format(f"iff(all(pat(self.solver_.coef[c], mrow({CM})) for c in range({TN} + 1, {NC})), {STEPS})")})',
        f'use all(row_means({T}, {GR}, the(self.y_vars_[_k0]), sol) for sol in sols())']
    FIRST = ['self.solver_.nvars >= 0'] + [me(D['zy']('len(self.X_)')), me(D['yc']('len(self.yc_vars_)')), 'len(self.yc_vars_) == len(cut_duals)']
    LAST = {
                10: {'inv': ZYC + [me(D['u']), me(D['bool']), NAMED(0, 1, 2, 3, 4), OBJ_U, 'len(self.w_vars_) == len(self.targets_)', me(D['w']('_k')), f'all({O}[the(self.w_vars_[q])] == 0 for q in range(_k))', 'all(is_none(self.w_vars_[q]) for q in range(_k, len(self.w_vars_)))',
                             SAMEROWS(f'{NC} - 1'), DOT(f'{NC} - 1', WS.format(n='_k'))],
                     'hint': ['mark self.solver_ self.w_vars_[_k] : _k ; -4 ; 0', 'apply all(wsel_same(self.w_vars_, top(self.w_vars_), sol, _k) for sol in sols())']},
                11: {'entry': [ALL.format(f'iff({MF.format(n=NC)}, {MF.format(n=NC + " - 1")} and mrow(self.solver_.coef[{NC} - 1], self.solver_.clb[{NC} - 1], self.solver_.cub[{NC} - 1], sol))')],
                     'inv': [ALL.format(f'iff({MF.format(n=NC)}, pre({MF.format(n=NC)}) and {ZR("_k")})')],
                     'hint': NEWROWS() + [f'implies(not gone(self, _k), {NC} == {TN} + 2)'] + [
                         f'implies(not gone(self, _k), {ALL.format(f"dot(self.solver_.coef[{TN} + {j}], sol) == ite(sol[the(self.z_vars_[_k])], 1, 0) - ite(sol[the({o})], 1, 0)")})' for j, o in ((0, 'self.y_vars_[_k]'), (1, 'self.w_vars_[self.y_[_k]]'))] + [
                         f'implies(not gone(self, _k), {ALL.format(f"iff(mrow(self.solver_.coef[{TN} + {j}], self.solver_.clb[{TN} + {j}], self.solver_.cub[{TN} + {j}], sol), implies(sol[the(self.z_vars_[_k])], sol[the({o})]))")})' for j, o in ((0, 'self.y_vars_[_k]'), (1, 'self.w_vars_[self.y_[_k]]'))] + [
                         f'implies(not gone(self, _k), {ALL.format(f"iff(all(pat(self.solver_.coef[c], mrow({CM})) for c in range({TN}, {NC})), mrow(self.solver_.coef[{TN}], self.solver_.clb[{TN}], self.solver_.cub[{TN}], sol) and mrow(self.solver_.coef[{TN} + 1], self.solver_.clb[{TN} + 1], self.solver_.cub[{TN} + 1], sol))")})']}}
    C.fn(f'{CN}.create_submip', params=LD, requires=['not self.generated_', 'self.solver_.nvars == 0', 'self.solver_.ncons == 0', 'tp_in(self)', DATA.format('self.X_, self.y_'), 'tp_duals(self, self.X_, row_duals, ns_duals)'],
         modifies=FIELDS('z_vars_ y_vars_ yc_vars_ u_vars_ w_vars_ solver_ generated_'),
         ensures=['self.generated_', me(D['zy']('len(self.X_)')), me(D['yc']('len(self.yc_vars_)')), 'len(self.yc_vars_) == len(cut_duals)', *new(me(D['w']('len(self.w_vars_)')), 'len(self.w_vars_) == len(self.targets_)'),
                  me(D['u']), me(D['ukeys'](N)), me(D['bool']), f'all({me(D["var"])} for v in range(self.solver_.nvars))'] + OBJ_ZY('len(self.X_)') + OBJ_C('len(cut_duals)') + [OBJ_U,
                  *new(f'all({O}[the(self.w_vars_[i])] == 0 for i in range(len(self.w_vars_)))'), 'self.solver_.off == -leaf_dual', 'self.solver_.maxim',
                  ALL.format(f'iff({MF.format(n=NC)}, {BASE})')],
         loops={0: {'inv': [me(D['zy']('_k')), 'all(' + ('' if OLD else 'is_none(self.z_vars_[r]) and ') + 'is_none(self.y_vars_[r]) for r in range(_k, len(self.X_)))', me(D['bool']), NAMED(0, 1)] + OBJ_ZY('_k'),
                    'hint': new('mark self.solver_ self.z_vars_[_k] if not gone(self, _k) : _k ; -1 ; 0') + ['mark self.solver_ self.y_vars_[_k] if not gone(self, _k) : _k ; -2 ; 0']},
                1: {'inv': ZY + ['len(self.yc_vars_) == num_cuts', me(D['yc']('_k')), 'all(is_none(self.yc_vars_[k]) for k in range(_k, num_cuts))', me(D['bool']), NAMED(0, 1, 2)] + OBJ_C('_k'), 'hint': ['mark self.solver_ self.yc_vars_[_k] : _k ; -3 ; 0']},
                2: {'entry': [NODES_IS, *DKEYS], 'inv': ZYC + [me(D['u']), me(D['ukeys']('_k')), me(D['bool']), NAMED(0, 1, 2, 4), OBJ_U]},
                3: {'entry': [*DKEY], 'inv': ZYC + [me(D['u']), UNEW('_k'), UREST, me(D['bool']), NAMED(0, 1, 2, 4), OBJ_U], 'hint': ['mark self.solver_ self.u_vars_[node.id][split] : node.id ; split ; 0']},
                4: {'entry': [UFACT], 'inv': [ALL.format(f'iff({MF.format(n=NC)}, {ONES.format(k="_k")})')],
                    'hint': [SAMEROWS(f'top({NC})', 'top'), f'all(chosen({T}, sol, _k) == dot(self.solver_.coef[{NC} - 1], sol) for sol in sols())', ALL.format(f'iff({MF.format(n="top(" + NC + ")")}, top({MF.format(n=NC)}))')]},
                5: {'inv': [SAMEROWS(f'{NC} - 1'), DOT(f'{NC} - 1', f'usel(self.u_vars_[node_id], {CAND}, sol, _k)'), f'all(self.solver_.coef[{NC} - 1][self.u_vars_[node_id][{CAND}[b]]] == 0 for b in range(_k, len({CAND})))']},
                6: {'inv': [ALL.format(f'iff({MF.format(n=NC)}, {ONES.format(k=N)} and {ROWSF("_k")})')],
                    'hint': ROWHINT},
                7: {'inv': [f'{NC} == pre({NC}) + _k', SAMEROWS(C0), KEEPB(C0), DOT(C0, f'ways({T}, {GR}, sol, _k) - ite(sol[the(self.y_vars_[i])], 1, 0)'), UNTOUCHED(C0, '_k'),
                            f'all(self.solver_.clb[c] == -INF() and self.solver_.cub[c] == 0 for c in range(pre({NC}), {NC}))',
                            f'all(dot(self.solver_.coef[c], sol) == {YI} - step({T}, {GR}, sol, c - pre({NC})) for c in range(pre({NC}), {NC}) for sol in sols())'],
                    'hint': [f'all(step({T}, {GR}, sol, _k) == uside(self.u_vars_[node_id], {CAND}, sol, {GR}, node_id in self.leaf_.left_nodes, len({CAND})) for sol in sols())',
                             f'all(dot(self.solver_.coef[{NC} - 1], sol) == ite(sol[the(self.y_vars_[i])], 1, 0) - step({T}, {GR}, sol, _k) for sol in sols())']},
                8: SIDE('True'), 9: SIDE('False'),
                **({} if OLD else LAST)},
         props=['C14'])
    # ---- later calls
    NR, NY = 'len(self.X_)', 'len(self.yc_vars_)'
    BUILT = [me(D['zy'](NR)), me(D['yc'](NY)), *new(me(D['w']('len(self.w_vars_)')), 'len(self.w_vars_) == len(self.targets_)'), me(D['u']), me(D['ukeys'](N)), me(D['bool']), f'all({me(D["var"])} for v in range(self.solver_.nvars))',
             *new(f'all({O}[the(self.w_vars_[i])] == 0 for i in range(len(self.w_vars_)))')]
    SAMECON = f'{NC} == old({NC}) and same(self.solver_.clb, old(self.solver_.clb)) and same(self.solver_.cub, old(self.solver_.cub)) and all(same(self.solver_.coef[c], old(self.solver_.coef)[c]) for c in range({NC}))'
    LONGER = f'len(self.yc_vars_) == ite(old({NY}) <= len(cut_duals), len(cut_duals), old({NY})) and all(same(self.yc_vars_[k], old(self.yc_vars_)[k]) for k in range(old({NY})))'
    PRECON = SAMECON.replace('old(', 'pre(')
    W0 = 'True' if OLD else f'all({O}[the(self.w_vars_[i])] == 0 for i in range(len(self.w_vars_)))'
    KEPT = BUILT
    C.fn(f'{CN}.update_objective', params=LD, requires=['self.generated_', 'tp_in(self)', DATA.format('self.X_, self.y_'), 'tp_duals(self, self.X_, row_duals, ns_duals)', f'{NY} <= len(cut_duals)'] + BUILT,
         modifies=['self.yc_vars_', 'self.solver_'], ensures=BUILT + OBJ_ZY(NR) + OBJ_C('len(cut_duals)') + [OBJ_U, 'self.solver_.off == -leaf_dual', 'self.solver_.maxim', SAMECON, LONGER],
         loops={0: {'inv': OBJ_ZY('_k') + [W0]},
                1: {'inv': KEPT + OBJ_ZY(NR) + OBJ_C('_k') + [PRECON, LONGER.replace('old(', 'pre(').replace('len(cut_duals)', '_k')], 'hint': ['mark self.solver_ self.yc_vars_[_k] if _k >= existing_cuts : _k ; -3 ; 0']},
                2: {'entry': [NODES_IS, *DKEYS], 'inv': OBJ_ZY(NR) + OBJ_C('len(cut_duals)') + [W0, 'all(implies(ukey(self, n, s) and any(anc(self.leaf_, a) == n for a in range(_k)), '+O+'['+UV("n","s")+'] == -ns_duals[self.leaf_id_][n][s]) for n in ints() for s in ints())']},
                3: {'entry': [*DKEY], 'inv': OBJ_ZY(NR) + OBJ_C('len(cut_duals)') + [W0, 'all(implies(ukey(self, n, s) and any(anc(self.leaf_, a) == n for a in range(_k0)), '+O+'['+UV("n","s")+'] == -ns_duals[self.leaf_id_][n][s]) for n in ints() for s in ints())',
                    f'all({O}[{UV("node_id", CAND + "[b]")}] == -ns_duals[self.leaf_id_][node_id][{CAND}[b]] for b in range(_k))']}},
         props=['C14'])
    CG, CY = 'elems(cut_rows[{r}])', 'self.yc_vars_[{r} + self.cut_rows_starting_index]'
    def arrows(g, yv, skip, upper):
        """Loop contracts of one family of forced indicators: `g` the splits sending row _k0 left, `yv` its indicator, `skip` whether it has none"""
        yi = f'ite(sol[the({yv})], 1, 0)'
        side = lambda left: {'inv': [x.replace(GR, g) for x in SIDE(left)['inv']]}
        if_ = lambda x: f'implies(not ({skip}), {x})' if skip else x
        tn = TN
        steps = f'all({yi} <= step({T}, {g}, sol, q) for q in range({N}))'
        at = lambda x: x.replace('_k0', '_k')
        hint = NEWROWS() + [if_(f'{NC} == {tn} + 1 + {N}'),
            if_(ALL.format(f"iff(mrow(self.solver_.coef[{tn}], self.solver_.clb[{tn}], self.solver_.cub[{tn}], sol), ways({T}, {at(g)}, sol, {N}) - {at(yi)} <= {N} - 1)")),
            if_(f'all(iff(mrow({CM}), {at(yi)} <= step({T}, {at(g)}, sol, c - {tn} - 1)) for c in range({tn} + 1, {NC}) for sol in sols())'),
            if_(f'all(iff(mrow({CM.replace("[c]", f"[{tn} + 1 + q]")}), {at(yi)} <= step({T}, {at(g)}, sol, q)) for q in range({N}) for sol in sols())'),
            if_(ALL.format(f"iff(all(pat(self.solver_.coef[c], mrow({CM})) for c in range({tn} + 1, {NC})), {at(steps)})")),
            f'use all(row_means({T}, {at(g)}, the({at(yv)}), sol) for sol in sols())']
        inner = {'inv': [f'{NC} == pre({NC}) + _k', SAMEROWS(C0), KEEPB(C0), DOT(C0, f'ways({T}, {g}, sol, _k) - {yi}'), UNTOUCHED(C0, '_k'),
                         f'all(self.solver_.clb[c] == -INF() and self.solver_.cub[c] == 0 for c in range(pre({NC}), {NC}))',
                         f'all(dot(self.solver_.coef[c], sol) == {yi} - step({T}, {g}, sol, c - pre({NC})) for c in range(pre({NC}), {NC}) for sol in sols())'],
                 'hint': [f'all(step({T}, {g}, sol, _k) == uside(self.u_vars_[node_id], {CAND}, sol, {g}, node_id in self.leaf_.left_nodes, len({CAND})) for sol in sols())',
                          f'all(dot(self.solver_.coef[{NC} - 1], sol) == {yi} - step({T}, {g}, sol, _k) for sol in sols())']}
        return hint, inner, side('True').copy(), side('False')
    hint, inner, left, right = arrows(CG.format(r='_k0'), CY.format(r='_k0'), None, N)
    for x in (left, right):
        x['inv'] = [i.replace('y_lb_cons', 'yc_lb_cons').replace('rn_cons', 'cn_cons') for i in x['inv']]
    CUTS = lambda n, start='self.cut_rows_starting_index': f'all(comes({T}, elems(cut_rows[q]), the(self.yc_vars_[q + {start}]), sol) for q in range({n}))'
    MFO = lambda was: f'mfeas({was}(self.solver_.coef), {was}(self.solver_.clb), {was}(self.solver_.cub), {was}({NC}), sol)'
    C.fn(f'{CN}.add_cut_rows', params={'cut_rows': LIST(LIST(BOOL))},
         requires=['self.generated_', 'tp_in(self)', 'all(len(cut_rows[q]) == len(self.splits_) for q in range(len(cut_rows)))', '0 <= self.cut_rows_starting_index', f'self.cut_rows_starting_index + len(cut_rows) <= {NY}',
                   ALL.format(f'implies({MF.format(n=NC)}, {ONES.format(k=N)})')] + BUILT,
         modifies=['self.solver_', 'self.cut_rows_starting_index'],
         ensures=[me(D['bool']), 'self.solver_.nvars == old(self.solver_.nvars)', 'same(self.solver_.obj, old(self.solver_.obj)) and self.solver_.off == old(self.solver_.off) and self.solver_.maxim == old(self.solver_.maxim)',
                  'same(self.solver_.vk0, old(self.solver_.vk0)) and same(self.solver_.vk1, old(self.solver_.vk1))',
                  'self.cut_rows_starting_index == old(self.cut_rows_starting_index) + len(cut_rows)',
                  ALL.format(f'iff({MF.format(n=NC)}, {MFO("old")} and {CUTS("len(cut_rows)", "old(self.cut_rows_starting_index)")})')],
         loops={0: {'entry': [NODES_IS, UFACT], 'inv': [ALL.format(f'iff({MF.format(n=NC)}, {MFO("pre")} and {CUTS("_k")})')], 'hint': hint}, 1: inner, 2: left, 3: right},
         props=['C14'])
    # ---- every call
    DC = dsp.DC
    NOW = lambda xs: [x.replace('leaf_dual', 'dual_costs[0][self.leaf_id_]').replace('row_duals', 'dual_costs[1]').replace('ns_duals', 'dual_costs[2]').replace('cut_duals', 'dual_costs[3]') for x in xs]
    ANDCUTS = CUTS('len(dual_costs[4])', 'old(self.cut_rows_starting_index)').replace('cut_rows[q]', 'dual_costs[4][q]')
    C.fn(f'{CN}.update_subproblem', params={'X': MAT, 'y': LI, 'dual_costs': DC}, captures=['y'],
         requires=['tp_in(self)', DATA.format('X, y'), 'tp_duals(self, X, dual_costs[1], dual_costs[2])', '0 <= self.leaf_id_ and self.leaf_id_ < len(dual_costs[0])', 'all(len(dual_costs[4][q]) == len(self.splits_) for q in range(len(dual_costs[4])))',
                   '0 <= self.cut_rows_starting_index', 'self.cut_rows_starting_index + len(dual_costs[4]) <= len(dual_costs[3])', 'implies(not self.generated_, self.solver_.nvars == 0 and self.solver_.ncons == 0)',
                   f'implies(self.generated_, same(self.X_, X) and same(self.y_, y) and {NY} <= len(dual_costs[3]))', 'implies(self.generated_, ' + ALL.format(f'implies({MF.format(n=NC)}, {ONES.format(k=N)})') + ')'] + [f'implies(self.generated_, {x})' for x in BUILT],
         modifies=FIELDS('X_ y_ z_vars_ y_vars_ yc_vars_ u_vars_ w_vars_ solver_ generated_ cut_rows_starting_index'),
         ensures=['self.generated_', 'same(self.X_, X)', 'same(self.y_, y)'] + BUILT + NOW(OBJ_ZY(NR) + OBJ_C('len(cut_duals)') + [OBJ_U, 'self.solver_.off == -leaf_dual']) + ['self.solver_.maxim', f'{NY} == len(dual_costs[3])',
                  'self.cut_rows_starting_index == old(self.cut_rows_starting_index) + len(dual_costs[4])',
                  f'implies(not old(self.generated_), {ALL.format(f"iff({MF.format(n=NC)}, {BASE} and {ANDCUTS})")})',
                  'implies(old(self.generated_), ' + ' and '.join(f'same(self.{f}, old(self.{f}))' for f in ('u_vars_', 'y_vars_') + (() if OLD else ('z_vars_', 'w_vars_'))) + f' and all(same(self.yc_vars_[k], old(self.yc_vars_)[k]) for k in range(old({NY}))))',
                  ALL.format(f'implies({MF.format(n=NC)}, {ONES.format(k=N)})'),
                  f'implies(old(self.generated_), {ALL.format(f"iff({MF.format(n=NC)}, {MFO("old")} and {ANDCUTS})")})'], props=['C14'])
    return locals()


def columns(C, CN, OLD, f):
    """The contract of one MIP pricing step's generate_columns; `f`: the names of its formulation (the lemmas are in contracts/gen.py)"""
    me, N, T, O, NC, NR, NY, MF, ALL, BASE, BUILT, NOW, OBJ_ZY, OBJ_C, OBJ_U, DATA, new, D = (f[k] for k in 'me N T O NC NR NY MF ALL BASE BUILT NOW OBJ_ZY OBJ_C OBJ_U DATA new D'.split())
    G, CAND, LI = f['G'], f['CAND'], LIST(INT)
    PT, VK = 'self.solver_.point', 'self.solver_.vk0, self.solver_.vk1'
    LD0 = 'dual_costs[0][self.leaf_id_]'
    AT = lambda x, p=PT: x.replace('sol[', p + '[').replace(', sol)', f', {p})').replace(', sol,', f', {p},')
    SIDED = f'all(comes({T}, self.sides[q], the(self.yc_vars_[q]), sol) for q in range({NY}))'
    VARS = ['y_vars_', 'yc_vars_'] if OLD else ['z_vars_', 'y_vars_', 'yc_vars_', 'w_vars_']
    FAM = lambda v, n=None: f'fam(self.{v}, {O}, {PT}, {n or f"len(self.{v})"})'
    XD = 'self.X_, self.y_, self.data_rows, self.splits_, self.leaf_'
    TG = lambda p: 'self.target_' if OLD else f'{p}.target'
    COST = lambda p, n=NR: f'pcost({XD}, {p}.node_ids, {p}.splits, {TG(p)}, {n})'
    PROW = lambda p: f'prow(self.X_, self.data_rows, self.splits_, self.leaf_, {p}.node_ids, {p}.splits, dual_costs[1], {NR})'
    PCUT = lambda p: f'pcut(self.leaf_, {p}.node_ids, {p}.splits, self.sides, dual_costs[3], {NY})'
    LINK = lambda p: f'linkdual(dual_costs[2], self.leaf_id_, {p}.node_ids, {p}.splits, len({p}.node_ids))'
    RED = lambda p: f'({p}.cost - {LD0} - {PROW(p)} - {PCUT(p)} - {LINK(p)})'
    FORM = lambda p: [f'isnew({p})', f'{p}.leaf_id == self.leaf_id_', f'{p}.target == self.target_' if OLD else f'0 <= {p}.target and {p}.target < len(self.targets_)',
                      f'len({p}.node_ids) == len({p}.splits)', f'all(isanc(self.leaf_, {p}.node_ids[q]) and has_cand(self.nodes_[{p}.node_ids[q]], {p}.splits[q]) for q in range(len({p}.node_ids)))',
                      f'all({p}.node_ids[q] < {p}.node_ids[k] for k in range(len({p}.node_ids)) for q in range(k))', f'all(any({p}.node_ids[q] == anc(self.leaf_, a) for q in range(len({p}.node_ids))) for a in range({N}))',
                      f'{p}.cost == {COST(p)}' if OLD else f'{p}.cost <= {COST(p)}', f'implies(self.solver_.status == 0, {p}.cost == {COST(p)})', f'{RED(p)} > 1e-6']
    NS, SS = 'path.node_ids', 'path.splits'
    WAY = f'self.leaf_, {NS}, {SS}'
    RA = f'{WAY}, self.nodes_, self.u_vars_, {PT}'
    G_R = G.format(r='r')
    SENDS = f'sends({WAY}, {G_R})'
    SEND = lambda r: f'sends({WAY}, {G.format(r=r)})'
    FIRST = [f'implies(self.solver_.status == 0 or self.solver_.status == 1, {x})' for x in (AT(MF.format(n=NC)), AT(BASE), AT(SIDED))]
    VKS = ['self.' + v for v in VARS]
    VALUE = f'value_{"old" if OLD else "of"}({VK}, {T}, {", ".join(VKS)}, {O}, {PT}, len(self.nodes_))'
    NSUM = lambda n: f'nsum({T}, {O}, {PT}, {n})'
    KEEP = ['isnew(path)', 'path.leaf_id == pre(path.leaf_id)', 'same(path.node_ids, pre(path.node_ids))', 'same(path.splits, pre(path.splits))']
    WALK = [f'isnew(path) and path.leaf_id == self.leaf_id_ and path.cost == 0 and len({NS}) == len({SS})', f'all(isanc(self.leaf_, {NS}[q]) and {NS}[q] < _k and has_cand(self.nodes_[{NS}[q]], {SS}[q]) and {PT}[self.u_vars_[{NS}[q]][{SS}[q]]] for q in range(len({NS})))',
            f'all({NS}[q] < {NS}[k] for k in range(len({NS})) for q in range(k))', f'all(implies(anc(self.leaf_, a) < _k, any({NS}[q] == anc(self.leaf_, a) for q in range(len({NS})))) for a in range({N}))',
            f'{NSUM("_k")} == -linkdual(dual_costs[2], self.leaf_id_, {NS}, {SS}, len({NS}))']
    NODES_IS = f'len(nodes) == {N} and all(nodes[k] == anc(self.leaf_, k) for k in range(len(nodes)))'
    CD = CAND.replace('node_id', 'node.id')
    CK = CAND.replace('node_id', '_k')
    SPLITS = {'entry': ['node.id == _k0', 'isanc(self.leaf_, _k0)', f'all(has_cand(self.nodes_[_k0], {CK.replace("_k", "_k0")}[b]) for b in range(len({CK.replace("_k", "_k0")})))'],
              'inv': [f'all(not {PT}[self.u_vars_[node.id][{CD}[b]]] for b in range(_k))', 'isnew(path)', 'path.leaf_id == pre(path.leaf_id)', 'path.cost == pre(path.cost)', 'same(path.node_ids, pre(path.node_ids))', 'same(path.splits, pre(path.splits))']}
    PUT = f'put({PT}, the(self.z_vars_[r]), True)'
    COME = lambda side, var, sol=PT: f'comes({T}, {side}, the({var}), {sol})'
    FREE = 'all(implies(not gone(self, r), all(self.u_vars_[anc(self.leaf_, k)][self.nodes_[anc(self.leaf_, k)].candidate_splits[b]] != the(self.z_vars_[r]) for k in range(%s) for b in range(len(self.nodes_[anc(self.leaf_, k)].candidate_splits)))) for r in range(%s))' % (N, NR)
    OPT_ = [FREE, f'family r : {PUT}'] + [f'all(implies(not gone(self, r), {x}) for r in range({NR}))' for x in ()]
    PUTS = [FREE, f'family r : {PUT}', f'use all(ones_put({T}, {PT}, the(self.z_vars_[r])) for r in ints())', f'use all(wsel_put(self.w_vars_, {PT}, the(self.z_vars_[r]), len(self.w_vars_)) for r in ints())',
            f'use all(comes_put({T}, {PT}, {G.format(r="q")}, the(self.z_vars_[r]), the(self.y_vars_[q])) for q in ints() for r in ints())', f'use all(comes_put({T}, {PT}, self.sides[q], the(self.z_vars_[r]), the(self.yc_vars_[q])) for q in ints() for r in ints())',
            f'all(implies(not gone(self, r) and {PT}[the(self.y_vars_[r])] and {PT}[the(self.w_vars_[self.y_[r]])], {AT(MF.format(n=NC), PUT)}) for r in range({NR}))',
            f'implies(self.solver_.status == 0, all(implies(not gone(self, r) and heavy(self, r) > 0 and {PT}[the(self.y_vars_[r])] and {PT}[the(self.w_vars_[self.y_[r]])], {PT}[the(self.z_vars_[r])]) for r in range({NR})))']
    READ = [f'strides({RA})', f'use all(strides_is({RA}, {G_R}, the(self.y_vars_[r])) for r in ints())', f'all(implies(not gone(self, r), iff({PT}[the(self.y_vars_[r])], {SENDS})) for r in range({NR}))',
            f'use all(strides_is({RA}, self.sides[q], the(self.yc_vars_[q])) for q in ints())', f'all(iff({PT}[the(self.yc_vars_[q])], sends({WAY}, self.sides[q])) for q in range({NY}))',
            f'use cuts_are({WAY}, self.yc_vars_, {O}, {PT}, self.sides, dual_costs[3], {NY})', f'{FAM("yc_vars_")} == -{PCUT("path")}']
    if OLD:
        READ += [f'use both_are({XD}, {NS}, {SS}, self.y_vars_, {O}, {PT}, self.target_, dual_costs[1], {NR})', f'{FAM("y_vars_")} == {COST("path")} - {PROW("path")}']
    else:
        READ += [f'use rows_are(self.X_, self.data_rows, self.splits_, {WAY}, self.y_vars_, {O}, {PT}, dual_costs[1], {NR})', f'{FAM("y_vars_")} == -{PROW("path")}',
                 f'use all(wsel_one(self.w_vars_, {PT}, len(self.w_vars_), i, path.target) for i in ints())', f'all(iff({PT}[the(self.w_vars_[i])], i == path.target) for i in range(len(self.w_vars_)))',
                 f'use fam_none(self.w_vars_, {O}, {PT}, len(self.w_vars_))', f'use cost_le({XD}, {NS}, {SS}, self.z_vars_, {O}, {PT}, path.target, {NR})', f'{FAM("z_vars_")} <= {COST("path")}'] + PUTS + [
                 f'use cost_best({XD}, {NS}, {SS}, self.z_vars_, {O}, {PT}, path.target, {NR})', f'implies(self.solver_.status == 0, {FAM("z_vars_")} == {COST("path")})']
    READ += [f'use {VALUE}', f'self.solver_.objval == {" + ".join(FAM(v) for v in VARS)} + {NSUM("len(self.nodes_)")} - {LD0}']
    C.fn(f'{CN}.generate_columns', params={'X': MAT, 'y': LI, 'dual_costs': dsp.DC, 'params': STR}, result=LIST(REF('Path')), allocs=True, zero_one=True,
         requires=['self.generated_', 'tp_in(self)', DATA.format('self.X_, self.y_'), 'same(self.X_, X)', 'same(self.y_, y)', 'tp_duals(self, self.X_, dual_costs[1], dual_costs[2])', '0 <= self.leaf_id_ and self.leaf_id_ < len(dual_costs[0])', f'{NY} == len(dual_costs[3])'] + BUILT +
                  NOW(OBJ_ZY(NR) + OBJ_C(f'len(cut_duals)') + [OBJ_U, 'self.solver_.off == -leaf_dual']) + ['self.solver_.maxim', *new('is_none(self.data_rows) or all(the(self.data_rows)[r].weight >= 0 for r in range(len(X)))'),
                  ALL.format(f'iff({MF.format(n=NC)}, {BASE} and {SIDED})')],
         modifies=['self.solver_'],
         ensures=['len(result) <= 1'] + [f'implies(len(result) > 0, {x})' for x in FORM('result[0]')] + [
             f'implies(self.solver_.status == 0 and len(result) == 0, {ALL.format(f"implies({MF.format(n=NC)}, self.solver_.off + dot({O}, sol) <= 1e-6)")})'],
         loops={0: {'entry': [NODES_IS] + FIRST, 'inv': WALK,
                    'hint': ['node.id == _k', 'iff(node.id in nodes, isanc(self.leaf_, _k))', f'implies(isanc(self.leaf_, _k), any(anc(self.leaf_, a) == _k and chosen({T}, {PT}, a) == 1 for a in range({N})))',
                             f'implies(isanc(self.leaf_, _k), usel(self.u_vars_[_k], {CK}, {PT}, len({CK})) == 1)', f'use usel_none(self.u_vars_[_k], {CK}, {PT}, len({CK}))', f'use all(ulink_is(self.u_vars_[_k], {CK}, {O}, {PT}, len({CK}), b) for b in ints())',
                             f'use link_same(dual_costs[2], self.leaf_id_, {NS}, {SS}, top({NS}), top({SS}), top(len({NS})))']},
                1: SPLITS, **({} if OLD else {2: {'entry': [f'use wsel_none(self.w_vars_, {PT}, len(self.w_vars_))'], 'inv': [f'all(not {PT}[the(self.w_vars_[i])] for i in range(_k))'] + KEEP + ['path.cost == 0']}}),
                (2 if OLD else 3): {'entry': READ, 'inv': KEEP + ['path.target == pre(path.target)', f'path.cost == {COST("path", "_k") if OLD else FAM("z_vars_", "_k")}']}},
         props=['C15'])

"""Assumed contracts of what the repository calls but does not define:
Python builtins, numpy, random, OR-Tools (MPSolver and CP-SAT), sklearn.
Every entry used in a run is reported in the evidence as an assumption.
"""
import ast
import z3
from .vals import *
from . import specs

MPF = dict(nvars=INT, ncons=INT, vlb=FMAP(REAL), vub=FMAP(REAL), vint=FMAP(BOOL), coef=FMAP(FMAP(REAL)),
           clb=FMAP(REAL), cub=FMAP(REAL), obj=FMAP(REAL), off=REAL, maxim=BOOL, sol=FMAP(REAL), dual=FMAP(REAL),
           objval=REAL, status=INT, solved=BOOL, solves=INT, point=FMAP(BOOL),
           csite=FMAP(INT), ck0=FMAP(INT), ck1=FMAP(INT), ck2=FMAP(INT),
           vsite=FMAP(INT), vk0=FMAP(INT), vk1=FMAP(INT), vk2=FMAP(INT))
CPF = dict(nvars=INT, ncons=INT, kind=FMAP(INT), lin=FMAP(FMAP(REAL)), haslo=FMAP(BOOL), lo=FMAP(REAL),
           hashi=FMAP(BOOL), hi=FMAP(REAL), lits=FMAP(LIST(INT)), hasenf=FMAP(BOOL), enf=FMAP(INT),
           obj=FMAP(REAL), off=REAL, maxim=BOOL, hasobj=BOOL,
           csite=FMAP(INT), ck0=FMAP(INT), ck1=FMAP(INT), ck2=FMAP(INT),
           vsite=FMAP(INT), vk0=FMAP(INT), vk1=FMAP(INT), vk2=FMAP(INT))
PARF = dict(num_search_workers=INT, max_time_in_seconds=REAL, min_num_lns_workers=INT, cp_model_probing_level=INT,
            max_presolve_iterations=INT)
CPS = dict(parameters=REC('SatParameters'), status=INT, wall=REAL, objval=REAL, bound=REAL, solves=INT)

CROW = ('kind', 'lits', 'hasenf', 'enf', 'lin', 'haslo', 'lo', 'hashi', 'hi')      # one constraint of a CP model

INF = z3.Real('INFINITY')
INF_FACT = INF > 10 ** 30

CONSTS = {'pywraplp.Solver.OPTIMAL': 0, 'pywraplp.Solver.FEASIBLE': 1, 'pywraplp.Solver.INFEASIBLE': 2,
          'cp_model.OPTIMAL': 4, 'cp_model.FEASIBLE': 2, 'cp_model.INFEASIBLE': 3, 'cp_model.UNKNOWN': 0,
          'pywraplp.MPSolverParameters.LP_ALGORITHM': 1000, 'pywraplp.MPSolverParameters.DUAL': 10,
          'pywraplp.MPSolverParameters.PRIMAL': 11, 'pywraplp.MPSolverParameters.INCREMENTALITY': 1001,
          'pywraplp.MPSolverParameters.INCREMENTALITY_ON': 1}


def const(vc, d):
    if d in CONSTS:
        return vint(CONSTS[d])
    return None


def register(C):
    C.cls('MPSolver', 'rec', MPF)
    C.cls('CpModel', 'rec', CPF)
    C.cls('SatParameters', 'rec', PARF)
    C.cls('CpSolver', 'rec', CPS)
    # what an assignment of the CP model must satisfy (a literal is a variable v or -v-1, its negation)
    SOL = FMAP(BOOL)
    C.pred('lit', {'sol': SOL, 'l': INT}, 'ite(l >= 0, sol[l], not sol[-l - 1])')
    C.pred('holds', {'kind': INT, 'lits': LIST(INT), 'hasenf': BOOL, 'enf': INT, 'sol': SOL}, """implies(implies(hasenf, lit(sol, enf)),
        ite(kind == 1, all(lit(sol, lits[i]) for i in range(len(lits))), kind == 2 and any(lit(sol, lits[i]) for i in range(len(lits)))))""", opaque=True)
    C.pred('rowholds', {**{f: CPF[f].a[0] for f in CROW}, 'sol': SOL}, """ite(kind == 0, implies(implies(hasenf, lit(sol, enf)), implies(haslo, lo <= dot(lin, sol)) and implies(hashi, dot(lin, sol) <= hi)),
        holds(kind, lits, hasenf, enf, sol))""")
    C.pred('feas_', {**{f: CPF[f] for f in CROW}, 'n': INT, 'sol': SOL}, 'all(pat(kind[c], rowholds(' + ', '.join(f + '[c]' for f in CROW) + ', sol)) for c in range(n))', opaque=True)
    C.pred('feasible', {'model': None, 'sol': SOL}, 'feas_(' + ', '.join('model.' + f for f in CROW) + ', model.ncons, sol)')
    C.rec('wdot', {'vars': FMAP(INT), 'coefs': FMAP(REAL), 'sol': SOL}, 'k', 'ite(lit(sol, vars[k]), coefs[k], 0)', REAL)
    C.rec('sumof', {'vars': FMAP(INT), 'sol': SOL}, 'k', 'ite(lit(sol, vars[k]), 1, 0)', REAL)
    C.cls('Callback', 'heap', {})      # any callback object
    C.fn('CpSolver.Solve', params={'model': REC('CpModel'), 'callback': OPT(REF('Callback'))}, result=INT, trusted=True,
         modifies=['self.status', 'self.wall', 'self.objval', 'self.bound', 'self.solves'],
         ensures=['result == self.status', '0 <= result', 'result <= 4', 'self.wall >= 0', 'self.solves == old(self.solves) + 1',
                  'implies(result == 2, self.objval != self.bound)'])
    C.fn('CpSolver.WallTime', params={}, result=REAL, trusted=True, ensures=['result == self.wall'])
    C.fn('CpSolver.ObjectiveValue', params={}, result=REAL, trusted=True, ensures=['result == self.objval'])
    C.fn('CpSolver.BestObjectiveBound', params={}, result=REAL, trusted=True, ensures=['result == self.bound'])
    # sklearn.preprocessing.LabelEncoder: labels are abstract integers
    C.cls('LabelEncoder', 'rec', {'classes_': LIST(INT)})
    C.fn('LabelEncoder.inverse_transform', params={'y': LIST(INT)}, trusted=True, result=LIST(INT),
         requires=['all(0 <= y[i] and y[i] < len(self.classes_) for i in range(len(y)))'],
         ensures=['len(result) == len(y)', 'all(result[i] == self.classes_[y[i]] for i in range(len(y)))'])
    C.fn('LabelEncoder.fit_transform', params={'y': LIST(INT)}, trusted=True, result=LIST(INT), modifies=['self.classes_'],
         ensures=['len(result) == len(y)', 'same(self.classes_, labels(y))',
                  'all(0 <= result[i] and result[i] < len(self.classes_) and self.classes_[result[i]] == y[i] for i in range(len(y)))'])



LAB = [z3.Function('labels.0', I, arr(I), I), z3.Function('labels.1', I, arr(I), arr(I))]

LABI = [z3.Function(f'labels.i{k}', I, arr(I), I, I) for k in (0, 1)]


def labels_of(vc, st, y):
    """The labels that occur in y, increasing (a function of y)."""
    v = V(LIST(INT), [f(*y.l) for f in LAB])
    i, j = fconst(I, 'q'), fconst(I, 'q')
    st.assume(v.l[0] >= 0, z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < j, j < v.l[0]), z3.Select(v.l[1], i) < z3.Select(v.l[1], j)),
                                     patterns=[z3.MultiPattern(z3.Select(v.l[1], i), z3.Select(v.l[1], j))]),
              # every label occurs, and every element is a label (at an index that depends on the value only)
              z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < v.l[0]), (lambda j: z3.And(j >= 0, j < y.l[0], z3.Select(y.l[1], j) == z3.Select(v.l[1], i)))(
                  LABI[0](*y.l, z3.Select(v.l[1], i)))), patterns=[z3.Select(v.l[1], i)]),
              z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < y.l[0]), (lambda j: z3.And(j >= 0, j < v.l[0], z3.Select(v.l[1], j) == z3.Select(y.l[1], i)))(
                  LABI[1](*y.l, z3.Select(y.l[1], i)))), patterns=[z3.Select(y.l[1], i)]))
    return v


def use(vc, what):
    vc.used_ext.add(what)


# -------------------------------------------------------------- solver state
def fld(vc, st, p, f):
    root = p + '.' + f
    if root not in st.roots:
        vc.init_root(st, root, vc.C.field('MPSolver', f) if f in MPF else vc.C.field('CpModel', f))
    return st.roots[root]


def put(vc, st, p, f, *steps_val):
    steps, v = steps_val[:-1], steps_val[-1]
    fld(vc, st, p, f)
    vc.set(st, p + '.' + f, [('i', s) for s in steps], v)


def wf(vc, st, p, cls):
    """Consequences of the API that hold in every reachable solver state:
    coefficients of variables / constraints not created yet are zero."""
    c, v = z3.Ints('wc wv')
    n, m = fld(vc, st, p, 'nvars').x, fld(vc, st, p, 'ncons').x
    out = [n >= 0, m >= 0]
    obj = fld(vc, st, p, 'obj').x
    out.append(z3.ForAll([v], z3.Implies(z3.Or(v < 0, v >= n), z3.Select(obj, v) == 0), patterns=[z3.Select(obj, v)]))
    if cls == 'MPSolver':
        co = fld(vc, st, p, 'coef').x
        cell = z3.Select(z3.Select(co, c), v)
        out.append(z3.ForAll([c, v], z3.Implies(z3.Or(v < 0, v >= n, c < 0, c >= m), cell == 0), patterns=[cell]))
    return out


def new_solver(vc, st, p, cls):
    flds = MPF if cls == 'MPSolver' else CPF
    for f, t in flds.items():
        v = fresh(t, p + '.' + f)
        if f in ('nvars', 'ncons', 'solves'):
            v = vint(0)
        elif f in ('maxim', 'solved', 'hasobj'):
            v = vbool(False)
        elif f == 'off':
            v = vreal(0)
        elif f == 'obj':
            v = V(t, [z3.K(I, z3.RealVal(0))])
        elif f == 'coef':
            v = V(t, [z3.K(I, z3.K(I, z3.RealVal(0)))])
        st.roots[p + '.' + f] = v
        if vc.log is not None:
            vc.log.add(p + '.' + f)


def loopkeys(vc, st, what='con'):
    """Ghost record of where a variable or constraint was created: what the innermost annotated loop (or the contract) says,
    otherwise the indices of the enclosing loops."""
    ks = vc.keys_here(st, what)
    ks = list(st.loops)[-3:] if ks is None else ks
    while len(ks) < 3:
        ks.append(z3.IntVal(-1))
    return ks


def site_of(vc, node, name_node, st, kind):
    nm = None
    n = name_node
    while isinstance(n, ast.BinOp):
        n = n.left
    if isinstance(n, ast.Constant) and isinstance(n.value, str):
        nm = n.value
    elif isinstance(n, ast.JoinedStr) and n.values and isinstance(n.values[0], ast.Constant):
        nm = n.values[0].value
    if nm is None:
        nm = f'{kind}#{vc.call_ordinal(node, kind)}'
    return specs.sites(nm)


def new_var(vc, st, p, lb, ub, isint, site, cls):
    idx = fld(vc, st, p, 'nvars').x
    if cls == 'MPSolver':
        put(vc, st, p, 'vlb', idx, lb)
        put(vc, st, p, 'vub', idx, ub)
        put(vc, st, p, 'vint', idx, vbool(isint))
        put(vc, st, p, 'solved', vbool(False))
    put(vc, st, p, 'vsite', idx, vint(site))
    for k, t in zip(('vk0', 'vk1', 'vk2'), loopkeys(vc, st, 'var')):
        put(vc, st, p, k, idx, vint(t))
    put(vc, st, p, 'nvars', vint(z3.simplify(idx + 1)))
    return V(VAR(p) if cls == 'MPSolver' else CPV(p), [idx])


def new_con(vc, st, p, lb, ub, site):
    idx = fld(vc, st, p, 'ncons').x
    put(vc, st, p, 'clb', idx, lb)
    put(vc, st, p, 'cub', idx, ub)
    put(vc, st, p, 'csite', idx, vint(site))
    put(vc, st, p, 'solved', vbool(False))
    for k, t in zip(('ck0', 'ck1', 'ck2'), loopkeys(vc, st)):
        put(vc, st, p, k, idx, vint(t))
    put(vc, st, p, 'ncons', vint(z3.simplify(idx + 1)))
    return V(CON(p), [idx])


def mp_call(vc, st, p, m, e, args):
    use(vc, 'ortools.linear_solver.pywraplp.Solver')
    A = lambda i: vc.evv(e.args[i], st)
    if m == 'infinity':
        st.assume(INF_FACT)
        return vreal(INF)
    if m in ('SetNumThreads', 'EnableOutput', 'SuppressOutput', 'SetTimeLimit', 'set_time_limit'):
        return VNONE
    if m in ('IntVar', 'NumVar', 'Var'):
        lb, ub = coerce(A(0), REAL), coerce(A(1), REAL)
        return new_var(vc, st, p, lb, ub, m == 'IntVar', site_of(vc, e, e.args[2], st, 'var'), 'MPSolver')
    if m == 'BoolVar':
        return new_var(vc, st, p, vreal(0), vreal(1), True, site_of(vc, e, e.args[0], st, 'var'), 'MPSolver')
    if m in ('Constraint', 'RowConstraint'):
        return new_con(vc, st, p, coerce(A(0), REAL), coerce(A(1), REAL),
                       site_of(vc, e, e.args[2] if len(e.args) > 2 else None, st, 'con'))
    if m == 'Objective':
        return vc.Static('objective', p=p)
    if m == 'variable':
        i = vc.unopt(st, A(0), e)
        n = fld(vc, st, p, 'nvars').x
        vc.ob(st, z3.And(i.x >= 0, i.x < n), 'variable-exists', e, ast.unparse(e))
        return V(VAR(p), [i.x])
    if m == 'constraint':
        i = vc.unopt(st, A(0), e)
        n = fld(vc, st, p, 'ncons').x
        vc.ob(st, z3.And(i.x >= 0, i.x < n), 'constraint-exists', e, ast.unparse(e))
        return V(CON(p), [i.x])
    if m == 'variables':
        v = fresh(LIST(VAR(p)), 'vars')
        i = fconst(I, 'q')
        st.assume(v.l[0] == fld(vc, st, p, 'nvars').x,
                  z3.ForAll([i], z3.Select(v.l[1], i) == i, patterns=[z3.Select(v.l[1], i)]))
        return v
    if m == 'NumVariables':
        return vint(fld(vc, st, p, 'nvars').x)
    if m == 'NumConstraints':
        return vint(fld(vc, st, p, 'ncons').x)
    if m == 'Solve':
        for f in ('sol', 'dual', 'objval', 'status'):
            fld(vc, st, p, f)
            vc.set(st, p + '.' + f, (), fresh(MPF[f], p + '.' + f))
        put(vc, st, p, 'solved', vbool(True))
        put(vc, st, p, 'solves', vint(fld(vc, st, p, 'solves').x + 1))
        i = fconst(I, 'q')
        sol, lb, ub = (fld(vc, st, p, f).x for f in ('sol', 'vlb', 'vub'))
        n = fld(vc, st, p, 'nvars').x
        s = fld(vc, st, p, 'status').x
        st.assume(z3.Implies(z3.Or(s == 0, s == 1), z3.ForAll([i], z3.Implies(
            z3.And(i >= 0, i < n), z3.And(z3.Select(sol, i) >= z3.Select(lb, i), z3.Or(
                z3.Select(ub, i) >= INF, z3.Select(sol, i) <= z3.Select(ub, i)))), patterns=[z3.Select(sol, i)])))
        if vc.spec_fn is not None and vc.spec_fn.zero_one:
            # a program of 0/1 variables only: the reported values are a 0/1 point
            use(vc, 'ortools MPSolver.Solve of a program of 0/1 variables (reports a feasible 0/1 point; the best there is when it answers OPTIMAL)')
            vc.set(st, p + '.point', (), V(MPF['point'], [z3.Function('assignment', I, arr(B))(fconst(I, 'point'))]))
            F = lambda t: vc.spec_eval(t, st, {}, None, {'S': vc.Rec(p, 'MPSolver')})
            st.assume(z3.Implies(z3.And(z3.Or(s == 0, s == 1), F('all(S.vlb[v] >= 0 and S.vub[v] <= 1 and S.vint[v] for v in range(S.nvars))')), z3.And(
                F('all(pat(S.sol[v], S.sol[v] == ite(S.point[v], 1, 0)) for v in range(S.nvars))'), F('mfeas(S.coef, S.clb, S.cub, S.ncons, S.point)'), F('S.objval == S.off + dot(S.obj, S.point)'),
                z3.Implies(s == 0, F('all(implies(mfeas(S.coef, S.clb, S.cub, S.ncons, sol), ite(S.maxim, dot(S.obj, sol) <= dot(S.obj, S.point), dot(S.obj, sol) >= dot(S.obj, S.point))) for sol in sols())')))))
        return vint(s)
    if m == 'ExportModelToProto':
        pr = vc.ev(e.args[0], st)
        snap = {f: fld(vc, st, p, f) for f in MPF}
        if not isinstance(e.args[0], ast.Name):
            raise vc.Gap('proto expression')
        st.roots[vc.loc(e.args[0].id)] = vc.Static('proto', snap=snap)
        return VNONE
    if m == 'LoadModelFromProto':
        pr = vc.ev(e.args[0], st)
        if not (isinstance(pr, vc.Static) and pr.k == 'proto' and pr.snap):
            raise vc.Gap('model proto')
        for f, v in pr.snap.items():
            if f in ('sol', 'dual', 'objval', 'status', 'solved', 'solves'):
                continue
            fld(vc, st, p, f)
            vc.set(st, p + '.' + f, (), v)
        return vint(0)
    if m == 'wall_time':
        return fresh(REAL, 'wall')
    if m in ('ExportModelAsLpFormat', 'ExportModelAsMpsFormat'):
        return vstr()
    raise vc.Gap(f'MPSolver.{m}')


def objective_call(vc, st, p, m, e):
    A = lambda i: vc.evv(e.args[i], st)
    use(vc, 'ortools.linear_solver.pywraplp.Objective')
    if m == 'SetCoefficient':
        v, x = A(0), coerce(vc.unopt(st, A(1), e), REAL)
        chk(vc, st, p, v, 'nvars', e)
        put(vc, st, p, 'solved', vbool(False))
        put(vc, st, p, 'obj', v.x, x)
        return VNONE
    if m == 'GetCoefficient':
        return vreal(z3.Select(fld(vc, st, p, 'obj').x, A(0).x))
    if m == 'SetOffset':
        put(vc, st, p, 'solved', vbool(False))
        put(vc, st, p, 'off', coerce(A(0), REAL))
        return VNONE
    if m in ('SetMaximization', 'SetMinimization'):
        put(vc, st, p, 'maxim', vbool(m == 'SetMaximization'))
        return VNONE
    if m == 'SetOptimizationDirection':
        put(vc, st, p, 'maxim', vbool(vc.truth(st, A(0))))
        return VNONE
    if m == 'Value':
        vc.ob(st, fld(vc, st, p, 'solved').x, 'solution-up-to-date', e, ast.unparse(e))
        return vreal(fld(vc, st, p, 'objval').x)
    raise vc.Gap(f'Objective.{m}')


def chk(vc, st, p, v, n, e):
    if v.t.k in ('var', 'con') and v.t.a[0] != p:
        raise vc.Gap('variable or constraint of another solver')
    k = fld(vc, st, p, n).x
    vc.ob(st, z3.And(v.x >= 0, v.x < k), 'handle', e, ast.unparse(e))


def con_call(vc, st, c, m, e):
    p = c.t.a[0]
    A = lambda i: vc.evv(e.args[i], st)
    use(vc, 'ortools.linear_solver.pywraplp.Constraint')
    if m == 'SetCoefficient':
        v, x = A(0), coerce(vc.unopt(st, A(1), e), REAL)
        chk(vc, st, p, c, 'ncons', e)
        chk(vc, st, p, v, 'nvars', e)
        put(vc, st, p, 'solved', vbool(False))
        put(vc, st, p, 'coef', c.x, v.x, x)
        return VNONE
    if m == 'index':
        return vint(c.x)
    if m == 'dual_value':
        chk(vc, st, p, c, 'ncons', e)
        vc.ob(st, fld(vc, st, p, 'solved').x, 'solution-up-to-date', e, ast.unparse(e))
        return vreal(z3.Select(fld(vc, st, p, 'dual').x, c.x))
    if m in ('SetUb', 'SetLb'):
        put(vc, st, p, 'cub' if m == 'SetUb' else 'clb', c.x, coerce(A(0), REAL))
        return VNONE
    raise vc.Gap(f'Constraint.{m}')


def var_call(vc, st, v, m, e):
    p = v.t.a[0]
    A = lambda i: vc.evv(e.args[i], st)
    use(vc, 'ortools.linear_solver.pywraplp.Variable')
    if m == 'index':
        return vint(v.x)
    if m == 'solution_value':
        chk(vc, st, p, v, 'nvars', e)
        vc.ob(st, fld(vc, st, p, 'solved').x, 'solution-up-to-date', e, ast.unparse(e))
        return vreal(z3.Select(fld(vc, st, p, 'sol').x, v.x))
    if m in ('SetUb', 'SetLb'):
        put(vc, st, p, 'solved', vbool(False))
        put(vc, st, p, 'vub' if m == 'SetUb' else 'vlb', v.x, coerce(A(0), REAL))
        return VNONE
    raise vc.Gap(f'Variable.{m}')


# ------------------------------------------------------------------- CP-SAT
def unit(v, c):
    c = toreal(c)
    return V(LINE, [z3.Store(z3.K(I, z3.RealVal(0)), v, c), z3.RealVal(0)], [(v, c)])


def aslin(vc, v):
    if v.t.k == 'lin':
        return v
    if v.t.k == 'cpv':
        return unit(v.x, z3.RealVal(1))
    if v.t.k in ('int', 'real', 'bool'):
        return V(LINE, [z3.K(I, z3.RealVal(0)), coerce(v, REAL).x], [])
    raise vc.Gap(f'linear expression from {v.t}')


def lin_add(vc, a, b, sgn=1):
    a, b = aslin(vc, a), aslin(vc, b)
    if b.s is None and a.s is not None and sgn == 1:
        a, b = b, a
    if b.s is None:
        raise vc.Gap('sum of two large linear expressions')
    arr_ = a.l[0]
    for v, c in b.s:
        old = z3.simplify(z3.Select(arr_, v)) if a.s is not None else z3.Select(arr_, v)
        arr_ = z3.Store(arr_, v, old + sgn * c)
    s = None if a.s is None else a.s + [(v, sgn * c) for v, c in b.s]
    return V(LINE, [arr_, a.l[1] + sgn * b.l[1]], s)


def lin_scale(vc, a, k):
    if a.s is None:
        raise vc.Gap('scaling of a large linear expression')
    out = V(LINE, [z3.K(I, z3.RealVal(0)), a.l[1] * k], [])
    return lin_add(vc, out, V(LINE, [a.l[0], z3.RealVal(0)], [(v, c * k) for v, c in a.s]))


def lin_binop(vc, st, e, a, b):
    if isinstance(e.op, ast.Add):
        return lin_add(vc, a, b)
    if isinstance(e.op, ast.Sub):
        return lin_add(vc, a, b, -1)
    if isinstance(e.op, ast.Mult):
        x, y = (a, b) if b.t.k in ('int', 'real') else (b, a)
        return lin_scale(vc, aslin(vc, x), coerce(y, REAL).x)
    raise vc.Gap('linear expression operator')


def bounded(vc, st, op, a, b):
    d = lin_add(vc, a, b, -1)
    k = -d.l[1]
    T, F, Z = z3.BoolVal(True), z3.BoolVal(False), z3.RealVal(0)
    if isinstance(op, ast.Eq):
        return V(BND, [d.l[0], T, k, T, k])
    if isinstance(op, ast.LtE):
        return V(BND, [d.l[0], F, Z, T, k])
    if isinstance(op, ast.GtE):
        return V(BND, [d.l[0], T, k, F, Z])
    raise vc.Gap('comparison of linear expressions')


def wsum(vars_, coefs, n):
    s = arr(R)
    f = specs.decl('wsum', arr(I), s, I, s)
    if 'wsum' not in specs.AX:
        def mk():
            A = z3.Const('wA', arr(I))
            C = z3.Const('wC', s)
            N, J, X = z3.Ints('wN wJ wX')
            w = f(A, C, N)
            d = distinct(A, N)
            return [z3.ForAll([A, C, N, J], z3.Implies(z3.And(d, J >= 0, J < N),
                                                       z3.Select(w, z3.Select(A, J)) == z3.Select(C, J)),
                              patterns=[z3.MultiPattern(w, z3.Select(A, J))]),
                    z3.ForAll([A, C, N, X], z3.Implies(z3.Not(specs.mem(N, A, X)), z3.Select(w, X) == 0),
                              patterns=[z3.Select(w, X)])]
        specs.AX['wsum'] = mk
    return f(vars_, coefs, n)


def dot(lin, sol):
    """Value of a linear expression (coefficients by literal) at an assignment."""
    A, S, T = arr(R), arr(B), z3.RealVal(0)
    f = specs.decl('dot', A, S, R)
    if 'dot' not in specs.AX:
        def mk():
            a, s, i, c = z3.Const('tA', A), z3.Const('tS', S), z3.Int('tI'), z3.Real('tC')
            st = z3.Store(a, i, c)
            on = z3.If(i >= 0, z3.Select(s, i), z3.Not(z3.Select(s, -i - 1)))
            return [z3.ForAll([s], f(z3.K(I, T), s) == 0, patterns=[f(z3.K(I, T), s)]),
                    z3.ForAll([a, s, i, c], f(st, s) == f(a, s) + z3.If(on, c - z3.Select(a, i), T), patterns=[f(st, s)]),
                    z3.ForAll([a, s, i], z3.Implies(i >= 0, f(a, z3.Store(s, i, z3.BoolVal(True))) == f(a, s) + z3.If(z3.Select(s, i), T, z3.Select(a, i) - z3.Select(a, -i - 1))), patterns=[f(a, z3.Store(s, i, z3.BoolVal(True)))])]
        specs.AX['dot'] = mk
    return f(lin, sol)


def distinct(a, n):
    f = specs.decl('distinct', arr(I), I, B)
    if 'distinct' not in specs.AX:
        def mk():
            A = z3.Const('dA', arr(I))
            N, J, K = z3.Ints('dN dJ dK')
            j, k = (specs.decl(x, arr(I), I, I)(A, N) for x in ('distinct_j', 'distinct_k'))
            return [z3.ForAll([A, N, J, K], z3.Implies(z3.And(f(A, N), 0 <= J, J < N, 0 <= K, K < N, J != K),
                                                       z3.Select(A, J) != z3.Select(A, K)),
                              patterns=[z3.MultiPattern(f(A, N), z3.Select(A, J), z3.Select(A, K))]),
                    z3.ForAll([A, N], z3.Implies(z3.Not(f(A, N)), z3.And(
                        0 <= j, j < k, k < N, z3.Select(A, j) == z3.Select(A, k))), patterns=[f(A, N)])]
        specs.AX['distinct'] = mk
    return f(a, n)


def cp_call(vc, st, p, m, e):
    use(vc, 'ortools.sat.python.cp_model.CpModel')
    A = lambda i: vc.evv(e.args[i], st)
    if m == 'NewBoolVar':
        return new_var(vc, st, p, None, None, True, site_of(vc, e, e.args[0], st, 'var'), 'CpModel')
    if m in ('Maximize', 'Minimize'):
        o = aslin(vc, A(0))
        put(vc, st, p, 'obj', V(FMAP(REAL), [o.l[0]]))
        put(vc, st, p, 'off', vreal(o.l[1]))
        put(vc, st, p, 'maxim', vbool(m == 'Maximize'))
        put(vc, st, p, 'hasobj', vbool(True))
        return VNONE
    kinds = {'Add': 0, 'AddBoolAnd': 1, 'AddBoolOr': 2, 'AddImplication': 3}
    if m in kinds:
        idx = fld(vc, st, p, 'ncons').x
        put(vc, st, p, 'kind', idx, vint(kinds[m]))
        if m == 'Add':
            b = A(0)
            if b.t.k != 'bnd':
                raise vc.Gap('CpModel.Add of a non-linear constraint')
            put(vc, st, p, 'lin', idx, V(FMAP(REAL), [b.l[0]]))
            for f, x in zip(('haslo', 'lo', 'hashi', 'hi'), b.l[1:]):
                put(vc, st, p, f, idx, V(BOOL if x.sort() == B else REAL, [x]))
            put(vc, st, p, 'hasenf', idx, vbool(False))
        elif m == 'AddImplication':
            a, b = A(0), A(1)
            put(vc, st, p, 'kind', idx, vint(1))
            put(vc, st, p, 'lits', idx, V(LIST(INT), [z3.IntVal(1), z3.Store(fconst(arr(I), 'lit'), z3.IntVal(0), b.x)]))
            put(vc, st, p, 'hasenf', idx, vbool(True))
            put(vc, st, p, 'enf', idx, vint(a.x))
        else:
            ls = A(0)
            if ls.t.a[0] is None:
                ls = coerce(ls, LIST(INT))
            put(vc, st, p, 'lits', idx, V(LIST(INT), ls.l))
            put(vc, st, p, 'hasenf', idx, vbool(False))
        put(vc, st, p, 'csite', idx, vint(specs.sites(f'{m}#{vc.call_ordinal(e, m)}')))
        for k, t in zip(('ck0', 'ck1', 'ck2'), loopkeys(vc, st)):
            put(vc, st, p, k, idx, vint(t))
        put(vc, st, p, 'ncons', vint(z3.simplify(idx + 1)))
        return vc.Static('cpcon', p=p, idx=idx)
    raise vc.Gap(f'CpModel.{m}')


def static_call(vc, st, o, m, e):
    if o.k == 'objective':
        return objective_call(vc, st, o.p, m, e)
    if o.k == 'cpcon' and m == 'OnlyEnforceIf':
        if len(e.args) != 1:
            raise vc.Gap('OnlyEnforceIf')
        l = vc.evv(e.args[0], st)
        put(vc, st, o.p, 'hasenf', o.idx, vbool(True))
        put(vc, st, o.p, 'enf', o.idx, vint(l.x))
        return o
    if o.k in ('params', 'opaque', 'proto'):
        for a in e.args:
            vc.ev(a, st)
        return VNONE
    raise vc.Gap(f'method {m} of {o.k}')


def static_binop(vc, st, e, a, b):
    if isinstance(a, vc.Static) and a.k == 'pylist' and isinstance(b, vc.Static) and b.k == 'pylist' \
            and isinstance(e.op, ast.Add):
        return vc.Static('pylist', items=a.items + b.items)
    raise vc.Gap('operator on static objects')


# --------------------------------------------------------- module functions
def dotted_call(vc, st, d, e):
    """Value of an external call, or None when d is not external."""
    A = lambda i: vc.evv(e.args[i], st)
    if d in vc.C.funcs and vc.C.funcs[d].trusted:
        use(vc, d)
        return vc.apply_contract(vc.C.funcs[d], None, None, e, st)
    if d in ('random.choice',):
        l = vc.unopt(st, A(0), e)
        use(vc, 'random.choice (any element)')
        i = fconst(I, 'choice')
        vc.ob(st, l.l[0] > 0, 'nonempty-choice', e, ast.unparse(e))
        st.assume(i >= 0, i < l.l[0])
        return vc.proj(l, ('i', i))
    if d == 'random.Random':
        return vc.Static('opaque', what='random.Random')
    if d == 'math.sqrt':
        x = A(0)
        use(vc, 'math.sqrt')
        x = coerce(x, REAL).x
        vc.ob(st, x >= 0, 'sqrt-domain', e, ast.unparse(e))
        return vreal(specs.sqrt(x))
    if d in ('math.floor', 'floor'):
        x = A(0)
        return x if x.t == INT else vint(z3.ToInt(x.x))
    if d in ('math.log2',):
        use(vc, 'math.log2 on exact powers of two')
        x = A(0)
        r = fconst(I, 'log2')
        vc.ob(st, x.x >= 1, 'log2-domain', e)
        st.assume(r >= 0, specs.pow2(r) <= x.x, x.x < specs.pow2(r + 1))
        return vreal(z3.ToReal(r))
    if d == 'np.zeros':
        n = A(0)
        if n.t.k == 'tup' and len(n.t.a) == 1:
            n = untup(n)[0]
        isint = any(k.arg == 'dtype' and ast.unparse(k.value) in ('int', 'np.int64', 'np.int32') for k in e.keywords)
        return V(LIST(INT if isint else REAL), [n.x, z3.K(I, z3.IntVal(0) if isint else z3.RealVal(0))])
    if d == 'time' or d == 'time.time':
        use(vc, 'time() (never goes back during one call)')
        v = fresh(REAL, 'time')
        st.assume(v.x >= vc.get(st, '$now').x)
        vc.set(st, '$now', (), v)
        return v
    if d == 'int2ba':
        use(vc, 'bitarray.util.int2ba (big-endian binary digits)')
        n = A(0)
        v = fresh(LIST(BOOL), 'bits')
        i = fconst(I, 'q')
        st.assume(v.l[0] >= 1)
        st.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < v.l[0]), z3.Select(v.l[1], v.l[0] - 1 - i) == bit(n.x, i)),
                            patterns=[bit(n.x, i)]))
        st.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < v.l[0]), z3.Select(v.l[1], i) == bit(n.x, v.l[0] - 1 - i)),
                            patterns=[z3.Select(v.l[1], i)]))
        st.assume(z3.ForAll([i], z3.Implies(i >= v.l[0], z3.Not(bit(n.x, i))), patterns=[bit(n.x, i)]))
        return v
    if d == 'itertools.combinations':
        use(vc, 'itertools.combinations (all increasing tuples, in lexicographic order)')
        src = vc.ev(e.args[0], st)
        if not (isinstance(src, vc.Static) and src.k == 'range'):
            raise vc.Gap('combinations of a non-range')
        return combos(vc, st, src, A(1).x)
    if d == 'cp_model.LinearExpr.Term':
        return unit(vc.unopt(st, A(0), e).x, coerce(A(1), REAL).x)
    if d in ('cp_model.LinearExpr.WeightedSum', 'cp_model.LinearExpr.Sum', 'cp_model.LinearExpr.weighted_sum'):
        use(vc, 'ortools.sat.python.cp_model.LinearExpr')
        vs = A(0)
        if vs.t.a[0] is None:
            return V(LINE, [z3.K(I, z3.RealVal(0)), z3.RealVal(0)], [])
        if vs.t.a[0].k == 'opt':
            q = fconst(I, 'q')
            vc.ob(st, z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < vs.l[0]), z3.Not(z3.Select(vs.l[1], q))), patterns=[z3.Select(vs.l[1], q)]), 'not-none', e)
            vs = V(LIST(vs.t.a[0].a[0]), [vs.l[0]] + vs.l[2:])
        c0 = None
        if d.endswith('.Sum'):
            c = c0 = z3.K(I, z3.RealVal(1))
        else:
            cs = coerce(A(1), LIST(REAL))
            vc.ob(st, cs.l[0] == vs.l[0], 'same-length', e)
            c = real_array(A(1).l[1]) if A(1).t == LIST(INT) else cs.l[1]
        if not z3.is_const(c) and not z3.is_map(c):
            c, x, q = fconst(arr(R), 'coefs'), c, fconst(I, 'q')
            st.assume(z3.ForAll([q], z3.Select(c, q) == z3.simplify(z3.Select(x, q)), patterns=[z3.Select(c, q)]))
        w, sol = wsum(vs.l[1], c, vs.l[0]), fconst(arr(B), 'sol')
        d = dot(w, sol)
        st.assume(z3.ForAll([sol], d == vc.apply_rec('wdot', [V(FMAP(INT), [vs.l[1]]), V(FMAP(REAL), [c]), V(FMAP(BOOL), [sol]), vint(vs.l[0])], st).x, patterns=[d]))
        if c0 is not None:
            st.assume(z3.ForAll([sol], d == vc.apply_rec('sumof', [V(FMAP(INT), [vs.l[1]]), V(FMAP(BOOL), [sol]), vint(vs.l[0])], st).x, patterns=[d]))
        return V(LINE, [w, z3.RealVal(0)])
    if d == 'pywraplp.Solver.CreateSolver':
        p = f'solver!{vc.call_uid(e)}'
        new_solver(vc, st, p, 'MPSolver')
        return vc.Rec(p, 'MPSolver')
    if d == 'cp_model.CpModel':
        p = f'cpmodel!{vc.call_uid(e)}'
        new_solver(vc, st, p, 'CpModel')
        return vc.Rec(p, 'CpModel')
    if d == 'cp_model.CpSolver':
        p = f'cpsolver!{vc.call_uid(e)}'
        return vc.Rec(p, 'CpSolver')
    if d == 'linear_solver_pb2.MPModelProto':
        return vc.Static('proto', snap=None)
    if d in ('get_params_from_string', 'pywraplp.MPSolverParameters'):
        return vc.Static('params')
    if d == 'check_array':
        use(vc, 'sklearn.utils.validation.check_array (returns its numeric 2-d argument)')
        return A(0)
    if d == 'check_is_fitted':
        use(vc, 'sklearn.utils.validation.check_is_fitted(estimator, name) (raises exactly when the estimator has no attribute of that name)')
        o, n = vc.ev(e.args[0], st), e.args[1] if len(e.args) == 2 and not e.keywords else None
        if not isinstance(o, vc.Rec) or not isinstance(n, ast.Constant) or not isinstance(n.value, str) or vc.C.field(o.c, 'has__' + n.value) is None:
            raise Gap('check_is_fitted')
        has = vc.val(st, vc.field(st, o, 'has__' + n.value)).x
        bad = st.copy()
        bad.assume(z3.Not(has))
        vc.raises.append((bad, 'callee:check_is_fitted'))
        st.assume(has)
        return VNONE
    if d == 'check_X_y':
        use(vc, 'sklearn.utils.validation.check_X_y (rejects, or returns its numeric 2-d and 1-d arguments, which then have one positive length)')
        b = vc.ev(e.args[1], st)
        x, y = A(0), vc.val(st, b)
        vc.raises.append((st.copy(), 'callee:check_X_y'))
        st.assume(x.l[0] == y.l[0], y.l[0] >= 1)
        r = mktup([x, y])
        r.sh = ('tup', [None, (0, vc.places(st, b))])
        return r
    if d == 'unique_labels':
        use(vc, 'sklearn.utils.multiclass.unique_labels (the labels that occur, increasing)')
        y = A(0)
        v = labels_of(vc, st, y)
        return v
    if d == 'cp_model.CpSolverSolutionCallback.__init__':
        return VNONE
    if d == 'LabelEncoder':
        return vc.Rec(f'labelenc!{vc.call_uid(e)}', 'LabelEncoder')
    return None


def bit(n, i):
    f = specs.decl('bit', I, I, B)
    if 'bit' not in specs.AX:
        j = z3.Int('bJ')
        specs.AX['bit'] = [z3.ForAll([j], z3.Not(f(z3.IntVal(0), j)), patterns=[f(z3.IntVal(0), j)])]
    return f(n, i)


def combos(vc, st, rng, k):
    lo, hi = rng.lo, rng.hi
    cnt = specs.decl('ncomb', I, I, I, I)
    tab = specs.decl('combo', I, I, I, I, arr(I))       # lo hi k index -> tuple
    pos = specs.decl('combpos', I, I, I, arr(I), I)
    if 'combo' not in specs.AX:
        def mk():
            L, H, K, P, J, Q = z3.Ints('oL oH oK oP oJ oQ')
            A = z3.Const('oA', arr(I))
            t = tab(L, H, K, P)
            okp = z3.And(P >= 0, P < cnt(L, H, K))
            return [z3.ForAll([L, H, K, P, J], z3.Implies(z3.And(okp, 0 <= J, J < K), z3.And(
                z3.Select(t, J) >= L, z3.Select(t, J) < H)), patterns=[z3.Select(t, J)]),
                z3.ForAll([L, H, K, P, J, Q], z3.Implies(z3.And(okp, 0 <= J, J < Q, Q < K),
                                                         z3.Select(t, J) < z3.Select(t, Q)),
                          patterns=[z3.MultiPattern(z3.Select(t, J), z3.Select(t, Q))])]
        specs.AX['combo'] = mk
        specs.AX['ncomb'] = lambda: [z3.ForAll(list(z3.Ints('oL oH oK')), cnt(*z3.Ints('oL oH oK')) >= 0,
                                               patterns=[cnt(*z3.Ints('oL oH oK'))])]

        def mk2():
            L, H, K, J = z3.Ints('oL oH oK oJ')
            A = z3.Const('oA', arr(I))
            p = pos(L, H, K, A)
            return [z3.ForAll([L, H, K, A], z3.Implies(incr(A, K, L, H), z3.And(p >= 0, p < cnt(L, H, K))),
                              patterns=[p]),
                    z3.ForAll([L, H, K, A, J], z3.Implies(z3.And(incr(A, K, L, H), 0 <= J, J < K),
                                                          z3.Select(tab(L, H, K, p), J) == z3.Select(A, J)),
                              patterns=[z3.MultiPattern(p, z3.Select(A, J)), z3.Select(tab(L, H, K, p), J)])]
        specs.AX['combpos'] = mk2
    i = fconst(I, 'q')
    a = fconst(arr(arr(I)), 'combs')
    ln = fconst(arr(I), 'comblen')
    st.assume(z3.ForAll([i], z3.Select(a, i) == tab(lo, hi, k, i), patterns=[z3.Select(a, i)]),
              z3.ForAll([i], z3.Select(ln, i) == k, patterns=[z3.Select(ln, i)]), cnt(lo, hi, k) >= 0)
    return V(LIST(LIST(INT)), [cnt(lo, hi, k), ln, a])


def incr(a, k, lo, hi):
    """a[0..k) is strictly increasing within [lo, hi)."""
    f = specs.decl('incr', arr(I), I, I, I, B)
    if 'incr' not in specs.AX:
        def mk():
            A = z3.Const('nA', arr(I))
            K, L, H, J, Q = z3.Ints('nK nL nH nJ nQ')
            t = f(A, K, L, H)
            return [z3.ForAll([A, K, L, H, J], z3.Implies(z3.And(t, 0 <= J, J < K), z3.And(
                L <= z3.Select(A, J), z3.Select(A, J) < H)), patterns=[z3.MultiPattern(t, z3.Select(A, J))]),
                z3.ForAll([A, K, L, H, J, Q], z3.Implies(z3.And(t, 0 <= J, J < Q, Q < K), z3.Select(A, J) < z3.Select(A, Q)),
                          patterns=[z3.MultiPattern(t, z3.Select(A, J), z3.Select(A, Q))])]
        specs.AX['incr'] = mk
    return f(a, k, lo, hi)

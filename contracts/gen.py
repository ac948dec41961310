"""Columns read off the exact pricing steps' solutions."""
from engine.vals import *
from engine import ext
from contracts import tsp, ssp, dsp


def register(C):
    if 'DTreeSubProblemSat' not in C.classes:
        ssp.register(C)
    P, SP, LF, NODES, ROWS, LI, SOL, UD = REF('Path'), LIST(REF('Split')), REF('Leaf'), LIST(REF('Node')), OPT(LIST(REF('Row'))), LIST(INT), FMAP(BOOL), DICT(INT, DICT(INT, INT))
    DL = DICT(INT, DICT(INT, DICT(INT, REAL)))
    OV, OC = LIST(OPT(INT)), FMAP(REAL)
    # ---- what an assignment collects: one family of indicators; the links chosen at the ancestors
    C.rec('fam', {'vars': OV, 'oc': OC, 'sol': SOL}, 'k', 'ite(not is_none(vars[k]) and sol[the(vars[k])], oc[the(vars[k])], 0)', REAL)
    C.rec('ulink', {'ud': DICT(INT, INT), 'cand': LI, 'oc': OC, 'sol': SOL}, 'k', 'ite(sol[ud[cand[k]]], oc[ud[cand[k]]], 0)', REAL)
    C.rec('usum', {'leaf': LF, 'nodes': NODES, 'u': UD, 'oc': OC, 'sol': SOL}, 'k', 'ulink(u[anc(leaf, k)], nodes[anc(leaf, k)].candidate_splits, oc, sol, len(nodes[anc(leaf, k)].candidate_splits))', REAL)
    C.lemma('usel_none', {'ud': DICT(INT, INT), 'cand': LI, 'sol': SOL, 'n': INT}, ['n >= 0', 'all(not sol[ud[cand[b]]] for b in range(n))'], ['usel(ud, cand, sol, n) == 0'], induct='n', uses=['usel_none(ud, cand, sol, n - 1)'], props=['C15'])
    C.lemma('wsel_none', {'w': OV, 'sol': SOL, 'n': INT}, ['n >= 0', 'all(not sol[the(w[b])] for b in range(n))'], ['wsel(w, sol, n) == 0'], induct='n', uses=['wsel_none(w, sol, n - 1)'], props=['C15'])
    # ---- the value of a linear objective at an assignment, by families of variables
    UD1 = {'ud': DICT(INT, INT), 'cand': LI, 'sol': SOL}
    KEY = lambda v, a, b: f'(vk0[{v}] == {a} and vk1[{v}] == {b})'
    VK = {'vk0': FMAP(INT), 'vk1': FMAP(INT)}
    C.lemma('dot_same', {'a': OC, 'b': OC, 'sol': SOL}, ['all(a[v] == b[v] for v in ints())'], ['dot(a, sol) == dot(b, sol)'], asserts=['same(a, b)'], props=['C15'])
    C.lemma('dot_zero', {'a': OC, 'sol': SOL}, ['all(a[v] == 0 for v in ints())'], ['dot(a, sol) == 0'], asserts=['same(a, zeros())'], props=['C15'])
    C.lemma('fam_dot', {'vars': OV, 'co': OC, 'a': OC, 'b': OC, 'sol': SOL, 'n': INT},
            ['n >= 0', 'all(a[v] == b[v] or any(not is_none(vars[k]) and the(vars[k]) == v for k in range(n)) for v in ints())',
             'all(implies(not is_none(vars[k]), 0 <= the(vars[k]) and a[the(vars[k])] == co[the(vars[k])] and b[the(vars[k])] == 0) for k in range(n))',
             'all(implies(not is_none(vars[k]) and not is_none(vars[q]), the(vars[k]) != the(vars[q])) for k in range(n) for q in range(k))'],
            ['dot(a, sol) == dot(b, sol) + fam(vars, co, sol, n)'], induct='n', uses=['fam_dot(vars, co, ite(is_none(vars[n - 1]), a, put(a, the(vars[n - 1]), 0)), b, sol, n - 1)'],
            asserts=['implies(n == 0, same(a, b))', 'implies(n > 0 and not is_none(vars[n - 1]), dot(put(a, the(vars[n - 1]), 0), sol) == dot(a, sol) - ite(sol[the(vars[n - 1])], co[the(vars[n - 1])], 0))'], props=['C15'])
    C.lemma('ulink_dot', dict(UD1, co=OC, a=OC, b=OC, n=INT),
            ['n >= 0', 'all(a[v] == b[v] or any(ud[cand[k]] == v for k in range(n)) for v in ints())', 'all(0 <= ud[cand[k]] and a[ud[cand[k]]] == co[ud[cand[k]]] and b[ud[cand[k]]] == 0 for k in range(n))',
             'all(ud[cand[k]] != ud[cand[q]] for k in range(n) for q in range(k))'],
            ['dot(a, sol) == dot(b, sol) + ulink(ud, cand, co, sol, n)'], induct='n', uses=['ulink_dot(ud, cand, sol, co, put(a, ud[cand[n - 1]], 0), b, n - 1)'],
            asserts=['implies(n == 0, same(a, b))', 'implies(n > 0, dot(put(a, ud[cand[n - 1]], 0), sol) == dot(a, sol) - ite(sol[ud[cand[n - 1]]], co[ud[cand[n - 1]]], 0))'], props=['C15'])
    C.pred('famkeys', dict(VK, vars=OV, kind=INT, a=OC), """all(implies(not is_none(vars[k]), 0 <= the(vars[k]) and vk1[the(vars[k])] == kind and vk0[the(vars[k])] == k) for k in range(len(vars)))
        and all(implies(a[v] != 0 and vk1[v] == kind, 0 <= vk0[v] and vk0[v] < len(vars) and not is_none(vars[vk0[v]]) and the(vars[vk0[v]]) == v) for v in ints())""")
    TREE = {'leaf': LF, 'nodes': NODES, 'u': UD}
    C.pred('linkkeys', dict(VK, **TREE, a=OC), """all(implies(any(anc(leaf, q) == n for q in range(nanc(leaf))) and has_cand(nodes[n], s), s >= 0 and 0 <= u[n][s] and vk0[u[n][s]] == n and vk1[u[n][s]] == s) for n in ints() for s in ints())
        and all(implies(a[v] != 0 and vk1[v] >= 0, any(anc(leaf, q) == vk0[v] for q in range(nanc(leaf))) and has_cand(nodes[vk0[v]], vk1[v]) and u[vk0[v]][vk1[v]] == v) for v in ints())
        and all(anc(leaf, k) != anc(leaf, q) for k in range(nanc(leaf)) for q in range(k))
        and all(implies(any(anc(leaf, q) == n for q in range(nanc(leaf))), nodes[n].candidate_splits[k] != nodes[n].candidate_splits[q]) for n in ints() for k in range(len(nodes[n].candidate_splits)) for q in range(k))""", opaque=True)
    C.pred('kpart', dict(VK, a=OC, j=INT), 'fun(lambda v: ite(-j <= vk1[v] and vk1[v] < 0, a[v], 0))', opaque=True, ret=OC)
    C.pred('isanc', {'leaf': LF, 'n': INT}, 'any(anc(leaf, q) == n for q in range(nanc(leaf)))', opaque=True)
    C.rec('nsum', {'leaf': LF, 'nodes': NODES, 'u': UD, 'oc': OC, 'sol': SOL}, 'k', 'ite(isanc(leaf, k), ulink(u[k], nodes[k].candidate_splits, oc, sol, len(nodes[k].candidate_splits)), 0)', REAL)
    C.pred('upart', dict(VK, a=OC, n=INT), 'fun(lambda v: ite(vk1[v] < 0 or vk0[v] < n, a[v], 0))', opaque=True, ret=OC)
    C.lemma('fam_part', dict(VK, vars=OV, a=OC, j=INT, sol=SOL), ['j > 0', 'famkeys(vk0, vk1, vars, -j, a)'], ['dot(kpart(vk0, vk1, a, j), sol) == dot(kpart(vk0, vk1, a, j - 1), sol) + fam(vars, a, sol, len(vars))'],
            asserts=['use fam_dot(vars, a, kpart(vk0, vk1, a, j), kpart(vk0, vk1, a, j - 1), sol, len(vars))'], props=['C15'])
    C.lemma('no_part', dict(VK, a=OC, j=INT, sol=SOL), ['j > 0', 'all(implies(vk1[v] == -j, a[v] == 0) for v in ints())'], ['dot(kpart(vk0, vk1, a, j), sol) == dot(kpart(vk0, vk1, a, j - 1), sol)'],
            asserts=['use dot_same(kpart(vk0, vk1, a, j), kpart(vk0, vk1, a, j - 1), sol)'], props=['C15'])
    NA, NC_ = 'anc(leaf, n - 1)', 'nodes[anc(leaf, n - 1)].candidate_splits'
    LC = 'nodes[n - 1].candidate_splits'
    C.lemma('nsum_dot', dict(VK, **TREE, a=OC, sol=SOL, n=INT), ['0 <= n', 'linkkeys(vk0, vk1, leaf, nodes, u, a)'], ['dot(upart(vk0, vk1, a, n), sol) == dot(upart(vk0, vk1, a, 0), sol) + nsum(leaf, nodes, u, a, sol, n)'],
            induct='n', uses=['nsum_dot(vk0, vk1, leaf, nodes, u, a, sol, n - 1)'],
            asserts=[f'implies(n > 0 and isanc(leaf, n - 1), all(has_cand(nodes[n - 1], {LC}[k]) for k in range(len({LC}))))', f'use ulink_dot(u[n - 1], {LC}, sol, a, upart(vk0, vk1, a, n), upart(vk0, vk1, a, n - 1), len({LC}))',
                     'use dot_same(upart(vk0, vk1, a, n), upart(vk0, vk1, a, n - 1), sol)'], props=['C15'])
    FAMS = ('zv', 'yv', 'cv', 'wv')
    for name, fams in (('value_of', FAMS), ('value_old', ('yv', 'cv'))):
        C.lemma(name, dict(VK, **TREE, **{f: OV for f in fams}, a=OC, sol=SOL, n=INT), [f'famkeys(vk0, vk1, {f}, {-FAMS.index(f) - 1}, a)' for f in fams] + ['linkkeys(vk0, vk1, leaf, nodes, u, a)'] +
                [f'all(implies(vk1[v] == {-FAMS.index(f) - 1}, a[v] == 0) for v in ints())' for f in FAMS if f not in fams] + ['all(implies(a[v] != 0, vk1[v] >= -4) for v in ints())', 'n >= 0', 'all(implies(a[v] != 0 and vk1[v] >= 0, 0 <= vk0[v] and vk0[v] < n) for v in ints())'],
                ['dot(a, sol) == ' + ' + '.join(f'fam({f}, a, sol, len({f}))' for f in fams) + ' + nsum(leaf, nodes, u, a, sol, n)'],
                asserts=['use dot_zero(kpart(vk0, vk1, a, 0), sol)'] + [f'use fam_part(vk0, vk1, {f}, a, {j + 1}, sol)' if f in fams else f'use no_part(vk0, vk1, a, {j + 1}, sol)' for j, f in enumerate(FAMS)] +
                ['use dot_same(kpart(vk0, vk1, a, 4), upart(vk0, vk1, a, 0), sol)', 'use nsum_dot(vk0, vk1, leaf, nodes, u, a, sol, n)', 'use dot_same(a, upart(vk0, vk1, a, n), sol)'], props=['C15'])
    # ---- what the path that was read off collects
    WAY = {'leaf': LF, 'ns': LI, 'ss': LI}
    C.pred('sends', dict(WAY, G=SOL), 'all(iff(ns[k] in leaf.left_nodes, G[ss[k]]) for k in range(len(ns)))', opaque=True)
    # the path of an assignment: the ancestors in order, each with the candidate split that is chosen there
    C.pred('reads_', dict(WAY, nodes=NODES, u=UD, sol=SOL, n=INT), """len(ns) == n and len(ss) == n and all(ns[a] == anc(leaf, a) for a in range(n))
        and all(has_cand(nodes[anc(leaf, a)], ss[a]) and sol[u[anc(leaf, a)][ss[a]]] for a in range(n))""")
    USE1 = ['0 <= b', 'b < n', 'sol[ud[cand[b]]]', 'usel(ud, cand, sol, n) == 1']
    C.lemma('usel_has', {'ud': DICT(INT, INT), 'cand': LI, 'sol': SOL, 'n': INT, 'b': INT}, ['0 <= b', 'b < n', 'sol[ud[cand[b]]]'], ['usel(ud, cand, sol, n) >= 1'], induct='n', uses=['usel_has(ud, cand, sol, n - 1, b)'],
            asserts=['use uside_le(ud, cand, sol, sol, True, n - 1)'], props=['C15'])
    C.lemma('uside_is', {'ud': DICT(INT, INT), 'cand': LI, 'sol': SOL, 'G': SOL, 'left': BOOL, 'n': INT, 'b': INT}, USE1, ['uside(ud, cand, sol, G, left, n) == ite(G[cand[b]] == left, 1, 0)'], induct='n',
            uses=['uside_is(ud, cand, sol, G, left, n - 1, b)'], asserts=['use uside_le(ud, cand, sol, G, left, n - 1)', 'use usel_has(ud, cand, sol, n - 1, b)'], props=['C15'])
    C.lemma('ulink_none', {'ud': DICT(INT, INT), 'cand': LI, 'co': OC, 'sol': SOL, 'n': INT}, ['n >= 0', 'usel(ud, cand, sol, n) == 0'], ['ulink(ud, cand, co, sol, n) == 0'], induct='n', uses=['ulink_none(ud, cand, co, sol, n - 1)'],
            asserts=['use uside_le(ud, cand, sol, sol, True, n - 1)'], props=['C15'])
    C.lemma('ulink_is', {'ud': DICT(INT, INT), 'cand': LI, 'co': OC, 'sol': SOL, 'n': INT, 'b': INT}, USE1, ['ulink(ud, cand, co, sol, n) == co[ud[cand[b]]]'], induct='n',
            uses=['ulink_is(ud, cand, co, sol, n - 1, b)'], asserts=['use ulink_none(ud, cand, co, sol, n - 1)', 'use uside_le(ud, cand, sol, sol, True, n - 1)', 'use usel_has(ud, cand, sol, n - 1, b)'], props=['C15'])
    C.lemma('wsel_pos', {'w': OV, 'sol': SOL, 'n': INT, 'i': INT}, ['0 <= i', 'i < n', 'sol[the(w[i])]'], ['wsel(w, sol, n) >= 1'], induct='n', uses=['wsel_pos(w, sol, n - 1, i)'], asserts=['use wsel_ge(w, sol, n - 1)'], props=['C15'])
    C.lemma('wsel_ge', {'w': OV, 'sol': SOL, 'n': INT}, ['n >= 0'], ['wsel(w, sol, n) >= 0'], induct='n', uses=['wsel_ge(w, sol, n - 1)'], props=['C15'])
    C.lemma('wsel_one', {'w': OV, 'sol': SOL, 'n': INT, 'i': INT, 'j': INT}, ['0 <= i', 'i < n', '0 <= j', 'j < n', 'sol[the(w[i])]', 'sol[the(w[j])]', 'wsel(w, sol, n) == 1'], ['i == j'], induct='n', uses=['wsel_one(w, sol, n - 1, i, j)'],
            asserts=['use wsel_pos(w, sol, n - 1, i)', 'use wsel_pos(w, sol, n - 1, j)'], props=['C15'])
    RD = 'reads_(leaf, ns, ss, nodes, u, sol, nanc(leaf))'
    RA = dict(WAY, nodes=NODES, u=UD, sol=SOL)
    UK, CK = 'u[anc(leaf, k)]', 'nodes[anc(leaf, k)].candidate_splits'
    C.lemma('step_is', dict(RA, G=SOL, k=INT), [RD, 'ones_(leaf, nodes, u, nanc(leaf), sol)', '0 <= k', 'k < nanc(leaf)'], ['step(leaf, nodes, u, G, sol, k) == ite(iff(ns[k] in leaf.left_nodes, G[ss[k]]), 1, 0)'],
            asserts=['chosen(leaf, nodes, u, sol, k) == 1', f'usel({UK}, {CK}, sol, len({CK})) == 1', f'any({CK}[b] == ss[k] for b in range(len({CK})))', f'use all(uside_is({UK}, {CK}, sol, G, anc(leaf, k) in leaf.left_nodes, len({CK}), b) for b in ints())'], props=['C15'])
    C.lemma('comes_is', dict(RA, G=SOL, v=INT), [RD, 'ones_(leaf, nodes, u, nanc(leaf), sol)', 'comes(leaf, nodes, u, G, v, sol)'], ['iff(sol[v], sends(leaf, ns, ss, G))'], asserts=['use all(step_is(leaf, ns, ss, nodes, u, sol, G, k) for k in ints())'], props=['C15'])
    C.lemma('links_are', dict(RA, co=OC, d=DL, l=INT, n=INT), [RD, 'ones_(leaf, nodes, u, nanc(leaf), sol)', '0 <= n', 'n <= nanc(leaf)', 'all(implies(any(anc(leaf, q) == a for q in range(nanc(leaf))) and has_cand(nodes[a], s), co[u[a][s]] == -d[l][a][s]) for a in ints() for s in ints())'],
            ['usum(leaf, nodes, u, co, sol, n) == -linkdual(d, l, ns, ss, n)'], induct='n', uses=['links_are(leaf, ns, ss, nodes, u, sol, co, d, l, n - 1)'],
            asserts=['implies(n > 0, chosen(leaf, nodes, u, sol, n - 1) == 1)', 'implies(n > 0, any(' + NC_ + '[b] == ss[n - 1] for b in range(len(' + NC_ + '))))',
                     f'implies(n > 0, usel(u[{NA}], {NC_}, sol, len({NC_})) == 1)', f'use all(ulink_is(u[{NA}], {NC_}, co, sol, len({NC_}), b) for b in ints())'], props=['C15'])
    OFF = 'not is_none(rows) and the(rows)[k].removed_from_sp'
    WT = 'ite(is_none(rows), 1, the(rows)[k].weight)'
    GO = 'sends(leaf, ns, ss, lefts(X[k], splits))'
    DATA = {'X': MAT, 'y': LI, 'rows': ROWS, 'splits': SP}
    C.rec('pcost', dict(DATA, **WAY, t=INT), 'k', f'ite(not ({OFF}) and y[k] == t and {GO}, {WT}, 0)', REAL)
    C.rec('prow', dict({'X': MAT, 'rows': ROWS, 'splits': SP}, **WAY, v=LIST(REAL)), 'k', f'ite(not ({OFF}) and {GO}, v[k], 0)', REAL)
    C.rec('pcut', dict(WAY, side=FMAP(SOL), v=LIST(REAL)), 'k', 'ite(sends(leaf, ns, ss, side[k]), v[k], 0)', REAL)
    FA = {'vars': OV, 'co': OC, 'sol': SOL}
    C.lemma('cost_is', dict(DATA, **WAY, **FA, t=INT, n=INT), ['n >= 0', f'all(ite({OFF}, is_none(vars[k]), not is_none(vars[k]) and co[the(vars[k])] == {WT} and iff(sol[the(vars[k])], y[k] == t and {GO})) for k in range(n))'],
            ['fam(vars, co, sol, n) == pcost(X, y, rows, splits, leaf, ns, ss, t, n)'], induct='n', uses=['cost_is(X, y, rows, splits, leaf, ns, ss, vars, co, sol, t, n - 1)'], props=['C15'])
    C.lemma('rows_are', dict({'X': MAT, 'rows': ROWS, 'splits': SP}, **WAY, **FA, v=LIST(REAL), n=INT), ['n >= 0', f'all(ite({OFF}, is_none(vars[k]), not is_none(vars[k]) and co[the(vars[k])] == -v[k] and iff(sol[the(vars[k])], {GO})) for k in range(n))'],
            ['fam(vars, co, sol, n) == -prow(X, rows, splits, leaf, ns, ss, v, n)'], induct='n', uses=['rows_are(X, rows, splits, leaf, ns, ss, vars, co, sol, v, n - 1)'], props=['C15'])
    C.lemma('cuts_are', dict(WAY, **FA, side=FMAP(SOL), v=LIST(REAL), n=INT), ['n >= 0', 'all(not is_none(vars[k]) and co[the(vars[k])] == -v[k] and iff(sol[the(vars[k])], sends(leaf, ns, ss, side[k])) for k in range(n))'],
            ['fam(vars, co, sol, n) == -pcut(leaf, ns, ss, side, v, n)'], induct='n', uses=['cuts_are(leaf, ns, ss, vars, co, sol, side, v, n - 1)'], props=['C15'])
    C.lemma('fam_none', dict(FA, n=INT), ['n >= 0', 'all(is_none(vars[k]) or co[the(vars[k])] == 0 for k in range(n))'], ['fam(vars, co, sol, n) == 0'], induct='n', uses=['fam_none(vars, co, sol, n - 1)'], props=['C15'])
    C.lemma('cost_le', dict(DATA, **WAY, **FA, t=INT, n=INT), ['n >= 0', f'all(ite({OFF}, is_none(vars[k]), not is_none(vars[k]) and co[the(vars[k])] == {WT} and {WT} >= 0 and implies(sol[the(vars[k])], y[k] == t and {GO})) for k in range(n))'],
            ['fam(vars, co, sol, n) <= pcost(X, y, rows, splits, leaf, ns, ss, t, n)'], induct='n', uses=['cost_le(X, y, rows, splits, leaf, ns, ss, vars, co, sol, t, n - 1)'], props=['C15'])
    C.lemma('cost_best', dict(DATA, **WAY, **FA, t=INT, n=INT), ['n >= 0', f'all(ite({OFF}, is_none(vars[k]), not is_none(vars[k]) and co[the(vars[k])] == {WT} and ({WT} == 0 or iff(sol[the(vars[k])], y[k] == t and {GO}))) for k in range(n))'],
            ['fam(vars, co, sol, n) == pcost(X, y, rows, splits, leaf, ns, ss, t, n)'], induct='n', uses=['cost_best(X, y, rows, splits, leaf, ns, ss, vars, co, sol, t, n - 1)'], props=['C15'])
    # a target and its rows in one family of indicators
    C.lemma('both_are', dict(DATA, **WAY, **FA, t=INT, v=LIST(REAL), n=INT), ['n >= 0', f'all(ite({OFF}, is_none(vars[k]), not is_none(vars[k]) and co[the(vars[k])] == ite(y[k] == t, {WT}, 0) - v[k] and iff(sol[the(vars[k])], {GO})) for k in range(n))'],
            ['fam(vars, co, sol, n) == pcost(X, y, rows, splits, leaf, ns, ss, t, n) - prow(X, rows, splits, leaf, ns, ss, v, n)'], induct='n', uses=['both_are(X, y, rows, splits, leaf, ns, ss, vars, co, sol, t, v, n - 1)'], props=['C15'])
    C.lemma('link_same', dict(d=DL, l=INT, ns=LI, ss=LI, ns2=LI, ss2=LI, n=INT), ['n >= 0', 'all(ns[q] == ns2[q] and ss[q] == ss2[q] for q in range(n))'], ['linkdual(d, l, ns, ss, n) == linkdual(d, l, ns2, ss2, n)'], induct='n', uses=['link_same(d, l, ns, ss, ns2, ss2, n - 1)'], props=['C15'])
    # a path in the order of the nodes
    C.pred('strides', dict(WAY, nodes=NODES, u=UD, sol=SOL), """len(ns) == len(ss) and all(isanc(leaf, ns[q]) and has_cand(nodes[ns[q]], ss[q]) and sol[u[ns[q]][ss[q]]] for q in range(len(ns)))
        and all(any(ns[q] == anc(leaf, a) for q in range(len(ns))) for a in range(nanc(leaf)))""")
    C.lemma('step_at', dict(TREE, sol=SOL, G=SOL, a=INT, n=INT, s=INT), ['ones_(leaf, nodes, u, nanc(leaf), sol)', '0 <= a', 'a < nanc(leaf)', 'anc(leaf, a) == n', 'has_cand(nodes[n], s)', 'sol[u[n][s]]'], ['step(leaf, nodes, u, G, sol, a) == ite(iff(n in leaf.left_nodes, G[s]), 1, 0)'],
            asserts=['chosen(leaf, nodes, u, sol, a) == 1', 'usel(u[n], nodes[n].candidate_splits, sol, len(nodes[n].candidate_splits)) == 1', 'any(nodes[n].candidate_splits[b] == s for b in range(len(nodes[n].candidate_splits)))',
                     'use all(uside_is(u[n], nodes[n].candidate_splits, sol, G, n in leaf.left_nodes, len(nodes[n].candidate_splits), b) for b in ints())'], props=['C15'])
    C.lemma('strides_is', dict(RA, G=SOL, v=INT), ['strides(leaf, ns, ss, nodes, u, sol)', 'ones_(leaf, nodes, u, nanc(leaf), sol)', 'comes(leaf, nodes, u, G, v, sol)'], ['iff(sol[v], sends(leaf, ns, ss, G))'],
            asserts=['use all(step_at(leaf, nodes, u, sol, G, a, ns[q], ss[q]) for a in ints() for q in ints())', 'all(implies(anc(leaf, a) == ns[q], step(leaf, nodes, u, G, sol, a) == ite(iff(ns[q] in leaf.left_nodes, G[ss[q]]), 1, 0)) for a in range(nanc(leaf)) for q in range(len(ns)))',
                     'implies(sol[v], all(iff(ns[k] in leaf.left_nodes, G[ss[k]]) for k in range(len(ns))))', 'implies(sends(leaf, ns, ss, G), all(step(leaf, nodes, u, G, sol, a) >= 1 for a in range(nanc(leaf))))'], props=['C15'])
    # raising one indicator changes no choice
    PUT = 'put(sol, v, True)'
    C.lemma('usel_put', {'ud': DICT(INT, INT), 'cand': LI, 'sol': SOL, 'v': INT, 'n': INT}, ['n >= 0', 'all(ud[cand[b]] != v for b in range(n))'], [f'usel(ud, cand, {PUT}, n) == usel(ud, cand, sol, n)'], induct='n', uses=['usel_put(ud, cand, sol, v, n - 1)'], props=['C15'])
    C.lemma('uside_put', {'ud': DICT(INT, INT), 'cand': LI, 'sol': SOL, 'G': SOL, 'left': BOOL, 'v': INT, 'n': INT}, ['n >= 0', 'all(ud[cand[b]] != v for b in range(n))'], [f'uside(ud, cand, {PUT}, G, left, n) == uside(ud, cand, sol, G, left, n)'], induct='n', uses=['uside_put(ud, cand, sol, G, left, v, n - 1)'], props=['C15'])
    C.lemma('wsel_put', {'w': OV, 'sol': SOL, 'v': INT, 'n': INT}, ['n >= 0', 'all(the(w[i]) != v for i in range(n))'], [f'wsel(w, {PUT}, n) == wsel(w, sol, n)'], induct='n', uses=['wsel_put(w, sol, v, n - 1)'], props=['C15'])
    FREE = 'all(u[anc(leaf, k)][nodes[anc(leaf, k)].candidate_splits[b]] != v for k in range(nanc(leaf)) for b in range(len(nodes[anc(leaf, k)].candidate_splits)))'
    C.lemma('ones_put', dict(TREE, sol=SOL, v=INT), [FREE], [f'iff(ones_(leaf, nodes, u, nanc(leaf), {PUT}), ones_(leaf, nodes, u, nanc(leaf), sol))'],
            asserts=['use all(usel_put(u[anc(leaf, k)], nodes[anc(leaf, k)].candidate_splits, sol, v, len(nodes[anc(leaf, k)].candidate_splits)) for k in ints())', f'all(chosen(leaf, nodes, u, {PUT}, k) == chosen(leaf, nodes, u, sol, k) for k in range(nanc(leaf)))'], props=['C15'])
    C.lemma('comes_put', dict(TREE, sol=SOL, G=SOL, v=INT, y=INT), [FREE, 'y != v'], [f'iff(comes(leaf, nodes, u, G, y, {PUT}), comes(leaf, nodes, u, G, y, sol))'],
            asserts=['use all(uside_put(u[anc(leaf, k)], nodes[anc(leaf, k)].candidate_splits, sol, G, anc(leaf, k) in leaf.left_nodes, v, len(nodes[anc(leaf, k)].candidate_splits)) for k in ints())', f'all(step(leaf, nodes, u, G, {PUT}, k) == step(leaf, nodes, u, G, sol, k) for k in range(nanc(leaf)))'], props=['C15'])
    G = 'PathGenerator'
    C.cls(G, 'rec', {'u_vars': UD, 'w_vars': OV, 'z_vars': OV, 'y_vars': OV, 'yc_vars': OV, 'leaf': LF, 'leaf_dual': REAL, 'targets': LI, 'nodes': NODES, 'orig_obj_coeffs': DICT(INT, REAL), 'solution_count': INT,
                     'paths': LIST(P), 'original_objective': REAL, 'cur': SOL, 'seen': FMAP(SOL), 'nseen': INT, 'best': INT})
    C.fn(f'{G}.Value', params={'v': INT}, result=INT, trusted=True, ensures=['result == ite(lit(self.cur, v), 1, 0)'])
    OCS = 'elems(self.orig_obj_coeffs), self.cur'
    F = lambda f, n=None: f'fam(self.{f}, {OCS}, {n or f"len(self.{f})"})'
    T = 'self.leaf, self.nodes, self.u_vars'
    N = 'nanc(self.leaf)'
    US = lambda n: f'usum({T}, {OCS}, {n})'
    CAND = 'self.nodes[node_id].candidate_splits'
    VAL = f'({F("z_vars")} + {F("y_vars")} + {F("yc_vars")} + {US(N)} - self.leaf_dual)'
    KNOWN = lambda f: f'all(implies(not is_none(self.{f}[k]), 0 <= the(self.{f}[k]) and the(self.{f}[k]) in self.orig_obj_coeffs) for k in range(len(self.{f})))'
    UC = 'self.u_vars[anc(self.leaf, a)][self.nodes[anc(self.leaf, a)].candidate_splits[b]]'
    NODES_IS = f'len(nodes) == {N} and all(nodes[k] == anc(self.leaf, k) for k in range(len(nodes)))'
    EARLIER = lambda was: f'all(same(self.paths[q], {was}(self.paths)[q]) for q in range({was}(len(self.paths))))'
    SOFAR = 'original_objective == pre(original_objective) + '
    KEEP = ['path.target == pre(path.target)', 'path.leaf_id == pre(path.leaf_id)', 'path.cost == pre(path.cost)', 'isnew(path)']
    NEWP = 'self.paths[len(self.paths) - 1]'
    C.fn(f'{G}.on_solution_callback', params={}, allocs=True, modifies=['self.solution_count', 'self.paths', 'self.original_objective'],
         requires=[KNOWN('z_vars'), KNOWN('y_vars'), KNOWN('yc_vars'), 'all(not is_none(self.yc_vars[k]) for k in range(len(self.yc_vars)))',
                   f'all(0 <= anc(self.leaf, a) and anc(self.leaf, a) < len(self.nodes) and anc(self.leaf, a) in self.u_vars for a in range({N}))', 'all(self.nodes[n].id == n for n in range(len(self.nodes)))',
                   f'all(self.nodes[anc(self.leaf, a)].candidate_splits[b] in self.u_vars[anc(self.leaf, a)] and 0 <= {UC} and {UC} in self.orig_obj_coeffs for a in range({N}) for b in range(len(self.nodes[anc(self.leaf, a)].candidate_splits)))',
                   'len(self.w_vars) == len(self.targets)', 'all(self.targets[i] == i and not is_none(self.w_vars[i]) and 0 <= the(self.w_vars[i]) for i in range(len(self.targets)))',
                   f'ones_({T}, {N}, self.cur)', 'wsel(self.w_vars, self.cur, len(self.w_vars)) == 1'],
         ensures=['self.solution_count == old(self.solution_count) + 1', f'self.original_objective == {VAL}', f'len(self.paths) == old(len(self.paths)) + ite({VAL} > 1e-6, 1, 0)', EARLIER('old'),
                  f'implies({VAL} > 1e-6, isnew({NEWP}) and {NEWP}.leaf_id == self.leaf.id and {NEWP}.cost == {F("z_vars")})', f'implies({VAL} > 1e-6, reads_(self.leaf, {NEWP}.node_ids, {NEWP}.splits, self.nodes, self.u_vars, self.cur, {N}))',
                  f'implies({VAL} > 1e-6, 0 <= {NEWP}.target and {NEWP}.target < len(self.targets) and self.cur[the(self.w_vars[{NEWP}.target])])'],
         loops={0: {'inv': [f'path_cost == {F("z_vars", "_k")}']},
                1: {'inv': [SOFAR + F('y_vars', '_k')]},
                2: {'inv': [SOFAR + F('yc_vars', '_k')]},
                3: {'entry': [NODES_IS], 'inv': [SOFAR + US('_k')]},
                4: {'entry': ['node.id == node_id'], 'inv': [SOFAR + f'ulink(self.u_vars[node_id], {CAND}, {OCS}, _k)']},
                5: {'entry': [NODES_IS], 'inv': KEEP + ['reads_(self.leaf, path.node_ids, path.splits, self.nodes, self.u_vars, self.cur, _k)'],
                    'hint': [f'use usel_none(self.u_vars[node_id], {CAND}, self.cur, len({CAND}))', f'chosen({T}, self.cur, _k) == 1']},
                6: {'inv': [f'all(not self.cur[self.u_vars[node_id][{CAND}[b]]] for b in range(_k))', 'same(path.splits, pre(path.splits))', 'same(path.node_ids, pre(path.node_ids))'] + KEEP},
                7: {'inv': ['all(not self.cur[the(self.w_vars[i])] for i in range(_k))', 'same(path.splits, pre(path.splits))', 'same(path.node_ids, pre(path.node_ids))', 'path.leaf_id == pre(path.leaf_id)', 'path.cost == pre(path.cost)', 'isnew(path)']}},
         asserts=['use wsel_none(self.w_vars, self.cur, len(self.w_vars))'],
         props=['C15'])

    for CN, OLD in (('DTreeSubProblem', False), ('DTreeSubProblemOld', True)):
        tsp.columns(C, CN, OLD, C.formulations[CN])

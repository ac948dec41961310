"""Calls, statements, loops and function verification."""
import ast
import z3
from .vals import *
from .vc import *
from .ev import Ev
from . import specs, ext
from . import vc as vcmod

MUTATORS = {'append', 'add', 'extend', 'remove', 'update', 'pop', 'clear', 'insert', 'discard'}


class Run(Ev):
    mono_body = {}

    Static, Rec, Gap, Alias = vcmod.Static, vcmod.Rec, Gap, vcmod.Alias

    def call_uid(self, e):
        return f'{getattr(e, "lineno", 0)}_{getattr(e, "col_offset", 0)}_{self.cur}'

    def call_ordinal(self, node, kind):
        fn = self.fn_nodes[-1]
        k = 0
        for x in ast.walk(fn):
            pass
        calls = [x for x in walk_order(fn) if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute)
                 and x.func.attr == kind]
        for i, x in enumerate(calls):
            if x is node:
                return i
        return -1

    # --------------------------------------------------------------- calls
    def ev_Call(self, e, st):
        f = e.func
        if isinstance(f, ast.Name):
            n = f.id
            if self.spec and n in SPEC:
                return SPEC[n](self, e, st)
            if self.spec and n in self.C.preds:
                return self.apply_pred(n, [self.ev(a, st) for a in e.args], st)
            if self.spec and n in self.C.recs:
                return self.apply_rec(n, [self.val(st, self.ev(a, st)) for a in e.args], st)
            if self.spec and n in self.C.lemmas:
                return self.apply_lemma(n, [self.val(st, self.ev(a, st)) for a in e.args], st)
            if self.is_local(st, n):
                b = self.name(st, n)
                if isinstance(b, Static) and b.k == 'lambda':
                    return self.apply_lambda(b, [self.ev(a, st) for a in e.args], st)
                raise Gap(f'call of local {n}')
            r = ext.dotted_call(self, st, n, e)
            if r is not None:
                return r
            if n in BUILTIN:
                return BUILTIN[n](self, e, st)
            if n in self.repo.classes:
                return self.construct(n, e, st)
            mod = self.mod_stack[-1]
            if (mod, n) in self.repo.funcs:
                return self.call_fn(f'{mod}:{n}', None, mod, self.repo.funcs[(mod, n)], None, e, st)
            raise Gap(f'call of {n}')
        if isinstance(f, ast.Attribute):
            d = self.dotted(f)
            if d and not self.is_local(st, d.split('.')[0]):
                r = ext.dotted_call(self, st, d, e)
                if r is not None:
                    return r
                h = d.split('.')[0]
                if h in self.repo.classes and d.count('.') == 1:
                    return self.class_call(h, f.attr, e, st)
            if isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == 'super':
                return self.super_call(f, e, st)
            return self.method_call(f, e, st)
        raise Gap('call')

    def class_call(self, cls, meth, e, st):
        r = self.repo.method(cls, meth)
        if r is None:
            raise Gap(f'{cls}.{meth}')
        node = r[1]
        static = any(isinstance(x, ast.Name) and x.id == 'staticmethod' for x in node.decorator_list)
        q = f'{cls}.{meth}'
        if static:
            return self.call_fn(q, None, self.repo.classes[r[0]][0], node, None, e, st, cls=cls)
        so = self.ev(e.args[0], st)
        e2 = ast.Call(func=e.func, args=e.args[1:], keywords=e.keywords)
        ast.copy_location(e2, e)
        return self.call_fn(q, None, self.repo.classes[r[0]][0], node, so, e2, st, cls=cls)

    def super_call(self, f, e, st):
        """super().m(..) / super(C, self).m(..) on a repository base class."""
        sup = f.value
        so = self.name(st, 'self')
        cls = sup.args[0].id if sup.args else self.cls_stack[-1]
        for b in self.repo.classes[cls][1]:
            r = self.repo.method(b, f.attr)
            if r:
                return self.call_fn(f'{b}.{f.attr}', None, self.repo.classes[r[0]][0], r[1], so, e, st, cls=r[0])
        raise Gap(f'super().{f.attr}')

    def method_call(self, f, e, st):
        m = f.attr
        # mutation of a container in place
        o = self.ev(f.value, st)
        if isinstance(o, Rec):
            k = o.c
            if k == 'MPSolver':
                return ext.mp_call(self, st, o.p, m, e, e.args)
            if k == 'CpModel':
                return ext.cp_call(self, st, o.p, m, e)
            if k == 'CpSolver':
                ext.use(self, 'ortools.sat.python.cp_model.CpSolver')
                if m == 'StatusName':
                    return vstr()
                if m == 'Solve' and len(e.args) > 1 and not (isinstance(e.args[1], ast.Name) and isinstance(c := self.val(st, self.ev(e.args[1], st)), V)
                                                             and c.t in (OPT(REF('Callback')), REF('Callback'))):
                    return self.solve_reporting(o, m, e, st)
            return self.obj_method(o, k, m, e, st)
        if isinstance(o, Static):
            if o.k == 'opaque' and o.what == 'random.Random' and m == 'randrange':
                ext.use(self, 'random.Random.randrange (any index)')
                n = self.evv(e.args[0], st)
                i = fconst(I, 'rand')
                self.ob(st, n.x > 0, 'nonempty-choice', e, ast.unparse(e))
                st.assume(i >= 0, i < n.x)
                return vint(i)
            if o.k == 'labelencoder':
                return o.call(self, st, m, e)
            return ext.static_call(self, st, o, m, e)
        v = self.val(st, o)
        if v.t.k == 'opt':
            v = self.unopt(st, v, e)
            if isinstance(o, Alias):
                o = Alias(o.root, o.steps + (('o',),))
        if v.t.k == 'ref':
            return self.obj_method(v, v.t.a[0], m, e, st)
        if v.t.k == 'con':
            return ext.con_call(self, st, v, m, e)
        if v.t.k == 'var':
            return ext.var_call(self, st, v, m, e)
        if v.t.k == 'cpv':
            if m == 'Not':
                return V(v.t, [-v.x - 1])
            if m == 'Index':
                return vint(v.x)
        if v.t.k == 'list':
            return self.list_method(o, v, m, e, st)
        if v.t.k == 'set':
            return self.set_method(o, v, m, e, st)
        if v.t.k == 'dict':
            if m == 'get' and v.t.a[0] is not None:
                ks = keyleaves(self.evv(e.args[0], st), v.t.a[0])
                db = self.ev(e.args[1], st) if len(e.args) > 1 else VNONE
                r = ite(sel(v.l[0], ks), V(v.t.a[1], [sel(x, ks) for x in v.l[1:]]), self.need(self.val(st, db)))
                if has_container(r.t) and not self.spec:
                    return Fz(r, deps_of(o, db) or {'$any'}, [(q, d + 1) for q, d in self.places(st, o)] + self.places(st, db))
                return r
            raise Gap(f'dict.{m}')
        if v.t.k == 'str':
            return vstr()
        if v.t.k == 'mat' and m in ('copy', 'astype'):
            return v
        raise Gap(f'method {m} of {v.t}')

    def place(self, o, f, st):
        if isinstance(o, Alias):
            return o
        raise Gap('mutation of a container without a home')

    def list_method(self, o, v, m, e, st):
        if m == 'append':
            p = self.place(o, e.func, st)
            xb = self.ev(e.args[0], st)
            x = self.val(st, xb)
            self.mutating(st, p.root, p.steps)
            if isinstance(x, Static):
                if x.k == 'cpcon':
                    return VNONE
                raise Gap('append of a static object')
            if isinstance(x, Rec):
                raise Gap('append of a record')
            et = v.t.a[0]
            t = x.t if et is None else join_ty(et, x.t)
            root_t = self.declared_elem(p)
            if root_t is not None:
                t = root_t
            v = coerce(v, LIST(t))
            x = coerce(x, t)
            n = v.l[0]
            nv = V(LIST(t), [simp(n + 1)] + [z3.Store(a, n, y) for a, y in zip(v.l[1:], x.l)])
            self.storing(st, xb, p.root, p.steps + (('i', n),), self.owner(st, e.args[0], xb))
            self.set(st, p.root, p.steps, nv)
            self.moved(st, e.args[0], p.root, p.steps + (('i', n),))
            return VNONE
        if m == 'extend':
            p = self.place(o, e.func, st)
            xb = self.ev(e.args[0], st)
            x = self.need(self.val(st, xb))
            if x.t.k != 'list':
                raise Gap('extend by something else than a list')
            self.mutating(st, p.root, p.steps)
            c = self.concat(v, x)
            self.storing(st, self.inner(st, xb, V(x.t, x.l)), p.root, p.steps)
            self.set(st, p.root, p.steps, V(c.t, c.l))
            return VNONE
        if m == 'copy':
            return self.inner(st, o, V(v.t, v.l))
        if m == 'remove':
            p = self.place(o, e.func, st)
            self.mutating(st, p.root, p.steps)
            x = self.evv(e.args[0], st)
            n = v.l[0]
            k = fconst(I, 'rmpos')
            i = fconst(I, 'q')
            el = V(v.t.a[0], [z3.Select(a, k) for a in v.l[1:]])
            self.ob(st, self.member(st, x, v), 'remove-present', e, ast.unparse(e))
            ei = V(v.t.a[0], [z3.Select(a, i) for a in v.l[1:]])
            st.assume(k >= 0, k < n, self.equal(st, el, x),
                      z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < k), z3.Not(self.equal(st, ei, x)))))
            nv = fresh(v.t, 'rm')
            st.assume(nv.l[0] == n - 1)
            for a, b in zip(v.l[1:], nv.l[1:]):
                st.assume(z3.ForAll([i], z3.Select(b, i) == z3.If(i < k, z3.Select(a, i), z3.Select(a, i + 1)),
                                    patterns=[z3.Select(b, i)]))
                st.assume(z3.ForAll([i], z3.And(z3.Implies(z3.And(0 <= i, i < k), z3.Select(b, i) == z3.Select(a, i)),
                                                z3.Implies(i > k, z3.Select(b, i - 1) == z3.Select(a, i))),
                                    patterns=[z3.Select(a, i)]))
            self.set(st, p.root, p.steps, nv)
            return VNONE
        if m == 'count' or m == 'index':
            raise Gap(f'list.{m}')
        if m in ('astype', 'tolist'):
            return self.inner(st, o, V(v.t, v.l))
        raise Gap(f'list.{m}')

    def declared_elem(self, p):
        return None

    def owner(self, st, node, b):
        """Is the binding a local name that holds its container alone?"""
        if not (isinstance(node, ast.Name) and isinstance(b, Alias) and not b.steps and b.root == self.loc(node.id)):
            return False
        r = b.root
        return isinstance(st.roots.get(r), V) and r not in self.params and (r, 0) not in st.shared and not any(
            isinstance(x, (Alias, Fz)) and k != r and r in deps_of(x) for k, x in st.roots.items())

    def moved(self, st, node, root, steps=()):
        """A local container stored elsewhere may no longer be mutated through
        the local name (it would be the same object)."""
        if isinstance(node, ast.Name):
            r = self.loc(node.id)
            b = st.roots.get(r)
            if isinstance(b, V) and b.t.k in ('list', 'dict', 'set'):
                st.roots[r] = Fz(b, {root} - {r}, self.places(st, Alias(root, steps)))
                if self.log is not None:
                    self.log.add(r)

    def set_method(self, o, v, m, e, st):
        if m in ('add', 'discard', 'remove'):
            p = self.place(o, e.func, st)
            self.mutating(st, p.root, p.steps)
            x = self.unopt(st, self.evv(e.args[0], st), e)
            if m == 'remove':
                self.ob(st, z3.Select(v.x, x.x), 'remove-present', e)
            self.set(st, p.root, p.steps, V(SETI, [z3.Store(v.x, x.x, z3.BoolVal(m == 'add'))]))
            return VNONE
        if m == 'intersection':
            return V(SETI, [specs.inter(v.x, self.evv(e.args[0], st).x)])
        if m == 'copy':
            return V(v.t, v.l)
        raise Gap(f'set.{m}')

    def obj_method(self, o, cls, m, e, st):
        spec = self.C.contract_for(self.repo, cls, m)
        r = self.repo.method(cls, m)
        if r is None and spec is None:
            raise Gap(f'{cls}.{m}')
        if r is None:
            return self.apply_contract(spec, o, spec.params, e, st)
        node = r[1]
        static = any(isinstance(x, ast.Name) and x.id == 'staticmethod' for x in node.decorator_list)
        if spec is not None and spec.reports:
            binds = self.bind_args(node, o, e, st)
            cb = self.val(st, binds[spec.reports[1]])
            if isinstance(cb, Rec):
                # the contract (proved) says that the function makes exactly one solve, of this model with this callback
                binds[spec.reports[1]] = coerce(VNONE, spec.params[spec.reports[1]])
                solve = lambda: (self.apply_contract(spec, o, None, e, st, binds=binds), self.spec_eval(spec.reports[2], st, binds, what='value'))[1]
                return self.reporting(m, e, st, self.val(st, binds[spec.reports[0]]), cb, solve)
            return self.apply_contract(spec, o, None, e, st, binds=binds)
        return self.call_fn(f'{cls}.{m}', spec, self.repo.classes[r[0]][0], node, None if static else o, e, st, cls=r[0])

    def solve_reporting(self, o, m, e, st):
        """CpSolver.Solve(model, callback): a loop that hands the callback feasible assignments, one at a time, for as long as it
        likes.  Ghost fields of the callback: cur (the assignment it sees), seen / nseen (those it has seen so far), best."""
        if e.keywords or len(e.args) != 2:
            raise Gap('Solve with a callback')
        model, cb = (self.val(st, self.ev(x, st)) for x in e.args)
        return self.reporting(m, e, st, model, cb, lambda: self.apply_contract(self.C.funcs['CpSolver.Solve'], o, None, e, st,
                              binds={'self': o, 'model': model, 'callback': coerce(VNONE, OPT(REF('Callback')))}))

    def reporting(self, m, e, st, model, cb, solve):
        if len(self.fn_stack) > 1:
            raise Gap('Solve with a callback')
        K = isinstance(cb, Rec) and self.C.contract_for(self.repo, cb.c, 'on_solution_callback')
        if not K or not isinstance(model, Rec) or K.raises or any(not q.startswith('self.') for q in K.modifies):
            raise Gap('Solve with a callback without contract')
        r = self.repo.method(cb.c, 'on_solution_callback')
        if r is None or r[0] != cb.c:
            raise Gap('inherited callback')
        ext.use(self, 'ortools CpSolver.Solve with a solution callback (reports feasible assignments only; when it answers OPTIMAL an optimal assignment is among them)')
        n = self.call_ordinal(e, m)
        ann = self.spec_fn.callbacks.get(n, {})
        names = {'cb': cb, 'model': model}
        binds, old = self.fn_binds[-1], self.old_states[-1]
        ghost = lambda x, f, v: (self.havoc_place('cb.' + f, x, names), x.roots.__setitem__(cb.p + '.' + f, v))
        ghost(st, 'nseen', vint(0))
        pre = st.copy()

        def inv(x, oblige, tag):
            for i in ann.get('inv', []):
                self.pre_states.append(pre)
                try:
                    f = self.spec_eval(i, x, binds, old, names)
                finally:
                    self.pre_states.pop()
                if oblige:
                    self.ob(x, f, f'callback{n}-{tag}', e, i)
                else:
                    x.assume(f)
        self.assertions(ann.get('entry', []), st, names, pre, e, f'callback{n}-entry')
        inv(st, True, 'init')
        if K.allocs:
            a = fconst(I, '$alloc')
            st.assume(a >= self.alloc(st))
            self.set(st, '$alloc', (), vint(a))
        before = dict(st.roots)
        for q in K.modifies:
            self.havoc_place(q, st, {'self': cb})
        for f in ('seen', 'nseen', 'best'):
            self.havoc_place('cb.' + f, st, names)
        self.forget(st, before)
        F = lambda t, x: x.assume(self.spec_eval(t, x, {}, None, names))
        F('cb.nseen >= 0', st)
        # what the callback sees are members of the (arbitrary, countable) family of assignments
        member = z3.Function('assignment', z3.IntSort(), z3.ArraySort(z3.IntSort(), z3.BoolSort()))
        which, k = z3.Function(str(fresh(INT, 'seen').x), z3.IntSort(), z3.IntSort()), fresh(INT, 'k').x
        seen = self.get(st, cb.p + '.seen')
        st.assume(z3.ForAll([k], seen.x[k] == member(which(k)), patterns=[seen.x[k]]))
        F('all(feasible(model, cb.seen[k]) for k in range(cb.nseen))', st)
        # one more assignment
        body = st.copy()
        inv(body, False, '')
        ghost(body, 'cur', V(FMAP(BOOL), [member(fresh(INT, 'cur').x)]))
        F('feasible(model, cb.cur)', body)
        top, self.top_state = self.top_state, body.copy()
        raises = list(self.raises)
        self.apply_contract(K, cb, None, e, body, binds={'self': cb})
        self.raises = raises
        seen, k, cur = (self.get(body, cb.p + '.' + f) for f in ('seen', 'nseen', 'cur'))
        ghost(body, 'seen', V(seen.t, [z3.Store(seen.x, k.x, cur.x)]))
        ghost(body, 'nseen', vint(k.x + 1))
        self.assertions(ann.get('hint', []), body, names, pre, e, f'callback{n}')
        inv(body, True, 'step')
        self.top_state = top
        inv(st, False, '')
        res = solve()
        names['res'] = res
        F("""implies(res == 4 and model.hasobj, 0 <= cb.best and cb.best < cb.nseen and all(implies(feasible(model, sol),
            ite(model.maxim, dot(model.obj, sol) <= dot(model.obj, cb.seen[cb.best]), dot(model.obj, sol) >= dot(model.obj, cb.seen[cb.best]))) for sol in sols()))""", st)
        F('implies(res == 4 or res == 2, cb.nseen > 0) and implies(res == 3, cb.nseen == 0 and all(not feasible(model, sol) for sol in sols()))', st)
        return res

    def construct(self, cls, e, st):
        kind = self.C.kind(cls)
        if kind is None and cls in self.repo.classes:
            raise Gap(f'construction of {cls}')
        spec = self.C.funcs.get(f'{cls}.__new__')
        if spec is not None:
            return self.apply_contract(spec, None, spec.params, e, st)
        if kind == 'heap':
            n = self.alloc(st)
            o = V(REF(cls), [n])
            self.set(st, '$alloc', (), vint(simp(n + 1)))
            st.assume(specs.decl('classof', I, I)(n) == specs.sites('class:' + cls))
        else:
            o = Rec(f'{cls}!{self.call_uid(e)}', cls)
        r = self.repo.method(cls, '__init__')
        if r:
            self.call_fn(f'{cls}.__init__', self.C.contract_for(self.repo, cls, '__init__'),
                         self.repo.classes[r[0]][0], r[1], o, e, st, cls=r[0])
        return o

    def bind_args(self, node, so, e, st):
        """Parameter bindings (name -> binding) for a call."""
        a = node.args
        if a.vararg or a.kwarg or a.kwonlyargs or a.posonlyargs:
            raise Gap('star arguments')
        names = [x.arg for x in a.args]
        out = {}
        if so is not None:
            out[names.pop(0)] = so
        if any(isinstance(x, ast.Starred) for x in e.args):
            raise Gap('star call')
        vals = [self.ev(x, st) for x in e.args]
        if len(vals) > len(names):
            raise Gap('too many arguments')
        for n, v in zip(names, vals):
            out[n] = v
        for k in e.keywords:
            if k.arg is None or k.arg not in names:
                raise Gap('keyword argument')
            out[k.arg] = self.ev(k.value, st)
        dn = [x.arg for x in a.args][len(a.args) - len(a.defaults):]
        for n, d in zip(dn, a.defaults):
            if n not in out:
                out[n] = self.ev(d, st)
        for n in names:
            if n not in out:
                raise Gap(f'missing argument {n}')
        return out

    def call_fn(self, qual, spec, mod, node, so, e, st, cls=None):
        if spec is None:
            spec = self.C.funcs.get(qual)
        binds = self.bind_args(node, so, e, st)
        if spec is not None and not getattr(spec, 'inline', False):
            return self.apply_contract(spec, so, None, e, st, binds=binds)
        return self.inline(qual, mod, node, binds, st, cls)

    def inline(self, qual, mod, node, binds, st, cls):
        if qual in self.fn_stack or len(self.fn_stack) > 8:
            raise Gap(f'recursion through {qual}')
        self.inlined.add(qual)
        saved = self.cur
        base = st.copy()
        self.cur = self.new_frame()
        self.fn_stack.append(qual)
        self.fn_nodes.append(node)
        self.mod_stack.append(mod)
        self.cls_stack.append(cls)
        loops, st.loops = st.loops, list(st.loops)
        raises, self.raises = self.raises, []
        try:
            for k, b in binds.items():
                st.roots[self.loc(k)] = b
            outs = self.block(strip_doc(node.body), st)
        finally:
            frame = self.cur
            self.cur = saved
            self.fn_stack.pop()
            self.fn_nodes.pop()
            self.mod_stack.pop()
            self.cls_stack.pop()
        rs = []
        for kind, s, v in outs:
            if kind == 'raise':
                raises.append((s, v))
                continue
            if kind not in ('next', 'return'):
                raise Gap('inlined control flow')
            rs.append((s, v if kind == 'return' else VNONE))
        self.raises = raises + self.raises
        if not rs:
            raise Gap('inlined function never returns')
        s, v = rs[-1]
        for s2, v2 in reversed(rs[:-1]):
            n = common(s.pc, s2.pc)
            c = z3.And(s2.pc[n:] or [z3.BoolVal(True)])
            b2 = St()
            b2.pc = s.pc[:n]
            b2.loops = base.loops
            m = self.merge(c, s2, s, b2)
            if m is None:
                raise Gap(f'outcomes of {qual} cannot be merged')
            m.pc = s.pc[:n] + [z3.Or(c, z3.And(s.pc[n:] or [z3.BoolVal(True)]))] + m.pc[n:]
            if isinstance(v, V) and isinstance(v2, V):
                v = ite(c, v2, v)
            elif isinstance(v, (Alias, Fz)) or isinstance(v2, (Alias, Fz)):
                v = Fz(ite(c, self.val(s2, v2), self.val(s, v)), deps_of(v, v2))
            elif not v == v2:
                raise Gap('results cannot be merged')
            s = m
        # results that alias callee locals become plain values
        if isinstance(v, Alias) and v.root.startswith(frame + '$'):
            r0, s0 = self.resolve(s, v.root, v.steps)
            if r0.startswith(frame + '$'):
                d0 = self.depth(s, r0, s0)
                hs = [max(k - d0, 0) for r, k in s.shared if r == r0]
                v = self.val(s, v)
                if hs and has_container(v.t):
                    v = V(v.t, v.l, v.s, sh=(min(hs), []))
            else:
                v = Alias(r0, s0)
        st.shared = s.shared
        st.roots = {k: b for k, b in s.roots.items() if not k.startswith(frame + '$')}
        st.pc = s.pc
        st.loops = loops
        return v

    # ----------------------------------------------------------- contracts
    def spec_eval(self, src, st, binds, old=None, extra=None, what='bool'):
        """Evaluate a contract expression in state st with parameter
        bindings; returns a z3 Bool (or a value)."""
        node = ast.parse('(' + src.strip() + ')', mode='eval').body if isinstance(src, str) else src
        self.spec += 1
        env = dict(binds)
        if extra:
            env.update(extra)
        self.spec_env.append(env)
        self.old.append(old)
        try:
            r = self.ev(node, st)
            return self.truth(st, r) if what == 'bool' else r
        finally:
            self.old.pop()
            self.spec_env.pop()
            self.spec -= 1

    def rec_roots(self, p, cls):
        k, f, b = self.C.classes[cls]
        out = []
        for n, t in f.items():
            if isinstance(t, Ty) and t.k == 'rec':
                out += self.rec_roots(p + '.' + n, t.a[0])
            else:
                out.append((p + '.' + n, t))
        for x in b:
            out += self.rec_roots(p, x)
        return out

    def havoc_place(self, src, st, binds):
        node = ast.parse(src.strip(), mode='eval').body
        if isinstance(node, ast.Attribute) and isinstance(node.value, ast.Name) and \
                node.value.id in self.C.classes and node.value.id not in binds:
            root = self.heap(st, node.value.id, node.attr)
            self.havoc_root(st, root)
            return
        self.spec += 1
        self.spec_env.append(dict(binds))
        try:
            if isinstance(node, ast.Attribute):
                o = self.val(st, self.ev(node.value, st))
                if isinstance(o, Rec):
                    t = self.lookup_field(o, node.attr)
                    root = o.p + '.' + node.attr
                    if t.k == 'rec':
                        for r, rt in self.rec_roots(root, t.a[0]):
                            if r not in st.roots:
                                self.init_root(st, r, rt)
                            self.havoc_root(st, r)
                        if t.a[0] in ('MPSolver', 'CpModel'):
                            st.assume(*ext.wf(self, st, root, t.a[0]))
                        return
                    if root not in st.roots:
                        self.init_root(st, root, t)
                    self.havoc_root(st, root, t if self.C.tokens else None)
                    return
                if isinstance(o, V) and o.t.k in ('ref', 'opt'):
                    if o.t.k == 'opt':
                        o = V(o.t.a[0], o.l[1:])
                    root = self.heap(st, o.t.a[0], node.attr)
                    t = self.C.field(o.t.a[0], node.attr)
                    v = fresh(t, root)
                    self.set(st, root, (('i', o.x),), v)
                    st.assume(*self.tinv(v, st))
                    return
            if isinstance(node, ast.Name):
                b = self.name(st, node.id)
                if isinstance(b, Alias):
                    self.spec -= 1
                    try:
                        self.mutating(st, b.root, b.steps)
                    finally:
                        self.spec += 1
                    v = fresh(self.val(st, b).t, node.id)
                    self.set(st, b.root, b.steps, v)
                    st.assume(*self.tinv(v, st))
                    return
        finally:
            self.spec_env.pop()
            self.spec -= 1
        raise Gap(f'modifies {src}')

    def havoc_root(self, st, root, t=None):
        b = st.roots.get(root)
        if isinstance(b, Alias) or isinstance(b, Fz):
            b = V(self.val(st, b).t, [])
        if not isinstance(b, V):
            raise Gap(f'havoc of {root}')
        v = fresh(t or b.t, root)
        if self.log is not None:
            self.log.add(root)
        st.roots[root] = v
        st.assume(*self.tinv(v, st))

    def apply_contract(self, spec, so, params, e, st, binds=None):
        self.used_contracts.add(spec.qual)
        if binds is None:
            vals = [self.ev(x, st) for x in e.args]
            names = [n for n in spec.params if n != 'self']
            binds = dict(zip(names, vals))
            for k in e.keywords:
                binds[k.arg] = self.ev(k.value, st)
            if so is not None:
                binds['self'] = so
            for n in names:
                if n not in binds and isinstance(spec.params[n], Ty) and spec.params[n].k == 'opt':
                    binds[n] = coerce(VNONE, spec.params[n])
        # declared parameter types
        for n, t in spec.params.items():
            if n in binds and isinstance(binds[n], V) and isinstance(t, Ty) and binds[n].t != t:
                if binds[n].t.k == 'opt' and t.k != 'opt':
                    binds[n] = self.unopt(st, binds[n], e)
                binds[n] = coerce(binds[n], t)
        for i, r in enumerate(spec.requires):
            g = self.spec_eval(r, st, binds)
            self.ob(st, g, f'pre:{spec.qual}', e, r)
        for r in self.spec_fn.at.get(spec.qual.split('.')[-1], ()) if self.spec_fn is not None else ():
            ex = {'call_self': so} if so is not None else {}
            ex.update({'call_' + k: x for k, x in binds.items() if k != 'self'})
            self.ob(st, self.spec_eval(r, st, self.fn_binds[0], self.old_states[0], ex), f'at:{spec.qual}', e, r)
        pre = st.copy()
        ghosts = {}
        if spec.raises is True:
            self.raises.append((st.copy(), 'callee:' + spec.qual))
        elif spec.raises:
            c = self.spec_eval(spec.raises, st, binds)
            bad = st.copy()
            bad.pc.append(c)
            self.raises.append((bad, 'callee:' + spec.qual))
            st.pc.append(z3.Not(c))
        if spec.allocs:
            a = fconst(I, '$alloc')
            st.assume(a >= self.alloc(st))
            self.set(st, '$alloc', (), vint(a))
        before = dict(st.roots)
        for m in spec.modifies:
            self.havoc_place(m, st, binds)
        self.forget(st, before)
        for n in spec.captures:
            if n in binds and has_container(getattr(self.val(st, binds[n]), 't', None)):
                ps = self.places(st, binds[n])
                for r, k in ps:
                    if self.C.tokens and k == 0 and st.roots.get(r) is not before.get(r):
                        continue        # the callee replaced what this place holds
                    if self.is_field(r) and (self.declared(r) is None or self.declared(r) > k):
                        raise Gap(f'{spec.qual} keeps a container of {r}')
                    if r in self.params and r.split('$', 1)[1] not in self.spec_fn.captures:
                        raise Gap(f'{spec.qual} keeps parameter {r}')
                self.share(st, ps)
        extra = {}
        if spec.result is not None:
            t = spec.result
            if isinstance(t, str):
                t = self.parse_ty(t)
            if t.k == 'none':
                res = VNONE
            elif t.k == 'str':
                res = vstr()
            elif t.k == 'rec':
                res = Rec(f'res!{self.call_uid(e)}', t.a[0])
                for q, ty in self.rec_roots(res.p, res.c):
                    st.roots[q] = fresh(ty, q)
                    if self.log is not None:
                        self.log.add(q)
                    st.assume(*self.tinv(st.roots[q], st))
            else:
                res = fresh(t, spec.qual.split('.')[-1].split(':')[-1])
                if spec.result_shared and has_container(t):
                    res.sh = ('tup', [(0, []) if has_container(x) else None for x in t.a]) if t.k == 'tup' else (0, [])
                elif inner_container(t):
                    res.sh = (1, [])
                elif t.k == 'tup' and any(inner_container(x) for x in t.a):
                    res.sh = ('tup', [(1, []) if inner_container(x) else None for x in t.a])
                st.assume(*self.tinv(res, st))
            extra['result'] = res
        else:
            res = VNONE
        for n in spec.ensures:
            g = self.spec_eval_callsite(spec, n, st, binds, pre, extra)
            st.assume(g)
        if spec.lends:
            for r in spec.lends:
                self.heap(st, *r.split('.'))
            return Fz(res, set(spec.lends), [(r, 0) for r in spec.lends])
        return res

    def forget(self, st, before):
        """Names of containers in places a call may have filled with other objects."""
        gone = {r for r, b in before.items() if st.roots.get(r) is not b and '$' not in r}
        for r, b in list(st.roots.items()):
            if isinstance(b, (Alias, Fz)) and (deps_of(b) & gone or isinstance(b, Fz) and '$any' in b.deps):
                st.roots[r] = UNDEF
                if self.log is not None:
                    self.log.add(r)

    def spec_eval_callsite(self, spec, n, st, binds, pre, extra):
        if spec.ghosts and any(isinstance(x, ast.Name) and x.id in spec.ghosts for x in ast.walk(ast.parse('(' + n.strip() + ')'))):
            return z3.BoolVal(True)      # clauses over ghost parameters are not used by callers
        return self.spec_eval(n, st, binds, pre, extra)

    # ---------------------------------------------------- spec functions
    def spec_params(self, params):
        return [(n, t) for n, t in params.items()]

    def read_roots(self, reads, st):
        out = []
        for r in reads:
            c, f = r.split('.')
            if c in self.C.classes and self.C.kind(c) == 'heap':
                out.append((r, self.val(st, V(FMAP(self.C.field(c, f)), self.get(st, self.heap(st, c, f)).l))))
            else:
                raise Gap(f'reads {r}')
        return out

    def apply_pred(self, name, args, st):
        params, body, opaque, ret, reads = self.C.preds[name]
        ps = self.spec_params(params)
        if len(ps) != len(args):
            raise Gap(f'arity of {name}')
        if not opaque:
            env = {}
            for (n, t), a in zip(ps, args):
                if isinstance(a, (Rec, Static)):
                    env[n] = a
                    continue
                if isinstance(a, Alias) and t is not None and self.val(st, a).t == t:
                    env[n] = a
                    continue
                v = self.val(st, a)
                env[n] = coerce(v, t) if t is not None else v
            self.spec_env.append(env)
            try:
                return self.ev(body, st)
            finally:
                self.spec_env.pop()
        leaves = []
        for (n, t), a in zip(ps, args):
            leaves += coerce(self.need(self.val(st, a)), t).l
        reads = self.reads_of(name, ps, [body], reads)
        for r, v in self.read_roots(reads, st):
            leaves += v.l
        rs = sorts(ret)
        fs = [specs.decl(name if len(rs) == 1 else f'{name}.{i}', *[x.sort() for x in leaves], s) for i, s in enumerate(rs)]
        if fs[0].name() not in specs.AX:
            self.def_axiom(name, ps, reads, body, ret, fs)
            specs.DEFS.update(f.name() for f in fs)
        return V(ret, [f(*leaves) for f in fs])

    def def_env(self, ps, reads):
        env, vs = {}, []
        for n, t in ps:
            v = fresh(t, 'd_' + n)
            env[n] = v
            vs += v.l
        s = St()
        for r in reads:
            c, f = r.split('.')
            v = fresh(FMAP(self.C.field(c, f)), 'd_' + r)
            s.roots[r] = v
            vs += v.l
        s.roots['$alloc'] = vint(fconst(I, 'd_alloc'))
        return env, vs, s

    def isolated(self, f):
        keep = (self.spec_env, self.old, self.spec, self.cur, self.log, self.dry, self.entry_facts)
        self.spec_env, self.old, self.spec, self.log, self.dry, self.entry_facts = [], [], 1, None, 1, {}
        self.cur = 'spec'
        try:
            return f()
        finally:
            self.spec_env, self.old, self.spec, self.cur, self.log, self.dry, self.entry_facts = keep

    def reads_of(self, name, ps, bodies, reads, idx=None, ret=None):
        """The heap fields a specification function depends on: its definition is evaluated once to find them."""
        memo = self.__dict__.setdefault('reads_memo', {})
        if name not in memo:
            memo[name] = list(reads)       # a definition never mentions itself

            def run():
                env, vs, s = self.def_env(ps, reads)
                if idx is not None:
                    env[idx], env['prev'] = vint(fconst(I, 'd_k')), fresh(ret, 'd_prev')
                self.spec_env.append(env)
                for b in bodies:
                    self.val(s, self.ev(b, s))
                out = list(reads)
                for r in s.roots:
                    if r in out or r == '$alloc':
                        continue
                    c = r.split('.')[0]
                    if r.count('.') != 1 or c not in self.C.classes or self.C.kind(c) != 'heap':
                        raise Gap(f'{name} depends on {r}')
                    out.append(r)
                return out
            try:
                memo[name] = self.isolated(run)
            except BaseException:
                del memo[name]
                raise
        return memo[name]

    def def_axiom(self, name, ps, reads, body, ret, fs):
        specs.AX[fs[0].name()] = []      # recursion guard

        def mk():
            env, vs, s = self.def_env(ps, reads)
            self.spec_env.append(env)
            b = self.val(s, self.ev(body, s))
            b = vbool(self.truth(s, b)) if ret == BOOL else coerce(b, ret)
            if s.pc:
                raise Gap(f'{name}: body needs assumptions')
            out = []
            for f, x in zip(fs, b.l):
                if z3.is_quantifier(x) and x.is_lambda():       # a map is defined value by value
                    i = fconst(I, 'd_i')
                    c = z3.Select(f(*vs), i)
                    out.append(z3.ForAll(vs + [i], c == z3.substitute_vars(x.body(), i), patterns=[c]))
                else:
                    out.append(z3.ForAll(vs, f(*vs) == x, patterns=[f(*vs)]))
            return out
        specs.AX[fs[0].name()] = self.isolated(mk)

    def apply_rec(self, name, args, st):
        params, idx, body, ret, reads, base = self.C.recs[name]
        ps = self.spec_params(params)
        leaves = []
        for (n, t), a in zip(ps, args[:-1]):
            leaves += coerce(self.need(self.val(st, a)), t).l
        reads = self.reads_of(name, ps, [body] + ([base] if base is not None else []), reads, idx, ret)
        for r, v in self.read_roots(reads, st):
            leaves += v.l
        n = coerce(args[-1], INT).x
        s = sorts(ret)[0]
        f = specs.decl(name, *[x.sort() for x in leaves], I, s)
        if name not in specs.AX:
            specs.AX[name] = []
            f0 = specs.decl(name + '_0', *[x.sort() for x in leaves], I, s)

            def mk():
                env, vs, stt = self.def_env(ps, reads)
                k = fconst(I, 'd_k')
                env[idx] = vint(k - 1)
                env['prev'] = V(ret, [f0(*vs, k - 1)])
                self.spec_env.append(env)
                b = coerce(self.val(stt, self.ev(body, stt)), ret).x
                if stt.pc:
                    raise Gap(f'{name}: body needs assumptions')
                zero = z3.IntVal(0) if ret == INT else z3.RealVal(0)
                extra = []
                if base is not None:
                    zero = coerce(self.val(stt, self.ev(base, stt)), ret).x
                    return [z3.ForAll(vs + [k], f(*vs, k) == z3.If(k <= 0, zero, b), patterns=[f(*vs, k)]),
                            z3.ForAll(vs + [k], f(*vs, k) == f0(*vs, k), patterns=[f(*vs, k)])]
                if name in self.C.mono:
                    # lemma (proved by induction: obligations in mono_lemma)
                    j = fconst(I, 'd_j')
                    bj = z3.substitute(b, (k, j + 1))
                    extra = [z3.ForAll(vs + [j, k], z3.Implies(z3.And(0 <= j, j < k), f(*vs, j) + bj <= f(*vs, k)),
                                       patterns=[z3.MultiPattern(f(*vs, j), f(*vs, k))]),
                             z3.ForAll(vs + [k], f(*vs, k) >= 0, patterns=[f(*vs, k)])]
                    self.mono_body[name] = (vs, k, b)
                return extra + [z3.ForAll(vs + [k], f(*vs, k) == z3.If(k <= 0, zero, f0(*vs, k - 1) + b), patterns=[f(*vs, k)]),
                        z3.ForAll(vs + [k], f(*vs, k) == f0(*vs, k), patterns=[f(*vs, k)])]
            specs.AX[name] = self.isolated(mk)
            # monotone/nonnegative facts are separate lemmas (see lemmas in the contracts)
        return V(ret, [f(*leaves, n)])

    def apply_lemma(self, name, args, st):
        L = self.C.lemmas[name]
        if len(args) != len(L['params']):
            raise Gap(f'arity of {name}')
        env = {n: coerce(a, t) for (n, t), a in zip(L['params'].items(), args)}
        self.used_contracts.add('lemma:' + name)
        req = [self.spec_eval(r, st, env) for r in L['requires']]
        if self.applying is not None:   # what does not depend on a bound variable is shown once
            self.applying += [r for r in req if not bound_in(r)]
            req = [r for r in req if bound_in(r)]
        if self.lemma_now is not None and self.lemma_now[0] == name:
            if not L['induct']:
                raise Gap(f'{name} uses itself')
            req += [env[L['induct']].x >= 0, env[L['induct']].x < self.lemma_now[1]]
        return vbool(z3.Implies(z3.And(req), z3.And([self.spec_eval(r, st, env) for r in L['ensures']])))

    def verify_lemma(self, name):
        L = self.C.lemmas[name]
        self.spec_fn = None
        self.fn_stack, self.fn_nodes, self.mod_stack, self.cls_stack = ['lemma:' + name], [None], [None], [None]
        self.raises, self.mods, self.pre_states, self.fn_binds, self.old_states = [], {}, [], [], []
        self.cur, self.rename, self.decls, self.params = 'f0', {}, {}, set()
        self.cur0, self.keys, self.top_state, self.applying, self.mods_stack = 'f0', [], None, None, []
        st, binds = St(), {}
        for p, t in L['params'].items():
            ss = sorts(t)
            binds[p] = V(t, [z3.Const(f'{p}.{j}' if len(ss) > 1 else p, s) for j, s in enumerate(ss)])
            st.assume(*self.tinv(binds[p], st))
        self.fn_binds, self.old_states = [binds], [None]
        for r in L['requires']:
            st.assume(self.spec_eval(r, st, binds))
        self.vac = list(st.pc)
        self.lemma_now = (name, binds[L['induct']].x if L['induct'] else None)
        for r in L['uses']:
            st.assume(self.spec_eval(r, st, binds))
        self.lemma_now = None
        for r in L['asserts']:
            self.hint(r, st, binds, None, {}, 'assertion', None)
        for r in L['ensures']:
            self.ob(st, self.spec_eval(r, st, binds), 'lemma', None, r)
        self.exits = [st]
        return [st]

    def count_lemmas(self, st, cnt, n, i, cond):
        """The number of selected elements equals a counting function named by
        the contract: proved by induction (start and step are obligations)."""
        sp = self.spec_fn
        if self.spec or sp is None or not sp.counts or len(self.fn_stack) != 1:
            return
        for src in sp.counts:
            at = lambda x: coerce(self.val(st, self.spec_eval(src, st, self.fn_binds[-1], self.old_states[-1], {'_i': vint(x)}, what='val')), INT).x
            j = fconst(I, 'cj')
            self.ob(st, at(z3.IntVal(0)) == 0, 'count-start', None, src)
            s2 = st.copy()
            s2.assume(j >= 0, j < n)
            self.ob(s2, at(j + 1) - at(j) == z3.If(z3.substitute(cond, (i, j)), 1, 0), 'count-step', None, src)
            k = fconst(I, 'ck')
            st.assume(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k <= n), cnt(k) == at(k)), patterns=[cnt(k)]), cnt(n) == at(n))

    def apply_lambda(self, lam, args, st):
        n = lam.node
        env = {a.arg: v for a, v in zip(n.args.args, args)}
        self.spec_env.append(env)
        try:
            return self.ev(n.body, st)
        finally:
            self.spec_env.pop()

    def parse_ty(self, s):
        return eval(s, {k: v for k, v in globals().items() if isinstance(v, Ty) or callable(v)})

    # ---------------------------------------------------------- statements
    def block(self, stmts, st):
        """[(kind, state, value)] with kind in next/return/break/continue/raise"""
        live = [st]
        done = []
        for s in stmts:
            nxt = []
            for x in live:
                for k, y, v in self.stmt(s, x):
                    if k == 'next':
                        nxt.append(y)
                    else:
                        done.append((k, y, v))
            live = nxt
            if not live:
                break
            if len(live) > 64:
                raise Gap('too many paths')
        return [('next', x, None) for x in live] + done

    def stmt(self, s, st):
        m = getattr(self, 'st_' + type(s).__name__, None)
        if m is None:
            raise Gap(f'statement {type(s).__name__}')
        return m(s, st) or [('next', st, None)]

    def st_Pass(self, s, st):
        pass

    def st_Global(self, s, st):
        raise Gap('global')

    def st_Import(self, s, st):
        pass

    st_ImportFrom = st_Import

    def st_Expr(self, s, st):
        if isinstance(s.value, ast.Constant):
            return
        if isinstance(s.value, ast.Call):
            f = s.value.func
            if isinstance(f, ast.Name) and f.id == 'print':
                return
            if isinstance(f, ast.Attribute) and f.attr in ('print_path', 'print_stats'):
                return
        self.ev(s.value, st)

    def st_Assert(self, s, st):
        t = self.evb(s.test, st)
        if self.spec_fn is not None and self.spec_fn.raises is True and not self.spec_fn.raise_ensures:
            pass
        elif self.spec_fn is not None and self.spec_fn.raises is not None:
            bad = st.copy()
            bad.pc.append(z3.Not(t))
            self.raises.append((bad, f'assert@{s.lineno}'))
        else:
            self.ob(st, t, 'assert', s, ast.unparse(s.test))
        st.pc.append(t)

    def st_Raise(self, s, st):
        return [('raise', st, ast.unparse(s)[:80])]

    def st_Return(self, s, st):
        v = self.ev(s.value, st) if s.value is not None else VNONE
        return [('return', st, v)]

    def st_Break(self, s, st):
        return [('break', st, None)]

    def st_Continue(self, s, st):
        return [('continue', st, None)]

    def st_Delete(self, s, st):
        raise Gap('del')

    def st_AnnAssign(self, s, st):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, st), st, s.value)

    def st_Assign(self, s, st):
        v = self.ev(s.value, st)
        node = s.value
        for t in s.targets:
            self.assign(t, v, st, node)
            if len(s.targets) > 1 and isinstance(v, V) and has_container(v.t):
                # one object, several names
                if not isinstance(t, (ast.Name, ast.Attribute)):
                    raise Gap('chained assignment of a container')
                node = to_load(t)
                v = self.ev(node, st)

    def st_AugAssign(self, s, st):
        load = ast.copy_location(to_load(s.target), s.target)
        if isinstance(s.op, ast.Add):
            cur = self.ev(load, st)
            cv = self.val(st, cur)
            if isinstance(cv, V) and cv.t.k == 'list':
                x = self.evv(s.value, st)
                if not isinstance(cur, Alias) or inner_container(x.t):
                    raise Gap('+= on a list')
                self.mutating(st, cur.root, cur.steps)
                self.set(st, cur.root, cur.steps, self.concat(cv, x))
                return
        b = ast.copy_location(ast.BinOp(left=load, op=s.op, right=s.value), s)
        self.assign(s.target, self.ev(b, st), st, b)

    def st_Try(self, s, st):
        # the handlers catch IndexError only as a debugging aid: the body is
        # verified to raise nothing, so the handlers are unreachable
        if s.finalbody or s.orelse:
            raise Gap('try/finally')
        return self.block(s.body, st)

    def assign(self, t, v, st, node):
        if isinstance(t, ast.Name):
            r = self.loc(t.id)
            if isinstance(v, V) and v.t.k in ('list', 'dict', 'set') and isinstance(node, ast.Name):
                # two names for one local container
                b = self.name(st, node.id)
                if isinstance(b, Alias):
                    v = b
            if isinstance(v, Alias) and self.val(st, v).t.k not in ('list', 'dict', 'set', 'opt'):
                v = self.val(st, v)
            if isinstance(v, Alias) and v.root == r:
                return
            self.detach(st, r, ())
            if self.log is not None:
                self.log.add(r)
            if isinstance(v, V) and r in self.decls and self.decls[r].k == 'rec' and v.t == DICT(None, None):
                # a dict with the keys of a declared record; an entry not stored yet is no object
                v = Rec(f'dict!{getattr(t, "lineno", 0)}_{self.cur}', self.decls[r].a[0])
                for q, ty in self.rec_roots(v.p, v.c):
                    if ty.k != 'ref':
                        raise Gap('record with plain entries')
                    st.roots[q] = V(ty, [z3.IntVal(-1)])
            if isinstance(v, V) and r in self.decls:
                if v.t.k == 'opt' and self.decls[r].k != 'opt':
                    v = self.unopt(st, v, t)
                v = coerce(v, self.decls[r])
            if isinstance(v, V):
                st.shared = frozenset(x for x in st.shared if x[0] != r)
                self.storing(st, v, r, ())
            st.roots[r] = v
            return
        if isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(v, Static) and v.k in ('pytuple', 'pylist'):
                parts = v.items
            else:
                v = self.need(self.val(st, v))
                if v.t.k != 'tup' or len(v.t.a) != len(t.elts):
                    raise Gap('tuple assignment')
                parts = untup(v)
            for x, y in zip(t.elts, parts):
                self.assign(x, y, st, None)
            return
        if isinstance(t, ast.Attribute):
            o = self.val(st, self.ev(t.value, st))
            if isinstance(o, Rec):
                ft = self.lookup_field(o, t.attr)
                if ft is None:
                    raise Gap(f'unknown attribute {o.c}.{t.attr}')
                root = o.p + '.' + t.attr
                if self.C.field(o.c, 'has__' + t.attr) is not None:      # from now on hasattr holds
                    st.roots[f'{o.p}.has__{t.attr}'] = vbool(True)
                    if self.log is not None:
                        self.log.add(f'{o.p}.has__{t.attr}')
                steps = ()
            elif isinstance(o, V) and o.t.k in ('ref', 'opt'):
                o = self.unopt(st, o, t)
                ft = self.C.field(o.t.a[0], t.attr)
                if isinstance(ft, Static):
                    if isinstance(v, Static) and v == ft:
                        return
                    raise Gap(f'store of another object in {t.attr}')
                root = self.heap(st, o.t.a[0], t.attr)
                steps = (('i', o.x),)
            else:
                raise Gap(f'attribute store on {o}')
            if isinstance(ft, Static) or ft.k == 'rec':
                if self.val(st, v) is v or True:
                    # replacing a static sub-object
                    if isinstance(v, Rec):
                        if ft.k == 'rec' and v.c == ft.a[0] and v.p != root:
                            self.copy_rec(st, v, root)
                            for r, b in list(st.roots.items()):
                                if isinstance(b, Rec) and b.p == v.p:
                                    st.roots[r] = Rec(root, v.c)
                                    if self.log is not None:
                                        self.log.add(r)
                            return
                        if v.p == root:
                            return
                    if isinstance(v, Static) and isinstance(ft, Static):
                        return
                    raise Gap(f'store of a static object in {root}')
            val = self.val(st, v)
            if isinstance(val, (Static, Rec)):
                raise Gap(f'store of {getattr(val, "k", val)} in {root}')
            if val.t.k == 'opt' and ft.k != 'opt':
                val = self.unopt(st, val, t)
            # an attribute may hold a text first and a list later
            nv = val if self.C.tokens and not steps and val.t == INT and ft.k == 'list' else coerce(val, ft)
            if self.log is not None:
                self.log.add(root)
            self.root_field[root] = f'{o.c}.{t.attr}' if isinstance(o, Rec) else root
            self.storing(st, v, root, steps, self.owner(st, node, v))
            self.detach(st, root, steps)
            if steps:
                if root not in st.roots:
                    self.heap(st, o.t.a[0], t.attr)
                self.set(st, root, steps, nv)
            else:
                st.roots[root] = nv
            self.home(st, node, root, steps, nv, v)
            return
        if isinstance(t, ast.Subscript):
            o = self.ev(t.value, st)
            if isinstance(o, V) and not isinstance(o, Alias):
                raise Gap('store into a temporary')
            if isinstance(o, Rec):
                k = self.val(st, self.ev(t.slice, st))
                if isinstance(k, V) and k.s is not None:
                    a = ast.Attribute(value=t.value, attr=k.s, ctx=ast.Store())
                    return self.assign(a, v, st, node)
            if isinstance(o, Static) and o.k == 'pydict':
                k = self.val(st, self.ev(t.slice, st))
                if isinstance(k, V) and k.s is not None:
                    o.items[k.s] = v
                    return
            if not isinstance(o, Alias):
                raise Gap('subscript store')
            cv = self.val(st, o)
            steps = o.steps
            if cv.t.k == 'opt':
                cv = self.unopt(st, cv, t)
                steps = steps + (('o',),)
            val = self.need(self.val(st, v), 'stored value')
            if cv.t.k == 'dict':
                kv = self.evv(t.slice, st)
                kv = self.unopt(st, kv, t)
                if cv.t.a[0] is None:
                    cv = coerce(cv, DICT(kv.t if kv.t.k != 'bool' else INT, val.t))
                    self.set(st, o.root, steps, cv)
                step = (('k',) + tuple(keyleaves(kv, cv.t.a[0])),)
                vt = cv.t.a[1]
                if vt is not None and val.t != vt:
                    try:
                        val = coerce(val, join_ty(vt, val.t))
                    except Gap:
                        pass
            elif cv.t.k == 'list':
                i = self.unopt(st, self.evv(t.slice, st), t)
                self.ob(st, z3.And(i.x >= 0, i.x < cv.l[0]), 'index', t, ast.unparse(t))
                step = (('i', i.x),)
            elif cv.t.k == 'fmap':
                step = (('i', self.evv(t.slice, st).x),)
            else:
                raise Gap(f'subscript store into {cv.t}')
            self.mutating(st, o.root, steps)
            if has_container(val.t):
                self.storing(st, v, o.root, steps + step, self.owner(st, node, v))
                self.detach(st, *self.resolve(st, o.root, steps + step))
            self.set(st, o.root, steps + step, val)
            if val.t.k in ('list', 'dict', 'set'):
                self.home(st, node, o.root, steps + step, val, v)
            return
        raise Gap('assignment target')

    def copy_rec(self, st, v, root):
        if any(r.startswith(v.p + '.') for r, k in st.shared) and not self.spec:
            raise Gap(f'{v.p} shares containers')
        for r, t in self.rec_roots(v.p, v.c):
            if r in st.roots and isinstance(st.roots[r], V):
                st.roots[root + r[len(v.p):]] = st.roots[r]
                if self.log is not None:
                    self.log.add(root + r[len(v.p):])

    def home(self, st, node, root, steps, nv, v):
        """After `place = local` for a container, the local denotes the place
        (one object, two names)."""
        if nv.t.k in ('list', 'dict', 'set') and isinstance(node, ast.Name):
            r = self.loc(node.id)
            b = st.roots.get(r)
            if isinstance(b, V):
                if b.t == nv.t:
                    if self.log is not None:
                        self.log.add(r)
                    for k, x in list(st.roots.items()):
                        if isinstance(x, Alias) and x.root == r:
                            st.roots[k] = Fz(self.val(st, x))
                    st.roots[r] = Alias(root, steps)
                else:
                    st.roots[r] = Fz(nv, {root})
            elif isinstance(b, Alias) and not (b.root == root):
                # a container reachable from two places: both become read-only
                # through this name
                st.roots[r] = Fz(self.val(st, b), {root, b.root})

    def st_If(self, s, st):
        c = self.evb(s.test, st)
        cs = z3.simplify(c)
        base = st.copy()
        s1, s2 = st, st.copy()
        s1.pc.append(c)
        s2.pc.append(z3.Not(c))
        o1 = [] if z3.is_false(cs) else self.block(s.body, s1)
        o2 = [] if z3.is_true(cs) else (self.block(s.orelse, s2) if s.orelse else [('next', s2, None)])
        n1 = [x for x in o1 if x[0] == 'next']
        n2 = [x for x in o2 if x[0] == 'next']
        rest = [x for x in o1 + o2 if x[0] != 'next']
        if len(n1) == 1 and len(n2) == 1:
            a, b = n1[0][1], n2[0][1]
            # drop the condition itself from the branch facts, but keep facts
            # learnt from early exits inside the branch
            a2, b2 = a.copy(), b.copy()
            a2.pc = [f for i, f in enumerate(a.pc) if i != len(base.pc)]
            b2.pc = [f for i, f in enumerate(b.pc) if i != len(base.pc)]
            m = self.merge(c, a2, b2, base)
            if m is not None:
                return [('next', m, None)] + rest
        return n1 + n2 + rest

    def st_With(self, s, st):
        raise Gap('with')

    # --------------------------------------------------------------- loops
    def loop_ann(self, node):
        """(annotation, ordinal) for a loop of the function being executed."""
        fn = self.fn_nodes[-1]
        ls = loops_of(fn)
        for i, l in enumerate(ls):
            if l is node:
                k = i
                break
        else:
            k = -1
        q = self.fn_stack[-1]
        spec = self.spec_fn if len(self.fn_stack) == 1 else self.C.funcs.get(q) or self.C.inl.get(q)
        if spec is None:
            return {}, k
        return spec.loops.get(k, spec.loops.get(str(k), {})), k

    def iter_setup(self, node, st):
        """(kind, data) describing the iteration."""
        it = node.iter
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == 'enumerate':
            inner = self.ev(it.args[0], st)
            v = self.unopt(st, self.val(st, inner), node)
            return 'enum', inner, v
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == 'zip':
            inner = [self.ev(a, st) for a in it.args]
            return 'zip', inner, [self.unopt(st, self.val(st, b), node) for b in inner]
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Attribute) and it.func.attr in ('keys',) and not it.args:
            o = self.ev(it.func.value, st)
            v = self.val(st, o)
            if isinstance(v, V) and v.t.k == 'dict':
                return 'dict', o, v
            if isinstance(v, Rec):
                return 'rec', None, v
        o = self.ev(it, st)
        if isinstance(o, Static):
            if o.k == 'range':
                return 'range', None, o
            if o.k in ('pylist', 'pytuple'):
                return 'static', None, o
            raise Gap(f'iteration over {o.k}')
        if isinstance(o, Rec):
            return 'rec', None, o
        v = self.unopt(st, self.val(st, o), node)
        if isinstance(o, Alias) and self.val(st, o).t.k == 'opt':
            o = Alias(o.root, o.steps + (('o',),))
        if v.t.k == 'list' and v.t.a[0] is None:
            return 'static', None, Static('pylist', items=[])
        if v.t.k in ('list', 'mat'):
            return 'list', o, v
        if v.t.k == 'set':
            return 'set', o, v
        if v.t.k == 'dict':
            return 'dict', o, v
        raise Gap(f'iteration over {v.t}')

    def st_For(self, s, st):
        if s.orelse:
            raise Gap('for/else')
        kind, src, v = self.iter_setup(s, st)
        if kind == 'static' or kind == 'rec':
            if kind == 'rec':
                items = [vstr(n) for n in self.C.classes[v.c][1]]
            else:
                items = v.items
            live, done = [st], []
            for x in items:
                nxt = []
                for y in live:
                    self.assign(s.target, x, y, None)
                    for k, z, r in self.block(s.body, y):
                        if k in ('next', 'continue'):
                            nxt.append(z)
                        elif k == 'break':
                            done.append(('next', z, None))
                        else:
                            done.append((k, z, r))
                live = nxt
            return [('next', x, None) for x in live] + done
        return self.loop(s, st, kind, src, v)

    def st_While(self, s, st):
        if s.orelse:
            raise Gap('while/else')
        return self.loop(s, st, 'while', None, None)

    def dry_run(self, s, st, run):
        """Roots written by one iteration, and their types afterwards."""
        key = (id(s), tuple(self.fn_stack))
        mods = set(self.mods.get(key, ()))
        outer_log, self.log = self.log, set()
        self.dry += 1
        raises = list(self.raises)
        types = {}
        try:
            for _ in range(6):
                x = st.copy()
                again = False
                for r in sorted(mods):
                    b = x.roots.get(r)
                    if isinstance(b, (V, Alias, Fz)):
                        val = self.val(x, b)
                        if isinstance(val, V):
                            t = types.get(r, val.t)
                            x.roots[r] = fresh(t, r)
                outs = run(x)
                new = {r for r in self.log}
                for k, y, v in outs:
                    if not y.shared <= st.shared:
                        st.shared = st.shared | y.shared
                        again = True
                    for r in new:
                        b = y.roots.get(r)
                        b0 = st.roots.get(r)
                        if isinstance(b, Maybe):
                            b = b.b
                        if b0 is None and isinstance(b, V) and ('$' not in r or r.startswith('$')):
                            self.init_root(st, r, b.t)
                            b0 = st.roots[r]
                        if b0 is None or b is None:
                            continue
                        if b is UNDEF and b0 is not UNDEF:
                            self.loop_undef.add((id(s), r))
                        if isinstance(b, (Alias, Fz)):
                            q = (id(s), r)
                            self.loop_deps[q] = self.loop_deps.get(q, frozenset()) | deps_of(b)
                        bv, b0v = self.val(y, b), self.val(st, b0)
                        if isinstance(bv, V) and isinstance(b0v, V):
                            try:
                                types[r] = join_ty(types.get(r, b0v.t), bv.t)
                            except Gap:
                                types[r] = bv.t
                if new <= mods and not again and all(self.val(x, x.roots[r]).t == t if isinstance(x.roots.get(r), V) else True
                                       for r, t in types.items()):
                    break
                mods |= new
        finally:
            self.dry -= 1
            self.raises = raises
            log = self.log
            self.log = outer_log
            if self.log is not None:
                self.log |= log
        self.mods[key] = mods
        return mods, types

    def loop(self, s, st, kind, src, v):
        ann, ordinal = self.loop_ann(s)
        depth = len(st.loops)
        entry = st.copy()

        if kind == 'range':
            if not (z3.is_int_value(v.lo)):
                pass
            lo, hi = v.lo, v.hi
            n = z3.If(hi > lo, hi - lo, z3.IntVal(0)) if not (z3.is_int_value(lo) and lo.as_long() == 0 and
                                                              self.known_nonneg(hi)) else hi - lo
            n = simp(n)
        elif kind in ('list', 'enum'):
            n = v.l[0]
        elif kind == 'zip':
            n = v[0].l[0]
            for w in v[1:]:
                n = simp(z3.If(w.l[0] < n, w.l[0], n))
        else:
            n = None

        def bind(x, k):
            """Bind the loop target for iteration k (element k for sets)."""
            if kind == 'range':
                self.assign(s.target, vint(simp(lo + k)), x, None)
            elif kind == 'list':
                e = self.proj(v, ('i', k))
                if e.t.k in ('list', 'dict', 'set', 'opt') and isinstance(src, Alias):
                    self.assign(s.target, Alias(src.root, src.steps + (('i', k),)), x, None)
                else:
                    self.assign(s.target, Fz(e, deps_of(src) or {'$any'}) if has_container(e.t) and e.t.k != 'tup' else e, x, None)
            elif kind == 'enum':
                e = self.proj(v, ('i', k))
                self.assign(s.target.elts[0], vint(k), x, None)
                if e.t.k in ('list', 'dict', 'set', 'opt') and isinstance(src, Alias):
                    self.assign(s.target.elts[1], Alias(src.root, src.steps + (('i', k),)), x, None)
                else:
                    self.assign(s.target.elts[1], Fz(e, deps_of(src) or {'$any'}) if has_container(e.t) and e.t.k != 'tup' else e, x, None)
            elif kind == 'zip':
                for tt, w, b in zip(s.target.elts, v, src):
                    e = self.proj(w, ('i', k))
                    self.assign(tt, Fz(e, {'$any'}) if has_container(e.t) else e, x, None)
            elif kind in ('set', 'dict'):
                self.assign(s.target, vint(k) if kind == 'set' else V(v.t.a[0], k if isinstance(k, list) else [k]), x, None)

        def once(x, k):
            x.loops = entry.loops + [k if not isinstance(k, list) else k[0]]
            if kind == 'while':
                c = self.evb(s.test, x)
                x.pc.append(c)
            else:
                bind(x, k)
            self.keys.append((self.cur, len(self.fn_stack), ann.get('keys')))
            try:
                return self.block(s.body, x)
            finally:
                self.keys.pop()

        # dry run: which roots does an iteration write?
        def dry(x):
            k = fconst(I, 'dk') if not (kind == 'dict' and nkeys(v.t.a[0]) > 1) else \
                [fconst(I, 'dk') for _ in range(nkeys(v.t.a[0]))]
            return once(x, k)
        mods, types = self.dry_run(s, st, dry)
        ghosts = ann.get('ghost', {})
        # the container iterated over must be the same after every iteration
        steady = []
        for b, w in zip(src, v) if kind == 'zip' else [(src, v)] if src is not None else []:
            if isinstance(b, Alias) and {b.root, self.resolve(st, b.root)[0]} & mods:
                if b.steps and b.steps[-1] == ('o',):
                    raise Gap('optional container changed while iterated over')
                held = kind in ('list', 'enum') and w.t.k == 'list' and w.t.a[0].k in ('list', 'dict', 'set', 'opt')
                steady.append((b, w.l[:1] if kind == 'dict' or held else w.l))
            elif isinstance(b, Fz) and (b.deps & mods or '$any' in b.deps and any(
                    has_container(getattr(self.val(st, st.roots[r]), 't', None)) for r in mods if r in st.roots)):
                raise Gap('container of unknown identity iterated over while containers change')

        # coerce the entry state to the joined types
        for r, t in types.items():
            b = st.roots.get(r)
            if isinstance(b, V) and b.t != t:
                st.roots[r] = coerce(b, t)
        pre = st.copy()
        tag = f'loop{ordinal}'
        invs = list(ann.get('inv', []))

        def names(k, done, x):
            ex = {}
            if kind in ('set', 'dict'):
                ex['_done'] = V(SETI, [done]) if kind == 'set' or nkeys(v.t.a[0]) == 1 else Static('raw', x=done)
                ex['_it'] = v
            else:
                ex['_k'] = vint(k)
                ex[f'_k{depth}'] = vint(k)
                if n is not None:
                    ex['_n'] = vint(n)
            for d, t in enumerate(entry.loops):
                ex.setdefault(f'_k{d}', vint(t))
            if kind in ('list', 'enum'):
                ex['_it'] = v
            ex.update({g: self.ghostval(x, g) for g in ghosts})
            return ex

        def inv_terms(x, k, done):
            out = []
            for i in invs:
                self.pre_states.append(pre)
                try:
                    out.append((i, self.spec_eval(i, x, self.fn_binds[-1], self.old_states[-1], names(k, done, x))))
                finally:
                    self.pre_states.pop()
            for b, w in steady:
                if not isinstance(x.roots.get(b.root), (V, Alias)):
                    raise Gap('container iterated over is rebound')
                y = self.val(x, b)
                if y.t.k == 'list' and kind in ('list', 'enum', 'zip'):
                    j = fconst(I, 'q')
                    f = z3.And([y.l[0] == w[0]] + ([z3.ForAll([j], z3.Implies(z3.And(j >= k, j < w[0]), z3.And(
                        [z3.Select(p, j) == z3.Select(q, j) for p, q in zip(y.l[1:], w[1:])])))] if len(w) > 1 else []))
                else:
                    f = z3.And([p == q for p, q in zip(y.l, w)])
                out.append(('the container iterated over is unchanged', f))
            if self.spec_fn is not None:
                for r in sorted(mods):
                    c = r.split('.')[0]
                    if '.' in r and c in self.C.classes and self.C.kind(c) == 'heap':
                        f = self.frame_inv(x, r)
                        if f is not None:
                            out.append((f'frame of {r}', f))
            return out

        zero = z3.IntVal(0)
        empty = z3.K(I, z3.BoolVal(False))
        for g, (ini, stp) in ghosts.items():
            gv = self.val(st, self.spec_eval(ini, st, self.fn_binds[-1], self.old_states[-1], what='val'))
            st.roots[f'{self.cur}$$g${g}'] = gv
            pre.roots[f'{self.cur}$$g${g}'] = gv
        if ann.get('entry'):
            self.assertions(ann['entry'], st, names(zero, empty, st), pre, s, tag)
        for i, f in inv_terms(st, zero, empty):
            self.ob(st, f, f'{tag}-init', s, i)

        # arbitrary iteration
        head = st.copy()
        for r, x in list(head.roots.items()):
            if isinstance(x, Fz) and r not in mods and (x.deps & mods or '$any' in x.deps):
                head.roots[r] = UNDEF
        for r in sorted(mods):
            b = head.roots.get(r)
            if b is None or b is UNDEF or isinstance(b, Maybe):
                if '$' in r and not r.startswith('$') and r in head.roots:
                    head.roots[r] = UNDEF
                continue
            if isinstance(b, (Static, Rec)):
                raise Gap(f'loop rebinds static object {r}')
            if (id(s), r) in self.loop_undef:
                head.roots[r] = UNDEF
                continue
            if (isinstance(b, (Alias, Fz)) or (id(s), r) in self.loop_deps) and '$' in r and not r.startswith('$'):
                d = deps_of(b) | self.loop_deps.get((id(s), r), frozenset())
                if r in types and not d & mods and not r.startswith('$'):
                    # rebound to one container or another: read-only through this name
                    head.roots[r] = Fz(fresh(types[r], r), d)
                    head.assume(*self.tinv(head.roots[r].v, head))
                else:
                    head.roots[r] = UNDEF
                continue
            self.havoc_root(head, r, types.get(r))
        if '$alloc' in mods:
            head.assume(self.alloc(head) >= self.alloc(st))
        if '$now' in mods:
            head.assume(self.get(head, '$now').x >= self.get(st, '$now').x)
        for p, c in self.solver_prefixes(mods):
            head.assume(*ext.wf(self, head, p, c))
        for g in ghosts:
            r = f'{self.cur}$$g${g}'
            head.roots[r] = fresh(st.roots[r].t, g)

        def setup(x, at_end):
            """(index, done set) constrained for an iteration or for the exit."""
            if kind in ('set', 'dict'):
                if kind == 'dict' and nkeys(v.t.a[0]) > 1:
                    raise Gap('iteration over a dict with tuple keys')
                dom = v.l[0]
                done = fconst(arr(B), 'done')
                q = fconst(I, 'q')
                x.assume(z3.ForAll([q], z3.Implies(z3.Select(done, q), z3.Select(dom, q)),
                                   patterns=[z3.Select(done, q)]))
                if at_end:
                    x.assume(z3.ForAll([q], z3.Select(done, q) == z3.Select(dom, q), patterns=[z3.Select(done, q)]),
                             z3.ForAll([q], z3.Select(done, q) == z3.Select(dom, q), patterns=[z3.Select(dom, q)]))
                    return None, done
                k = fconst(I, 'el')
                x.assume(z3.Select(dom, k), z3.Not(z3.Select(done, k)))
                return k, done
            if kind == 'while':
                k = fconst(I, 'it')
                x.assume(k >= 0)
                return k, None
            k = fconst(I, 'k') if not at_end else n
            if not at_end:
                x.assume(k >= 0, k < n)
            else:
                x.assume(n >= 0)
            return k, None

        body = head.copy()
        k, done = setup(body, False)
        for i, f in inv_terms(body, k, done):
            body.assume(f)
        start = body.copy()
        raises0 = len(self.raises)
        self.mods_stack.append(mods)
        outs = once(body, k)
        results = []
        for kd, y, r in outs:
            if kd in ('next', 'continue'):
                y.loops = list(entry.loops)
                for g, (ini, stp) in ghosts.items():
                    self.pre_states.append(pre)
                    try:
                        gv = self.val(y, self.spec_eval(stp, y, self.fn_binds[-1], self.old_states[-1],
                                                        names(k, done, y), what='val'))
                    finally:
                        self.pre_states.pop()
                    y.roots[f'{self.cur}$$g${g}'] = coerce(gv, st.roots[f'{self.cur}$$g${g}'].t)
                k2 = None if kind in ('set', 'dict') else simp(k + 1)
                d2 = z3.Store(done, k, z3.BoolVal(True)) if kind in ('set', 'dict') else None
                self.top_state, top = start, self.top_state
                self.assertions(ann.get('hint', []), y, names(k, done, y), pre, s, tag)
                self.top_state = top
                for i, f in inv_terms(y, k2, d2):
                    self.ob(y, f, f'{tag}-step', s, i)
            elif kd == 'break':
                y.loops = list(entry.loops)
                y.brk = True
                results.append(('next', y, None))
            else:
                results.append((kd, y, r))
        self.mods_stack.pop()
        exit_ = head.copy()
        k, done = setup(exit_, True)
        if kind == 'while':
            k, _ = fconst(I, 'it'), None
            exit_.assume(k >= 0)
        for i, f in inv_terms(exit_, k, done):
            exit_.assume(f)
        exit_.loops = list(entry.loops)
        if kind == 'while':
            c = self.evb(s.test, exit_)
            exit_.pc.append(z3.Not(c))
            if z3.is_true(z3.simplify(c)):
                return results
            # locals assigned by the loop keep their values when it ran at least once
        # loop target and locals first bound in the body
        for y in [exit_] + [r[1] for r in results if r[0] == 'next']:
            y.past.pop(ordinal, None)
        if len(self.fn_stack) == 1 and not results:
            exit_.past[ordinal] = exit_.copy()
        return [('next', exit_, None)] + results

    def name_terms(self, st, prefixes):
        """Gives the current values of these roots names of their own (a definition per compound term)."""
        for r in sorted(st.roots):
            b = st.roots[r]
            if isinstance(b, V) and any(r == p or r.startswith(p + '.') for p in prefixes):
                out = []
                for x in b.l:
                    if z3.is_const(x):
                        out.append(x)
                        continue
                    c = fconst(x.sort(), r)
                    st.assume(c == x)
                    out.append(c)
                st.roots[r] = V(b.t, out)

    def keys_here(self, st, what):
        """Ghost keys of a variable or constraint created here, as the innermost loop annotation that has some says."""
        spec = self.spec_fn
        for cur, depth, ks in reversed(self.keys or [(self.cur0, 1, None)]):
            e = (ks or {}).get(what)
            if e:
                break
        else:
            cur, depth, e = self.cur0, 1, (spec.keys.get(what) if spec else None)
        if not e:
            return None
        cur, self.cur = self.cur, cur
        stack, self.fn_stack = self.fn_stack, self.fn_stack[:depth]
        try:
            return [self.val(st, self.spec_eval(x, st, self.fn_binds[0], self.old_states[0], what='val')).x for x in e]
        finally:
            self.cur, self.fn_stack = cur, stack

    def assertions(self, hints, st, extra, pre, node, tag):
        for h in hints:
            self.pre_states.append(pre)
            if h.startswith('name '):
                self.pre_states.pop()
                self.name_terms(st, h.split()[1:])
                continue
            if h.startswith(('mark ', 'family ')):
                try:
                    (self.mark(h[5:], st, extra) if h[0] == 'm' else self.family(h[7:], st, extra))
                finally:
                    self.pre_states.pop()
                continue
            try:
                self.hint(h, st, self.fn_binds[-1], self.old_states[-1], extra, f'{tag}-hint', node)
            finally:
                self.pre_states.pop()

    def mark(self, text, st, extra):
        """mark PREFIX INDEX if COND : K0, K1, K2 -- ghost assignment of the keys of a variable (the specification's own
        record of what it stands for; nothing in the program reads it)."""
        where, _, ks = text.partition(' : ')
        p, _, rest = where.partition(' ')
        ix, _, cond = rest.partition(' if ')
        val = lambda e: self.val(st, self.spec_eval(e, st, self.fn_binds[-1], self.old_states[-1], extra, what='val'))
        i, ks = val(ix), [val(k) for k in ks.split(' ; ')]
        i = i.l[1] if i.t.k == 'opt' else i.x
        c = self.spec_eval(cond, st, self.fn_binds[-1], self.old_states[-1], extra) if cond else z3.BoolVal(True)
        if any(f'{p}.vk0' not in m for m in self.mods_stack):
            raise Gap('mark in a loop that creates no variable')
        for j, k in enumerate(ks):
            b = ext.fld(self, st, p, f'vk{j}')
            ext.put(self, st, p, f'vk{j}', i, vint(z3.If(c, k.x, z3.Select(b.x, i))))

    def family(self, text, st, extra):
        """family r : EXPR -- the assignments EXPR, one for each integer r, are members of the family `sols()`: it is an arbitrary
        countable one, so it may as well be one that contains these."""
        n, _, x = text.partition(' : ')
        i = fconst(I, 'q')
        v = self.val(st, self.spec_eval(x, st, self.fn_binds[-1], self.old_states[-1], dict(extra, **{n.strip(): vint(i)}), what='val')).x
        g = z3.Function(str(fconst(I, 'member')), I, I)
        st.assume(z3.ForAll([i], z3.Function('assignment', I, arr(B))(g(i)) == v, patterns=[v]))

    def hint(self, h, st, binds, old, extra, kind, node):
        """A fact shown here (or a lemma used: `use`, `apply`) and available from here on."""
        how, _, rest = h.partition(' ')
        if how not in ('use', 'apply'):
            f = self.spec_eval(h, st, binds, old, extra)
            self.ob(st, f, kind, node, h)
        else:
            self.applying = [] if how == 'apply' else None
            f = self.spec_eval(rest, st, binds, old, extra)
            pre, self.applying = self.applying or [], None
            for r in dict.fromkeys(pre):
                self.ob(st, r, kind, node, h)
                st.assume(r)
        st.assume(f)

    def ghostval(self, x, g):
        return x.roots[f'{self.cur}$$g${g}']

    def known_nonneg(self, t):
        return z3.is_int_value(t) and t.as_long() >= 0

    def solver_prefixes(self, mods):
        out = {}
        for r in mods:
            p, _, f = r.rpartition('.')
            if f in ('coef', 'obj', 'nvars', 'ncons'):
                c = self.prefix_class(p)
                if c:
                    out[p] = c
        return out.items()

    def prefix_class(self, p):
        if p.startswith('solver!'):
            return 'MPSolver'
        if p.startswith('cpmodel!'):
            return 'CpModel'
        last = p.rpartition('.')[2]
        return {'solver_': 'MPSolver', 'model_': 'CpModel', 'cut_gen_model_': 'CpModel'}.get(last)

    # ------------------------------------------------------- verification
    def verify(self, qual):
        """Generate every obligation of one function under contract."""
        spec = self.C.funcs[qual]
        mod, cls, node = self.repo.find(qual)
        self.spec_fn = spec
        self.fn_stack, self.fn_nodes, self.mod_stack, self.cls_stack = [qual], [node], [mod], [cls]
        defcls = self.repo.method(cls, qual.split('.')[1])[0] if cls else None
        self.cls_stack = [defcls]
        self.raises, self.mods = [], {}
        self.pre_states, self.fn_binds, self.old_states = [], [], []
        self.cur = self.cur0 = 'f0'
        self.keys, self.top_state, self.applying, self.mods_stack = [], None, None, []
        st = St()
        binds = {}
        static = any(isinstance(x, ast.Name) and x.id == 'staticmethod' for x in node.decorator_list)
        params = [a.arg for a in node.args.args]
        if node.args.vararg or node.args.kwarg or node.args.kwonlyargs:
            raise Gap('star parameters')
        self.rename = {}
        if spec.loc_order:
            now = locals_of(node)
            gone = [n for n in spec.loc_order if n not in now]
            new = [n for n in now if n not in spec.loc_order]
            if len(gone) == len(new):
                self.rename = dict(zip(gone, new))
        facts = []
        for i, p in enumerate(params):
            if i == 0 and cls and not static:
                if self.C.kind(cls) == 'heap':
                    o = V(REF(cls), [z3.Int('self')])
                    st.assume(o.x >= 0, o.x < self.alloc(st))
                else:
                    o = Rec('self', cls)
                st.roots[self.loc(p)] = o
                binds['self'] = o
                continue
            orig = spec_name(spec, params, i, static or not cls)
            t = spec.params.get(p) or spec.params.get(orig)
            if t is None:
                raise Gap(f'no type for parameter {p}')
            if isinstance(t, Static):
                st.roots[self.loc(p)] = t
                binds[p] = t
                continue
            if t.k == 'rec':
                o = Rec(p, t.a[0])
                st.roots[self.loc(p)] = o
                binds[p] = o
                continue
            if t == STR:
                st.roots[self.loc(p)] = vstr()
                binds[p] = vstr()
                continue
            ss = sorts(t)
            v = V(t, [z3.Const(f'{p}.{j}' if len(ss) > 1 else p, s) for j, s in enumerate(ss)])
            st.roots[self.loc(p)] = v
            st.assume(*self.tinv(v, st))
            binds[p] = v
            if orig and orig != p:
                binds[orig] = v
        for g, t in spec.ghosts.items():
            binds[g] = V(t, [z3.Const(f'ghost_{g}.{j}', s) for j, s in enumerate(sorts(t))])
            st.assume(*self.tinv(binds[g], st))
        self.params = {self.loc(p) for p in params}
        self.decls = {self.loc(self.rename.get(n, n)): t for n, t in spec.locals.items()}
        self.fn_binds = [binds]
        self.old_states = [None]
        st.roots['$now'] = V(REAL, [z3.Real('$now')])
        # requires (evaluated on the entry state)
        nreq = []
        for r in spec.requires:
            f = self.spec_eval(r, st, binds)
            st.assume(f)
        old = st.copy()
        self.old_states = [old]
        self.vac = list(st.pc)
        outs = self.block(strip_doc(node.body), st)
        exits = []
        for k, y, v in outs:
            if k == 'raise':
                self.raises.append((y, v))
                continue
            if k in ('break', 'continue'):
                raise Gap('break outside loop')
            res = self.val(y, v) if k == 'return' else VNONE
            self.owned_result(y, v, res)
            extra = {}
            if spec.result is not None and isinstance(res, V):
                t = spec.result if isinstance(spec.result, Ty) else self.parse_ty(spec.result)
                if t.k not in ('none', 'str'):
                    res = coerce(res, t)
                extra['result'] = res
            elif isinstance(res, (Static, Rec)):
                extra['result'] = res
            y.loops = []
            for a in spec.asserts:
                if a.startswith('name '):
                    self.name_terms(y, a.split()[1:])
                    continue
                self.hint(a, y, binds, old, extra, 'assertion', node)
            for n in spec.ensures + spec.local_ensures:
                f = self.spec_eval(n, y, binds, old, extra)
                self.ob(y, f, 'ensures', node, n)
            self.frame_obs(spec, y, old, node, binds)
            exits.append(y)
        for y, why in self.raises:
            if why is None or not str(why).startswith('callee:'):
                for n in spec.raise_ensures:
                    self.ob(y, self.spec_eval(n, y, binds, old), 'raise-ensures', node, n)
        if spec.raises is not True and (spec.raises is not None or self.raises):
            for y, why in self.raises:
                if spec.raises is None:
                    self.ob(y, z3.BoolVal(False), 'no-raise', node, str(why))
                else:
                    self.ob(y, self.spec_eval(spec.raises, old, binds, old), 'raises-only-if', node, spec.raises)
            if spec.raises is not None:
                c = self.spec_eval(spec.raises, old, binds, old)
                for y in exits:
                    self.ob(y, z3.Not(c), 'returns-only-if-not', node, spec.raises)
        self.exits = exits
        return exits

    def owned_result(self, st, b, v):
        """A returned container belongs to the caller: nothing else reaches it."""
        if not isinstance(v, V) or not has_container(v.t):
            return
        ps = self.places(st, b) if v.t.k != 'tup' else [p for h in (v.sh[1] if v.sh else []) if h is not None and h[0] == 0 for p in h[1]]
        if isinstance(b, Fz) and not ps:
            raise Gap('returned container with unknown owner')
        ps = [(r, k) for r, k in ps if not (r in self.spec_fn.lends and k == 0)]
        if self.spec_fn.result_shared:
            for r, k in ps:
                d = self.declared(r) if self.is_field(r) else None
                if self.is_field(r) and (d is None or d > k) or r in self.params and r.split('$', 1)[1] not in self.spec_fn.captures:
                    raise Gap(f'returned container also reachable through {r}')
            return
        for r, k in ps:
            if self.is_field(r) or r in self.params or (not v.t.k == 'tup' and any(x == r and d <= k for x, d in st.shared)):
                raise Gap(f'returned container also reachable through {r}')

    def frame_spec(self, spec, old, binds):
        allowed = set()
        partial = {}
        for m in spec.modifies:
            n = ast.parse(m.strip(), mode='eval').body
            if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id in self.C.classes \
                    and n.value.id not in binds:
                allowed.add(f'{n.value.id}.{n.attr}')
                continue
            if isinstance(n, ast.Name):
                allowed.add(self.loc(n.id))
                continue
            o = self.val(old, self.spec_eval(n.value, old, binds, old, what='val'))
            if isinstance(o, Rec):
                t = self.lookup_field(o, n.attr)
                root = o.p + '.' + n.attr
                if t is not None and not isinstance(t, Static) and t.k == 'rec':
                    allowed |= {r for r, _ in self.rec_roots(root, t.a[0])}
                allowed.add(root)
            elif isinstance(o, V) and o.t.k == 'ref':
                partial.setdefault(f'{o.t.a[0]}.{n.attr}', []).append(o.x)
        return allowed, partial

    def frame_inv(self, x, r):
        """Loop invariant implied by the modifies clause: field r of objects it does not list is unchanged."""
        old, al0 = self.old_states[0], z3.Int('$alloc')
        allowed, partial = self.frame_spec(self.spec_fn, old, self.fn_binds[0])
        if r in allowed:
            return None
        b = x.roots.get(r)
        if not isinstance(b, V) or b.t.k != 'fmap':
            return None
        b0 = old.roots.get(r)
        if b0 is None:
            ss = sorts(b.t)
            b0 = V(b.t, [z3.Const(f'{r}.{i}' if len(ss) > 1 else r, s) for i, s in enumerate(ss)])
        q = z3.Int('fq')
        g = [q >= 0, q < al0] + [q != z for z in partial.get(r, [])]
        return z3.And([z3.ForAll([q], z3.Implies(z3.And(g), z3.Select(c, q) == z3.Select(z, q)),
                                    patterns=[z3.Select(c, q)] if z3.is_const(c) else [])
                       for c, z in zip(b.l, b0.l)])

    def frame_obs(self, spec, y, old, node, binds):
        """Nothing outside the modifies clause changed."""
        allowed, partial = self.frame_spec(spec, old, binds)
        for r, b in y.roots.items():
            if r in allowed or '!' in r.split('.')[0] or r in ('$alloc', '$now'):
                continue
            if '$' in r and not r.startswith('$'):
                # parameters that are containers must be unchanged
                if r not in self.pmut:
                    continue
                b, b0 = self.val(y, b), self.val(old, old.roots[r])
                if not isinstance(b, V) or not isinstance(b0, V):
                    continue
                if b.t != b0.t:
                    b = coerce(b, b0.t)
                self.ob(y, self.equal(y, b, b0), "frame", node, r)
                continue
            b0 = old.roots.get(r)
            if not isinstance(b, V):
                continue
            if b0 is None:
                ss = sorts(b.t)
                b0 = V(b.t, [z3.Const(f'{r}.{i}' if len(ss) > 1 else r, s) for i, s in enumerate(ss)])
            if all(x.eq(z) for x, z in zip(b.l, b0.l)):
                continue
            kind = r.split('.')[0]
            if isinstance(b.t, Ty) and b.t.k == 'fmap' and kind in self.C.classes and self.C.kind(kind) == 'heap':
                q = fconst(I, 'q')
                al0 = z3.Int('$alloc')
                guard = [q >= 0, q < al0] + [q != z for z in partial.get(r, [])]
                g = z3.ForAll([q], z3.Implies(z3.And(guard), z3.And(
                    [z3.Select(x, q) == z3.Select(z, q) for x, z in zip(b.l, b0.l)])))
            else:
                g = z3.And([x == z for x, z in zip(b.l, b0.l)])
            self.ob(y, g, 'frame', node, r)


def spec_name(spec, params, i, static):
    names = [n for n in spec.params if n != 'self']
    j = i if static else i - 1
    return names[j] if 0 <= j < len(names) else None


def simp(t):
    return z3.simplify(t)


def common(a, b):
    n = 0
    for x, y in zip(a, b):
        if not x.eq(y):
            break
        n += 1
    return n


def to_load(t):
    import copy
    t = copy.deepcopy(t)
    for n in ast.walk(t):
        if hasattr(n, 'ctx'):
            n.ctx = ast.Load()
    return t


def walk_order(n):
    for c in ast.iter_child_nodes(n):
        yield c
        yield from walk_order(c)


# ------------------------------------------------------------- spec builtins
def sp_all(self, e, st):
    g = e.args[0]
    if not isinstance(g, ast.GeneratorExp):
        raise Gap('all() of a non-generator')
    bound, guards, body = self.quant(st, g.generators, g.elt, 'all')
    pats = getattr(body, 's', None) if isinstance(body, V) and isinstance(body.s, list) else None
    b = self.truth(st, body)
    f = z3.Implies(z3.And(guards), b) if guards else b
    if pats:
        try:
            return vbool(z3.ForAll(bound, f, patterns=pats))
        except z3.Z3Exception:      # an if-then-else inside a trigger: a trigger for each side
            return vbool(z3.ForAll(bound, f, patterns=[x for q in pats for x in sides_of(q)]))
    return vbool(z3.ForAll(bound, f))


def sides_of(t):
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
        return sides_of(t.arg(1)) + sides_of(t.arg(2))
    if z3.is_select(t):
        return [z3.Select(a, t.arg(1)) for a in sides_of(t.arg(0))]
    if z3.is_app(t) and t.decl().name() == 'pattern':
        return [z3.MultiPattern(x) for c in t.children()[:1] for x in sides_of(c)]
    return [t]


def sp_any(self, e, st):
    g = e.args[0]
    bound, guards, body = self.quant(st, g.generators, g.elt, 'any')
    return vbool(exists(bound, z3.And(guards + [self.truth(st, body)])))


def stores(a, bound):
    """(witnesses for bound variables on the way, index, value) of every store in the array term."""
    if z3.is_store(a):
        return [({}, a.arg(1), a.arg(2))] + stores(a.arg(0), bound)
    if z3.is_app(a) and a.decl().kind() == z3.Z3_OP_ITE:
        return stores(a.arg(1), bound) + stores(a.arg(2), bound)
    if z3.is_select(a):
        out = []
        for w, i, v in stores(a.arg(0), bound):
            if z3.is_array(v):
                w2 = dict(w)
                if a.arg(1).get_id() in bound:
                    w2[a.arg(1).get_id()] = i
                out += [({**w2, **w3}, j, x) for w3, j, x in stores(v, bound)]
        return out
    return []


def bases(a):
    if z3.is_store(a):
        return bases(a.arg(0))
    if z3.is_app(a) and a.decl().kind() == z3.Z3_OP_ITE:
        return bases(a.arg(1)) + bases(a.arg(2))
    if z3.is_select(a):
        return [z3.Select(b, a.arg(1)) for b in bases(a.arg(0))]
    return [a]


def exists(bound, body):
    """Exists bound. body, with what was just stored offered as witnesses and the arrays before the stores as triggers (equivalent)."""
    ids = {b.get_id(): b for b in bound}
    pats, wits, seen, stack, has = {}, {}, set(), [body], False
    while stack:
        t = stack.pop()
        if t.get_id() in seen or not z3.is_app(t):
            continue
        seen.add(t.get_id())
        stack += t.children()
        if not (z3.is_select(t) and t.arg(1).get_id() in ids):
            continue
        ss = stores(t.arg(0), ids)
        if ss:
            has = True
        for w, i, v in ss:
            w = dict(w)
            w[t.arg(1).get_id()] = i
            if len(w) == len(ids) and not any(set(ids) & consts_of(x) for x in w.values()):
                k = tuple(w[x].get_id() for x in ids)
                wits.setdefault(k, [w[x] for x in ids])
        for b in bases(t):
            c = frozenset(set(ids) & consts_of(b))
            pats.setdefault(c, {})[b.get_id()] = b
    if not has:
        return z3.Exists(bound, body)
    full = list(pats.get(frozenset(ids), {}).values())[:4]
    ws = list(wits.values())[:4]
    e = z3.Exists(bound, body, patterns=full) if full else z3.Exists(bound, body)
    return z3.Or([e] + [z3.substitute(body, *zip(bound, w)) for w in ws]) if ws else e


def consts_of(t):
    out, seen, stack = set(), set(), [t]
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_const(x):
            out.add(x.get_id())
        stack += x.children()
    return out


def bound_in(t):
    """Does t mention a variable that a quantifier being built will bind?"""
    stack, seen = [t], set()
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().name().startswith('q!'):
            return True
        stack += x.children()
    return False


def sp_implies(self, e, st):
    a = self.evb(e.args[0], st)
    b = self.evb(e.args[1], st)
    return vbool(z3.Implies(a, b))


def sp_pos(self, e, st):
    """pos(x, l): a position of x in l (when there is one)."""
    x, l = self.evv(e.args[0], st), self.evv(e.args[1], st)
    specs.mem(l.l[0], l.l[1], x.x)
    return vint(specs.decl('mem_at', I, arr(I), I, I)(l.l[0], l.l[1], x.x))


def sp_fun(self, e, st):
    """fun(lambda i: value): the map from integers to values."""
    lam = e.args[0]
    i = fconst(I, lam.args.args[0].arg)
    self.spec_env.append({lam.args.args[0].arg: vint(i)})
    try:
        v = self.need(self.val(st, self.ev(lam.body, st)))
    finally:
        self.spec_env.pop()
    return V(FMAP(v.t), [z3.Lambda([i], x) for x in v.l])


def sp_iff(self, e, st):
    return vbool(self.evb(e.args[0], st) == self.evb(e.args[1], st))


def sp_old(self, e, st):
    o = self.old[-1]
    if o is None:
        raise Gap('old() without a pre-state')
    s = o.copy()
    s.pc = st.pc
    r = self.val(s, self.ev(e.args[0], s))
    for k, b in s.roots.items():
        if k not in o.roots:
            o.roots[k] = b
            if k not in st.roots:
                st.roots[k] = b
    return r


def sp_pre(self, e, st):
    o = self.pre_states[-1]
    s = o.copy()
    s.pc = st.pc
    r = self.val(s, self.ev(e.args[0], s))
    for k, b in s.roots.items():
        if k not in o.roots:
            o.roots[k] = b
            if k not in st.roots:
                st.roots[k] = b
    return r


def sp_top(self, e, st):
    """In a loop hint: the value at the start of this iteration."""
    if self.top_state is None:
        raise Gap('top() outside a loop hint')
    self.pre_states.append(self.top_state)
    try:
        return sp_pre(self, e, st)
    finally:
        self.pre_states.pop()


def sp_after(self, e, st):
    """after(k, x): x right after loop k of the function was left (every way out of it being the normal one)."""
    k = ast.literal_eval(e.args[0])
    if len(self.fn_stack) != 1 or k not in st.past:
        raise Gap(f'after({k}) where loop {k} was not left')
    self.pre_states.append(st.past[k])
    try:
        return sp_pre(self, ast.Call(e.func, [e.args[1]], []), st)
    finally:
        self.pre_states.pop()


def sp_pat(self, e, st):
    """pat(t1, ..., body): body with the terms as quantifier trigger."""
    ts = [self.val(st, self.ev(a, st)) for a in e.args[:-1]]
    b = self.evb(e.args[-1], st)
    p = [t.l[0] for t in ts]
    return V(BOOL, [b], [z3.MultiPattern(*p)] if len(p) > 1 else [p[0]])


def sp_site(self, e, st):
    return vint(specs.sites(e.args[0].value))


def sp_len(self, e, st):
    return BUILTIN['len'](self, e, st)


def sp_distinct(self, e, st):
    v = self.evv(e.args[0], st)
    n = self.evv(e.args[1], st).x if len(e.args) > 1 else v.l[0]
    return vbool(ext.distinct(v.l[1], n))


def sp_incr(self, e, st):
    v = self.evv(e.args[0], st)
    lo, hi = self.evv(e.args[1], st).x, self.evv(e.args[2], st).x
    return vbool(ext.incr(v.l[1], v.l[0], lo, hi))


def sp_combpos(self, e, st):
    lo, hi = self.evv(e.args[0], st).x, self.evv(e.args[1], st).x
    v = self.evv(e.args[2], st)
    f = specs.decl('combpos', I, I, I, arr(I), I)
    return vint(f(lo, hi, v.l[0], v.l[1]))


def sp_combo(self, e, st):
    lo, hi, k, p = (self.evv(a, st).x for a in e.args)
    ext.combos(self, St(), Static('range', lo=lo, hi=hi), k)      # registers the axioms
    return V(LIST(INT), [k, specs.decl('combo', I, I, I, I, arr(I))(lo, hi, k, p)])


def sp_ncomb(self, e, st):
    lo, hi, k = (self.evv(a, st).x for a in e.args)
    ext.combos(self, St(), Static('range', lo=lo, hi=hi), k)
    return vint(specs.decl('ncomb', I, I, I, I)(lo, hi, k))


def sp_bit(self, e, st):
    return vbool(ext.bit(self.evv(e.args[0], st).x, self.evv(e.args[1], st).x))


def sp_pow2(self, e, st):
    return vint(specs.pow2(self.evv(e.args[0], st).x))


def sp_bitand(self, e, st):
    return vint(specs.bitand(self.evv(e.args[0], st).x, self.evv(e.args[1], st).x))


def sp_sqrt(self, e, st):
    return vreal(specs.sqrt(coerce(self.evv(e.args[0], st), REAL).x))


def sp_card(self, e, st):
    return vint(specs.card(self.evv(e.args[0], st).x))


def sp_pick(self, e, st):
    return vint(specs.pick(self.evv(e.args[0], st).x, self.evv(e.args[1], st).x))


def sp_ite(self, e, st):
    return ite(self.evb(e.args[0], st), self.evv(e.args[1], st), self.evv(e.args[2], st))


def sp_is_none(self, e, st):
    v = self.evv(e.args[0], st)
    return vbool(v.l[0] if v.t.k == 'opt' else z3.BoolVal(v.t.k == 'none'))


def sp_the(self, e, st):
    v = self.evv(e.args[0], st)
    return V(v.t.a[0], v.l[1:]) if v.t.k == 'opt' else v


def sp_dom(self, e, st):
    v = self.evv(e.args[0], st)
    return V(SETI, [v.l[0]])


def sp_floor(self, e, st):
    return vint(z3.ToInt(coerce(self.evv(e.args[0], st), REAL).x))


def sp_same(self, e, st):
    """Same value, leaf by leaf (stronger than ==)."""
    p, q = (self.val(st, self.ev(x, st)) for x in e.args)
    if isinstance(p, Rec) and isinstance(q, Rec):
        return vbool(p == q)
    a, b = self.evv(e.args[0], st), self.evv(e.args[1], st)
    t = join_ty(a.t, b.t)
    a, b = coerce(a, t), coerce(b, t)
    return vbool(z3.And([x == y for x, y in zip(a.l, b.l)]))


def sp_dot(self, e, st):
    a, b = (self.evv(x, st) for x in e.args)
    if a.t.k == 'lin':
        return vreal(ext.dot(a.l[0], b.x) + a.l[1])
    return vreal(ext.dot(a.x, b.x))


def sp_isnew(self, e, st):
    x = self.evv(e.args[0], st)
    old = self.old[-1]
    return vbool(z3.And(x.x >= self.alloc(old), x.x < self.alloc(st)))


def sp_isa(self, e, st):
    """isa(o, Class): o was made by Class(..)."""
    return vbool(specs.decl('classof', I, I)(self.evv(e.args[0], st).x) == specs.sites('class:' + e.args[1].id))


def sp_as(self, e, st):
    return V(REF(e.args[1].id), [self.evv(e.args[0], st).x])


def sp_labels(self, e, st):
    return ext.labels_of(self, st, self.evv(e.args[0], st))


def sp_is_self(self, e, st):
    r = self.val(st, self.ev(e.args[0], st))
    return vbool(isinstance(r, Rec) and r.p == 'self')


def sp_ints(self, e, st):
    return Static('ints')


def sp_refs(self, e, st):
    return Static('refs', c=e.args[0].value)


def sp_sols(self, e, st):
    return Static('sols')


def sp_bools(self, e, st):
    return Static('bools')


def sp_inf(self, e, st):
    st.assume(ext.INF_FACT)
    return vreal(ext.INF)


def sp_allocd(self, e, st):
    v = self.evv(e.args[0], st)
    return vbool(z3.And(v.x >= 0, v.x < self.alloc(st)))


def sp_plus(self, e, st):
    """A set with one more element."""
    return V(SETI, [z3.Store(self.evv(e.args[0], st).x, self.evv(e.args[1], st).x, z3.BoolVal(True))])


def sp_elems(self, e, st):
    """Raw array of a list (one leaf) or of a dict with integer keys, indexable by any integer."""
    v = self.evv(e.args[0], st)
    if v.t.k == 'dict':
        return V(FMAP(v.t.a[1]), v.l[1:])
    if v.t.k == 'set':
        return V(FMAP(BOOL), v.l)
    return V(FMAP(v.t.a[0]), v.l[1:])


def sp_put(self, e, st):
    """put(a, i, v): the map a with v at i."""
    a, i, v = (self.evv(x, st) for x in e.args)
    return V(a.t, [z3.Store(a.x, i.x, coerce(v, a.t.a[0]).x)])


def sp_zeros(self, e, st):
    """The map from integers to reals that is 0 everywhere."""
    return V(FMAP(REAL), [z3.K(z3.IntSort(), z3.RealVal(0))])


def sp_somes(self, e, st):
    """Raw array of the values of a list of optional elements."""
    v = self.evv(e.args[0], st)
    return V(FMAP(v.t.a[0].a[0]), v.l[2:])


SPEC = {'fun': sp_fun, 'pos': sp_pos, 'combo': sp_combo, 'ncomb': sp_ncomb, 'all': sp_all, 'any': sp_any, 'implies': sp_implies, 'iff': sp_iff, 'old': sp_old, 'pre': sp_pre, 'top': sp_top, 'after': sp_after,
        'pat': sp_pat, 'site': sp_site, 'distinct': sp_distinct, 'incr': sp_incr, 'combpos': sp_combpos,
        'bit': sp_bit, 'pow2': sp_pow2, 'bitand': sp_bitand, 'card': sp_card, 'pick': sp_pick, 'sqrt': sp_sqrt, 'ite': sp_ite, 'is_none': sp_is_none,
        'the': sp_the, 'dom': sp_dom, 'floor': sp_floor, 'same': sp_same, 'isnew': sp_isnew, 'isa': sp_isa, 'as_': sp_as, 'labels': sp_labels, 'result_is_self': sp_is_self, 'ints': sp_ints, 'refs': sp_refs,
        'bools': sp_bools, 'dot': sp_dot, 'sols': sp_sols, 'INF': sp_inf, 'allocated': sp_allocd, 'elems': sp_elems, 'somes': sp_somes, 'put': sp_put, 'zeros': sp_zeros, 'plus': sp_plus}


# ----------------------------------------------------------------- builtins
def b_len(self, e, st):
    a = e.args[0]
    # len(list(filter(lambda x: c, L)))
    o = self.ev(a, st)
    if isinstance(o, Static) and o.k in ('pylist', 'pytuple'):
        return vint(len(o.items))
    v = self.unopt(st, self.need(self.val(st, o)), e)
    if v.t.k in ('list', 'mat'):
        return vint(v.l[0])
    if v.t.k == 'tup':
        return vint(len(v.t.a))
    if v.t.k == 'set':
        return vint(specs.card(v.x))
    raise Gap(f'len of {v.t}')


def b_range(self, e, st):
    a = [self.unopt(st, self.evv(x, st), e) for x in e.args]
    for x in a:
        if x.t.k != 'int':
            raise Gap('range of a non-integer')
    if len(a) == 1:
        return Static('range', lo=z3.IntVal(0), hi=a[0].x)
    if len(a) == 2:
        return Static('range', lo=a[0].x, hi=a[1].x)
    raise Gap('range with a step')


def b_abs(self, e, st):
    v = self.evv(e.args[0], st)
    return V(v.t, [z3.If(v.x >= 0, v.x, -v.x)])


def b_minmax(op):
    def f(self, e, st):
        if len(e.args) < 2 or e.keywords:
            raise Gap('min/max of an iterable')
        v = self.evv(e.args[0], st)
        for x in e.args[1:]:
            a, b, t = self.num2(v, self.evv(x, st))
            v = V(t, [z3.If(a.x >= b.x if op == 'max' else a.x <= b.x, a.x, b.x)])
        return v
    return f


def b_int(self, e, st):
    v = self.evv(e.args[0], st)
    if v.t.k == 'int' or v.t.k == 'bool':
        return coerce(v, INT)
    if v.t.k == 'real':
        if z3.is_app(v.x) and v.x.decl().kind() == z3.Z3_OP_TO_REAL:
            return vint(v.x.arg(0))
        return vint(z3.If(v.x >= 0, z3.ToInt(v.x), -z3.ToInt(-v.x)))
    raise Gap('int()')


def b_float(self, e, st):
    return coerce(self.evv(e.args[0], st), REAL)


def b_round(self, e, st):
    v = coerce(self.evv(e.args[0], st), REAL)
    r = specs.decl('round_half_even', R, I)
    if 'round_half_even' not in specs.AX:
        def mk():
            x = z3.Real('rx')
            return [z3.ForAll([x], z3.And(toreal(r(x)) - x <= z3.RealVal('1/2'), x - toreal(r(x)) <= z3.RealVal('1/2')),
                              patterns=[r(x)])]
        specs.AX['round_half_even'] = mk
    if len(e.args) > 1:
        raise Gap('round to digits')
    return vint(r(v.x))


def b_list(self, e, st):
    if not e.args:
        return V(LIST(None), [z3.IntVal(0)])
    a = e.args[0]
    o = self.ev(a, st)
    if isinstance(o, Static) and o.k == 'filter':
        return o.value
    v = self.need(self.val(st, o))
    if v.t.k == 'list':
        return self.inner(st, o, V(v.t, v.l))
    if v.t.k == 'set':
        out = fresh(LIST(INT), 'setlist')
        j, k = fconst(I, 'q'), fconst(I, 'q')
        st.assume(out.l[0] >= 0, ext.distinct(out.l[1], out.l[0]))
        q = fconst(I, 'q')
        st.assume(z3.ForAll([q], specs.mem(out.l[0], out.l[1], q) == z3.Select(v.x, q),
                            patterns=[z3.Select(v.x, q)]),
                  z3.ForAll([q], specs.mem(out.l[0], out.l[1], q) == z3.Select(v.x, q),
                            patterns=[specs.mem(out.l[0], out.l[1], q)]),
                  z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < out.l[0]), z3.Select(v.x, z3.Select(out.l[1], j))),
                            patterns=[z3.Select(out.l[1], j)]))
        return out
    if v.t.k == 'tup':
        return self.tup_list(v)
    raise Gap('list()')


def b_filter(self, e, st):
    lam = self.ev(e.args[0], st)
    if not (isinstance(lam, Static) and lam.k == 'lambda'):
        raise Gap('filter()')
    sb = self.ev(e.args[1], st)
    src = self.need(self.val(st, sb))
    i = fconst(I, 'q')
    el = self.proj(src, ('i', i))
    c = self.truth(st, self.apply_lambda(lam, [el], st))
    return Static('filter', value=self.inner(st, sb, specs.filtered(self, st, i, src.l[0], c, el)))


def b_set(self, e, st):
    if not e.args:
        return V(SETI, [z3.K(I, z3.BoolVal(False))])
    v = self.need(self.val(st, self.ev(e.args[0], st)))
    if v.t.k == 'set':
        return V(v.t, v.l)
    if v.t.k == 'list':
        s = fconst(arr(B), 'setof')
        q = fconst(I, 'q')
        st.assume(z3.ForAll([q], z3.Select(s, q) == specs.mem(v.l[0], v.l[1], q), patterns=[z3.Select(s, q)]))
        return V(SETI, [s])
    raise Gap('set()')


def b_dict(self, e, st):
    if not e.args and not e.keywords:
        return V(DICT(None, None), [])
    raise Gap('dict()')


def b_str(self, e, st):
    return vstr()


def b_bool(self, e, st):
    return vbool(self.evb(e.args[0], st))


def b_tuple(self, e, st):
    return self.ev(e.args[0], st)


def b_sum(self, e, st):
    raise Gap('sum()')


def b_any(self, e, st):
    if isinstance(e.args[0], ast.GeneratorExp):
        return sp_any(self, e, st)
    raise Gap('any()')


def b_all(self, e, st):
    if isinstance(e.args[0], ast.GeneratorExp):
        return sp_all(self, e, st)
    raise Gap('all()')


def b_hasattr(self, e, st):
    o = self.ev(e.args[0], st)
    n = e.args[1].value
    if isinstance(o, Rec):
        g = self.C.field(o.c, 'has__' + n)
        if g is not None:
            return self.val(st, self.field(st, o, 'has__' + n))
        return vbool(self.C.field(o.c, n) is not None)
    raise Gap('hasattr')


def b_print(self, e, st):
    for a in e.args:
        if any(isinstance(x, (ast.Call, ast.NamedExpr)) for x in ast.walk(a)):
            self.ev(a, st)
    return VNONE


BUILTIN = {'len': b_len, 'range': b_range, 'abs': b_abs, 'min': b_minmax('min'), 'max': b_minmax('max'), 'int': b_int,
           'float': b_float, 'round': b_round, 'list': b_list, 'filter': b_filter, 'set': b_set, 'dict': b_dict,
           'str': b_str, 'bool': b_bool, 'tuple': b_tuple, 'sum': b_sum, 'any': b_any, 'all': b_all,
           'hasattr': b_hasattr, 'print': b_print}

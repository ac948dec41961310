"""Expression evaluation (code and specification mode)."""
import ast
import z3
from .vals import *
from .vc import VC, Alias, Fz, Rec, Static, St, UNDEF, Maybe, Gap, strip_doc, deps_of
from . import specs, ext

CMP = {ast.Lt: lambda a, b: a < b, ast.LtE: lambda a, b: a <= b,
       ast.Gt: lambda a, b: a > b, ast.GtE: lambda a, b: a >= b}


class Ev(VC):
    # ------------------------------------------------------------- names
    def name(self, st, n):
        for env in reversed(self.spec_env):
            if n in env:
                return env[n]
        if self.spec:
            n = self.rename.get(n, n)
        r = self.loc(n)
        if r in st.roots:
            b = st.roots[r]
            if isinstance(b, Maybe) or b is UNDEF:
                raise Gap(f'{n} may be unbound')
            if isinstance(b, V) and b.t.k in ('list', 'dict', 'set'):
                return Alias(r)
            return b
        if self.spec and n in self.C.consts:
            return self.C.consts[n]
        return Static('global', name=n)

    def dotted(self, e):
        if isinstance(e, ast.Name):
            return e.id
        if isinstance(e, ast.Attribute):
            d = self.dotted(e.value)
            return d and d + '.' + e.attr
        return None

    # -------------------------------------------------------- expressions
    def ev(self, e, st):
        """Value (V), Alias, Fz, Rec or Static."""
        m = getattr(self, 'ev_' + type(e).__name__, None)
        if m is None:
            raise Gap(f'expression {type(e).__name__}')
        return m(e, st)

    def evv(self, e, st):
        """First-order value."""
        return self.need(self.val(st, self.ev(e, st)), ast.unparse(e)[:60])

    def evb(self, e, st):
        if isinstance(e, ast.BoolOp):
            return self.ev_BoolOp(e, st, True).x
        return self.truth(st, self.ev(e, st))

    def ev_Constant(self, e, st):
        c = e.value
        if isinstance(c, bool):
            return vbool(c)
        if isinstance(c, int):
            return vint(c)
        if isinstance(c, float):
            return vreal(z3.RealVal(repr(c) if 'e' not in repr(c) else '%.12f' % c))
        if isinstance(c, str):
            return V(INT, [z3.IntVal(specs.sites('text:' + c))], c) if self.C.tokens else vstr(c)
        if c is None:
            return VNONE
        raise Gap(f'constant {c!r}')

    def ev_Name(self, e, st):
        return self.name(st, e.id)

    def ev_JoinedStr(self, e, st):
        lit = ''
        for v in e.values:
            if isinstance(v, ast.Constant):
                lit = v.value
            break
        return vstr(lit or None)

    def ev_Attribute(self, e, st):
        d = self.dotted(e)
        if d:
            c = ext.const(self, d)
            if c is not None and not self.is_local(st, d.split('.')[0]):
                return c
        o = self.ev(e.value, st)
        if isinstance(o, Rec):
            return self.field(st, o, e.attr, e)
        v = self.val(st, o)
        if isinstance(v, V):
            if v.t.k == 'opt':
                v = self.unopt(st, v, e)
            if v.t.k == 'ref':
                ft = self.C.field(v.t.a[0], e.attr)
                if isinstance(ft, Static):
                    return ft
                root = self.heap(st, v.t.a[0], e.attr)
                a = Alias(root, (('i', v.x),))
                x = self.get(st, a.root, a.steps)
                return a if x.t.k in ('list', 'dict', 'set', 'opt') else x
            if v.t.k == 'mat' and e.attr == 'shape':
                return mktup([vint(v.l[0]), vint(v.l[1])])
            if v.t.k == 'list' and e.attr == 'shape':
                return mktup([vint(v.l[0])])
            if v.t.k == 'list' and e.attr == 'size':
                return vint(v.l[0])
            if v.t.k == 'mat' and e.attr == 'T':
                raise Gap('transpose')
        if isinstance(o, Static) and o.k == 'global':
            c = ext.const(self, o.name + '.' + e.attr)
            if c is not None:
                return c
            return Static('global', name=o.name + '.' + e.attr)
        if isinstance(o, Static) and hasattr(o, e.attr):
            return getattr(o, e.attr)
        raise Gap(f'attribute .{e.attr} of {o}')

    def is_local(self, st, n):
        return self.loc(n) in st.roots or any(n in env for env in self.spec_env)

    def ev_Tuple(self, e, st):
        raw = [self.ev(x, st) for x in e.elts]
        items = [self.val(st, x) for x in raw]
        if any(not isinstance(x, V) for x in items):
            return Static('pytuple', items=items)
        return mktup([self.component(st, b, x, 0) for b, x in zip(raw, items)])

    def component(self, st, b, x, d):
        """Item of a tuple (d = 0) or list (d = 1) display that may be a container with another home."""
        if self.spec or not has_container(x.t):
            return x
        ps = self.places(st, b) + (list(x.sh[1]) if x.sh is not None and x.sh[0] != 'tup' else [])
        self.share(st, ps)
        if not ps and x.sh is None:
            return x
        return V(x.t, x.l, x.s, sh=(d, ps))

    def ev_List(self, e, st):
        if not e.elts:
            return V(LIST(None), [z3.IntVal(0)])
        raw = [self.ev(x, st) for x in e.elts]
        items = [self.val(st, x) for x in raw]
        if any(not isinstance(x, V) for x in items):
            return Static('pylist', items=items)
        t = items[0].t
        for x in items[1:]:
            t = join_ty(t, x.t)
        items = [coerce(self.component(st, b, x, 1), t) for b, x in zip(raw, items)]
        hs = [x.sh for x in items if x.sh is not None]
        leaves = []
        for i, s in enumerate(sorts(t)):
            a = fconst(arr(s), 'lit')
            for j, x in enumerate(items):
                a = z3.Store(a, z3.IntVal(j), x.l[i])
            leaves.append(a)
        return V(LIST(t), [z3.IntVal(len(items))] + leaves, sh=(1, [p for h in hs for p in h[1] if h[0] != 'tup']) if hs else None)

    def ev_Dict(self, e, st):
        if not e.keys:
            return V(DICT(None, None), [])
        raise Gap('non-empty dict literal')

    def ev_Set(self, e, st):
        a = z3.K(I, z3.BoolVal(False))
        for x in e.elts:
            a = z3.Store(a, self.evv(x, st).x, z3.BoolVal(True))
        return V(SETI, [a])

    def ev_UnaryOp(self, e, st):
        if isinstance(e.op, ast.Not):
            return vbool(z3.Not(self.evb(e.operand, st)))
        v = self.unopt(st, self.evv(e.operand, st), e)
        if isinstance(e.op, ast.USub):
            if v.t.k == 'bool':
                v = coerce(v, INT)
            if v.t.k == 'lin':
                return ext.lin_scale(self, v, z3.RealVal(-1))
            return V(v.t, [-v.x])
        if isinstance(e.op, ast.UAdd):
            return v
        raise Gap('unary operator')

    def ev_BoolOp(self, e, st, truth=False):
        """and / or: later operands are evaluated, with their effects, only when the earlier ones leave the result open."""
        isand = isinstance(e.op, ast.And)
        b = self.ev(e.values[0], st)
        rest = e.values[1:]
        v0 = self.val(st, b)
        t0 = self.truth(st, v0)
        if not rest:
            return b
        guard = t0 if isand else z3.Not(t0)
        s2 = st.copy()
        s2.pc.append(guard)
        tail = ast.BoolOp(op=e.op, values=rest) if len(rest) > 1 else rest[0]
        ast.copy_location(tail, e)
        if len(rest) > 1:
            v1 = self.val(s2, self.ev_BoolOp(tail, s2, truth))
        else:
            v1 = vbool(self.evb(tail, s2)) if truth else self.val(s2, self.ev(tail, s2))
        if all(s2.roots[r] is st.roots.get(r) or r not in st.roots for r in s2.roots) and s2.shared == st.shared:
            n = len(st.pc)
            st.pc += [z3.Implies(guard, f) for f in s2.pc[n + 1:]]
            for r in s2.roots:
                if r not in st.roots and ('$' not in r or r.startswith('$')) and s2.roots[r] is not None:
                    st.roots[r] = s2.roots[r]
        else:
            s1 = st.copy()
            s1.pc.append(z3.Not(guard))
            m = self.merge(guard, s2, s1, st)
            if m is None:
                raise Gap('operand of and/or with unmergeable effects')
            st.roots, st.pc, st.shared = m.roots, m.pc, m.shared
        boolean = truth or (isinstance(v0, V) and v0.t == BOOL and isinstance(v1, V) and v1.t == BOOL) or self.spec
        if boolean:
            t1 = self.truth(s2, v1)
            l = list(t0.children()) if (z3.is_and(t0) if isand else z3.is_or(t0)) else [t0]
            r = list(t1.children()) if (z3.is_and(t1) if isand else z3.is_or(t1)) else [t1]
            return vbool(z3.And(l + r) if isand else z3.Or(l + r))
        if not (isinstance(v0, V) and isinstance(v1, V)):
            raise Gap('value of and/or over static objects')
        x = ite(guard, v1, v0)
        return Fz(x, {'$any'}) if has_container(x.t) else x

    def ev_IfExp(self, e, st):
        c = self.evb(e.test, st)
        if z3.is_true(z3.simplify(c)) and self.spec:
            return self.ev(e.body, st)
        base = st.copy()
        s1, s2 = st.copy(), st.copy()
        s1.pc.append(c)
        s2.pc.append(z3.Not(c))
        ba, bb = self.ev(e.body, s1), self.ev(e.orelse, s2)
        a, b = self.val(s1, ba), self.val(s2, bb)
        if isinstance(a, V) and isinstance(b, V):
            m = self.merge(c, s1, s2, base)
            if m is None:
                raise Gap('conditional expression with unmergeable effects')
            st.roots, st.pc, st.shared = m.roots, m.pc, m.shared
            r = ite(c, a, b)
            if isinstance(ba, (Alias, Fz)) or isinstance(bb, (Alias, Fz)):
                return Fz(r, deps_of(ba, bb), self.places(s1, ba) + self.places(s2, bb))
            return r
        if a == b:
            return a
        raise Gap('conditional expression over static objects')

    def ev_Compare(self, e, st):
        left = self.ev(e.left, st)
        out = []
        for op, r in zip(e.ops, e.comparators):
            if isinstance(op, (ast.In, ast.NotIn)):
                t = self.contains(st, left, r)
                out.append(z3.Not(t) if isinstance(op, ast.NotIn) else t)
                right = None
            else:
                right = self.ev(r, st)
                out.append(self.compare(st, op, left, right, e))
            left = right
        if len(out) == 1 and isinstance(out[0], V):
            return out[0]
        return vbool(z3.And(out) if len(out) > 1 else out[0])

    def compare(self, st, op, a, b, node):
        a, b = self.val(st, a), self.val(st, b)
        if not self.spec and isinstance(op, (ast.LtE, ast.GtE, ast.Lt, ast.Gt)) and isinstance(a, V) and isinstance(b, V):
            a, b = self.unopt(st, a, node), self.unopt(st, b, node)
        if isinstance(a, V) and isinstance(b, V) and ('lin' in (a.t.k, b.t.k) or (
                'cpv' in (a.t.k, b.t.k) and not isinstance(op, (ast.Is, ast.IsNot)) and
                not (b.t.k == 'none' or a.t.k == 'none' or a.t.k == 'opt' and b.t.k == 'none') and not self.spec)):
            return ext.bounded(self, st, op, a, b)
        if isinstance(op, (ast.Eq, ast.NotEq, ast.Is, ast.IsNot)):
            t = self.equal(st, a, b)
            return z3.Not(t) if isinstance(op, (ast.NotEq, ast.IsNot)) else t
        a = self.unopt(st, self.need(a), node)
        b = self.unopt(st, self.need(b), node)
        x, y, t = self.num2(a, b)
        return CMP[type(op)](x.x, y.x)

    def equal(self, st, a, b):
        if isinstance(a, Static) and isinstance(b, Static):
            return z3.BoolVal(a == b)
        if isinstance(a, (Rec, Static)) or isinstance(b, (Rec, Static)):
            if isinstance(a, V) and a.t.k == 'none' or isinstance(b, V) and b.t.k == 'none':
                return z3.BoolVal(False)
            if isinstance(a, Rec) and isinstance(b, Rec):
                return z3.BoolVal(a == b)
            raise Gap('comparison of static objects')
        if b.t.k == 'none' or a.t.k == 'none':
            o = a if b.t.k == 'none' else b
            if o.t.k == 'none':
                return z3.BoolVal(True)
            return o.l[0] if o.t.k == 'opt' else z3.BoolVal(False)
        if a.t.k == 'opt' or b.t.k == 'opt':
            t = join_ty(a.t, b.t)
            a, b = coerce(a, t), coerce(b, t)
            inner = self.equal(st, V(t.a[0], a.l[1:]), V(t.a[0], b.l[1:]))
            return z3.And(a.l[0] == b.l[0], z3.Or(a.l[0], inner))
        if a.t.k == 'list' and b.t.k == 'list':
            if a.t.a[0] is None or b.t.a[0] is None:
                return z3.And(a.l[0] == b.l[0]) if a.t.a[0] is None and b.t.a[0] is None else \
                    z3.And(a.l[0] == b.l[0], a.l[0] == 0) if True else None
            i = fconst(I, 'q')
            ea = V(a.t.a[0], [z3.Select(x, i) for x in a.l[1:]])
            eb = V(b.t.a[0], [z3.Select(x, i) for x in b.l[1:]])
            body = self.equal(st, ea, eb)
            return z3.And(a.l[0] == b.l[0],
                          z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < a.l[0]), body)))
        if a.t.k == 'tup' and b.t.k == 'tup' and len(a.t.a) == len(b.t.a):
            return z3.And([self.equal(st, x, y) for x, y in zip(untup(a), untup(b))])
        if a.t.k == 'str' and b.t.k == 'str':
            if a.s is not None and b.s is not None:
                return z3.BoolVal(a.s == b.s)
            raise Gap('string comparison')
        t = join_ty(a.t, b.t)
        a, b = coerce(a, t), coerce(b, t)
        return z3.And([x == y for x, y in zip(a.l, b.l)])

    def contains(self, st, left, rnode):
        # d.values() / d.keys()
        if isinstance(rnode, ast.Call) and isinstance(rnode.func, ast.Attribute) and not rnode.args \
                and rnode.func.attr in ('values', 'keys'):
            d = self.val(st, self.ev(rnode.func.value, st))
            if isinstance(d, V) and d.t.k == 'dict':
                if rnode.func.attr == 'keys':
                    return self.member(st, left, d)
                lv = self.need(self.val(st, left))
                ks = [fconst(I, 'q') for _ in range(nkeys(d.t.a[0]))]
                v = V(d.t.a[1], [sel(x, ks) for x in d.l[1:]])
                return z3.Exists(ks, z3.And(sel(d.l[0], ks), self.equal(st, v, lv)))
        return self.member(st, left, self.val(st, self.ev(rnode, st)))

    def member(self, st, left, c):
        lv = self.val(st, left)
        if isinstance(c, Static) and c.k in ('pylist', 'pytuple'):
            return z3.Or([self.equal(st, lv, x) for x in c.items] or [z3.BoolVal(False)])
        if isinstance(c, Static) and c.k == 'range':
            x = self.need(lv).x
            return z3.And(x >= c.lo, x < c.hi)
        c = self.unopt(st, self.need(c), None)
        if c.t.k == 'set':
            return z3.Select(c.x, self.need(self.unopt(st, lv, None)).x)
        if c.t.k == 'dict':
            if c.t.a[0] is None:
                return z3.BoolVal(False)
            return sel(c.l[0], keyleaves(self.need(lv), c.t.a[0]))
        if c.t.k == 'list':
            if c.t.a[0] is None:
                return z3.BoolVal(False)
            if c.t.a[0].k in INTLIKE and lv.t.k in INTLIKE:
                return specs.mem(c.l[0], c.l[1], lv.x)
            i = fconst(I, 'q')
            ev = V(c.t.a[0], [z3.Select(x, i) for x in c.l[1:]])
            return z3.Exists([i], z3.And(i >= 0, i < c.l[0], self.equal(st, ev, lv)))
        raise Gap(f'membership in {c.t}')

    def ev_BinOp(self, e, st):
        # [x]*n
        if isinstance(e.op, ast.Mult) and isinstance(e.left, ast.List) and len(e.left.elts) == 1:
            x = self.evv(e.left.elts[0], st)
            if has_container(x.t) and not self.spec:
                raise Gap('one container repeated')
            n = self.unopt(st, self.evv(e.right, st), e)
            ln = z3.If(n.x >= 0, n.x, z3.IntVal(0)) if not self.nonneg(n.x) else n.x
            return V(LIST(x.t), [ln] + [z3.K(I, y) for y in x.l])
        ba, bb = self.ev(e.left, st), self.ev(e.right, st)
        a, b = self.val(st, ba), self.val(st, bb)
        if isinstance(a, V) and a.t == STR:
            return vstr(a.s if isinstance(e.op, ast.Add) else a.s)
        if isinstance(a, Static) or isinstance(b, Static) or isinstance(a, Rec) or isinstance(b, Rec):
            return ext.static_binop(self, st, e, a, b)
        a, b = self.unopt(st, a, e), self.unopt(st, b, e)
        if a.t.k == 'list' and b.t.k == 'list' and isinstance(e.op, ast.Add):
            r = self.concat(a, b)
            return self.inner(st, bb, self.inner(st, ba, V(r.t, r.l)))
        if 'lin' in (a.t.k, b.t.k) or 'cpv' in (a.t.k, b.t.k) and not self.spec:
            return ext.lin_binop(self, st, e, a, b)
        if a.t.k == 'set' and b.t.k == 'set':
            if isinstance(e.op, ast.BitAnd):
                return V(SETI, [specs.inter(a.x, b.x)])
        op = e.op
        x, y, t = self.num2(a, b)
        if isinstance(op, ast.Add):
            return V(t, [x.x + y.x])
        if isinstance(op, ast.Sub):
            return V(t, [x.x - y.x])
        if isinstance(op, ast.Mult):
            return V(t, [x.x * y.x])
        if isinstance(op, ast.Div):
            d = toreal(y.x)
            self.ob(st, d != 0, 'division', e)
            return vreal(toreal(x.x) / d)
        if isinstance(op, ast.FloorDiv) and t.k == 'int':
            self.ob(st, y.x != 0, 'division', e)
            if z3.is_int_value(y.x) and y.x.as_long() > 0:
                return vint(x.x / y.x)
            raise Gap('floor division by a non-constant')
        if isinstance(op, ast.Mod) and t.k == 'int':
            self.ob(st, y.x != 0, 'division', e)
            if z3.is_int_value(y.x) and y.x.as_long() > 0:
                return vint(x.x % y.x)
            raise Gap('modulo by a non-constant')
        if isinstance(op, ast.Pow) and z3.is_int_value(x.x) and x.x.as_long() == 2:
            self.ob(st, y.x >= 0, 'power', e, ast.unparse(e))
            return vint(specs.pow2(y.x))
        if isinstance(op, ast.Pow) and z3.is_int_value(y.x) and y.x.as_long() == 2:
            return V(t, [x.x * x.x])
        if isinstance(op, ast.BitAnd) and t.k == 'int':
            return vint(specs.bitand(x.x, y.x))
        if isinstance(op, ast.LShift) and z3.is_int_value(x.x) and z3.is_int_value(y.x):
            return vint(x.x.as_long() << y.x.as_long())
        raise Gap(f'operator {type(op).__name__} on {t}')

    def nonneg(self, x):
        return z3.is_int_value(x) and x.as_long() >= 0 or (z3.is_const(x) and x.decl().name().endswith('.0'))

    def concat(self, a, b):
        if a.t.a[0] is None:
            return b
        if b.t.a[0] is None:
            return a
        t = join_ty(a.t, b.t)
        a, b = coerce(a, t), coerce(b, t)
        return V(t, [a.l[0] + b.l[0]] + [specs.concat(a.l[0], x, b.l[0], y) for x, y in zip(a.l[1:], b.l[1:])])

    # -------------------------------------------------------- subscripts
    def ev_Subscript(self, e, st):
        o = self.ev(e.value, st)
        if isinstance(e.slice, ast.Slice):
            return self.slice(st, o, e.slice, e)
        if isinstance(o, Static):
            if o.k in ('pylist', 'pytuple') and isinstance(e.slice, (ast.Constant, ast.UnaryOp)):
                return o.items[ast.literal_eval(e.slice)]
            if o.k == 'pydict':
                k = self.val(st, self.ev(e.slice, st))
                if isinstance(k, V) and k.s is not None and k.s in o.items:
                    return o.items[k.s]
            raise Gap('subscript of a static object')
        if isinstance(o, Rec):
            k = self.val(st, self.ev(e.slice, st))
            if isinstance(k, V) and k.t == STR and k.s is not None:
                return self.field(st, o, k.s, e)
            raise Gap('record subscript')
        base = o if isinstance(o, Alias) else None
        v = self.val(st, o)
        while v.t.k == 'opt':
            self.ob(st, z3.Not(v.l[0]), 'not-none', e, ast.unparse(e))
            v = V(v.t.a[0], v.l[1:])
            if base is not None:
                base = Alias(base.root, base.steps + (('o',),))
        step, v2 = self.index(st, v, e.slice, e)
        if len(step) > 1 and base is not None and all(isinstance(s, tuple) for s in step):
            pass
        r = v2
        if base is not None and r.t.k in ('list', 'dict', 'set', 'opt'):
            return Alias(base.root, base.steps + step)
        return r

    def index(self, st, v, sl, node):
        """(steps, element) for v[sl] with the safety obligation."""
        k = v.t.k
        if k == 'tup':
            i = ast.literal_eval(sl) if isinstance(sl, (ast.Constant, ast.UnaryOp)) else None
            if i is None:
                raise Gap('dynamic tuple index')
            if i < 0:
                i += len(v.t.a)
            return (('t', i),), self.proj(v, ('t', i))
        if k == 'mat' and isinstance(sl, ast.Tuple):
            i, j = [self.evv(x, st) for x in sl.elts]
            self.ob(st, z3.And(i.x >= 0, i.x < v.l[0]), 'index', node, ast.unparse(node))
            self.ob(st, z3.And(j.x >= 0, j.x < v.l[1]), 'index', node, ast.unparse(node))
            return (('i', i.x), ('i', j.x)), vreal(z3.Select(z3.Select(v.l[2], i.x), j.x))
        if k in ('list', 'mat'):
            i = self.unopt(st, self.evv(sl, st), node)
            if i.t.k == 'bool':
                i = coerce(i, INT)
            if i.t.k not in INTLIKE:
                raise Gap(f'index of type {i.t}')
            x = i.x
            if isinstance(sl, ast.UnaryOp) and isinstance(sl.op, ast.USub) and isinstance(sl.operand, ast.Constant):
                x = v.l[0] - sl.operand.value
                self.ob(st, x >= 0, 'index', node, ast.unparse(node))
            else:
                # a negative index would silently wrap around
                self.ob(st, z3.And(x >= 0, x < v.l[0]), 'index', node, ast.unparse(node))
            return (('i', x),), self.proj(v, ('i', x))
        if k == 'dict':
            if v.t.a[0] is None:
                raise Gap('subscript of an untyped dict')
            ks = keyleaves(self.evv(sl, st), v.t.a[0])
            self.ob(st, sel(v.l[0], ks), 'key', node, ast.unparse(node))
            s = ('k',) + tuple(ks)
            return (s,), self.proj(v, s)
        if k == 'fmap':
            i = self.evv(sl, st)
            return (('i', i.x),), self.proj(v, ('i', i.x))
        raise Gap(f'subscript of {v.t}')

    def slice(self, st, o, sl, node):
        v = self.need(self.val(st, o))
        if v.t.k != 'list':
            raise Gap('slice')
        if sl.lower is None and sl.upper is None and sl.step is None:
            return self.inner(st, o, V(v.t, v.l))
        if sl.lower is None and sl.upper is None and isinstance(sl.step, ast.UnaryOp) and \
                ast.literal_eval(sl.step) == -1:
            return self.inner(st, o, V(v.t, [v.l[0]] + [specs.reverse(v.l[0], x) for x in v.l[1:]]))
        if sl.step is None and sl.upper is None:
            a = self.evv(sl.lower, st).x
            if z3.is_int_value(a) and a.as_long() >= 0:
                n = z3.If(v.l[0] > a, v.l[0] - a, z3.IntVal(0))
                return self.inner(st, o, V(v.t, [n] + [specs.drop(x, a) for x in v.l[1:]]))
        raise Gap('slice')

    # ----------------------------------------------------- comprehensions
    def quant(self, st, gens, elt, k):
        """List of (bound vars, guard) for the generators, then body term."""
        bound, guards = [], []
        env = {}
        self.spec_env.append(env)
        n0 = len(st.pc)
        try:
            for g in gens:
                bs, gs, binds = self.quant_iter(st, g)
                bound += bs
                guards += gs
                env.update(binds)
                for f in gs:
                    st.pc.append(f)
                for c in g.ifs:
                    t = self.evb(c, st)
                    guards.append(t)
                    st.pc.append(t)
            body = self.ev(elt, st)
            body = self.val(st, body)
            extra = st.pc[n0:]
        finally:
            self.spec_env.pop()
            st.pc = st.pc[:n0]
        return bound, guards, body

    def is_zip(self, x):
        return isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == 'zip' and len(x.args) > 1 and not x.keywords

    def zip_parts(self, st, x):
        """The sequences zipped and the number of tuples."""
        vs = [self.unopt(st, self.val(st, self.ev(a, st)), x) for a in x.args]
        for v in vs:
            if not isinstance(v, V) or v.t.k not in ('list', 'mat') or v.t.a[:1] == (None,):
                raise Gap('zip of something else than lists')
        n = vs[0].l[0]
        for v in vs[1:]:
            n = z3.If(v.l[0] < n, v.l[0], n)
        return vs, z3.simplify(n)

    def quant_iter(self, st, g):
        if self.is_zip(g.iter):
            if not isinstance(g.target, ast.Tuple):
                raise Gap('comprehension target')
            vs, n = self.zip_parts(st, g.iter)
            i = fconst(I, 'q')
            binds = {}
            for t, v in zip(g.target.elts, vs):
                binds.update(self.bind_name(t, self.proj(v, ('i', i))))
            return [i], [i >= 0, i < n], binds
        it = self.ev(g.iter, st) if not self.is_enum(g.iter) else None
        if it is None:
            inner = self.ev(g.iter.args[0], st)
            bs, gs, binds = self.bind_iter(st, inner, g.target.elts[1])
            binds.update(self.bind_name(g.target.elts[0], vint(bs[0])))
            return bs, gs, binds
        return self.bind_iter(st, it, g.target)

    def is_enum(self, x):
        return isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == 'enumerate'

    def bind_name(self, t, v):
        if isinstance(t, ast.Name):
            return {t.id: v}
        if isinstance(t, ast.Tuple) and v.t.k == 'tup':
            out = {}
            for x, y in zip(t.elts, untup(v)):
                out.update(self.bind_name(x, y))
            return out
        raise Gap('comprehension target')

    def bind_iter(self, st, it, target):
        if isinstance(it, Static):
            if it.k == 'range':
                i = fconst(I, 'q')
                return [i], [i >= it.lo, i < it.hi], self.bind_name(target, vint(i))
            if it.k == 'ints':
                i = fconst(I, 'q')
                return [i], [], self.bind_name(target, vint(i))
            if it.k == 'sols':
                # every assignment there is: the i-th one of an arbitrary family
                i = fconst(I, 'q')
                return [i], [], self.bind_name(target, V(FMAP(BOOL), [z3.Function('assignment', I, arr(B))(i)]))
            if it.k == 'bools':
                i = fconst(B, 'q')
                return [i], [], self.bind_name(target, vbool(i))
            if it.k == 'refs':
                i = fconst(I, 'q')
                return [i], [], self.bind_name(target, V(REF(it.c), [i]))
            if it.k == 'arrays':
                i = fconst(arr(I), 'q')
                return [i], [], self.bind_name(target, Static('rawarr', x=i))
            if it.k == 'filtered':
                raise Gap('filter object in comprehension')
            raise Gap(f'iteration over {it.k}')
        alias = it if isinstance(it, Alias) else None
        v = self.val(st, it)
        v = self.unopt(st, v, None)
        if v.t.k == 'list' or v.t.k == 'mat':
            i = fconst(I, 'q')
            e = self.proj(v, ('i', i)) if v.t.a[:1] != (None,) else V(INT, [i])
            return [i], [i >= 0, i < v.l[0]], self.bind_name(target, e)
        if v.t.k == 'set':
            i = fconst(I, 'q')
            return [i], [z3.Select(v.x, i)], self.bind_name(target, vint(i))
        if v.t.k == 'dict':
            ks = [fconst(I, 'q') for _ in range(nkeys(v.t.a[0]))]
            return ks, [sel(v.l[0], ks)], self.bind_name(target, V(v.t.a[0], ks))
        raise Gap(f'iteration over {v.t}')

    def ev_ListComp(self, e, st):
        if len(e.generators) != 1:
            raise Gap('nested list comprehension')
        g = e.generators[0]
        bound, guards, body = self.quant(st, e.generators, e.elt, 'list')
        if len(bound) != 1:
            raise Gap('list comprehension over a dict')
        i = bound[0]
        zipped = self.is_zip(g.iter)
        it = None if zipped else self.ev(g.iter, st) if not self.is_enum(g.iter) else self.ev(g.iter.args[0], st)
        if zipped:
            n = self.zip_parts(st, g.iter)[1]
        elif isinstance(it, Static):
            if it.k != 'range':
                raise Gap('list comprehension source')
            lo, n = it.lo, it.hi - it.lo
            n = z3.If(n >= 0, n, z3.IntVal(0))
            # normalise to a zero based index
            if not (z3.is_int_value(lo) and lo.as_long() == 0):
                j = fconst(I, 'q')
                guards = [z3.substitute(x, (i, j + lo)) for x in guards]
                body = V(body.t, [z3.substitute(x, (i, j + lo)) for x in body.l])
                i = j
                guards[0], guards[1] = i >= 0, i < n
        else:
            v = self.unopt(st, self.val(st, it), e)
            if v.t.k not in ('list', 'mat'):
                raise Gap('list comprehension source')
            n = v.l[0]
        body = self.need(body)
        if has_container(body.t) and not self.spec and not self.fresh_display(e.elt):
            raise Gap('comprehension over existing containers')
        if not g.ifs:
            out = fresh(LIST(body.t), 'comp')
            st.assume(out.l[0] == n)
            for x, y in zip(out.l[1:], body.l):
                st.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), z3.Select(x, i) == y),
                                    patterns=[z3.Select(x, i)]))
            return out
        cond = z3.And(guards[2:])
        return specs.filtered(self, st, i, n, cond, body)

    def fresh_display(self, n):
        return isinstance(n, (ast.List, ast.Set, ast.ListComp, ast.SetComp)) and not any(
            isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) for x in getattr(n, 'elts', [])) or \
            isinstance(n, ast.BinOp) and isinstance(n.op, ast.Mult) and self.fresh_display(n.left) or \
            isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('set', 'list', 'dict') and not n.args

    def ev_SetComp(self, e, st):
        bound, guards, body = self.quant(st, e.generators, e.elt, 'set')
        s = fconst(arr(B), 'setc')
        x = fconst(I, 'q')
        b = self.need(body).x
        st.assume(z3.ForAll([x], z3.Select(s, x) == z3.Exists(bound, z3.And(guards + [b == x]))))
        return V(SETI, [s])

    def ev_GeneratorExp(self, e, st):
        return Static('gen', node=e)

    def ev_Lambda(self, e, st):
        return Static('lambda', node=e)

"""Verification-condition generator for the Python subset used by the
repository.  The text executed symbolically is the AST of the file in /repo,
parsed on every run; nothing is rewritten by hand.

Loops are cut by the invariants of the contract file, calls to functions under
contract are replaced by their contract, other repository functions are
inlined, OR-Tools / numpy / random calls have the assumed contracts of
engine/ext.py.  Anything else raises Gap (function not decided).
"""
import ast
import itertools
import os
import warnings
import z3
from .vals import *
from . import specs

REPO = os.environ.get('REPO_UNDER_TEST', '/repo')


class Alias:
    """A local bound to a mutable container that lives in another place."""
    __slots__ = ('root', 'steps')

    def __init__(self, root, steps=()):
        self.root, self.steps = root, tuple(steps)

    def __eq__(self, o):
        return isinstance(o, Alias) and self.root == o.root and len(self.steps) == len(o.steps) and \
            all(same_step(a, b) for a, b in zip(self.steps, o.steps))

    def __repr__(self):
        return f'Alias({self.root},{self.steps})'


def same_step(a, b):
    return a[0] == b[0] and all(x.eq(y) if z3.is_expr(x) else x == y for x, y in zip(a[1:], b[1:]))


class Fz:
    """A container whose home is also reachable elsewhere: reading is fine,
    mutating it is outside the subset."""
    __slots__ = ('v', 'deps', 'places')

    def __init__(self, v, deps=(), places=None):
        self.v = v
        self.places = places            # (root, depth) of the container where known
        self.deps = frozenset(deps)     # places that may be this very object: once they change, v is stale


def deps_of(*bs):
    return frozenset(d for b in bs for d in ([b.root] if isinstance(b, Alias) else b.deps if isinstance(b, Fz) else ()))


class Rec:
    """Statically known object (self, its solver, ...): fields are roots."""
    __slots__ = ('p', 'c')

    def __init__(self, p, c):
        self.p, self.c = p, c

    def __eq__(self, o):
        return isinstance(o, Rec) and self.p == o.p

    def __repr__(self):
        return f'Rec({self.p}:{self.c})'


class Static:
    """Static handles: solver objective, iterators, lambdas, modules."""

    def __init__(self, k, **kw):
        self.k = k
        self.__dict__.update(kw)

    def __eq__(self, o):
        return self is o or (isinstance(o, Static) and self.__dict__ == o.__dict__)


UNDEF = Static('undef')


class St:
    def __init__(self):
        self.roots = {}
        self.pc = []
        self.loops = []      # loop index terms (innermost last)
        self.shared = frozenset()     # (root, depth): containers from this depth on are reachable in another way too
        self.past = {}       # loop of the function under proof -> state in which it was left, on this path
        self.dead = False

    def copy(self):
        s = St()
        s.roots = dict(self.roots)
        s.pc = list(self.pc)
        s.loops = list(self.loops)
        s.shared = self.shared
        s.past = dict(self.past)
        return s

    def assume(self, *fs):
        for f in fs:
            if z3.is_true(f):
                continue
            self.pc.append(f)


class Ob:
    def __init__(self, name, pc, goal, fn, line, kind, src=''):
        self.name, self.pc, self.goal, self.fn, self.line, self.kind, self.src = \
            name, pc, goal, fn, line, kind, src


def conjuncts(g):
    """The goal as a list of goals whose conjunction it is."""
    if z3.is_and(g):
        return [x for c in g.children() for x in conjuncts(c)]
    if z3.is_implies(g):
        return [z3.Implies(g.arg(0), x) for x in conjuncts(g.arg(1))]
    return [g]


class Ret(Exception):
    pass


# ---------------------------------------------------------------- repository
class Repo:
    FILES = {'_bdr_classifier': 'col_gen_estimator/_bdr_classifier.py',
             '_col_gen_classifier': 'col_gen_estimator/_col_gen_classifier.py',
             '_dtree_classifier': 'col_gen_estimator/_dtree_classifier.py',
             '_parameter_tuner': 'col_gen_estimator/_parameter_tuner.py'}

    def __init__(self, root=REPO):
        self.funcs, self.classes, self.mod_of, self.src = {}, {}, {}, {}
        for m, f in self.FILES.items():
            src = open(os.path.join(root, f)).read()
            self.src[m] = src
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                tree = ast.parse(src)
            for n in tree.body:
                if isinstance(n, ast.FunctionDef):
                    self.funcs[(m, n.name)] = n
                elif isinstance(n, ast.ClassDef):
                    bases = [b.id if isinstance(b, ast.Name) else ast.unparse(b) for b in n.bases]
                    meths = {x.name: x for x in n.body if isinstance(x, ast.FunctionDef)}
                    self.classes[n.name] = (m, bases, meths)
                    for x in meths.values():
                        self.mod_of[id(x)] = m

    def method(self, cls, name):
        """(defining class, FunctionDef) or None."""
        if cls not in self.classes:
            return None
        m, bases, meths = self.classes[cls]
        if name in meths:
            return cls, meths[name]
        for b in bases:
            r = self.method(b, name)
            if r:
                return r
        return None

    def find(self, qual):
        """'Class.method' or 'module:function' -> (module, class|None, node)."""
        if '.' in qual:
            c, m = qual.split('.')
            r = self.method(c, m)
            if r is None:
                raise Gap(f'{qual} does not exist')
            return self.classes[r[0]][0], c, r[1]
        m, f = qual.split(':')
        if (m, f) not in self.funcs:
            raise Gap(f'{qual} does not exist')
        return m, None, self.funcs[(m, f)]


def strip_doc(body):
    if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) \
            and isinstance(body[0].value.value, str):
        return body[1:]
    return body


def loops_of(fn):
    out = []

    class W(ast.NodeVisitor):
        def visit_For(self, n):
            out.append(n)
            self.generic_visit(n)

        visit_While = visit_For

        def visit_FunctionDef(self, n):
            if n is fn:
                self.generic_visit(n)

        def visit_Lambda(self, n):
            pass
    W().visit(fn)
    return out


def locals_of(fn):
    """Local names in order of first binding (used for renaming tolerance)."""
    out = [a.arg for a in fn.args.args]

    class W(ast.NodeVisitor):
        def visit_Name(self, n):
            if isinstance(n.ctx, ast.Store) and n.id not in out:
                out.append(n.id)

        def visit_ListComp(self, n):
            pass

        visit_GeneratorExp = visit_SetComp = visit_DictComp = visit_Lambda = visit_ListComp
    for s in fn.body:
        W().visit(s)
    return out


# ------------------------------------------------------------------- engine
class VC:
    def __init__(self, repo, C):
        """C: specs.Contracts"""
        self.repo = repo
        self.loop_deps = {}
        self.loop_undef = set()
        self.root_field = {}
        self.lemma_now = None
        self.C = C
        self.obs = []
        self.frame = 0
        self.fn_stack = []
        self.mods = {}         # loop node id, frame-class -> set of roots
        self.dry = 0
        self.log = None
        self.spec = 0
        self.spec_env = []
        self.old = []
        self.inlined = set()
        self.used_contracts = set()
        self.used_ext = set()
        self.axioms_used = set()
        self.rename = {}
        self.decls = {}
        self.entry_facts = {'$alloc': [z3.Int('$alloc') >= 0]}
        self.raises = []
        self.params, self.pmut = set(), set()
        self.cur = 'f0'

    # ---------------------------------------------------------- obligations
    def ob(self, st, goal, kind, node=None, src=''):
        if self.dry or self.spec:
            return
        if isinstance(goal, V):
            goal = goal.x
        if z3.is_true(goal):
            return
        fn = self.fn_stack[0]
        line = getattr(node, 'lineno', 0)
        where = '' if len(self.fn_stack) == 1 else '@' + self.fn_stack[-1]
        parts = conjuncts(goal)
        for n, g in enumerate(parts):
            if z3.is_true(g):
                continue
            name = f'{fn}{where}:{kind}#{len(self.obs)}'
            s = src if len(parts) == 1 else f'{n + 1}/{len(parts)} of {src}'
            if s:
                name += ' [' + ' '.join(s.split())[:160] + ']'
            self.obs.append(Ob(name, list(st.pc), g, fn, line, kind, s))

    # --------------------------------------------------------------- places
    def new_frame(self):
        self.frame += 1
        return f'f{self.frame}'

    def loc(self, name):
        return f'{self.cur}${name}'

    def lookup_field(self, rec, name):
        f = self.C.field(rec.c, name)
        if f is None:
            return None
        return f

    def root_value(self, st, root):
        v = st.roots.get(root)
        return v

    def field(self, st, rec, name, node=None):
        t = self.lookup_field(rec, name)
        if t is None:
            raise Gap(f'unknown attribute {rec.c}.{name}')
        root = rec.p + '.' + name
        self.root_field[root] = f'{rec.c}.{name}'
        if isinstance(t, Static):
            return t
        if t.k == 'rec':
            b = st.roots.get(root)
            if isinstance(b, Rec):
                return b
            return Rec(root, t.a[0])
        if root not in st.roots:
            self.init_root(st, root, t)
        return Alias(root)

    def init_root(self, st, root, t):
        """A root first seen now existed, with the same value, from the start:
        its symbolic constant is named after the root."""
        ss = sorts(t)
        v = V(t, [z3.Const(f'{root}.{i}' if len(ss) > 1 else root, s) for i, s in enumerate(ss)])
        st.roots[root] = v
        if root not in self.entry_facts:
            self.entry_facts[root] = self.tinv(v, st, z3.Int('$alloc')) + self.api_facts(root, v)

    def api_facts(self, root, v):
        """Objective and row coefficients of variables / rows that do not exist are 0."""
        p, _, f = root.rpartition('.')
        c = self.prefix_class(p) if f in ('obj', 'coef') else None
        if not c:
            return []
        n, m = z3.Int(p + '.nvars'), z3.Int(p + '.ncons')
        i, j = z3.Ints('wc wv')
        if f == 'obj':
            return [n >= 0, z3.ForAll([j], z3.Implies(z3.Or(j < 0, j >= n), z3.Select(v.x, j) == 0), patterns=[z3.Select(v.x, j)])]
        if c != 'MPSolver':
            return []
        cell = z3.Select(z3.Select(v.x, i), j)
        return [n >= 0, m >= 0, z3.ForAll([i, j], z3.Implies(z3.Or(j < 0, j >= n, i < 0, i >= m), cell == 0), patterns=[cell])]

    def heap(self, st, cls, name):
        t = self.C.field(cls, name)
        if t is None:
            raise Gap(f'unknown attribute {cls}.{name}')
        root = f'{cls}.{name}'
        if root not in st.roots:
            self.init_root(st, root, FMAP(t))
        return root

    def get(self, st, root, steps=()):
        v = st.roots.get(root)
        if v is None:
            raise Gap(f'undefined {root}')
        if isinstance(v, Alias):
            return self.get(st, v.root, v.steps + tuple(steps))
        if isinstance(v, Fz):
            v = v.v
        if not isinstance(v, V):
            if steps:
                raise Gap(f'static value {root} indexed')
            return v
        for s in steps:
            v = self.proj(v, s)
        return v

    def proj(self, v, s):
        k = s[0]
        if k == 'i':
            if v.t.k == 'list':
                if v.t.a[0] is None:
                    raise Gap('element of an untyped empty list')
                return V(v.t.a[0], [z3.Select(x, s[1]) for x in v.l[1:]])
            if v.t.k == 'fmap':
                return V(v.t.a[0], [z3.Select(x, s[1]) for x in v.l])
            if v.t.k == 'mat':
                return V(LIST(REAL), [v.l[1], z3.Select(v.l[2], s[1])])
        if k == 'k' and v.t.k == 'dict':
            return V(v.t.a[1], [sel(x, s[1:]) for x in v.l[1:]])
        if k == 'o' and v.t.k == 'opt':
            return V(v.t.a[0], v.l[1:])
        if k == 't' and v.t.k == 'tup':
            return untup(v)[s[1]]
        raise Gap(f'projection {s} of {v.t}')

    def upd(self, v, steps, nv):
        """v with the value at steps replaced by nv (types may be refined)."""
        if not steps:
            return nv
        s = steps[0]
        k = s[0]
        if k == 'o':
            inner = self.upd(V(v.t.a[0], v.l[1:]), steps[1:], nv)
            return coerce(inner, v.t)
        if k == 'i' and v.t.k == 'list':
            et = v.t.a[0]
            if et is None or et == NONE:
                if len(steps) > 1:
                    raise Gap('nested store into an untyped list')
                v = coerce(v, LIST(nv.t if et is None or nv.t.k in ('opt',) else nv.t))
                et = v.t.a[0]
            cur = V(et, [z3.Select(x, s[1]) for x in v.l[1:]])
            e = self.upd(cur, steps[1:], nv)
            if e.t != et:
                j = join_ty(e.t, et)
                if j != et:
                    v = coerce(v, LIST(j))
                    et = j
                e = coerce(e, et)
            return V(v.t, [v.l[0]] + [z3.Store(x, s[1], y) for x, y in zip(v.l[1:], e.l)])
        if k == 'i' and v.t.k == 'fmap':
            et = v.t.a[0]
            cur = V(et, [z3.Select(x, s[1]) for x in v.l])
            e = coerce(self.upd(cur, steps[1:], nv), et)
            return V(v.t, [z3.Store(x, s[1], y) for x, y in zip(v.l, e.l)])
        if k == 'k' and v.t.k == 'dict':
            et = v.t.a[1]
            cur = V(et, [sel(x, s[1:]) for x in v.l[1:]])
            e = self.upd(cur, steps[1:], nv)
            if e.t != et:
                j = join_ty(e.t, et)
                if j != et:
                    v = coerce(v, DICT(v.t.a[0], j))
                    et = j
                e = coerce(e, et)
            dom = sto(v.l[0], s[1:], z3.BoolVal(True))
            return V(v.t, [dom] + [sto(x, s[1:], y) for x, y in zip(v.l[1:], e.l)])
        if k == 't':
            parts = untup(v)
            parts[s[1]] = self.upd(parts[s[1]], steps[1:], nv)
            return mktup(parts)
        raise Gap(f'update {s} of {v.t}')

    def set(self, st, root, steps, nv, reassign=False):
        b = st.roots.get(root)
        if isinstance(b, Alias) and not (reassign and not steps):
            return self.set(st, b.root, b.steps + tuple(steps), nv, reassign)
        if isinstance(b, Fz) and steps:
            raise Gap(f'mutation of a shared container {root}')
        if self.log is not None:
            self.log.add(root)
        if not reassign and root in self.params:
            self.pmut.add(root)
        if reassign:
            self.detach(st, root, steps)
        self.stale(st, root)
        if not steps:
            decl = self.decl_type(root)
            if decl is not None and isinstance(nv, V):
                nv = coerce(nv, decl)
            st.roots[root] = nv
            return
        if not isinstance(b, V):
            raise Gap(f'store into {root}')
        st.roots[root] = self.upd(b, list(steps), nv)

    def holds_containers(self, st, root):
        b = st.roots.get(root)
        return not isinstance(b, V) or b.t.k == 'fmap' and has_container(b.t.a[0]) or has_container(b.t)

    def stale(self, st, root):
        for r, x in st.roots.items():
            if isinstance(x, Fz) and r != root and (root in x.deps or '$any' in x.deps and self.holds_containers(st, root)):
                st.roots[r] = UNDEF
                if self.log is not None:
                    self.log.add(r)

    def decl_type(self, root):
        return self.decls.get(root)

    def detach(self, st, root, steps):
        """The place is about to hold another object: names of the old one keep its value."""
        for r, b in list(st.roots.items()):
            if isinstance(b, Alias) and b.root == root and r != root and len(b.steps) >= len(steps):
                if any(a[0] == x[0] == 'i' and z3.is_int_value(a[1]) and z3.is_int_value(x[1]) and not a[1].eq(x[1])
                       for a, x in zip(steps, b.steps)):
                    continue
                same = all(same_step(x, y) for x, y in zip(steps, b.steps))
                st.roots[r] = Fz(self.get(st, b.root, b.steps), () if same else {root}, [(root, self.depth(st, root, b.steps))])
                if self.log is not None:
                    self.log.add(r)

    # ------------------------------------------------- sharing of containers
    # Containers are values here; that is right as long as a container reachable in two ways is not mutated.  Places that
    # became shared in this function are recorded in st.shared, fields whose containers may be shared across calls are
    # declared (C.shared); mutating either, or sharing an undeclared field, is outside the subset (Gap).
    def depth(self, st, root, steps):
        n = sum(1 for x in steps if x[0] in ('i', 'k'))
        b = st.roots.get(root)
        return n - 1 if isinstance(b, V) and b.t.k == 'fmap' and n else n

    def resolve(self, st, root, steps=()):
        b = st.roots.get(root)
        while isinstance(b, Alias):
            root, steps = b.root, b.steps + tuple(steps)
            b = st.roots.get(root)
        return root, tuple(steps)

    def is_field(self, root):
        """A place that outlives the function (records built here are local until they are stored: copy_rec)."""
        return '$' not in root and '!' not in root

    def declared(self, root):
        """Depth from which the containers of a field may be shared, by declaration."""
        return self.C.shared_depth(self.root_field.get(root, root))

    def mutating(self, st, root, steps):
        if self.spec:
            return
        root, steps = self.resolve(st, root, steps)
        d = self.depth(st, root, steps)
        k = self.declared(root)
        if any(r == root and x <= d for r, x in st.shared) or (k is not None and k <= d):
            raise Gap(f'mutation of a container of {root} that is reachable in another way')

    def places(self, st, b):
        if isinstance(b, Alias):
            root, steps = self.resolve(st, b.root, b.steps)
            return [(root, self.depth(st, root, steps))]
        if isinstance(b, Fz):
            return list(b.places) if b.places is not None else [(r, 0) for r in b.deps]
        return []

    def share(self, st, places):
        st.shared = st.shared | frozenset(places)

    def inner(self, st, b, v):
        """v is a shallow copy of b: its inner containers are those of b."""
        if isinstance(v, V) and not self.spec and inner_container(v.t):
            ps = [(r, d + 1) for r, d in self.places(st, b)]
            bv = self.val(st, b)
            if isinstance(bv, V) and bv.sh is not None and bv.sh[0] != 'tup':
                ps += list(bv.sh[1])
            self.share(st, ps)
            if v.sh is not None and v.sh[0] != 'tup':
                ps += list(v.sh[1])
            return V(v.t, v.l, v.s, sh=(1, ps))
        return v

    def storing(self, st, b, root, steps, owned=False):
        """The value of binding b is put into a place; owned: b was a local that denotes the place from now on."""
        if self.spec:
            return
        v = self.val(st, b)
        if not isinstance(v, V) or not has_container(v.t):
            return
        root, steps = self.resolve(st, root, steps)
        d = self.depth(st, root, steps)
        ps = [] if owned else [p for p in self.places(st, b)]
        dst = [(root, d)] if ps else []
        hs = [v.sh] if v.sh is not None and v.sh[0] != 'tup' else [h for h in (v.sh[1] if v.sh else []) if h is not None]
        for h in hs:
            ps += list(h[1])
            dst.append((root, d + h[0]))
        if owned:
            # what was shared inside the local is shared inside the place
            for p in self.places(st, b):
                dst += [(root, d + k - p[1]) for r, k in st.shared if r == p[0] and k > p[1]]
        if not dst:
            return
        self.share(st, ps + dst)
        if self.is_field(root) or root in self.params:
            for r, k in ps + dst:
                if self.is_field(r):
                    x = self.declared(r)
                    if x is None or x > k:
                        raise Gap(f'{r} may share a container with {root}')
                elif r in self.params and r.split('$', 1)[1] not in self.spec_fn.captures:
                    raise Gap(f'parameter {r} is kept in {root}')

    # ------------------------------------------------------ type invariants
    def tinv(self, v, st, al=None):
        out = []
        if al is None:
            al = self.alloc(st)

        def go(v, quants, guard):
            t = v.t
            if t.k in ('list', 'mat'):
                fs = [v.l[0] >= 0] + ([v.l[1] >= 0] if t.k == 'mat' else [])
                for f in fs:
                    out.append(wrap(f, quants, guard))
                if t.k == 'list' and t.a[0] is not None and needs(t.a[0]):
                    i = fconst(I, 'q')
                    go(V(t.a[0], [z3.Select(x, i) for x in v.l[1:]]), quants + [i],
                       guard + [i >= 0, i < v.l[0]])
            elif t.k == 'ref':
                out.append(wrap(z3.And(v.x >= 0, v.x < al), quants, guard))
            elif t.k == 'opt' and needs(t.a[0]):
                go(V(t.a[0], v.l[1:]), quants, guard + [z3.Not(v.l[0])])
            elif t.k == 'tup':
                for x in untup(v):
                    if needs(x.t):
                        go(x, quants, guard)
            elif t.k == 'dict' and t.a[0] is not None and needs(t.a[1]):
                ks = [fconst(I, 'q') for _ in range(nkeys(t.a[0]))]
                go(V(t.a[1], [sel(x, ks) for x in v.l[1:]]), quants + ks, guard + [sel(v.l[0], ks)])
            elif t.k == 'fmap' and needs(t.a[0]):
                i = fconst(I, 'q')
                go(V(t.a[0], [z3.Select(x, i) for x in v.l]), quants + [i],
                   guard + [i >= 0, i < al])

        def needs(t):
            return t.k in ('list', 'mat', 'ref') or (t.k in ('opt', 'tup', 'fmap') and any(
                needs(x) for x in t.a if isinstance(x, Ty))) or (t.k == 'dict' and t.a[0] is not None and needs(t.a[1]))

        def wrap(f, quants, guard):
            if guard:
                f = z3.Implies(z3.And(guard), f)
            return z3.ForAll(quants, f) if quants else f
        if needs(v.t):
            go(v, [], [])
        return out

    def alloc(self, st):
        if '$alloc' not in st.roots:
            st.roots['$alloc'] = V(INT, [z3.Int('$alloc')])
        return st.roots['$alloc'].x

    # ----------------------------------------------------------- utilities
    def val(self, st, b):
        if isinstance(b, Alias):
            return self.get(st, b.root, b.steps)
        if isinstance(b, Fz):
            return b.v
        return b

    def need(self, v, what='value'):
        if not isinstance(v, V):
            raise Gap(f'{what} is not a first-order value: {getattr(v, "k", v)}')
        return v

    def unopt(self, st, v, node, what='None used as a value'):
        """v itself, or the payload of an optional with a not-None obligation."""
        if isinstance(v, V) and v.t.k == 'opt':
            self.ob(st, z3.Not(v.l[0]), 'not-none', node)
            return V(v.t.a[0], v.l[1:])
        return v

    def truth(self, st, v):
        v = self.val(st, v)
        if isinstance(v, (Rec, Static)):
            return z3.BoolVal(True)
        k = v.t.k
        if k == 'bool':
            return v.x
        if k in INTLIKE:
            return v.x != 0
        if k == 'real':
            return v.x != 0
        if k == 'none':
            return z3.BoolVal(False)
        if k in ('list',):
            return v.l[0] != 0
        if k == 'opt':
            inner = V(v.t.a[0], v.l[1:])
            if inner.t.k == 'ref':
                return z3.Not(v.l[0])
            return z3.And(z3.Not(v.l[0]), self.truth(st, inner))
        if k == 'set':
            return specs.card(v.x) != 0
        raise Gap(f'truth value of {v.t}')

    def num2(self, a, b):
        t = join_ty(a.t if a.t.k != 'bool' else INT, b.t if b.t.k != 'bool' else INT)
        if t.k not in ('int', 'real') and t.k not in INTLIKE:
            raise Gap(f'arithmetic on {a.t}, {b.t}')
        return coerce(a, t), coerce(b, t), t

    # ------------------------------------------------------------ merging
    def merge(self, c, s1, s2, base):
        """One state equal to s1 under c and to s2 otherwise (None if the
        bindings cannot be merged)."""
        s = St()
        s.loops = list(base.loops)
        s.shared = s1.shared | s2.shared
        s.past = {k: x for k, x in s1.past.items() if s2.past.get(k) is x}
        n = len(base.pc)
        s.pc = list(base.pc)
        e1, e2 = s1.pc[n:], s2.pc[n:]
        for f in e1:
            s.pc.append(z3.Implies(c, f))
        nc = z3.Not(c)
        for f in e2:
            s.pc.append(z3.Implies(nc, f))
        for r in dict.fromkeys(list(s1.roots) + list(s2.roots)):
            a, b = s1.roots.get(r), s2.roots.get(r)
            if a is None or b is None:
                o = a if a is not None else b
                if '$' in r and not r.startswith('$'):
                    s.roots[r] = o if isinstance(o, Static) and o.k == 'undef' else Maybe(o)
                    continue
                if not isinstance(o, V):
                    s.roots[r] = o
                    continue
                # a root the other branch never touched still has its initial value there
                x = s1 if a is None else s2
                self.init_root(x, r, o.t)
                a, b = s1.roots[r], s2.roots[r]
            if isinstance(a, Maybe) or isinstance(b, Maybe):
                s.roots[r] = a if isinstance(a, Maybe) else b
                continue
            if a is b:
                s.roots[r] = a
                continue
            if isinstance(a, (Rec, Static)) or isinstance(b, (Rec, Static)):
                if a == b:
                    s.roots[r] = a
                    continue
                return None
            if isinstance(a, Alias) and isinstance(b, Alias) and a == b:
                s.roots[r] = a
                continue
            try:
                if isinstance(a, V) and isinstance(b, V):
                    s.roots[r] = self.joined(s, r, c, a, b)
                else:
                    s.roots[r] = Fz(ite(c, self.val(s1, a), self.val(s2, b)), deps_of(a, b))
            except Gap:
                return None
        return s


    def joined(self, s, r, c, a, b):
        """ite(c, a, b), arrays under a name of their own (usable in triggers)."""
        m = ite(c, a, b)
        out = []
        for i, t in enumerate(m.l):
            if z3.is_array(t) and z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE and not self.spec:
                n = fconst(t.sort(), r)
                s.pc += [z3.Implies(t.arg(0), n == t.arg(1)), z3.Implies(z3.Not(t.arg(0)), n == t.arg(2))]
                t = n
            out.append(t)
        return V(m.t, out, m.s)


class Maybe:
    """A local that is bound on some paths only."""

    def __init__(self, b):
        self.b = b

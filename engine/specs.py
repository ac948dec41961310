"""Specification functions, their axioms, and the contract registry."""
import ast
import z3
from .vals import *
from .vals import _ctr

# ------------------------------------------------------------ axiom registry
AX = {}       # decl name -> list of axioms (thunks evaluated once)
_decl = {}


def decl(name, *ss):
    if name not in _decl:
        _decl[name] = z3.Function(name, *ss)
    return _decl[name]


DEFS = set()      # specification functions whose axiom is a definition that may be left folded


def axioms_for(fs, fold=False):
    """Axioms of every specification function occurring in fs, transitively."""
    seen, names, out = set(), set(), []
    stack = list(fs)
    while stack:
        t = stack.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_quantifier(t):
            stack.append(t.body())
            continue
        if z3.is_app(t):
            n = t.decl().name()
            if n in AX and n not in names and not (fold and n in DEFS):
                names.add(n)
                axs = AX[n]
                if callable(axs):
                    axs = AX[n] = axs()
                out += axs
                stack += axs
            stack += t.children()
    return out, names


def sname(s):
    return str(s).replace(' ', '').replace('(', '_').replace(')', '').replace(',', '_')


def mem(n, a, x):
    f = decl('mem', I, arr(I), I, B)
    if 'mem' not in AX:
        def mk():
            g = decl('mem_at', I, arr(I), I, I)
            N, X, J = z3.Ints('mN mX mJ')
            A = z3.Const('mA', arr(I))
            at = g(N, A, X)
            return [z3.ForAll([N, A, X], z3.Implies(f(N, A, X), z3.And(at >= 0, at < N, z3.Select(A, at) == X)),
                              patterns=[f(N, A, X)]),
                    z3.ForAll([N, A, X, J], z3.Implies(z3.And(J >= 0, J < N, z3.Select(A, J) == X), f(N, A, X)),
                              patterns=[z3.MultiPattern(f(N, A, X), z3.Select(A, J))]),
                    z3.ForAll([N, A, X, J], z3.Implies(N >= 0, f(N + 1, z3.Store(A, N, J), X) == z3.Or(f(N, A, X), X == J)),
                              patterns=[f(N + 1, z3.Store(A, N, J), X)])]
        AX['mem'] = mk
    return f(n, a, x)


def concat(n, a, m, b):
    s = a.sort()
    nm = 'concat_' + sname(s)
    f = decl(nm, I, s, I, s, s)
    if nm not in AX:
        def mk():
            N, M, J = z3.Ints('cN cM cJ')
            A, C = z3.Consts('cA cB', s)
            c = f(N, A, M, C)
            return [z3.ForAll([N, A, M, C, J], z3.Select(c, J) == z3.If(J < N, z3.Select(A, J), z3.Select(C, J - N)),
                              patterns=[z3.Select(c, J)]),
                    z3.ForAll([N, A, M, C, J], z3.Implies(z3.And(J >= 0, J < N), z3.Select(c, J) == z3.Select(A, J)),
                              patterns=[z3.MultiPattern(c, z3.Select(A, J))]),
                    z3.ForAll([N, A, M, C, J], z3.Implies(J >= 0, z3.Select(c, J + N) == z3.Select(C, J)),
                              patterns=[z3.MultiPattern(c, z3.Select(C, J))])]
        AX[nm] = mk
    return f(n, a, m, b)


def reverse(n, a):
    s = a.sort()
    nm = 'reverse_' + sname(s)
    f = decl(nm, I, s, s)
    if nm not in AX:
        def mk():
            N, J = z3.Ints('rN rJ')
            A = z3.Const('rA', s)
            return [z3.ForAll([N, A, J], z3.Select(f(N, A), J) == z3.Select(A, N - 1 - J),
                              patterns=[z3.Select(f(N, A), J)]),
                    z3.ForAll([N, A, J], z3.Select(f(N, A), N - 1 - J) == z3.Select(A, J),
                              patterns=[z3.MultiPattern(f(N, A), z3.Select(A, J))])]
        AX[nm] = mk
    return f(n, a)


def drop(a, k):
    s = a.sort()
    nm = 'drop_' + sname(s)
    f = decl(nm, s, I, s)
    if nm not in AX:
        def mk():
            K, J = z3.Ints('dK dJ')
            A = z3.Const('dA', s)
            return [z3.ForAll([A, K, J], z3.Select(f(A, K), J) == z3.Select(A, J + K),
                              patterns=[z3.Select(f(A, K), J)])]
        AX[nm] = mk
    return f(a, k)


def inter(a, b):
    s = a.sort()
    f = decl('inter', s, s, s)
    if 'inter' not in AX:
        def mk():
            A, C = z3.Consts('iA iB', s)
            J = z3.Int('iJ')
            return [z3.ForAll([A, C, J], z3.Select(f(A, C), J) == z3.And(z3.Select(A, J), z3.Select(C, J)),
                              patterns=[z3.Select(f(A, C), J)])]
        AX['inter'] = mk
    return f(a, b)


def card(a):
    return decl('card', arr(B), I)(a)


def pick(a, k):
    """The elements of a finite set of at most two elements (len is `card`)."""
    f = decl('pick', arr(B), I, I)
    if 'pick' not in AX:
        def mk():
            A, J = z3.Const('kA', arr(B)), z3.Int('kJ')
            return [z3.ForAll([A, J], z3.Implies(z3.And(card(A) <= 2, z3.Select(A, J)), z3.Or(J == f(A, 0), J == f(A, 1))), patterns=[z3.MultiPattern(f(A, 0), z3.Select(A, J))])]
        AX['pick'] = mk
    return f(a, k)


def pow2(n):
    f = decl('pow2', I, I)
    if 'pow2' not in AX:
        def mk():
            g = decl('pow2_0', I, I)
            N = z3.Int('pN')
            return [z3.ForAll([N], f(N) == z3.If(N <= 0, 1, 2 * g(N - 1)), patterns=[f(N)]),
                    z3.ForAll([N], z3.And(f(N) == g(N), f(N) >= 1), patterns=[f(N)])]
        AX['pow2'] = mk
    return f(n)


def sqrt(x):
    f = decl('fsqrt', R, R)
    if 'fsqrt' not in AX:
        def mk():
            X = z3.Real('sX')
            return [z3.ForAll([X], z3.Implies(X >= 0, z3.And(f(X) >= 0, f(X) * f(X) == X)), patterns=[f(X)])]
        AX['fsqrt'] = mk
    return f(x)


def bitand(a, b):
    return decl('bitand', I, I, I)(a, b)


def floor_(x):
    return z3.ToInt(x)


_filt = {}


def filtered(vc, st, i, n, cond, body):
    """The list [body for i in range(n) if cond] as a fresh list value."""
    k = next(_ctr)
    cnt = z3.Function(f'fcnt!{k}', I, I)
    nth = z3.Function(f'fnth!{k}', I, I)
    out = fresh(LIST(body.t), 'filt')
    j = fconst(I, 'q')
    sub = lambda t, x: z3.substitute(t, (i, x))
    st.assume(cnt(0) == 0, out.l[0] == cnt(n), n >= 0)
    st.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), z3.And(
        cnt(i + 1) == cnt(i) + z3.If(cond, 1, 0), cnt(i) >= 0, cnt(i) <= i, cnt(i) <= cnt(n))), patterns=[cnt(i)]))
    st.assume(cnt(n) >= 0, cnt(n) <= n)
    st.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n, cond), z3.And(
        cnt(i) < cnt(n), nth(cnt(i)) == i, *[z3.Select(o, cnt(i)) == b for o, b in zip(out.l[1:], body.l)])),
        patterns=[cnt(i)]))
    # every witness of the condition has a position (trigger on the element terms)
    st.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < cnt(n)), z3.And(
        nth(j) >= 0, nth(j) < n, sub(cond, nth(j)), cnt(nth(j)) == j,
        *[z3.Select(o, j) == sub(b, nth(j)) for o, b in zip(out.l[1:], body.l)])),
        patterns=[z3.Select(out.l[1], j)] if len(out.l) > 1 else [nth(j)]))
    # every index satisfying the condition is counted: instantiate cnt on it
    trig = None
    for t in subterms(cond):
        if z3.is_select(t) and t.arg(1).eq(i):
            trig = t
            break
    if trig is not None:
        st.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n, cond), z3.And(
            cnt(i) >= 0, cnt(i) < cnt(n), nth(cnt(i)) == i,
            *[z3.Select(o, cnt(i)) == b for o, b in zip(out.l[1:], body.l)])), patterns=[trig]))
    # order preserving
    j2 = fconst(I, 'q')
    st.assume(z3.ForAll([j, j2], z3.Implies(z3.And(0 <= j, j < j2, j2 < cnt(n)), nth(j) < nth(j2)),
                        patterns=[z3.MultiPattern(nth(j), nth(j2))]))
    vc.count_lemmas(st, cnt, n, i, cond)
    return out


def subterms(t, seen=None):
    seen = set() if seen is None else seen
    if t.get_id() in seen:
        return
    seen.add(t.get_id())
    yield t
    if z3.is_quantifier(t):
        yield from subterms(t.body(), seen)
    else:
        for c in t.children():
            yield from subterms(c, seen)


# ----------------------------------------------------------------- contracts
class Fn:
    def __init__(self, qual, params=None, requires=(), ensures=(), modifies=(), loops=None, raises=None,
                 result=None, locals=None, ghosts=None, trusted=False, self_='rec', asserts=(), props=(),
                 at=None, no_loops=False, allocs=False, loc_order=None, counts=(),
                 local_ensures=(), captures=(), raise_ensures=(), result_shared=False, keys=None, callbacks=None, lends=(), reports=None, zero_one=False):
        self.qual, self.params, self.requires, self.ensures = qual, dict(params or {}), list(requires), list(ensures)
        self.modifies, self.loops, self.raises, self.result = list(modifies), dict(loops or {}), raises, result
        self.locals, self.ghosts, self.trusted, self.self_ = dict(locals or {}), dict(ghosts or {}), trusted, self_
        self.asserts = list(asserts)
        self.props = list(props)
        self.allocs = allocs
        self.loc_order = loc_order
        self.counts = list(counts)
        self.result_shared = result_shared  # the returned container may be reachable elsewhere: nobody mutates it
        self.lends = list(lends)            # fields whose container may be the very object returned (the caller must not keep or mutate it)
        self.callbacks = dict(callbacks or {})      # what the n-th Solve with a solution callback keeps true
        self.zero_one = zero_one            # its solves are of programs of 0/1 variables: the reported point is a ghost field
        self.reports = reports              # (model parameter, callback parameter, status): makes exactly one solve, of this model with this callback
        self.keys = dict(keys or {})        # ghost keys of the variables ('var') / constraints ('con') created outside annotated loops
        self.captures = list(captures)      # container parameters the function keeps: neither side mutates them afterwards
        self.at = {k: list(v) for k, v in (at or {}).items()}      # what must hold right before every call of a method
        self.raise_ensures = list(raise_ensures)     # what must hold when the function raises
        self.local_ensures = list(local_ensures)     # mention locals: checked at the returns, unknown to callers


class Contracts:
    def __init__(self):
        self.classes, self.funcs, self.preds, self.recs, self.consts, self.lemmas = {}, {}, {}, {}, {}, {}
        self.inl, self.mono = {}, set()
        self.shared = {}
        self.tokens = False     # strings are values: equal tokens for equal texts
        self.views = {}

    def view(self, name, other):
        """Another reading of the same code (other field types, other contracts): its functions are known as NAME/Class.method."""
        self.views[name] = other
        self.funcs.update({f'{name}/{q}': f for q, f in other.funcs.items()})

    def share(self, field, depth):
        """Containers of Class.field at this depth (0: the field's own) may be the same objects as elsewhere; nobody mutates them."""
        self.shared[field] = depth

    def shared_depth(self, field):
        return self.shared.get(field)

    def cls(self, name, kind, fields, bases=()):
        self.classes[name] = (kind, dict(fields), list(bases))

    def kind(self, name):
        return self.classes[name][0] if name in self.classes else None

    def field(self, cls, name):
        if cls not in self.classes:
            return None
        k, f, b = self.classes[cls]
        if name in f:
            return f[name]
        for x in b:
            r = self.field(x, name)
            if r is not None:
                return r
        return None

    def fn(self, qual, **kw):
        self.funcs[qual] = Fn(qual, **kw)

    def lemma(self, name, params, requires=(), ensures=(), induct=None, uses=(), asserts=(), props=()):
        """A statement proved on its own (by strong induction on the integer parameter `induct` when given); `use NAME(args)`
        among the asserts of a contract or the hints of a loop, or in `uses` of another lemma, instantiates it."""
        self.lemmas[name] = dict(params=dict(params), requires=list(requires), ensures=list(ensures), induct=induct, uses=list(uses),
                                 asserts=list(asserts), props=list(props))

    def pred(self, name, params, body, opaque=False, ret=BOOL, reads=()):
        """Specification function; opaque ones become SMT functions with a
        definitional axiom, the others are expanded in place."""
        assert name not in self.preds and name not in self.recs, f'{name} is defined twice'
        self.preds[name] = (params, ast.parse('(' + body.strip() + ')', mode='eval').body, opaque, ret, list(reads))

    def rec(self, name, params, idx, body, ret=INT, reads=(), mono=False):
        """name(params, n) = sum of body over idx in range(n)."""
        assert name not in self.preds and name not in self.recs, f'{name} is defined twice'
        self.recs[name] = (params, idx, ast.parse('(' + body.strip() + ')', mode='eval').body, ret, list(reads), None)
        if mono:
            self.mono.add(name)

    def it(self, name, params, idx, base, step, ret=INT, reads=()):
        """name(params, 0) = base; name(params, idx + 1) = step, which mentions prev = name(params, idx)."""
        assert name not in self.preds and name not in self.recs, f'{name} is defined twice'
        e = lambda t: ast.parse('(' + t.strip() + ')', mode='eval').body
        self.recs[name] = (params, idx, e(step), ret, list(reads), e(base))

    def contract_for(self, repo, cls, meth):
        """Contract of the method as seen from an object of class cls."""
        q = f'{cls}.{meth}'
        if q in self.funcs:
            return self.funcs[q]
        r = repo.method(cls, meth)
        if r and f'{r[0]}.{meth}' in self.funcs:
            return self.funcs[f'{r[0]}.{meth}']
        return None


def sites(name, _t={}):
    if name not in _t:
        _t[name] = len(_t) + 1
    return _t[name]

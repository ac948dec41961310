"""Types and symbolic values.

A value is a type and a flat list of z3 terms ("leaves").  Containers lift the
leaf sorts of their element type through SMT arrays, so every Python value of
a known type, however nested, is a fixed number of first-order terms.
"""
import itertools
import z3

I, R, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()


class Counter:
    def __init__(self):
        self.n = 0

    def __next__(self):
        self.n += 1
        return self.n


_ctr = Counter()


class Gap(Exception):
    """A construct outside the verifier's subset: the function is not decided
    deductively (bounded stand-in only)."""


class Ty:
    __slots__ = ('k', 'a')

    def __init__(self, k, *a):
        self.k = k
        self.a = a

    def __eq__(self, o):
        return isinstance(o, Ty) and self.k == o.k and self.a == o.a

    def __hash__(self):
        return hash((self.k, self.a))

    def __repr__(self):
        return self.k + (repr(self.a) if self.a else '')


INT, REAL, BOOL, STR, NONE = (Ty(x) for x in ('int', 'real', 'bool', 'str', 'none'))
MAT = Ty('mat')          # 2-d real matrix: nrows, ncols, data
SETI = Ty('set')         # set of integers
LINE = Ty('lin')         # CP-SAT linear expression: coefficient array, constant
BND = Ty('bnd')          # CP-SAT bounded linear expression: coef, lo?, lo, hi?, hi


def LIST(t):
    return Ty('list', t)


def DICT(k, t):
    return Ty('dict', k, t)


def OPT(t):
    return t if t.k == 'opt' else Ty('opt', t)


def TUP(*t):
    return Ty('tup', *t)


def REF(c):
    return Ty('ref', c)


def REC(c):
    return Ty('rec', c)   # statically known object: its fields are roots


def FMAP(t):
    return Ty('fmap', t)  # object field over all references


def VAR(p='self.solver_'):
    return Ty('var', p)


def CON(p='self.solver_'):
    return Ty('con', p)


def CPV(p='self.model_'):
    return Ty('cpv', p)   # CP-SAT literal: v or -v-1


INTLIKE = ('int', 'ref', 'var', 'con', 'cpv')


def arr(s, n=1):
    for _ in range(n):
        s = z3.ArraySort(I, s)
    return s


def nkeys(t):
    return sum(len(sorts(x)) for x in t.a) if t.k == 'tup' else 1


def sorts(t):
    k = t.k
    if k in INTLIKE:
        return [I]
    if k == 'real':
        return [R]
    if k == 'bool':
        return [B]
    if k in ('str', 'none'):
        return []
    if k == 'list':
        return [I] + ([arr(s) for s in sorts(t.a[0])] if t.a[0] is not None else [])
    if k == 'set':
        return [arr(B)]
    if k == 'dict':
        if t.a[0] is None:
            return []
        n = nkeys(t.a[0])
        return [arr(B, n)] + [arr(s, n) for s in sorts(t.a[1])]
    if k == 'opt':
        return [B] + sorts(t.a[0])
    if k == 'tup':
        return [s for x in t.a for s in sorts(x)]
    if k == 'fmap':
        return [arr(s) for s in sorts(t.a[0])]
    if k == 'mat':
        return [I, I, arr(arr(R))]
    if k == 'lin':
        return [arr(R), R]
    if k == 'bnd':
        return [arr(R), B, R, B, R]
    raise Gap(f'no leaves for type {t}')


class V:
    __slots__ = ('t', 'l', 's', 'sh')

    def __init__(self, t, l, s=None, sh=None):
        self.t = t
        self.l = list(l)
        self.s = s       # static string / extra static payload
        self.sh = sh     # (depth, places): containers at this depth are also reachable through places

    def __repr__(self):
        return f'V({self.t},{self.l})'

    @property
    def x(self):
        return self.l[0]


def fresh(t, hint='v'):
    n = next(_ctr)
    ss = sorts(t)
    return V(t, [z3.Const(f'{hint}!{n}' + (f'.{i}' if len(ss) > 1 else ''), s) for i, s in enumerate(ss)])


def fconst(s, hint='c'):
    return z3.Const(f'{hint}!{next(_ctr)}', s)


def vint(n):
    return V(INT, [z3.IntVal(n) if isinstance(n, int) else n])


def vreal(n):
    return V(REAL, [z3.RealVal(n) if not z3.is_expr(n) else n])


def vbool(b):
    return V(BOOL, [z3.BoolVal(b) if isinstance(b, bool) else b])


VNONE = V(NONE, [])


def vstr(s=None):
    return V(STR, [], s)


def sel(a, ks):
    for k in ks:
        a = z3.Select(a, k)
    return a


def sto(a, ks, v):
    if len(ks) == 1:
        return z3.Store(a, ks[0], v)
    return z3.Store(a, ks[0], sto(z3.Select(a, ks[0]), ks[1:], v))


def join_ty(a, b):
    if a == b:
        return a
    if a.k == 'none':
        return b if b.k == 'none' else OPT(b)
    if b.k == 'none':
        return OPT(a)
    if a.k == 'opt' or b.k == 'opt':
        x = a.a[0] if a.k == 'opt' else a
        y = b.a[0] if b.k == 'opt' else b
        return OPT(join_ty(x, y))
    if a.k == b.k == 'cpv':
        return CPV('')
    num = ('bool', 'int', 'real')
    if a.k in num and b.k in num:
        return (BOOL, INT, REAL)[max(num.index(a.k), num.index(b.k))]
    if a.k == b.k == 'list':
        if a.a[0] is None:
            return b
        if b.a[0] is None:
            return a
        return LIST(join_ty(a.a[0], b.a[0]))
    if a.k == b.k == 'dict':
        if a.a[0] is None:
            return b
        if b.a[0] is None:
            return a
        if a.a[0] == b.a[0]:
            return DICT(a.a[0], join_ty(a.a[1], b.a[1]))
    if a.k == b.k == 'tup' and len(a.a) == len(b.a):
        return TUP(*[join_ty(x, y) for x, y in zip(a.a, b.a)])
    if a.k == b.k == 'ref':
        return REF('object')
    if a.k == 'int' and b.k in INTLIKE:
        return a
    if b.k == 'int' and a.k in INTLIKE:
        return b
    raise Gap(f'cannot join types {a} and {b}')


def default_leaf(s):
    if s == I:
        return z3.IntVal(0)
    if s == R:
        return z3.RealVal(0)
    if s == B:
        return z3.BoolVal(False)
    return z3.K(s.domain(), default_leaf(s.range()))


def has_container(t):
    return t is not None and isinstance(t, Ty) and (t.k in ('list', 'dict', 'set') or any(has_container(x) for x in t.a if isinstance(x, Ty)) and t.k in ('opt', 'tup', 'list', 'dict'))


def inner_container(t):
    """Does a container of this type hold containers?"""
    return t.k in ('list', 'dict') and has_container(t.a[-1])


def coerce(v, t):
    r = coerce_(v, t)
    if v.sh is not None and r is not v:
        r.sh = v.sh
    return r


def coerce_(v, t):
    if v.t == t:
        return v
    a, b = v.t.k, t.k
    if a == 'bool' and b == 'int':
        return V(t, [z3.If(v.x, z3.IntVal(1), z3.IntVal(0))])
    if a == 'bool' and b == 'real':
        return V(t, [z3.If(v.x, z3.RealVal(1), z3.RealVal(0))])
    if a == 'int' and b == 'real':
        return V(t, [toreal(v.x)])
    if a in INTLIKE and b in INTLIKE:
        return V(t, v.l)
    if b == 'opt':
        if a == 'none':
            return V(t, [z3.BoolVal(True)] + [default_leaf(s) for s in sorts(t.a[0])])
        if a == 'opt':
            inner = coerce(V(v.t.a[0], v.l[1:]), t.a[0])
            return V(t, [v.l[0]] + inner.l)
        return V(t, [z3.BoolVal(False)] + coerce(v, t.a[0]).l)
    if a == 'none' and b in ('list', 'dict', 'set', 'int', 'real') + INTLIKE:
        # field declared with its initialised type: an uninitialised value is arbitrary
        return fresh(t, 'uninit')
    if a == 'list' and b == 'list':
        ea, eb = v.t.a[0], t.a[0]
        if ea is None:
            return V(t, [v.l[0]] + [fconst(arr(s), 'unset') for s in sorts(eb)])
        if ea == NONE:
            if eb.k == 'opt':
                return V(t, [v.l[0], z3.K(I, z3.BoolVal(True))] +
                         [z3.K(I, default_leaf(s)) for s in sorts(eb.a[0])])
            return V(t, [v.l[0]] + [fconst(arr(s), 'unset') for s in sorts(eb)])
        if eb is None:
            return v
        i = z3.Int('ci')
        e = V(ea, [z3.Select(x, i) for x in v.l[1:]])
        e2 = coerce(e, eb)
        if len(e2.l) == len(e.l) and all(x.eq(y) for x, y in zip(e.l, e2.l)):
            return V(t, v.l)
        if ea == eb:
            return v
        return V(t, [v.l[0]] + [z3.Lambda([i], x) for x in e2.l])
    if a == 'dict' and b == 'dict' and v.t.a[0] is None:
        n = nkeys(t.a[0])
        d = z3.BoolVal(False)
        for _ in range(n):
            d = z3.K(I, d)
        return V(t, [d] + [fconst(arr(s, n), 'unset') for s in sorts(t.a[1])])
    if a == 'tup' and b == 'tup' and len(v.t.a) == len(t.a):
        out = []
        for x, y in zip(untup(v), t.a):
            out += coerce(x, y).l
        return V(t, out)
    if a == 'dict' and b == 'dict' and len(sorts(v.t)) == len(sorts(t)) and \
            all(x == y for x, y in zip(sorts(v.t), sorts(t))):
        return V(t, v.l)
    if a == 'fmap' and b == 'fmap' and v.t.a[0].k in INTLIKE and t.a[0].k in INTLIKE:
        return V(t, v.l)
    if a == 'fmap' and b == 'fmap' and v.t.a[0].k in INTLIKE and t.a[0] == REAL:
        return V(t, [real_array(v.x)])
    if a == 'opt' and b != 'opt':
        return coerce(V(v.t.a[0], v.l[1:]), t)
    raise Gap(f'cannot use a value of type {v.t} as {t}')


def real_array(x):
    return z3.Map(z3.ToReal(z3.Int('x')).decl(), x)


def untup(v):
    out, p = [], 0
    for x in v.t.a:
        n = len(sorts(x))
        out.append(V(x, v.l[p:p + n]))
        p += n
    if v.sh is not None:
        for x, h in zip(out, v.sh[1] if v.sh[0] == 'tup' else [v.sh] * len(out)):
            x.sh = h
    return out


def mktup(vs):
    return V(TUP(*[v.t for v in vs]), [x for v in vs for x in v.l], sh=('tup', [v.sh for v in vs]) if any(v.sh is not None for v in vs) else None)


def toreal(x):
    if z3.is_int_value(x):
        return z3.RealVal(x.as_long())
    if x.sort() == R:
        return x
    if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE:
        return z3.If(x.arg(0), toreal(x.arg(1)), toreal(x.arg(2)))
    return z3.ToReal(x)


def ite(c, a, b):
    t = join_ty(a.t, b.t)
    a, b = coerce(a, t), coerce(b, t)
    if t == STR:
        return V(STR, [], a.s if a.s == b.s else None)
    r = V(t, [x if x.eq(y) else z3.If(c, x, y) for x, y in zip(a.l, b.l)])
    hs = [h for h in (a.sh, b.sh) if h is not None]
    if hs:
        r.sh = hs[0] if len(hs) == 1 or hs[0][0] == 'tup' else (0, list(hs[0][1]) + [p for h in hs[1:] for p in h[1]])
    return r


def keyleaves(v, kt):
    return coerce(v, kt).l

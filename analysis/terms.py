"""Hash-consed value-number terms with a commutative-ring normal form.

A value number is a term; two program expressions are provably equal when their
terms are the same object.  Numeric terms (field elements, commitments,
polynomials, machine integers) are kept as sparse multivariate polynomials over
atoms; sequences as index comprehensions; conditionals on numbers as idempotent
indicator atoms; comprehensions bind canonical (height-named) variables, so
alpha-equivalent loops coincide.
"""
import sys
sys.setrecursionlimit(200000)

_tab = {}
_nid = 0


class T:
    __slots__ = ("op", "a", "mb", "fv", "id", "h", "xb")

    def __repr__(self):
        return show(self)

    def __lt__(self, o):
        return self.id < o.id

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return self is o


EMPTY = frozenset()


def _scan(x, st):
    if isinstance(x, T):
        if x.mb > st[0]:
            st[0] = x.mb
        if x.xb > st[2]:
            st[2] = x.xb
        if x.fv:
            st[1].append(x.fv)
    elif isinstance(x, tuple):
        for y in x:
            _scan(y, st)


def raw(op, *a):
    global _nid
    k = (op, a)
    t = _tab.get(k)
    if t is not None:
        return t
    t = T()
    t.op = op
    t.a = a
    st = [0, [], 0]
    _scan(a, st)
    t.xb = a[0] if op == "bv" else st[2]
    mb = st[0]
    if op == "lam":
        mb = max(mb, a[0])
    t.mb = mb
    if op == "sym":
        t.fv = frozenset((t,)) if False else frozenset((a[0],))
    else:
        if not st[1]:
            t.fv = EMPTY
        elif len(st[1]) == 1:
            t.fv = st[1][0]
        else:
            big = max(st[1], key=len)
            if all(f is big or f <= big for f in st[1]):
                t.fv = big
            else:
                t.fv = frozenset().union(*st[1])
    _nid += 1
    t.id = _nid
    t.h = hash(_nid * 2654435761 & 0xFFFFFFFFFFF)
    _tab[k] = t
    return t


_fresh = 0


def sym(name):
    return raw("sym", name)


def fresh(p="v"):
    global _fresh
    _fresh += 1
    return raw("sym", "$%s%d" % (p, _fresh))


# ----------------------------------------------------------------- constants
TRUE = raw("true")
FALSE = raw("false")
UNIT = raw("struct", "()", "", ())
ZERO = raw("poly", ())
ONE = raw("poly", ((((), 1)),)) if False else None


def const(n):
    if n == 0:
        return ZERO
    return raw("poly", ((n, ()),))


ONE = const(1)
INF = raw("inf")


def is_const(t):
    return t.op == "poly" and (not t.a[0] or (len(t.a[0]) == 1 and t.a[0][0][1] == ()))


def const_val(t):
    return t.a[0][0][0] if t.a[0] else 0


# ------------------------------------------------------------------ polys
# dict: mono -> coef ; mono = tuple of (atom, exp) sorted by atom.id ; exp int or T

def is_ind(t):
    return t.op == "ind"


def pd(t):
    """term -> poly dict"""
    if t.op == "poly":
        return {m: c for c, m in t.a[0]}
    if t.op == "ite":
        c = ind_d(t.a[0])
        a, b = pd(t.a[1]), pd(t.a[2])
        return padd(pmul(c, a), padd(b, pscale(pmul(c, b), -1)))
    return {((t, 1),): 1}


def ind_d(c):
    """indicator polynomial of a condition"""
    if c is TRUE:
        return {(): 1}
    if c is FALSE:
        return {}
    if c.op == "not":
        return padd({(): 1}, pscale(ind_d(c.a[0]), -1))
    if c.op == "and":
        r = {(): 1}
        for x in c.a[0]:
            r = pmul(r, ind_d(x))
        return r
    return {((raw("ind", c), 1),): 1}


def padd(a, b):
    if len(a) < len(b):
        a, b = b, a
    r = dict(a)
    for m, c in b.items():
        n = r.get(m, 0) + c
        if n:
            r[m] = n
        else:
            r.pop(m, None)
    return r


def pscale(a, k):
    return {m: c * k for m, c in a.items()} if k else {}


def eadd(e, f):
    if isinstance(e, int) and isinstance(f, int):
        return e + f
    t = add(e if isinstance(e, T) else const(e), f if isinstance(f, T) else const(f))
    return const_val(t) if is_const(t) else t


def mmul(m, n):
    if not m:
        return n
    if not n:
        return m
    d = {}
    for at_, e in m:
        d[at_] = e
    for at_, e in n:
        if at_ in d:
            if is_ind(at_):
                continue
            s = eadd(d[at_], e)
            if s == 0 and isinstance(s, int):
                del d[at_]
            else:
                d[at_] = s
        else:
            d[at_] = e
    iv = None
    for at_ in d:
        if at_.op == "ind" and at_.a[0].op == "isv":
            c = at_.a[0]
            if iv is None:
                iv = {}
            if iv.setdefault(c.a[0], c.a[2]) != c.a[2]:
                return None
    return tuple(sorted(d.items(), key=lambda x: x[0].id))


def pmul(a, b):
    if len(a) == 1 and () in a:
        return pscale(b, a[()])
    if len(b) == 1 and () in b:
        return pscale(a, b[()])
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = mmul(m, n)
            if k is None:
                continue
            v = r.get(k, 0) + c * d
            if v:
                r[k] = v
            else:
                r.pop(k, None)
    return r


def _mkey(m):
    return (len(m), tuple((a.id, e if isinstance(e, int) else 10 ** 9 + e.id) for a, e in m))


def mkpoly(d):
    if not d:
        return ZERO
    if len(d) == 1:
        (m, c), = d.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1 and isinstance(m[0][1], int):
            if m[0][0].op != "poly":
                return m[0][0]
    items = sorted(((c, m) for m, c in d.items()), key=lambda x: _mkey(x[1]))
    return raw("poly", tuple(items))


MAXMONO = 20000


def add(*ts):
    d = {}
    for t in ts:
        d = padd(d, pd(t))
    return mkpoly(d)


def neg(t):
    return mkpoly(pscale(pd(t), -1))


def sub(a, b):
    return mkpoly(padd(pd(a), pscale(pd(b), -1)))


def mul(*ts):
    d = {(): 1}
    for t in ts:
        d = pmul(d, pd(t))
    return mkpoly(d)


def num(t):
    return mkpoly(pd(t))


def power(b, e):
    """b^e with e an int or a term"""
    if isinstance(e, T) and is_const(e):
        e = const_val(e)
    d = pd(b)
    if isinstance(e, int) and e == 0:
        return ONE
    if len(d) == 1:
        (m, c), = d.items()
        if c == 1 or (isinstance(e, int) and e > 0):
            nm = []
            for a, x in m:
                if is_ind(a):
                    nm.append((a, 1))
                elif isinstance(x, int) and isinstance(e, int):
                    nm.append((a, x * e))
                else:
                    p = mul(x if isinstance(x, T) else const(x), e if isinstance(e, T) else const(e))
                    nm.append((a, const_val(p) if is_const(p) else p))
            return mkpoly({tuple(nm): c ** e if isinstance(e, int) and e > 0 else 1})
    if isinstance(e, int) and 0 < e <= 8:
        r = {(): 1}
        for _ in range(e):
            r = pmul(r, d)
        return mkpoly(r)
    base = mkpoly(d)
    return mkpoly({((base, e),): 1})


def inv(t):
    return power(t, -1)


def coeff_split(t, v):
    """split numeric t = a*v + b with v an atom occurring linearly; None if not linear"""
    a, b = {}, {}
    for m, c in pd(t).items():
        hit = False
        for at_, e in m:
            if at_ is v:
                hit = True
                if e != 1 or not isinstance(e, int):
                    return None
            elif v.a[0] in at_.fv or (isinstance(e, T) and v.a[0] in e.fv):
                return None
        if hit:
            a[tuple(x for x in m if x[0] is not v)] = c
        else:
            b[m] = c
    return mkpoly(a), mkpoly(b)


# ------------------------------------------------------------- conditions
def not_(c):
    if c is TRUE:
        return FALSE
    if c is FALSE:
        return TRUE
    if c.op == "not":
        return c.a[0]
    return raw("not", c)


def and_(*cs):
    s = {}
    todo = list(cs)
    while todo:
        c = todo.pop()
        if c is FALSE:
            return FALSE
        if c is TRUE:
            continue
        if c.op == "and":
            todo.extend(c.a[0])
        else:
            s[c] = 1
    # x and not(x and y...) -> x and not(y...)
    changed = True
    while changed:
        changed = False
        for c in list(s):
            if c.op == "not":
                n = c.a[0]
                if n in s:
                    return FALSE
                if n.op == "and":
                    rest = []
                    false = False
                    for x in n.a[0]:
                        if x in s:
                            continue
                        if not_(x) in s:
                            false = True
                        rest.append(x)
                    if false:
                        del s[c]
                        changed = True
                        break
                    if len(rest) < len(n.a[0]):
                        del s[c]
                        if not rest:
                            return FALSE
                        k = not_(and_(*rest))
                        if k.op == "and":
                            for x in k.a[0]:
                                s[x] = 1
                        else:
                            s[k] = 1
                        changed = True
                        break
    iv = {}
    for c in s:
        if c.op == "isv":
            if iv.setdefault(c.a[0], c.a[2]) != c.a[2]:
                return FALSE
    if iv:
        for c in list(s):
            if c.op == "not" and c.a[0].op == "isv" and c.a[0].a[0] in iv:
                del s[c]
    if not s:
        return TRUE
    if len(s) == 1:
        return next(iter(s))
    return raw("and", tuple(sorted(s, key=lambda x: x.id)))


def or_(*cs):
    return not_(and_(*[not_(c) for c in cs]))


def bite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    return or_(and_(c, a), and_(not_(c), b)) if b is not FALSE else and_(c, a)


def is_bool(t):
    return t.op in ("true", "false", "not", "and", "eq0", "pos", "isv", "eq", "exists", "bool", "lex", "anyq")


NATOPS = ("len", "idiv", "min", "max", "mod", "size", "nat", "glen", "count", "maxof", "ncall")


def is_nat_atom(t):
    if t.op == "sym":
        return t.a[0][:2] in ("$i", "$n") or t in NATSYMS
    return t.op in NATOPS or t.op == "ind" or t.op == "bv"


NATSYMS = set()


def nonneg(t):
    """syntactic proof that an integer term is >= 0"""
    for m, c in pd(t).items():
        if c < 0:
            return False
        for a, e in m:
            if not is_nat_atom(a):
                return False
    return True


def eq0(t):
    d = pd(t)
    if not d:
        return TRUE
    if len(d) == 1 and () in d:
        return FALSE
    # sign/sort normalisation
    its = sorted(d.items(), key=lambda x: _mkey(x[0]))
    lead = next(((m, c) for m, c in its if m), its[0])
    if lead[1] < 0:
        d = pscale(d, -1)
    # provably nonzero: all natural with positive constant
    c0 = d.get((), 0)
    if c0 > 0 and nonneg(mkpoly(d)):
        return FALSE
    if c0 < 0 and nonneg(mkpoly(pscale(d, -1))):
        return FALSE
    if len(d) == 1:
        (m, c), = d.items()
        if c != 1 and len(m) >= 1:
            d = {m: 1}
        if len(m) == 1 and is_ind(m[0][0]):
            return not_(m[0][0].a[0])
    # 1 - ind(c)
    if len(d) == 2 and () in d:
        (m,) = [m for m in d if m]
        if len(m) == 1 and is_ind(m[0][0]) and d[()] == -d[m]:
            return m[0][0].a[0]
    return raw("eq0", mkpoly(d))


def pos(t, nat=False):
    """t > 0 (integers). nat: t itself is an unsigned quantity"""
    if is_const(t):
        return TRUE if const_val(t) > 0 else FALSE
    if nonneg(t):
        if pd(t).get((), 0) > 0:
            return TRUE
        return not_(eq0(t))
    if nonneg(neg(t)):
        return FALSE
    # 1 - x > 0 for natural x  <=> x == 0
    d = pd(t)
    if d.get((), 0) == 1:
        r = dict(d)
        del r[()]
        x = mkpoly(pscale(r, -1))
        if nonneg(x):
            return eq0(x)
    if nat:
        return not_(eq0(t))
    # normalise  a-b > 0 : canonical between pos(t) and not pos(1-t)
    u = sub(ONE, t)
    its = sorted(((m, c) for m, c in d.items() if m), key=lambda x: _mkey(x[0]))
    if its and its[0][1] < 0:
        return not_(raw("pos", u))
    return raw("pos", t)


def lt(a, b):
    return pos(sub(b, a))


NUMOPS = ("poly", "ind", "sum", "prod", "len", "min", "max", "idiv", "mod", "size", "evalat", "draw", "chal",
          "nat", "glen", "count", "bv", "recn", "maxof", "scalar", "P", "polyX", "interp", "cosetinterp", "com", "rnd",
          "evalx", "hom", "omega", "gen", "polydiv", "polyfrom", "fold", "numcall", "ncall", "srot")
NUMSYMS = set()


def is_num(t):
    if t.op == "sym":
        return t.a[0][:2] in ("$i", "$n", "$f") or t in NUMSYMS or t in NATSYMS
    return t.op in NUMOPS


def eq(a, b):
    if a is b:
        return TRUE
    if is_bool(a) or is_bool(b):
        if a is TRUE:
            return b
        if b is TRUE:
            return a
        if a is FALSE:
            return not_(b)
        if b is FALSE:
            return not_(a)
        return bite(a, b, not_(b))
    if a.op == "ite" and not is_num(b):
        return bite(a.a[0], eq(a.a[1], b), eq(a.a[2], b))
    if b.op == "ite" and not is_num(a):
        return bite(b.a[0], eq(a, b.a[1]), eq(a, b.a[2]))
    if is_num(a) or is_num(b):
        return eq0(sub(a, b))
    if a.op == "struct" and b.op == "struct":
        if a.a[0] == b.a[0] and a.a[1] != b.a[1]:
            return FALSE
        if a.a[0] == b.a[0] and a.a[1] == b.a[1]:
            return and_(*[eq(x, y) for (_, x), (_, y) in zip(a.a[2], b.a[2])])
    if a.op == "struct" and not a.a[2] and a.a[1]:
        return isv(b, a.a[0], a.a[1])
    if b.op == "struct" and not b.a[2] and b.a[1]:
        return isv(a, b.a[0], b.a[1])
    if a.op == "str" and b.op == "str":
        return FALSE
    if a.id > b.id:
        a, b = b, a
    return raw("eq", a, b)


def eqt(a, b, numeric):
    return eq0(sub(a, b)) if numeric else eq(a, b)


# --------------------------------------------------------------- binders
def replace_sym_by(body, s, by):
    return subst(body, {s: by})


_opened = {}


def lam(v, body):
    """abstract symbol v"""
    # height: one above any binder in the body
    h = body.mb + 1
    b = _subst_raw(body, v, raw("bv", h))
    return raw("lam", h, b)


def lamk(body):
    """constant lambda"""
    return raw("lam", body.mb + 1, body)


def opn(l, s=None):
    """open a lam with a symbol; returns (sym, body)"""
    if s is None:
        r = _opened.get(l)
        if r is not None:
            return r
        s = raw("sym", "$i_%d" % l.id)
        r = (s, _subst_raw(l.a[1], raw("bv", l.a[0]), s))
        _opened[l] = r
        return r
    return s, _subst_raw(l.a[1], raw("bv", l.a[0]), s)


def is_klam(l):
    return not _has_bv(l.a[1], raw("bv", l.a[0]), {})


def _has_bv(t, b, memo):
    if t is b:
        return True
    if t.op == "bv" or t.op == "sym":
        return False
    r = memo.get(t)
    if r is not None:
        return r
    r = any(_has_bv(x, b, memo) for x in kids(t))
    memo[t] = r
    return r


def kids(t):
    out = []

    def go(x):
        if isinstance(x, T):
            out.append(x)
        elif isinstance(x, tuple):
            for y in x:
                go(y)
    for x in t.a:
        go(x)
    return out


def app(l, arg):
    s, b = opn(l)
    if s is arg:
        return b
    if arg.fv and s.a[0] in arg.fv:
        f = fresh("i")
        _, b2 = opn(l, f)
        return subst(b2, {f: arg})
    return subst(b, {s: arg})


def _map_args(x, f):
    if isinstance(x, T):
        return f(x)
    if isinstance(x, tuple):
        return tuple(_map_args(y, f) for y in x)
    return x


def _subst_raw(t, old, new):
    """purely structural replacement of an atom by an atom (both sym/bv), used to
    open/close binders; poly order is re-sorted, nothing else changes"""
    memo = {}
    name = old.a[0] if old.op == "sym" else None
    bvi = old.a[0] if old.op == "bv" else 0

    def go(x):
        if x is old:
            return new
        if x.xb < bvi:
            return x
        if name is not None and name not in x.fv:
            return x
        if x.op in ("sym", "bv", "true", "false", "inf", "str"):
            return x
        r = memo.get(x)
        if r is not None:
            return r
        if x.op == "poly":
            d = {}
            for c, m in x.a[0]:
                nm = {}
                for a, e in m:
                    a2 = go(a)
                    e2 = go(e) if isinstance(e, T) else e
                    nm[a2] = eadd(nm[a2], e2) if a2 in nm else e2
                k = tuple(sorted(nm.items(), key=lambda z: z[0].id))
                d[k] = d.get(k, 0) + c
            r = mkpoly({k: v for k, v in d.items() if v})
        elif x.op == "and":
            r = raw("and", tuple(sorted((go(y) for y in x.a[0]), key=lambda z: z.id)))
        elif x.op == "eq":
            p, q = go(x.a[0]), go(x.a[1])
            r = raw("eq", p, q) if p.id <= q.id else raw("eq", q, p)
        elif x.op in ("min", "max"):
            p, q = go(x.a[0]), go(x.a[1])
            r = raw(x.op, p, q) if p.id <= q.id else raw(x.op, q, p)
        elif x.op == "eq0":
            r = eq0(go(x.a[0]))
        elif x.op == "pos":
            r = pos(go(x.a[0]))
        elif x.op == "setof" and x.a[0].op == "list":
            r = setof(go(x.a[0]))
        else:
            r = raw(x.op, *_map_args(x.a, go))
        memo[x] = r
        return r
    return go(t)


def subst(t, mp):
    """substitute symbols by terms, re-normalising"""
    names = frozenset(s.a[0] for s in mp)
    memo = {}
    bad = frozenset().union(*[v.fv for v in mp.values()]) if mp else EMPTY

    def go(x):
        if not (x.fv & names):
            return x
        r = memo.get(x)
        if r is not None:
            return r
        if x.op == "sym":
            r = mp.get(x, x)
        elif x.op == "lam":
            s, b = opn(x)
            if s.a[0] in bad or s.a[0] in names:
                s, b = opn(x, fresh("i"))
            r = lam(s, go(b))
        else:
            r = rebuild(x.op, _map_args(x.a, go), x)
        memo[x] = r
        return r
    return go(t)


def rewrite(t, f, need=None):
    """bottom-up rewrite with re-normalisation; f(term)->term or None.  f sees
    terms under binders with opened symbols.  need: a symbol every rewritten term mentions"""
    memo = {}
    nm = need.a[0] if need is not None else None

    def go(x):
        if nm is not None and nm not in x.fv:
            return x
        r = memo.get(x)
        if r is not None:
            return r
        y = f(x)
        if y is not None and y is not x:
            r = y
        elif x.op in ("sym", "bv", "true", "false", "inf", "str", "obj"):
            r = x
        else:
            if x.op == "lam":
                s, b = opn(x)
                r = lam(s, go(b))
            else:
                na = _map_args(x.a, go)
                r = x if na == x.a else rebuild(x.op, na, x)
            if r is not x:
                z = f(r)
                if z is not None:
                    r = z
        memo[x] = r
        return r
    return go(t)


def rebuild(op, a, old=None):
    f = REB.get(op)
    if f:
        return f(*a)
    return raw(op, *a)


def _reb_poly(items):
    d = {}
    for c, m in items:
        q = {(): c}
        for at_, e in m:
            q = pmul(q, pd(power(at_, e)))
        d = padd(d, q)
    return mkpoly(d)


# ------------------------------------------------------------- structs / ite
def struct(name, variant, fields):
    return raw("struct", name, variant, tuple(fields))


def tup(*xs):
    return struct("()", "", tuple((str(i), x) for i, x in enumerate(xs)))


def some(x):
    return struct("Option", "Some", (("0", x),))


NONE = struct("Option", "None", ())
WELEM = HOM = None


def ok(x):
    return struct("Result", "Ok", (("0", x),))


def err(x):
    return struct("Result", "Err", (("0", x),))


ENUMS = {"Option": ["Some", "None"], "Result": ["Ok", "Err"], "Sign": ["Plus", "Minus"],
         "ControlFlow": ["Continue", "Break"], "Bound": ["Included", "Excluded", "Unbounded"]}
TWO = {("Option", "Some"): "None", ("Option", "None"): "Some", ("Result", "Ok"): "Err", ("Result", "Err"): "Ok",
       ("Sign", "Plus"): "Minus", ("Sign", "Minus"): "Plus"}


def variants_of(name, variant=None):
    vs = ENUMS.get(name)
    if vs and (variant is None or variant in vs):
        return vs
    return None


def isv(t, name, variant):
    if t.op == "struct":
        return TRUE if t.a[1] == variant else FALSE
    if t.op == "ite":
        return bite(t.a[0], isv(t.a[1], name, variant), isv(t.a[2], name, variant))
    vs = variants_of(name, variant)
    if vs and len(vs) == 1:
        return TRUE
    if vs and variant == vs[-1]:
        return and_(*[not_(isv(t, name, v)) for v in vs[:-1]])
    return raw("isv", t, name, variant)


def proj(t, f, name="", variant=""):
    if t.op == "struct":
        for k, x in t.a[2]:
            if k == f:
                return x
        if not variant or t.a[1] == variant:
            return raw("proj", t, f, variant)
        return raw("undef")
    if t.op == "ite":
        if variant:
            if isv(t.a[1], name, variant) is FALSE:
                return proj(t.a[2], f, name, variant)
            if isv(t.a[2], name, variant) is FALSE:
                return proj(t.a[1], f, name, variant)
        return ite(t.a[0], proj(t.a[1], f, name, variant), proj(t.a[2], f, name, variant))
    if t.op == "undef":
        return t
    return raw("proj", t, f, variant)


def with_field(t, f, v, variant=""):
    if t.op == "struct":
        if any(k == f for k, _ in t.a[2]):
            return raw("struct", t.a[0], t.a[1], tuple((k, v if k == f else x) for k, x in t.a[2]))
    if t.op == "ite":
        return ite(t.a[0], with_field(t.a[1], f, proj(v, f) if False else v, variant), with_field(t.a[2], f, v, variant))
    if v is proj(t, f, "", variant):
        return t
    # canonical update list
    base, ups = t, {}
    if t.op == "withf":
        base, ups = t.a[0], dict(t.a[1])
    ups[f] = v
    if v is proj(base, f, "", variant):
        del ups[f]
    if not ups:
        return base
    return raw("withf", base, tuple(sorted(ups.items())))


_proj0 = proj


def proj(t, f, name="", variant=""):  # noqa: F811
    if t.op == "withf":
        for k, v in t.a[1]:
            if k == f:
                return v
        return proj(t.a[0], f, name, variant)
    return _proj0(t, f, name, variant)


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == "not":
        c, a, b = c.a[0], b, a
    if is_bool(a) and is_bool(b):
        return bite(c, a, b)
    if a.op == "undef":
        return b
    if b.op == "undef":
        return a
    # nested same condition
    if a.op == "ite" and a.a[0] is c:
        a = a.a[1]
    if b.op == "ite" and b.a[0] is c:
        b = b.a[2]
    if a is b:
        return a
    if c.op == "isv" and c.a[0].op != "ite":
        if b.op == "ite" and b.a[0].op == "isv" and b.a[0].a[0] is c.a[0]:
            vs = variants_of(c.a[1], c.a[2])
            if vs and b.a[0].a[2] in vs and vs.index(b.a[0].a[2]) < vs.index(c.a[2]):
                return ite(b.a[0], b.a[1], ite(c, a, b.a[2]))
    if c.op == "eq0" and not is_num(a):
        m = eq0_binding(c)
        if m is not None:
            v, by = m
            if v.a[0] in b.fv and subst(b, {v: by}) is a:
                return b
    if a.op == "struct" and b.op == "struct" and a.a[0] == b.a[0] and a.a[1] == b.a[1] and \
            len(a.a[2]) == len(b.a[2]):
        return raw("struct", a.a[0], a.a[1], tuple((k, ite(c, x, y)) for (k, x), (_, y) in zip(a.a[2], b.a[2])))
    if is_num(a) and is_num(b):
        return num(raw("ite", c, a, b))
    if a.op == "seqlam" and b.op == "seqlam" and a.a[0] is b.a[0]:
        i = fresh("i")
        return seqlam(a.a[0], lam(i, ite(c, app(a.a[1], i), app(b.a[1], i))))
    if a.op == "list" and b.op == "list" and len(a.a[0]) == len(b.a[0]):
        return lst(*[ite(c, x, y) for x, y in zip(a.a[0], b.a[0])])
    if a.op == "setof" and b.op == "setof":
        r = _ite_set(c, a, b)
        if r is not None:
            return r
    return raw("ite", c, a, b)


def eq0_binding(c):
    """c = (v - e == 0) with v a symbol: (v, e)"""
    p = c.a[0]
    for co, m in p.a[0] if p.op == "poly" else ((1, ((p, 1),)),):
        if len(m) == 1 and m[0][0].op == "sym" and m[0][1] == 1 and abs(co) == 1:
            v = m[0][0]
            e = sub(v, mul(const(co), p))
            if v.a[0] not in e.fv:
                return v, e
    return None


# --------------------------------------------------------------- sequences
def lst(*xs):
    return raw("list", tuple(xs))


EMPTYL = raw("list", ())
UNROLL = 12


def seqlam(n, l):
    if is_const(n):
        k = const_val(n)
        if k <= 0:
            return EMPTYL
        if k <= UNROLL:
            return lst(*[app(l, const(i)) for i in range(k)])
    s, b = opn(l)
    if b.op == "at" and b.a[1] is s and s.a[0] not in b.a[0].fv and slen(b.a[0]) is n:
        return b.a[0]
    if b.op == "list" and False:
        pass
    return raw("seqlam", n, l)


def concat(*ss):
    out = []
    for s in ss:
        if s.op == "concat":
            out.extend(s.a[0])
        else:
            out.append(s)
    r = []
    for s in out:
        if s is EMPTYL:
            continue
        if slen(s) is ZERO:
            continue
        if r and r[-1].op == "list" and s.op == "list":
            r[-1] = lst(*(r[-1].a[0] + s.a[0]))
        elif r and r[-1].op == "seqlam" and s.op == "seqlam" and r[-1].a[1] is s.a[1] and is_klam(s.a[1]):
            r[-1] = seqlam(add(r[-1].a[0], s.a[0]), s.a[1])
        else:
            r.append(s)
    if not r:
        return EMPTYL
    if len(r) == 1:
        return r[0]
    return raw("concat", tuple(r))


DOMOPS = ("fft", "ifft", "coset_fft", "coset_ifft", "elements")


POW2SYMS = set()


def dsize(d):
    """size of an evaluation domain; new(n) has size n when n is known to be a power of two"""
    if d.op == "dom" and d.a[0] in POW2SYMS:
        return d.a[0]
    return raw("size", d)


def slen(s):
    o = s.op
    if o == "list":
        return const(len(s.a[0]))
    if o == "seqlam":
        return s.a[0]
    if o == "concat":
        return add(*[slen(x) for x in s.a[0]])
    if o == "ite":
        return num(raw("ite", s.a[0], slen(s.a[1]), slen(s.a[2])))
    if o == "upd":
        return slen(s.a[0])
    if o in DOMOPS:
        return dsize(s.a[0])
    if o == "take":
        return min_(s.a[1], slen(s.a[0]))
    if o in ("sorted", "permA", "permS"):
        return slen(s.a[0])
    if o == "slice":
        return sub(s.a[2], s.a[1])
    if o == "recseq":
        return s.a[0]
    if o == "flat":
        i, b = opn(s.a[1])
        return summ(s.a[0], lam(i, slen(b)))
    if o == "groupvals":
        return raw("glen", s.a[0], s.a[1])
    if o == "chunkof":
        return min_(s.a[1], sub(slen(s.a[0]), mul(s.a[1], s.a[2])))
    if o == "mseq":
        return raw("len", s)
    return raw("len", s)


def min_(a, b):
    if a is b:
        return a
    if a is INF:
        return b
    if b is INF:
        return a
    d = sub(a, b)
    if is_const(d):
        return a if const_val(d) <= 0 else b
    if nonneg(d):
        return b
    if nonneg(neg(d)):
        return a
    # flatten
    if a.op == "min" and (b is a.a[0] or b is a.a[1]):
        return a
    if b.op == "min" and (a is b.a[0] or a is b.a[1]):
        return b
    if a.id > b.id:
        a, b = b, a
    return raw("min", a, b)


def max_(a, b):
    if a is b:
        return a
    d = sub(a, b)
    if is_const(d):
        return a if const_val(d) >= 0 else b
    if nonneg(d):
        return a
    if nonneg(neg(d)):
        return b
    if a.id > b.id:
        a, b = b, a
    return raw("max", a, b)


def idiv(a, b):
    if is_const(a) and is_const(b) and const_val(b):
        return const(const_val(a) // const_val(b))
    if b is ONE:
        return a
    if b is a:
        return ONE
    d = pd(a)
    # exact factor
    if len(pd(b)) == 1:
        (mb, cb), = pd(b).items()
        q = {}
        okk = True
        for m, c in d.items():
            if c % cb:
                okk = False
                break
            dm = dict(m)
            for at_, e in mb:
                if dm.get(at_) is None or not isinstance(dm[at_], int) or not isinstance(e, int) or dm[at_] < e:
                    okk = False
                    break
                dm[at_] -= e
                if dm[at_] == 0:
                    del dm[at_]
            if not okk:
                break
            q[tuple(sorted(dm.items(), key=lambda z: z[0].id))] = c // cb
        if okk:
            return mkpoly(q)
    return raw("idiv", a, b)


def mod(a, b):
    if is_const(a) and is_const(b) and const_val(b):
        return const(const_val(a) % const_val(b))
    if b is ONE or a is ZERO or a is b:
        return ZERO
    return raw("mod", a, b)


def at(s, i):
    o = s.op
    if o == "list":
        if is_const(i):
            k = const_val(i)
            if 0 <= k < len(s.a[0]):
                return s.a[0][k]
            return raw("undef") if False else raw("at", s, i)
        if len(s.a[0]) == 1:
            return s.a[0][0]
    elif o == "seqlam":
        return app(s.a[1], i)
    elif o == "concat":
        off = i
        for k, x in enumerate(s.a[0]):
            n = slen(x)
            d = sub(off, n)
            if nonneg(d):
                off = d
                continue
            if k == len(s.a[0]) - 1:
                return at(x, off)
            # off < n ?  off - n + 1 <= 0
            if nonneg(sub(sub(n, off), ONE)):
                return at(x, off)
            if k == 0:
                break
            return at(raw("concat", tuple(s.a[0][k:])), off)
    elif o == "ite":
        return ite(s.a[0], at(s.a[1], i), at(s.a[2], i))
    elif o == "upd":
        e = eq0(sub(s.a[1], i))
        if e is TRUE:
            return s.a[2]
        if e is FALSE:
            return at(s.a[0], i)
        return ite(e, s.a[2], at(s.a[0], i))
    elif o == "take":
        return at(s.a[0], i)
    elif o == "slice":
        return at(s.a[0], add(s.a[1], i))
    elif o == "chunkof":
        return at(s.a[0], add(mul(s.a[1], s.a[2]), i))
    elif o == "elements":
        return WELEM(s.a[0], i)
    elif o == "fft":
        return HOM(s.a[1], WELEM(s.a[0], i))
    elif o == "coset_fft":
        return HOM(s.a[1], mul(raw("gen"), WELEM(s.a[0], i)))
    return raw("at", s, i)


def slice_(s, a, b):
    if a is ZERO and b is slen(s):
        return s
    if is_const(a) and is_const(b) and s.op == "list":
        return lst(*s.a[0][const_val(a):const_val(b)])
    if s.op == "seqlam":
        i = fresh("i")
        return seqlam(sub(b, a), lam(i, app(s.a[1], add(i, a))))
    if s.op == "slice":
        return slice_(s.a[0], add(s.a[1], a), add(s.a[1], b))
    return raw("slice", s, a, b)


def take(s, n):
    k = slen(s)
    m = min_(n, k) if k is not INF else n
    if m is k:
        return s
    if s.op == "seqlam":
        return seqlam(m, s.a[1])
    return slice_(s, ZERO, m)


def chunkof(s, k, i):
    if is_const(k) and is_const(i) and s.op == "list":
        a = const_val(k) * const_val(i)
        return lst(*s.a[0][a:a + const_val(k)])
    n = slen(s)
    # a chunk that is certainly full
    return raw("chunkof", s, k, i)


def ceil_div(a, b):
    if is_const(a) and is_const(b):
        return const(-(-const_val(a) // const_val(b)))
    q = idiv(a, b)
    if q.op != "idiv":
        return q
    # canonical ceil
    return raw("nat", "ceil", a, b)


def upd(s, i, v):
    if s.op == "list" and is_const(i) and 0 <= const_val(i) < len(s.a[0]):
        k = const_val(i)
        return lst(*(s.a[0][:k] + (v,) + s.a[0][k + 1:]))
    if v is at(s, i):
        return s
    if s.op == "seqlam":
        j = fresh("i")
        return seqlam(s.a[0], lam(j, ite(eq0(sub(j, i)), v, app(s.a[1], j))))
    if s.op == "upd" and s.a[1] is i:
        return upd(s.a[0], i, v)
    return raw("upd", s, i, v)


def flat(n, l):
    """concatenation over i<n of sequences"""
    s, b = opn(l)
    if b is EMPTYL:
        return EMPTYL
    if b.op == "list" and len(b.a[0]) == 1:
        return seqlam(n, lam(s, b.a[0][0]))
    if is_const(n):
        k = const_val(n)
        if k <= 0:
            return EMPTYL
        if k <= UNROLL:
            return concat(*[app(l, const(i)) for i in range(k)])
    return raw("flat", n, l)


# ------------------------------------------------------------ comprehensions
def summ(n, l):
    if is_const(n):
        k = const_val(n)
        if k <= 0:
            return ZERO
        if k <= UNROLL:
            return add(*[app(l, const(i)) for i in range(k)])
    s, b = opn(l)
    r = {}
    for m, c in pd(b).items():
        dep, ind = [], []
        for a, e in m:
            if s.a[0] in a.fv or (isinstance(e, T) and s.a[0] in e.fv):
                if isinstance(e, T) and s.a[0] not in a.fv:
                    # a^(e0 + i*k): split the constant part of the exponent
                    sp = coeff_split(e, s)
                    if sp is not None and sp[1] is not ZERO:
                        ind.append((a, const_val(sp[1]) if is_const(sp[1]) else sp[1]))
                        e = mul(sp[0], s)
                dep.append((a, e))
            else:
                ind.append((a, e))
        if not dep:
            q = pmul({tuple(ind): c}, pd(n))
        else:
            body = mkpoly({tuple(sorted(dep, key=lambda z: z[0].id)): 1})
            at_ = raw("sum", n, lam(s, body))
            q = pmul({tuple(sorted(ind, key=lambda z: z[0].id)): c}, {((at_, 1),): 1})
        r = padd(r, q)
    return mkpoly(r)


def prodd(n, l):
    if is_const(n):
        k = const_val(n)
        if k <= 0:
            return ONE
        if k <= UNROLL:
            return mul(*[app(l, const(i)) for i in range(k)])
    s, b = opn(l)
    d = pd(b)
    if not d:
        return power(ZERO, n) if False else raw("prod", n, l)
    if len(d) == 1:
        (m, c), = d.items()
        r = {(): 1}
        if c != 1:
            r = pmul(r, pd(power(const(c), n)))
        for a, e in m:
            if s.a[0] in a.fv:
                p = raw("prod", n, lam(s, a))
                if isinstance(e, int):
                    r = pmul(r, pd(power(p, e)))
                else:
                    r = pmul(r, {((raw("prod", n, lam(s, mkpoly({((a, e),): 1}))), 1),): 1})
            elif isinstance(e, T) and s.a[0] in e.fv:
                r = pmul(r, pd(power(a, summ(n, lam(s, e)))))
            else:
                r = pmul(r, pd(power(a, mul(n, e if isinstance(e, T) else const(e)))))
        return mkpoly(r)
    return raw("prod", n, lam(s, b))


def exists(n, l):
    if is_const(n):
        k = const_val(n)
        if k <= 0:
            return FALSE
        if k <= UNROLL:
            return or_(*[app(l, const(i)) for i in range(k)])
    s, b = opn(l)
    if s.a[0] not in b.fv:
        return and_(b, pos(n))
    # exists distributes over or
    if b.op == "not" and b.a[0].op == "and":
        return or_(*[exists(n, lam(s, not_(x))) for x in b.a[0].a[0]])
    if b.op == "and":
        ind = [x for x in b.a[0] if s.a[0] not in x.fv]
        if ind:
            dep = [x for x in b.a[0] if s.a[0] in x.fv]
            return and_(exists(n, lam(s, and_(*dep))), *ind)
    # i == k
    return raw("exists", n, lam(s, b))


def firstidx(n, l):
    s, b = opn(l)
    if s.a[0] not in b.fv:
        return ZERO
    return raw("nat", "first", n, l)


# ------------------------------------------------------------- sets and maps
def setof(s):
    if s.op == "list":
        xs = tuple(sorted(set(s.a[0]), key=lambda x: x.id))
        return raw("setof", raw("list", xs))
    return raw("setof", s)


def _set_items(s):
    """setof list -> [(cond, elem)]"""
    if s.op != "setof" or s.a[0].op != "list":
        return None
    out = []
    for x in s.a[0].a[0]:
        if x.op == "cel":
            out.append((x.a[0], x.a[1]))
        else:
            out.append((TRUE, x))
    return out


def set_from_items(items):
    d = {}
    for c, e in items:
        d[e] = or_(d.get(e, FALSE), c)
    return setof(lst(*[e if c is TRUE else raw("cel", c, e) for e, c in d.items() if c is not FALSE]))


def _ite_set(c, a, b):
    x, y = _set_items(a), _set_items(b)
    if x is None or y is None:
        return None
    return set_from_items([(and_(c, p), e) for p, e in x] + [(and_(not_(c), p), e) for p, e in y])


def set_insert(s, x):
    it = _set_items(s)
    if it is not None:
        return set_from_items(it + [(TRUE, x)])
    if s.op == "ite":
        return ite(s.a[0], set_insert(s.a[1], x), set_insert(s.a[2], x))
    if s.op == "setof":
        return raw("setof", concat(s.a[0], lst(x)))
    return raw("setof", concat(raw("setseq", s), lst(x)))


def set_union(s, t):
    a, b = _set_items(s), _set_items(t)
    if a is not None and b is not None:
        return set_from_items(a + b)
    return setof(concat(setseq(s, True), setseq(t, True)))


def setseq(s, unordered=False):
    """iteration sequence of an ordered set"""
    if s.op == "setof":
        if s.a[0].op == "list" and len(s.a[0].a[0]) <= 1 and not any(x.op == "cel" for x in s.a[0].a[0]):
            return s.a[0]
        if unordered:
            return s.a[0]
    return raw("setseq", s)


def mapof(pairs):
    return raw("mapof", pairs)


def minsert(m, k, v):
    if m.op == "mapof":
        s = m.a[0]
        if s.op == "list":
            xs = [p for p in s.a[0] if proj(p, "0") is not k]
            return mapof(lst(*xs, tup(k, v)))
        return mapof(concat(s, lst(tup(k, v))))
    if m.op == "ite":
        return ite(m.a[0], minsert(m.a[1], k, v), minsert(m.a[2], k, v))
    return mapof(concat(raw("mseq", m), lst(tup(k, v))))


def mget(m, k):
    """Option of value"""
    if m.op == "mapof":
        s = m.a[0]
        if s.op == "list":
            for p in reversed(s.a[0]):
                if proj(p, "0") is k:
                    return some(proj(p, "1"))
            if all(eq(proj(p, "0"), k) is FALSE for p in s.a[0]):
                return NONE
    if m.op == "ite":
        return ite(m.a[0], mget(m.a[1], k), mget(m.a[2], k))
    return raw("mget", m, k)


def mlen(m):
    if m.op == "mapof":
        return slen(m.a[0])
    g = as_group(m)
    if g is not None:
        return raw("nat", "groups", g[0], g[1])
    return raw("len", m)


SKIP = raw("skip")


def as_group(m):
    """groupmap built from an empty map by one (possibly conditional) push per item:
    (n, key lambda, value lambda)"""
    if m.op == "grppush":
        items = []
        while m.op == "grppush":
            items.append((m.a[1], m.a[2]))
            m = m.a[0]
        if not (m is EMPTYL or (m.op == "mapof" and m.a[0] is EMPTYL)):
            return None
        items.reverse()
        i = fresh("i")
        ks, vs = lst(*[k for k, _ in items]), lst(*[v for _, v in items])
        return const(len(items)), lam(i, raw("at", ks, i)), lam(i, raw("at", vs, i))
    if m.op != "groupmap" or not (m.a[0] is EMPTYL or (m.a[0].op == "mapof" and m.a[0].a[0] is EMPTYL)):
        return None
    i, b = opn(m.a[2])
    if b.op == "list" and len(b.a[0]) == 1:
        p = b.a[0][0]
        return m.a[1], lam(i, proj(p, "0")), lam(i, proj(p, "1"))
    if b.op == "ite" and (b.a[1] is EMPTYL or b.a[2] is EMPTYL):
        c, x = (not_(b.a[0]), b.a[2]) if b.a[1] is EMPTYL else (b.a[0], b.a[1])
        if x.op == "list" and len(x.a[0]) == 1:
            p = x.a[0][0]
            return m.a[1], lam(i, ite(c, proj(p, "0"), SKIP)), lam(i, proj(p, "1"))
    return None


def mkv(m, i):
    """(key, value) at rank i of an ordered map"""
    if m.op == "mapof":
        s = m.a[0]
        if s.op == "list" and len(s.a[0]) == 1:
            p = s.a[0][0]
            return proj(p, "0"), proj(p, "1")
        n = slen(s)
        j = fresh("i")
        keys = seqlam(n, lam(j, proj(at(s, j), "0")))
        k = raw("nat", "rank", keys, i)
        p = at(s, k)
        return proj(p, "0"), proj(p, "1")
    g = as_group(m)
    if g is not None:
        n, kl, vl = g
        j = fresh("i")
        return app(kl, raw("nat", "gidx", n, kl, i, ZERO)), \
            seqlam(raw("nat", "glen", n, kl, i), lam(j, app(vl, raw("nat", "gidx", n, kl, i, j))))
    return raw("mkey", m, i), raw("mval", m, i)


def mset(m, k, v):
    if m.op == "ite":
        return ite(m.a[0], mset(m.a[1], k, v), mset(m.a[2], k, v))
    return minsert(m, k, v)


def mseq_of(m):
    if m.op == "mapof":
        return m.a[0]
    return raw("mseq", m)


def grp_push(m, key, val):
    return raw("grppush", m, key, val)


def groupmap(v0, n, l):
    if v0.op == "mapof" and v0.a[0] is EMPTYL:
        v0 = EMPTYL
    return raw("groupmap", v0, n, l)


def maxof(v0, n, l):
    if is_const(n):
        k = const_val(n)
        r = v0
        if k <= UNROLL:
            for i in range(k):
                r = max_(r, app(l, const(i)))
            return r
    s, b = opn(l)
    if b.op == "max":
        return maxof(maxof(v0, n, lam(s, b.a[0])), n, lam(s, b.a[1]))
    if s.a[0] not in b.fv:
        return max_(v0, ite_num(eq0(n), ZERO, b))
    if v0 is not ZERO:
        return max_(v0, raw("maxof", n, l))
    return raw("maxof", n, l)


def ite_num(c, a, b):
    return num(raw("ite", c, a, b))


def known_eq(a, b):
    return a is b


def rank(keys, i):
    return raw("nat", "rank", keys, i)


REB = {
    "poly": _reb_poly, "maxof": lambda n, l: maxof(ZERO, n, l),
    "ind": lambda c: mkpoly(ind_d(c)),
    "not": not_, "and": lambda xs: and_(*xs), "eq0": eq0, "pos": pos, "eq": eq,
    "isv": isv, "proj": lambda t, f, v: proj(t, f, _vname(v), v), "ite": ite, "withf": lambda t, u: _reb_withf(t, u),
    "struct": lambda n, v, f: raw("struct", n, v, f),
    "seqlam": seqlam, "concat": lambda xs: concat(*xs), "at": at, "slice": slice_, "upd": upd, "flat": flat,
    "len": lambda s: slen(s) if s.op not in ("mapof", "setof", "groupmap") else mlen(s), "min": min_, "max": max_, "idiv": idiv, "mod": mod,
    "sum": summ, "prod": prodd, "exists": exists, "chunkof": chunkof,
    "setof": setof, "setseq": setseq, "mget": mget,
    "size": dsize,
    "list": lambda xs: lst(*xs),
    "chunks": lambda s, k: raw("chunks", s, k),
}


def _vname(v):
    return {"Some": "Option", "None": "Option", "Ok": "Result", "Err": "Result", "Plus": "Sign", "Minus": "Sign"}.get(v, "")


def _reb_withf(t, u):
    for k, v in u:
        t = with_field(t, k, v)
    return t


# ------------------------------------------------------------------ printing
def show(t, depth=60, memo=None, names=None):
    names = names or {}

    def sh(x, d):
        if isinstance(x, str):
            return x
        if isinstance(x, int) or x is None:
            return str(x)
        if isinstance(x, tuple):
            return "(" + ", ".join(sh(y, d) for y in x) + ")"
        if d <= 0:
            return "…"
        if x in names:
            return names[x]
        o, a = x.op, x.a
        if o == "sym":
            return a[0]
        if o == "bv":
            return "%%%d" % a[0]
        if o == "str":
            return repr(a[0])
        if o == "poly":
            if not a[0]:
                return "0"
            s = []
            for c, m in a[0]:
                fs = []
                for at_, e in m:
                    z = sh(at_, d - 1)
                    if at_.op == "poly":
                        z = "(" + z + ")"
                    if e != 1 or not isinstance(e, int):
                        z += "^" + ("(%s)" % sh(e, d - 1) if isinstance(e, T) else str(e))
                    fs.append(z)
                if not fs:
                    s.append(str(c))
                elif c == 1:
                    s.append("*".join(fs))
                elif c == -1:
                    s.append("-" + "*".join(fs))
                else:
                    s.append(str(c) + "*" + "*".join(fs))
            return "(" + " + ".join(s) + ")"
        if o == "ind":
            return "[" + sh(a[0], d - 1) + "]"
        if o == "lam":
            return "λ%%%d. %s" % (a[0], sh(a[1], d - 1))
        if o == "struct":
            if a[0] == "()":
                return "(" + ", ".join(sh(v, d - 1) for _, v in a[2]) + ")"
            n = a[1] or a[0].split("::")[-1]
            if not a[2]:
                return n
            return n + "{" + ", ".join("%s: %s" % (k, sh(v, d - 1)) for k, v in a[2]) + "}"
        if o == "proj":
            return sh(a[0], d - 1) + "." + (a[2] + "." if a[2] else "") + a[1]
        if o == "at":
            return sh(a[0], d - 1) + "[" + sh(a[1], d - 1) + "]"
        if o == "len":
            return "|" + sh(a[0], d - 1) + "|"
        if o == "not":
            return "!" + sh(a[0], d - 1)
        if o == "and":
            return "(" + " & ".join(sh(y, d - 1) for y in a[0]) + ")"
        if o == "eq0":
            return "(" + sh(a[0], d - 1) + " == 0)"
        if o == "pos":
            return "(" + sh(a[0], d - 1) + " > 0)"
        if o == "list":
            return "[" + ", ".join(sh(y, d - 1) for y in a[0]) + "]"
        if o == "obj":
            return "<%s>" % (a[0],)
        return o + "(" + ", ".join(sh(y, d - 1) for y in a) + ")"
    return sh(t, depth)


def subterms(t):
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        st.extend(kids(x))
    return seen


def tsize(t, cap=10 ** 7):
    """tree size (memoised, capped)"""
    memo = {}

    def go(x):
        r = memo.get(x)
        if r is None:
            r = min(cap, 1 + sum(go(k) for k in kids(x)))
            memo[x] = r
        return r
    return go(t)


def pp(t, limit=25, maxlines=200):
    """print a term as a DAG: shared / large subterms become numbered definitions"""
    names, lines, refs = {}, [], {}
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        for k in kids(x):
            refs[k] = refs.get(k, 0) + 1
            if k not in seen:
                seen.add(k)
                st.append(k)
    memo = {}

    def size(x):
        if x in memo:
            return memo[x]
        if x in names:
            return 1
        r = 1 + sum(1 if k in names else size(k) for k in kids(x))
        memo[x] = r
        return r
    order = []
    vis = set()

    def post(x):
        if x in vis:
            return
        vis.add(x)
        for k in kids(x):
            post(k)
        if x is not t and x.op not in ("sym", "bv", "str", "lam") and size(x) > (6 if refs.get(x, 0) > 1 else limit):
            names[x] = "t%d" % len(names)
            order.append(x)
    post(t)
    out = []
    for x in order + [t]:
        nm = names.pop(x, None) if x is not t else "=>"
        out.append("%s = %s" % (nm, show(x, names=names)))
        if nm != "=>":
            names[x] = nm
    return "\n".join(out[-maxlines:])

"""Random interpretation of value numbers.

Value numbers (terms.py) that are not the same object may still be equal in every model
(the normal form is incomplete: chunk arithmetic, modular indices, re-associated folds).
Two terms are separated only by a model that gives them different values, in the manner of
Gulwani and Necula's random interpretation: symbols get random values of the algebra
(field elements of a large prime field, polynomials, sequences of a few elements, group
elements through a random linear map), uninterpreted functions are random functions of
their arguments.  What is evaluated are the summaries derived from the source by the
dataflow analysis; no code of the analysed crate is executed.
"""
import functools
import hashlib
from terms import *
import terms as TM

PRIME = 2 ** 64 - 2 ** 32 + 1
GEN = 7
TWOAD = 32


class Imprecise(Exception):
    """the summary contains a value the analysis does not model"""


class Skip(Exception):
    """degenerate model (e.g. huge size)"""


class Fe:
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v % PRIME

    def __repr__(self):
        return "F%x" % (self.v & 0xFFFFFF)

    def __eq__(self, o):
        return isinstance(o, Fe) and o.v == self.v

    def __hash__(self):
        return hash(self.v)


class Poly:
    __slots__ = ("c",)

    def __init__(self, c):
        c = list(c)
        while c and c[-1] == 0:
            c.pop()
        self.c = c

    def __repr__(self):
        return "P%r" % [x & 0xFFFF for x in self.c]


class L:
    """lazily chosen random value"""
    __slots__ = ("p",)

    def __init__(self, *p):
        self.p = p

    def __repr__(self):
        return "L" + ".".join(str(x) if not isinstance(x, tuple) else "(..)" for x in self.p)


class S:
    __slots__ = ("n", "v", "f", "base")

    def __init__(self, n, v, f, base=None):
        self.n, self.v, self.f = n, v, f
        self.base = base

    def __repr__(self):
        return "%s%r" % (self.v or self.n, self.f)


class Set:
    __slots__ = ("xs",)

    def __init__(self, xs):
        self.xs = xs

    def __repr__(self):
        return "Set%r" % self.xs


class Inc:
    """a counter's increment, as the value pushed under a key"""

    def __init__(self, by):
        self.by = by


class Map:
    """ordered map"""
    __slots__ = ("d",)

    def __init__(self, d):
        self.d = d      # key(canonical) -> (k, v), sorted

    def __repr__(self):
        return "Map%r" % list(self.d.values())


class Str:
    __slots__ = ("s",)

    def __init__(self, s):
        self.s = s

    def __repr__(self):
        return repr(self.s)


class Dom:
    __slots__ = ("n",)

    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return "Dom%d" % self.n


class Expr:
    """expression tree: ('c',Fe) ('q',S) ('n',e) ('s',a,b) ('p',a,b) ('k',e,Fe)"""
    __slots__ = ("t", "p")

    def __init__(self, t, p):
        self.t, self.p = t, p

    def __repr__(self):
        return "Expr"


class Inf:
    pass


INFV = Inf()


class Fn:
    """a model function (for symbolic closures)"""
    __slots__ = ("f", "p")

    def __init__(self, f, p):
        self.f, self.p = f, p


def padd_(a, b):
    if len(a) < len(b):
        a, b = b, a
    r = list(a)
    for i, x in enumerate(b):
        r[i] = (r[i] + x) % PRIME
    return r


def pmul_(a, b):
    if not a or not b:
        return []
    r = [0] * (len(a) + len(b) - 1)
    for i, x in enumerate(a):
        if x:
            for j, y in enumerate(b):
                r[i + j] = (r[i + j] + x * y) % PRIME
    return r


def peval_(c, x):
    if len(c) > 128:
        nz = [(i, a) for i, a in enumerate(c) if a]
        if len(nz) < 16:
            return sum(a * pow(x, i, PRIME) for i, a in nz) % PRIME
    r = 0
    for a in reversed(c):
        r = (r * x + a) % PRIME
    return r


def pdivmod_(a, b):
    a = list(a)
    b = list(b)
    while b and b[-1] == 0:
        b.pop()
    if not b:
        raise Skip("division by zero polynomial")
    q = [0] * max(0, len(a) - len(b) + 1)
    iv = pow(b[-1], PRIME - 2, PRIME)
    for i in range(len(a) - len(b), -1, -1):
        k = a[i + len(b) - 1] * iv % PRIME
        q[i] = k
        if k:
            for j, y in enumerate(b):
                a[i + j] = (a[i + j] - k * y) % PRIME
    return q, a[:len(b) - 1]


class Model:
    def __init__(self, seed, syms=None, natfields=(), variants=None, N=8):
        self.seed = seed
        self.syms = dict(syms or {})
        self.natfields = set(natfields)
        self.memo = {}
        self.hooks = {}          # op -> fn(model, term, env) -> value or None
        self.choose = {}         # isv override: fn(path, name) -> variant or None
        self.leaf = []           # list of fn(model, path) -> value or None
        self.imprecise = []
        self.N = N
        self.fb = {}
        self.okcalls = {"commit", "open", "check", "ptlabel", "permute_for_lookup", "missing_coset"}
        self.anycall = False
        self.variants = variants or {}
        self.budget = 5_000_000
        self.drawhook = None
        self.drawn = None        # every draw evaluated -> its number
        self.swapdraw = None     # the number of the draw given another value
        self.edge = False
        self.flips = None        # paths of leaves and values that would make a tested equality true
        self.force = {}
        self.eqlog = None
        self.emptyzero = False
        self.bigdom = 4096       # largest one evaluated
        self.maxdom = None       # largest evaluation domain the field has

    def flip0(self, t, v, env):
        """record how one leaf would have to change for the polynomial t to vanish"""
        if len(self.flips) > 200 or isinstance(v, Poly):
            return
        mons = t.a[0] if t.op == "poly" else ((1, ((t, 1),)),)
        for _, mon in mons:
            for at_, e in mon:
                if e != 1:
                    continue
                x = self.resolve(self.ev(at_, env))
                if not isinstance(x, L):
                    continue
                xv = self.num(x)
                B = 0
                okk = True
                for c2, m2 in mons:
                    if any(q is at_ for q, _ in m2):
                        p = c2
                        for q, e2 in m2:
                            if q is at_:
                                okk = okk and e2 == 1
                            elif is_const(e2) if isinstance(e2, T) else True:
                                w = self.num(self.ev(q, env))
                                if isinstance(w, Poly):
                                    okk = False
                                    break
                                w = w.v if isinstance(w, Fe) else w
                                p = p * w ** (const_val(e2) if isinstance(e2, T) else e2)
                            else:
                                okk = False
                        B += p
                if not okk:
                    continue
                if isinstance(xv, int):
                    if not isinstance(v, int) or B == 0 or v % B:
                        continue
                    n = xv - v // B
                    if n >= 0:
                        self.flips.append((x.p, n))
                else:
                    if B % PRIME == 0:
                        continue
                    vv = v.v if isinstance(v, Fe) else v
                    self.flips.append((x.p, Fe(xv.v - vv * pow(B, PRIME - 2, PRIME))))

    def flipeq(self, x, y):
        if len(self.flips) > 200:
            return
        for u, w in ((x, y), (y, x)):
            u = self.resolve(u)
            if isinstance(u, L):
                self.flips.append((u.p, w))
                return

    # ---------------------------------------------------------- randomness
    def h(self, *k):
        return int.from_bytes(hashlib.blake2b(repr((self.seed,) + k).encode(), digest_size=16).digest(), "little")

    def key(self, v):
        if isinstance(v, bool):
            return ("b", v)
        if isinstance(v, int):
            return ("n", v % PRIME)
        if isinstance(v, Fe):
            return ("n", v.v)
        if isinstance(v, Poly):
            if len(v.c) <= 1:
                return ("n", v.c[0] if v.c else 0)
            return ("P", tuple(v.c))
        if isinstance(v, L):
            r = self.resolve(v)
            if r is not v:
                return self.key(r)
            return ("L",) + v.p
        if isinstance(v, S):
            if v.base is not None:
                return ("L",) + v.base
            fs = tuple(sorted((k, self.key(x)) for k, x in v.f.items()))
            if fs and not v.v:
                ps = [k[1][1:-1] if k[1][0] == "L" and k[1][-1] == k[0] else None for k in fs]
                if ps[0] is not None and all(p == ps[0] for p in ps):
                    return ("L",) + ps[0]
            return ("S", v.v or v.n, fs)
        if isinstance(v, (list, tuple)):
            return ("l",) + tuple(self.key(x) for x in v)
        if isinstance(v, Set):
            return ("set",) + tuple(self.key(x) for x in v.xs)
        if isinstance(v, Map):
            return ("map",) + tuple((k, self.key(x[1])) for k, x in v.d.items())
        if isinstance(v, Str):
            return ("s", v.s)
        if isinstance(v, Dom):
            return ("dom", v.n)
        if isinstance(v, Expr):
            return ("L",) + v.p
        if isinstance(v, Fn):
            return ("L",) + v.p
        if v is INFV:
            return ("inf",)
        if v is None:
            return ("none",)
        raise Imprecise("key of %r" % (v,))

    def ordkey(self, v):
        """total order used for ordered sets and maps: numbers by value, structs by fields"""
        k = self.key(v)
        return (repr(k) if k[0] != "n" else "n%024d" % k[1])

    def resolve(self, v):
        if isinstance(v, L):
            if self.force and v.p in self.force:
                return self.force[v.p]
            for f in self.leaf:
                r = f(self, v.p)
                if r is not None:
                    return r
        return v

    def fe(self, *k):
        if self.edge:
            e = self.h("edge", *k) % 6
            if e < 3:
                return Fe((0, 1, -1)[e])
        return Fe(self.h("fe", *k))

    # ---------------------------------------------------------- coercions
    def num(self, v):
        """int, Fe or Poly"""
        if isinstance(v, bool):
            raise Imprecise("bool as number")
        if isinstance(v, (int, Fe, Poly)):
            return v
        if isinstance(v, L):
            r = self.resolve(v)
            if r is not v:
                return self.num(r)
            last = v.p[-1]
            if last in self.natfields or (len(v.p) == 1 and sym(last) in TM.NATSYMS):
                return self.h("nat", *v.p) % 4 + (1 if last == "index" else 0)
            return self.fe(*v.p)
        if isinstance(v, S) and v.n in ("Fp256", "Fp"):
            return self.fe(self.key(v))
        if v == [] and self.emptyzero:
            # an entry of a map is created as an empty group or, what is the same, as zero
            return 0
        raise Imprecise("number from %r" % (v,))

    def nat(self, v):
        v = self.num(v)
        if isinstance(v, Fe):
            raise Imprecise("field element used as an integer")
        if isinstance(v, Poly):
            raise Imprecise("polynomial used as an integer")
        return v

    def poly(self, v):
        if isinstance(v, Poly):
            return v
        if isinstance(v, (int, Fe)):
            return Poly([v % PRIME if isinstance(v, int) else v.v])
        if isinstance(v, list):
            return Poly([self.fld(x) for x in v])
        if isinstance(v, L):
            r = self.resolve(v)
            if r is not v:
                return self.poly(r)
            n = self.N
            return Poly([self.h("coef", i, *v.p) % PRIME for i in range(n)])
        raise Imprecise("polynomial from %r" % (v,))

    def fld(self, v):
        v = self.num(v)
        if isinstance(v, Fe):
            return v.v
        if isinstance(v, Poly):
            if len(v.c) > 1:
                raise Imprecise("polynomial used as a field element")
            return v.c[0] if v.c else 0
        return v % PRIME

    def seq(self, v):
        if isinstance(v, list):
            return v
        if isinstance(v, tuple):
            return list(v)
        if isinstance(v, Set):
            return v.xs
        if isinstance(v, Map):
            return [S("()", "", {"0": k, "1": x}) for k, x in v.d.values()]
        if isinstance(v, L):
            r = self.resolve(v)
            if r is not v:
                return self.seq(r)
            return [L(*v.p, i) for i in range(self.length(v.p))]
        if isinstance(v, S) and v.n == "Evaluations":
            return self.seq(v.f["evals"])
        if isinstance(v, Poly):
            return [Fe(x) for x in v.c]
        raise Imprecise("sequence from %r" % (v,))

    def length(self, p):
        return 1 + self.h("len", *p) % 3

    def dom(self, v):
        if isinstance(v, Dom):
            return v
        if isinstance(v, L):
            r = self.resolve(v)
            if r is not v:
                return self.dom(r)
            return Dom(self.N)
        if isinstance(v, S) and v.v == "Some":
            return self.dom(v.f["0"])
        raise Imprecise("domain from %r" % (v,))

    def omega(self, d):
        lg = (d.n - 1).bit_length()
        return pow(pow(GEN, (PRIME - 1) >> TWOAD, PRIME), 1 << (TWOAD - lg), PRIME)

    def set_(self, v):
        if isinstance(v, Set):
            return v
        if isinstance(v, L):
            r = self.resolve(v)
            if r is not v:
                return self.set_(r)
            return self.mkset([L(*v.p, i) for i in range(self.length(v.p))])
        if isinstance(v, list):
            return self.mkset(v)
        raise Imprecise("set from %r" % (v,))

    def mkset(self, xs):
        d = {}
        for x in xs:
            d.setdefault(self.key(x), x)
        return Set([d[k] for k in sorted(d, key=lambda k: self.ordkey(d[k]))])

    def map_(self, v):
        if isinstance(v, Map):
            return v
        if isinstance(v, list) and not v:
            return Map({})
        if isinstance(v, L):
            r = self.resolve(v)
            if r is not v:
                return self.map_(r)
            n = self.length(v.p)
            return self.mkmap([(L(*v.p, "k", i), L(*v.p, "v", i)) for i in range(n)])
        if isinstance(v, list):
            return self.mkmap([(self.proj(x, "0"), self.proj(x, "1")) for x in v])
        raise Imprecise("map from %r" % (v,))

    def mkmap(self, ps):
        d = {}
        for k, v in ps:
            d[self.key(k)] = (k, v)
        return Map({k: d[k] for k in sorted(d, key=lambda k: self.ordkey(d[k][0]))})

    def variant(self, v, name):
        if isinstance(v, S):
            return v.v
        if isinstance(v, L):
            r = self.resolve(v)
            if r is not v:
                return self.variant(r, name)
            c = self.choose.get(name)
            if c:
                x = c(self, v.p)
                if x is not None:
                    return x
            vs = self.variants.get(name) or TM.variants_of(name)
            if not vs:
                raise Imprecise("variants of %s" % name)
            return vs[self.h("variant", *v.p) % len(vs)]
        if isinstance(v, Expr):
            return {"c": "Constant", "q": "Oracle", "n": "Negated", "s": "Sum", "p": "Product", "k": "Scaled"}[v.t[0]]
        raise Imprecise("variant of %r" % (v,))

    def proj(self, v, f, variant=""):
        if isinstance(v, S):
            if f in v.f:
                return v.f[f]
            if v.base is not None:
                return L(*v.base, f)
            if variant and v.v != variant:
                return L("wrongvariant", self.key(v), f)
            if f == "0" and v.n == "LabeledCommitment":
                return v.f["commitment"]
            return L("field", self.key(v), f)
        if isinstance(v, L):
            r = self.resolve(v)
            if r is not v:
                return self.proj(r, f, variant)
            return L(*v.p, *( (variant,) if variant else ()), f)
        if isinstance(v, (list, tuple)) and f.isdigit():
            return v[int(f)]
        if isinstance(v, (Fe, int, Poly)):
            if f == "0":        # transparent newtype (e.g. a commitment)
                return v
            if f == "coeffs" and isinstance(v, Poly):
                return [Fe(x) for x in v.c]
            return L("numfield", self.key(v), f)
        if isinstance(v, Expr):
            t = v.t
            return t[1 + int(f)] if not isinstance(t[1 + int(f)], tuple) else Expr(t[1 + int(f)], v.p + (f,))
        return L("field", self.key(v), f)

    # ---------------------------------------------------------- evaluation
    def fbv(self, t):
        r = self.fb.get(t)
        if r is None:
            if t.op == "bv":
                r = frozenset((t.a[0],))
            elif t.xb == 0:
                r = EMPTY
            else:
                r = EMPTY.union(*[self.fbv(k) for k in kids(t)]) if kids(t) else EMPTY
                if t.op == "lam":
                    r = r - {t.a[0]}
            self.fb[t] = r
        return r

    def ev(self, t, env=None):
        env = env or {}
        fb = self.fbv(t)
        if fb:
            mk = (t, tuple((b, env[b] if isinstance(env.get(b), int) else id(env.get(b))) for b in sorted(fb)))
        else:
            mk = t
        r = self.memo.get(mk)
        if r is not None:
            return r[0]
        self.budget -= 1
        if self.budget < 0:
            raise Skip("budget")
        v = self.ev_(t, env)
        # keep env values alive so ids stay unique
        self.memo[mk] = (v, [env.get(b) for b in fb])
        return v

    def lam(self, l, env):
        def f(x):
            e = dict(env)
            e[l.a[0]] = x
            return self.ev(l.a[1], e)
        return f

    def b(self, t, env):
        v = self.ev(t, env)
        if isinstance(v, bool):
            return v
        if isinstance(v, L):
            r = self.resolve(v)
            if r is not v:
                if isinstance(r, bool):
                    return r
            return self.h("bool", *v.p) % 2 == 0
        raise Imprecise("bool from %r" % (v,))

    def add(self, a, b):
        if isinstance(a, Poly) or isinstance(b, Poly):
            return Poly(padd_(self.poly(a).c, self.poly(b).c))
        if isinstance(a, Fe) or isinstance(b, Fe):
            return Fe(self.fld(a) + self.fld(b))
        return a + b

    def mul(self, a, b):
        if isinstance(a, Poly) or isinstance(b, Poly):
            return Poly(pmul_(self.poly(a).c, self.poly(b).c))
        if isinstance(a, Fe) or isinstance(b, Fe):
            return Fe(self.fld(a) * self.fld(b))
        return a * b

    def pow(self, a, e):
        if not isinstance(e, int):
            e = self.nat(e)
        if isinstance(a, Poly):
            if len(a.c) <= 1:
                return self.pow(Fe(a.c[0] if a.c else 0), e)
            if e < 0:
                return L("polyinv", self.key(a), e)
            r = Poly([1])
            if e > 64:
                raise Skip("power")
            for _ in range(e):
                r = self.mul(r, a)
            return r
        if isinstance(a, Fe):
            if a.v == 0 and e < 0:
                return self.fe("inv0", e)
            return Fe(pow(a.v, e % (PRIME - 1) if a.v else e, PRIME))
        if e >= 0:
            if e > 4096:
                raise Skip("power")
            return a ** e
        if a in (1, -1):
            return a ** (-e)
        return self.pow(Fe(a), e)

    def ev_(self, t, env):
        o = t.op
        a = t.a
        E = lambda x: self.ev(x, env)
        hk = self.hooks.get(o)
        if hk is not None:
            r = hk(self, t, env)
            if r is not None:
                return r
        if o == "sym":
            n = a[0]
            if n in self.syms:
                return self.syms[n]
            return L(n)
        if o == "bv":
            return env[a[0]]
        if o == "poly":
            r, pend, undef = 0, None, {}
            for c, m in a[0]:
                q = c
                skip = False
                rest = []
                for at_, e in m:
                    if at_.op == "ind":
                        if not self.b(at_.a[0], env):
                            skip = True
                            break
                    else:
                        rest.append((at_, e))
                if skip:
                    continue
                bad = []
                for at_, e in rest:
                    try:
                        v = self.num(E(at_))
                        ee = e if isinstance(e, int) else self.nat(E(e))
                    except Imprecise as x:
                        # a value with no meaning in this model is harmless if its coefficient vanishes
                        bad.append((at_.id, e if isinstance(e, int) else e.id))
                        pend = pend or x
                        continue
                    q = self.mul(q, self.pow(v, ee) if ee != 1 else v)
                if bad:
                    if isinstance(q, Poly):
                        raise pend
                    bad = tuple(bad)
                    undef[bad] = self.add(undef.get(bad, 0), q)
                    continue
                r = self.add(r, q)
            if undef and any((x.v if isinstance(x, Fe) else x) != 0 for x in undef.values()):
                raise pend
            return r
        if o == "true":
            return True
        if o == "false":
            return False
        if o == "ite":
            return E(a[1]) if self.b(a[0], env) else E(a[2])
        if o == "ind":
            return 1 if self.b(a[0], env) else 0
        if o == "not":
            return not self.b(a[0], env)
        if o == "and":
            # conjunction is order-insensitive: an operand that cannot be evaluated does not matter if another is false
            pend = None
            for x in a[0]:
                try:
                    if not self.b(x, env):
                        return False
                except Imprecise as e:
                    pend = e
            if pend is not None:
                raise pend
            return True
        if o == "eq0":
            v = self.num(E(a[0]))
            if self.flips is not None:
                self.flip0(a[0], v, env)
            if self.eqlog is not None and isinstance(v, Fe):
                self.eqlog.append((a[0], env, v))
            if isinstance(v, int):
                return v == 0
            if isinstance(v, Fe):
                return v.v == 0
            return not v.c
        if o == "pos":
            return self.nat(E(a[0])) > 0
        if o == "eq":
            x, y = E(a[0]), E(a[1])
            if self.flips is not None:
                self.flipeq(x, y)
            return self.key(x) == self.key(y)
        if o == "bool":
            v = E(a[0])
            if isinstance(v, bool):
                return v
            v = self.resolve(v)
            if isinstance(v, bool):
                return v
            if isinstance(v, L):
                return self.h("bool", *v.p) % 2 == 0
            raise Imprecise("bool %r" % (v,))
        if o == "isv":
            return self.variant(E(a[0]), a[1]) == a[2]
        if o == "proj":
            return self.proj(E(a[0]), a[1], a[2])
        if o == "withf":
            v = E(a[0])
            ups = {k: E(x) for k, x in a[1]}
            if isinstance(v, S):
                f = dict(v.f)
                f.update(ups)
                return S(v.n, v.v, f, v.base) if v.base is None else LS(v, f)
            r = self.resolve(v)
            if isinstance(r, S):
                f = dict(r.f)
                f.update(ups)
                return S(r.n, r.v, f)
            return Upd(v, ups)
        if o == "struct":
            if a[0] == "()" and not a[2]:
                return S("()", "", {})
            return S(a[0], a[1], {k: E(x) for k, x in a[2]})
        if o == "list":
            return [E(x) for x in a[0]]
        if o == "seqlam":
            n = self.nat(E(a[0]))
            if n > self.bigdom:
                raise Skip("len")
            f = self.lam(a[1], env)
            return [f(i) for i in range(n)]
        if o == "concat":
            r = []
            for x in a[0]:
                r = r + self.seq(E(x))
            return r
        if o == "flat":
            f = self.lam(a[1], env)
            r = []
            for i in range(self.nat(E(a[0]))):
                r = r + self.seq(f(i))
            return r
        if o == "at":
            s0 = E(a[0])
            i = self.num(E(a[1]))
            s0 = self.resolve(s0)
            if not isinstance(i, int):
                raise Imprecise("index")
            if isinstance(s0, L):
                n = self.length(s0.p)
                if i < 0:
                    return L("oob", self.key(s0), i)
                return L(*s0.p, i)
            s = self.seq(s0)
            if 0 <= i < len(s):
                return s[i]
            return L("oob", self.key(s0), i)
        if o == "slice":
            s = self.seq(E(a[0]))
            x, y = self.nat(E(a[1])), self.nat(E(a[2]))
            if 0 <= x <= y <= len(s):
                return s[x:y]
            return [self.oob(s, i) for i in range(x, y)]
        if o == "upd":
            s = list(self.seq(E(a[0])))
            i = self.nat(E(a[1]))
            if 0 <= i < len(s):
                s[i] = E(a[2])
            return s
        if o == "len":
            v = E(a[0])
            v = self.resolve(v)
            if isinstance(v, L):
                return self.length(v.p)
            if isinstance(v, Map):
                return len(v.d)
            if isinstance(v, Set):
                return len(v.xs)
            return len(self.seq(v))
        if o == "min":
            return min(self.nat(E(a[0])), self.nat(E(a[1])))
        if o == "max":
            return max(self.nat(E(a[0])), self.nat(E(a[1])))
        if o == "idiv":
            d = self.nat(E(a[1]))
            if d == 0:
                raise Skip("div0")
            n = self.nat(E(a[0]))
            return n // d if n >= 0 else -((-n) // d)
        if o == "mod":
            d = self.nat(E(a[1]))
            if d == 0:
                raise Skip("mod0")
            return self.nat(E(a[0])) % d
        if o in ("sum", "prod"):
            n = self.nat(E(a[0]))
            if n > self.bigdom:
                raise Skip("len")
            f = self.lam(a[1], env)
            r = 0 if o == "sum" else 1
            for i in range(n):
                v = self.num(f(i))
                r = self.add(r, v) if o == "sum" else self.mul(r, v)
            return r
        if o == "exists":
            f = self.lam(a[1], env)
            n = self.nat(E(a[0]))
            pend = None
            for i in range(n):
                try:
                    v = f(i)
                    if not isinstance(v, bool):
                        v = self.h("bool", *self.key(v)) % 2 == 0
                    if v:
                        return True
                except Imprecise as e:
                    pend = e
            if pend is not None:
                raise pend
            return False
        if o == "chunkof":
            s = self.seq(E(a[0]))
            k, i = self.nat(E(a[1])), self.nat(E(a[2]))
            if k <= 0:
                raise Skip("chunk size")
            return s[k * i:k * i + k]
        if o == "chunks":
            s = self.seq(E(a[0]))
            k = self.nat(E(a[1]))
            if k <= 0:
                raise Skip("chunk size")
            return [s[i:i + k] for i in range(0, len(s), k)]
        if o == "setof":
            if a[0].op == "list":
                xs = []
                for x in a[0].a[0]:
                    if x.op == "cel":
                        if self.b(x.a[0], env):
                            xs.append(E(x.a[1]))
                    else:
                        xs.append(E(x))
                return self.mkset(xs)
            return self.mkset(self.seq(E(a[0])))
        if o == "inc":
            return Inc(self.num(E(a[0])))
        if o == "cel":
            return E(a[1])
        if o == "setseq":
            return self.set_(E(a[0])).xs
        if o == "inset":
            k = self.key(E(a[1]))
            v = self.resolve(E(a[0]))
            if isinstance(v, Map):
                return k in v.d
            return any(self.key(x) == k for x in self.set_(v).xs)
        if o == "mapof":
            return self.mkmap([(self.proj(x, "0"), self.proj(x, "1")) for x in self.seq(E(a[0]))])
        if o == "mseq":
            return [S("()", "", {"0": k, "1": x}) for k, x in self.map_(E(a[0])).d.values()]
        if o == "mget":
            m = self.map_(E(a[0]))
            r = m.d.get(self.key(E(a[1])))
            return S("Option", "Some", {"0": r[1]}) if r else S("Option", "None", {})
        if o in ("mkey", "mval"):
            m = list(self.map_(E(a[0])).d.values())
            i = self.nat(E(a[1]))
            if not 0 <= i < len(m):
                return L("oob", o, i)
            return m[i][0 if o == "mkey" else 1]
        if o == "mremove":
            m = self.map_(E(a[0]))
            k = self.key(E(a[1]))
            return Map({q: v for q, v in m.d.items() if q != k})
        if o == "groupmap":
            m = dict(self.map_(E(a[0])).d)
            f = self.lam(a[2], env)
            for i in range(self.nat(E(a[1]))):
                for p in self.seq(f(i)):
                    self.push(m, self.proj(p, "0"), self.proj(p, "1"))
            return Map({k: m[k] for k in sorted(m, key=lambda k: self.ordkey(m[k][0]))})
        if o == "grppush":
            m = dict(self.map_(E(a[0])).d)
            if a[2].op == "inc":
                k = E(a[1])
                kk = self.key(k)
                m[kk] = (k, self.add(self.num(m[kk][1]) if kk in m else 0, self.num(E(a[2].a[0]))))
            else:
                self.push(m, E(a[1]), E(a[2]))
            return Map({k: m[k] for k in sorted(m, key=lambda k: self.ordkey(m[k][0]))})
        if o == "grpval":
            m = self.map_(E(a[0]))
            r = m.d.get(self.key(E(a[1])))
            return r[1] if r else []
        if o == "grpset":
            m = dict(self.map_(E(a[0])).d)
            k = E(a[1])
            m[self.key(k)] = (k, E(a[2]))
            return Map({k: m[k] for k in sorted(m, key=lambda k: self.ordkey(m[k][0]))})
        if o == "maxof":
            f = self.lam(a[1], env)
            return max([self.nat(f(i)) for i in range(self.nat(E(a[0])))] + [0])
        if o == "minof":
            xs = [self.nat(x) for x in self.seq(E(a[0]))]
            return min(xs) if xs else L("minempty")
        if o == "sorted":
            xs = self.seq(E(a[0]))
            return sorted(xs, key=lambda v: self.ordkey(v))
        if o == "sortkey":
            xs = self.seq(E(a[0]))
            f = self.lam(a[1], env)
            return [xs[i] for i in sorted(range(len(xs)), key=lambda i: self.ordkey(f(i)))]
        if o == "sortcmp":
            xs = self.seq(E(a[0]))
            f = self.lam(a[1], env)
            cm = {"Less": -1, "Equal": 0, "Greater": 1}
            o = functools.cmp_to_key(lambda i, j: cm[self.variant(f(i).f(j), "Ordering")])
            return [xs[i] for i in sorted(range(len(xs)), key=o)]
        if o == "nat":
            return self.natop(t, env)
        if o == "inf":
            return INFV
        # --------------------------------------------- algebra
        if o == "dom":
            n = self.nat(E(a[0]))
            m = 1
            while m < n:
                m *= 2
            if m > self.bigdom:
                raise Skip("domain")
            if self.maxdom is not None and m > self.maxdom:
                raise Imprecise("domain larger than the field allows")
            return Dom(m)
        if o == "domok":
            return self.maxdom is None or self.nat(E(a[0])) <= self.maxdom
        if o == "size":
            return self.dom(E(a[0])).n
        if o == "omega":
            return Fe(self.omega(self.dom(E(a[0]))))
        if o == "gen":
            return Fe(GEN)
        if o == "elements":
            d = self.dom(E(a[0]))
            w = self.omega(d)
            return [Fe(pow(w, i, PRIME)) for i in range(d.n)]
        if o in ("fft", "coset_fft"):
            d = self.dom(E(a[0]))
            p = self.poly(E(a[1])).c
            w = self.omega(d)
            g = GEN if o == "coset_fft" else 1
            if len(p) > d.n and o == "fft" or len(p) > d.n:
                # ark resizes (truncates) the coefficient vector to the domain size
                p = p[:d.n]
            return [Fe(peval_(p, g * pow(w, i, PRIME) % PRIME)) for i in range(d.n)]
        if o in ("ifft", "coset_ifft"):
            return [Fe(x) for x in self.ifft(self.dom(E(a[0])), self.seq(E(a[1])), o == "coset_ifft")]
        if o in ("interp", "cosetinterp"):
            return Poly(self.ifft(self.dom(E(a[0])), self.seq(E(a[1])), o == "cosetinterp"))
        if o == "coeffs":
            return [Fe(x) for x in self.poly(E(a[0])).c]
        if o == "polyfrom":
            return Poly([self.fld(x) for x in self.seq(E(a[0]))])
        if o == "polyX":
            return Poly([0, 1])
        if o == "P":
            return self.poly(E(a[0]))
        if o == "vanish":
            n = self.dom(E(a[0])).n
            return Poly([PRIME - 1] + [0] * (n - 1) + [1])
        if o == "polydiv":
            return Poly(pdivmod_(self.poly(E(a[0])).c, self.poly(E(a[1])).c)[0])
        if o == "polyrem":
            return Poly(pdivmod_(self.poly(E(a[0])).c, self.poly(E(a[1])).c)[1])
        if o in ("evalat", "hom"):
            v = self.num(E(a[0])) if o == "hom" else self.poly(E(a[0]))
            v = self.poly(v)
            x = self.fld(E(a[1]))
            return Fe(peval_(v.c, x))
        if o == "numcall":
            nm = E(a[0])
            if isinstance(nm, Str) and nm.s == "pow":
                e = self.num(E(a[2]))
                if isinstance(e, int):
                    return self.pow(self.num(E(a[1])), e)
            return self.fe("numcall", *[self.key(E(x)) for x in a])
        # --------------------------------------------- commitments
        if o == "com":
            p = self.poly(E(a[0]))
            ck = self.key(E(a[3]))
            return Fe(peval_(p.c, self.h("tau", ck) % PRIME) + self.h("gam", ck) * self.rnd(p, E(a[1]), E(a[2])))
        if o == "rnd":
            return Fe(self.rnd(self.poly(E(a[0])), E(a[1]), E(a[2])))
        if o == "draw":
            b, c = E(a[0]), E(a[1])
            if self.drawhook:
                r = self.drawhook(self, b, c)
                if r is not None:
                    return r
            k = (self.key(b), self.key(c))
            if self.drawn is None:
                return self.fe("draw", *k)
            # draws are identified by the order in which they are first needed, so that another value for one
            # draw leaves the others as they are, whatever generator state they are taken from
            o = self.drawn.setdefault(k, len(self.drawn))
            return Fe(self.h("drawno", o) if o != self.swapdraw else self.h("drawno", o, "swapped"))
        if o in ("absorb", "adv"):
            return L("ts", self.h(o, *[self.key(E(x)) for x in a]))
        if o == "otherrng":
            return L("ts", self.h(o, a[0], *[self.key(E(x)) for x in a[1:]]))
        if o == "fsinit":
            return L("ts", self.h(o, self.key(E(a[0]))))
        if o in ("iterabsorb", "iteradv"):
            s = E(a[0])
            l = a[2]
            for i in range(self.nat(E(a[1]))):
                e = dict(env)
                e[l.a[0]] = i
                s = L("ts", self.h("absorb" if o == "iterabsorb" else "adv", self.key(s),
                                   *[self.key(self.ev(x, e)) for x in l.a[1].a]))
            return s
        if o == "bytes":
            return L("bytes", self.key(E(a[0])))
        # --------------------------------------------- recurrences
        if o in ("rec", "recn"):
            n = self.nat(E(a[0]))
            l = a[1]
            st = [E(x) for x in a[2].a[0]]
            j = a[3]
            if n > self.bigdom:
                raise Skip("len")
            for k in range(n):
                e = dict(env)
                e[l.a[0]] = k
                b = l.a[1]
                for v in st:
                    e[b.a[0]] = v
                    b = b.a[1]
                st = [self.ev(x, e) for x in b.a[0]]
            return st[j]
        if o == "recseq":
            n = self.nat(E(a[0]))
            l = a[1]
            s = self.seq(E(a[2]))
            for k in range(n):
                e = dict(env)
                e[l.a[0]] = k
                e[l.a[1].a[0]] = s
                s = s + self.seq(self.ev(l.a[1].a[1], e))
            return s
        if o == "recupd":
            n = self.nat(E(a[0]))
            l = a[1]
            s = list(self.seq(E(a[2])))
            for k in range(n):
                e = dict(env)
                e[l.a[0]] = k
                e[l.a[1].a[0]] = s
                v = self.ev(l.a[1].a[1], e)
                s = list(s)
                if k < len(s):
                    s[k] = v
            return s
        if o == "fold":
            l = a[0]
            s = E(a[1])
            for k in range(self.nat(E(a[2]))):
                e = dict(env)
                e[l.a[0]] = k
                e[l.a[1].a[0]] = s
                s = self.ev(l.a[1].a[1], e)
            return s
        if o == "succseq":
            l = a[1]
            r = []
            v = E(a[0])
            while v.v == "Some" and len(r) < 64:
                r.append(v.f["0"])
                e = dict(env)
                e[l.a[0]] = v.f["0"]
                v = self.ev(l.a[1], e)
            return r
        # --------------------------------------------- expressions
        if o == "evalx":
            x = self.expr(E(a[0]))
            f = self.lam(a[1], env)
            return self.evx(x, lambda q: self.num(f(q)))
        if o == "anyq":
            v = E(a[0])
            v = self.resolve(v) if isinstance(v, L) else v
            if isinstance(v, (int, Fe)) and not isinstance(v, bool):
                # the binder of a loop over numbers
                f = self.lam(a[1], env)
                for i in range(self.nat(v)):
                    x = f(i)
                    if x if isinstance(x, bool) else isinstance(x, L) and self.h("bool", *x.p) % 2 == 0:
                        return True
                return False
            x = self.expr(v)
            f = self.lam(a[1], env)
            return any(f(q) for q in self.queries(x))
        if o == "qerr":
            x = self.expr(E(a[0]))
            return L("qerr", x.p)
        if o == "evalraw":
            x = self.expr(E(a[0]))
            f = self.lam(a[1], env)
            l = a[2].a[0]

            def op(j, v=0, w=0, c=0):
                e = dict(env)
                e[l.a[0]] = v
                l2 = l.a[1]
                e[l2.a[0]] = w
                l3 = l2.a[1]
                e[l3.a[0]] = c
                return self.ev(l3.a[1].a[0][j], e)
            return self.evr(x, f, op)
        # --------------------------------------------- misc
        if o == "str":
            return Str(a[0])
        if o == "const":
            return L("const", a[0])
        if o == "default":
            return L("default", self.key(E(a[0])))
        if o in ("fmt",):
            return self.fmt(t, env)
        if o == "fmtargs":
            return L("fmtargs", *[self.key(E(x)) for x in a])
        if o == "join":
            return L("join", self.key(E(a[0])), self.key(E(a[1])))
        if o in ("permA", "permS"):
            return self.perm(o, self.seq(E(a[0])), self.seq(E(a[1])))
        if o == "srot":
            r = E(a[0])
            d = self.nat(self.proj(r, "degree"))
            return d if self.variant(self.proj(r, "sign"), "Sign") == "Plus" else -d
        if o == "discr":
            v = E(a[0])
            return L("discr", self.variant(v, v.n if isinstance(v, S) else ""))
        if o == "cmp":
            if len(a) == 2:
                x, y = (self.resolve(E(x)) for x in a)
                if isinstance(x, (int, Str)) and isinstance(y, (int, Str)):
                    kx, ky = self.ordkey(x), self.ordkey(y)
                    return S("Ordering", "Less" if kx < ky else "Greater" if kx > ky else "Equal", {})
            return L("cmp", *[self.key(E(x)) for x in a])
        if o == "firsterr":
            # an error's payload, per element; elements that did not fail have none to evaluate
            if a[0].op == "seqlam":
                f, ks = self.lam(a[0].a[1], env), []
                for i in range(self.nat(E(a[0].a[0]))):
                    try:
                        ks.append(self.key(f(i)))
                    except Imprecise:
                        ks.append(("undef",))
                return L("firsterr", *ks)
            return L("firsterr", *[self.key(x) for x in self.seq(E(a[0]))])
        if o == "ispot":
            n = self.nat(E(a[0]))
            return n > 0 and n & (n - 1) == 0
        if o == "apply":
            f = E(a[0])
            args = [E(x) for x in a[1]]
            if isinstance(f, Fn):
                return f.f(*args)
            if isinstance(f, L):
                return L("apply", f.p, *[self.key(x) for x in args])
            raise Imprecise("apply %r" % (f,))
        if o == "call":
            nm = a[0]
            args = [E(x) for x in a[1]] if len(a) > 1 and isinstance(a[1], tuple) else [E(x) for x in a[1:] if isinstance(x, T)]
            if nm not in self.okcalls and not self.anycall:
                raise Imprecise("call " + str(nm))
            return L("call", nm, *[self.key(x) for x in args])
        if o in ("binBitAnd", "binBitOr", "binBitXor"):
            x, y = self.nat(E(a[0])), self.nat(E(a[1]))
            return x & y if o == "binBitAnd" else x | y if o == "binBitOr" else x ^ y
        if o == "bitnot":
            return (1 << 64) - 1 - self.nat(E(a[0]))
        if o == "trunc":
            return self.nat(E(a[1])) & ((1 << self.nat(E(a[0]))) - 1)
        if o == "skip":
            return S("skip", "skip", {})
        if o == "tuple":
            return [E(x) for x in a[0]]
        if o == "lam":
            return Fn(self.lam(t, env), ("lam", t.id, tuple(self.key(env[b]) for b in sorted(self.fbv(t)))))
        if o == "undef" or o == "uninit":
            raise Imprecise(o)
        if o in ("callmut", "loopval"):
            raise Imprecise("%s %s" % (o, a[0] if isinstance(a[0], str) else ""))
        raise Imprecise("op " + o)

    def rnd(self, p, hb, rr):
        if self.variant(hb, "Option") != "Some" or self.variant(rr, "Option") != "Some":
            return 0
        return self.h("rnd", self.key(p), self.key(rr)) % PRIME

    def oob(self, s, i):
        return s[i] if 0 <= i < len(s) else L("oob", self.key(s), i)

    def perm(self, o, a, s):
        k = self.key(a), self.key(s)
        return [Fe(self.h(o, k, i)) for i in range(len(a))]

    def push(self, m, k, v):
        if isinstance(k, S) and k.v == "skip":
            return
        kk = self.key(k)
        if isinstance(v, Inc):
            m[kk] = (m[kk][0], self.add(self.num(m[kk][1]), v.by)) if kk in m else (k, v.by)
            return
        m[kk] = (m[kk][0], self.seq(m[kk][1]) + [v]) if kk in m else (k, [v])

    def ifft(self, d, s, coset):
        xs = [self.fld(x) for x in s]
        xs = (xs + [0] * d.n)[:d.n]
        w = pow(self.omega(d), PRIME - 2, PRIME)
        ni = pow(d.n, PRIME - 2, PRIME)
        r = []
        gi = pow(GEN, PRIME - 2, PRIME) if coset else 1
        for i in range(d.n):
            r.append(sum(x * pow(w, i * j, PRIME) for j, x in enumerate(xs)) * ni % PRIME * pow(gi, i, PRIME) % PRIME)
        return r

    def fmt(self, t, env):
        """formatting with Display: literal pieces and arguments in order"""
        v = t.a[0]
        if v.op == "fmtargs" and v.a[0].op == "str" and v.a[0].a[0].startswith("b:") and len(v.a) == 2:
            bs = eval(v.a[0].a[0][2:], {"__builtins__": {}})
            args = [self.resolve(x) for x in self.seq(self.ev(v.a[1], env))]
            out, i, k = "", 0, 0
            while i < len(bs):
                n = bs[i]
                if n < 0x80:
                    out += bytes(bs[i + 1:i + 1 + n]).decode("utf8", "replace")
                    i += 1 + n
                elif n == 0xC0 and k < len(args):
                    x = args[k]
                    if isinstance(x, L) and (x.p[-1] in self.natfields or len(x.p) == 1 and sym(x.p[0]) in TM.NATSYMS):
                        x = self.num(x)
                    out += x.s if isinstance(x, Str) else str(x) if isinstance(x, int) else "<%r>" % (self.key(x),)
                    k += 1
                    i += 1
                else:
                    return L("fmt", v.a[0].a[0], *[self.key(x) for x in args])
            return Str(out)
        if v.op == "str":
            return Str(v.a[0])
        return L("fmt", self.key(self.ev(v, env)))

    def natop(self, t, env):
        E = lambda x: self.ev(x, env)
        k, a = t.a[0], t.a[1:]
        if k == "npot":
            n, m = self.nat(E(a[0])), 1
            while m < n:
                m *= 2
            return m
        if k == "deg":
            return max(0, len(self.poly(E(a[0])).c) - 1)
        if k == "ceil":
            d = self.nat(E(a[1]))
            if d <= 0:
                raise Skip("div0")
            return -(-self.nat(E(a[0])) // d)
        if k in ("first", "prefix"):
            n = self.nat(E(a[0]))
            f = self.lam(a[1], env)
            for i in range(n):
                if f(i):
                    return i
            return n
        if k in ("groups", "glen", "gidx"):
            n = self.nat(E(a[0]))
            f = self.lam(a[1], env)
            m = {}
            for i in range(n):
                kv = f(i)
                self.push(m, kv, i)
            gs = [m[q] for q in sorted(m, key=lambda q: self.ordkey(m[q][0]))]
            if k == "groups":
                return len(gs)
            i = self.nat(E(a[2]))
            if not 0 <= i < len(gs):
                raise Imprecise("group index")
            g = gs[i][1]
            if k == "glen":
                return len(g)
            j = self.nat(E(a[3]))
            if not 0 <= j < len(g):
                raise Imprecise("group element")
            return g[j]
        if k == "rank":
            keys = self.seq(E(a[0]))
            i = self.nat(E(a[1]))
            d = {}
            for j, x in enumerate(keys):
                d[self.key(x)] = (x, j)
            o = sorted(d.values(), key=lambda p: self.ordkey(p[0]))
            if not 0 <= i < len(o):
                raise Imprecise("rank")
            return o[i][1]
        if k == "degx":
            x = self.expr(E(a[0]))
            f = self.lam(a[1], env)

            def dg(x):
                c = x[0]
                if c == "c":
                    return 0
                if c == "q":
                    return self.nat(f(x[1]))
                if c in "nk":
                    return dg(x[1])
                if c == "s":
                    return max(dg(x[1]), dg(x[2]))
                return dg(x[1]) + dg(x[2])
            return dg(x.t)
        raise Imprecise("nat " + str(k))

    # --------------------------------------------- expressions
    def expr(self, v):
        if isinstance(v, Expr):
            return v
        if isinstance(v, L):
            r = self.resolve(v)
            if r is not v:
                return self.expr(r)
            return self.mkexpr(v.p)
        if isinstance(v, S) and v.n.endswith("Expression"):
            return Expr(self.totree(v), ("ex", self.key(v)))
        raise Imprecise("expression %r (%s)" % (v, type(v).__name__))

    def totree(self, v):
        if isinstance(v, S) and v.n.endswith("Expression"):
            g = lambda f: self.totree(v.f[f])
            if v.v == "Constant":
                return ("c", Fe(self.fld(v.f["0"])))
            if v.v == "Oracle":
                return ("q", v.f["0"])
            if v.v == "Negated":
                return ("n", g("0"))
            if v.v == "Sum":
                return ("s", g("0"), g("1"))
            if v.v == "Product":
                return ("p", g("0"), g("1"))
            if v.v == "Scaled":
                return ("k", g("0"), Fe(self.fld(v.f["1"])))
        return self.expr(v).t

    def mkexpr(self, p):
        q = [("q", L(*p, "q%d" % i)) for i in range(3)]
        t = ("s", ("p", q[0], q[1]), ("s", ("n", q[2]), ("k", ("s", q[1], ("c", self.fe(*p, "c"))), self.fe(*p, "k"))))
        return Expr(t, p)

    def queries(self, x):
        out = []

        def go(t):
            if t[0] == "q":
                out.append(t[1])
            else:
                for y in t[1:]:
                    if isinstance(y, tuple):
                        go(y)
        go(x.t)
        return out

    def evx(self, x, f):
        def go(t):
            c = t[0]
            if c == "c":
                return t[1]
            if c == "q":
                return f(t[1])
            if c == "n":
                return self.mul(-1, go(t[1]))
            if c == "s":
                return self.add(go(t[1]), go(t[2]))
            if c == "p":
                return self.mul(go(t[1]), go(t[2]))
            return self.mul(go(t[1]), t[2])
        return go(x.t)

    def evr(self, x, f, op):
        def go(t):
            c = t[0]
            if c == "c":
                return op(0, c=t[1])
            if c == "q":
                return f(t[1])
            if c == "n":
                return op(1, v=go(t[1]))
            if c == "s":
                return op(2, v=go(t[1]), w=go(t[2]))
            if c == "p":
                return op(3, v=go(t[1]), w=go(t[2]))
            return op(4, v=go(t[1]), c=t[2])
        return go(x.t)


def Upd(v, ups):
    """functional update of a lazily chosen struct"""
    if isinstance(v, L):
        return LS(S("", "", {}, v.p), ups)
    raise Imprecise("update of %r" % (v,))


def LS(s, f):
    """struct with a lazily chosen remainder"""
    r = S2(s.n, s.v, dict(f))
    r.rest = s.rest if isinstance(s, S2) else s.base
    return r


class S2(S):
    """struct some of whose fields were overwritten; the others come from `rest`"""
    __slots__ = ("rest",)

    def __init__(self, n, v, f):
        S.__init__(self, n, v, f)


_p0 = Model.proj


def _proj(self, v, f, variant=""):
    if isinstance(v, S2) and f not in v.f:
        return L(*v.rest, *((variant,) if variant else ()), f)
    return _p0(self, v, f, variant)


Model.proj = _proj
_k0 = Model.key


def _key(self, v):
    if isinstance(v, S2):
        return ("S2", v.rest, tuple(sorted((k, self.key(x)) for k, x in v.f.items())))
    return _k0(self, v)


Model.key = _key


def same(m, a, b):
    """do two terms have the same value in model m"""
    x, y = m.ev(a), m.ev(b)
    return m.key(x) == m.key(y), x, y

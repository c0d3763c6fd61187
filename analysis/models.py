"""Models of the external API used by the crate (std iterators/collections, field,
polynomial, domain, commitment and transcript primitives) as operations on terms."""
from terms import *
import terms as TM
import interp as IN
from interp import Ref, Closure, FnItem, Builtin, getobj, mkobj, mkref, UNDEF, Analysis, St, Store, short, last2, norm, Exit

MODELS = {}
LEAF = {}


def model(*names):
    def d(f):
        for n in names:
            MODELS[n] = f
        return f
    return d


def leaf(*names):
    def d(f):
        for n in names:
            LEAF[n] = f
        return f
    return d


# ============================================================= iterators
class It:
    """lazy pipeline; idx() -> (n, get(I, st, k)->item) when one item per index"""
    def idx(self, I, st):
        return None

    def segments(self, I, st):
        r = self.idx(I, st)
        if r is None:
            raise Analysis("iterator " + type(self).__name__)
        n, get = r

        def gen(I, s, k, cb):
            cb(get(I, s, k), s)
        return [(n, gen)]

    def aligned(self, I, st):
        """indexed view, materialising when necessary"""
        r = self.idx(I, st)
        if r is None:
            s = collect_seq(I, st, self)
            return slen(s), lambda I, st, k: at(s, k)
        return r


class SeqIt(It):
    def __init__(self, seq):
        self.seq = seq

    def idx(self, I, st):
        s = self.seq
        return slen(s), lambda I, st, k: at(s, k)

    def segments(self, I, st):
        return seq_segments(self.seq)


def seq_segments(s):
    """split a concatenation so that each part is a plain comprehension"""
    if s.op == "concat":
        r = []
        for x in s.a[0]:
            r += seq_segments(x)
        return r
    if s.op == "flat":
        n, l = s.a

        def gen(I, st, k, cb):
            for m, g in seq_segments(app(l, k)):
                I.loop(m, lambda j, s2, g=g: g(I, s2, j, cb), st, None, "")
        return [(n, gen)]
    if s.op == "ite":
        c, a, b = s.a
        out = []
        for cc, y in ((c, a), (not_(c), b)):
            for m, g in seq_segments(y):
                out.append((mkpoly(pmul(ind_d(cc), pd(m))), g))
        if a is EMPTYL or b is EMPTYL:
            return out
        return [(slen(s), lambda I, st, k, cb: cb(at(s, k), st))]
    return [(slen(s), lambda I, st, k, cb: cb(at(s, k), st))]


class Empty(It):
    def idx(self, I, st):
        return ZERO, lambda I, st, k: UNDEF


class RefMutIt(It):
    def __init__(self, cell, path):
        self.cell, self.path = cell, path

    def idx(self, I, st):
        v = I.deref_all(st, I.rd(st, self.cell, self.path))
        return slen(v), lambda I, st, k: mkref(self.cell, self.path + (("i", k),))


class RangeIt(It):
    def __init__(self, lo, hi):
        self.lo, self.hi = lo, hi

    def idx(self, I, st):
        n = INF if self.hi is None else range_len(self.lo, self.hi)
        return n, lambda I, st, k: add(self.lo, k)


def range_len(lo, hi):
    d = sub(hi, lo)
    if nonneg(d):
        return d
    if lo is ZERO:
        return d            # unsigned
    return max_(d, ZERO)


class MapIt(It):
    def __init__(self, it, f):
        self.it, self.f = it, f

    def idx(self, I, st):
        r = self.it.idx(I, st)
        if r is None:
            return None
        n, g = r
        return n, lambda I, st, k: I.apply(self.f, [g(I, st, k)], st)

    def segments(self, I, st):
        out = []
        for n, g in self.it.segments(I, st):
            out.append((n, lambda I, s, k, cb, g=g: g(I, s, k, lambda x, s2: cb(I.apply(self.f, [x], s2), s2))))
        return out


class ZipIt(It):
    def __init__(self, a, b):
        self.x, self.y = a, b

    def idx(self, I, st):
        n, g = self.x.aligned(I, st)
        m, h = self.y.aligned(I, st)
        return min_(n, m), lambda I, st, k: tup(g(I, st, k), h(I, st, k))


class EnumIt(It):
    def __init__(self, it):
        self.it = it

    def idx(self, I, st):
        n, g = self.it.aligned(I, st)
        return n, lambda I, st, k: tup(k, g(I, st, k))


class TakeIt(It):
    def __init__(self, it, n):
        self.it, self.n = it, n

    def idx(self, I, st):
        n, g = self.it.aligned(I, st)
        return min_(n, self.n), g


class SkipIt(It):
    def __init__(self, it, n):
        self.it, self.n = it, n

    def idx(self, I, st):
        n, g = self.it.aligned(I, st)
        return (INF if n is INF else range_len(self.n, n)), lambda I, st, k: g(I, st, add(k, self.n))


class RevIt(It):
    def __init__(self, it):
        self.it = it

    def idx(self, I, st):
        n, g = self.it.aligned(I, st)
        return n, lambda I, st, k: g(I, st, sub(sub(n, ONE), k))


class CycleIt(It):
    """endless repetition of a nonempty finite sequence"""

    def __init__(self, it):
        self.it = it

    def idx(self, I, st):
        n, g = self.it.aligned(I, st)
        if n is INF:
            return n, g
        return INF, lambda I, st, k: g(I, st, mod(k, n))


class StepIt(It):
    def __init__(self, it, k):
        self.it, self.k = it, k

    def idx(self, I, st):
        n, g = self.it.aligned(I, st)
        return (INF if n is INF else ceil_div(n, self.k)), lambda I, st, k: g(I, st, mul(k, self.k))


class ChunksIt(It):
    def __init__(self, s, k, exact=False):
        self.s, self.k, self.exact = s, k, exact

    def idx(self, I, st):
        n = slen(self.s)
        return (idiv(n, self.k) if self.exact else ceil_div(n, self.k)), lambda I, st, i: chunkof(self.s, self.k, i)


class WindowsIt(It):
    def __init__(self, s, k):
        self.s, self.k = s, k

    def idx(self, I, st):
        return max_(add(sub(slen(self.s), self.k), ONE), ZERO), \
            lambda I, st, i: slice_(self.s, i, add(i, self.k))


class ChainIt(It):
    def __init__(self, a, b):
        self.x, self.y = a, b

    def segments(self, I, st):
        return self.x.segments(I, st) + self.y.segments(I, st)


class FilterIt(It):
    def __init__(self, it, f, kind):
        self.it, self.f, self.kind = it, f, kind

    def segments(self, I, st):
        out = []
        for n, g in self.it.segments(I, st):
            out.append((n, lambda I, s, k, cb, g=g: g(I, s, k, lambda x, s2: self.one(I, x, s2, cb))))
        return out

    def one(self, I, x, st, cb):
        r = I.apply(self.f, [x], st)
        if st.dead:
            return
        if self.kind == "map":
            r = I.deref_all(st, r)
            c, y = isv(r, "Option", "Some"), proj(r, "0", "Option", "Some")
        else:
            c, y = r, x
        if c is TRUE:
            return cb(y, st)
        if c is FALSE:
            return
        a, b = st.fork(c), st.fork(not_(c))
        cb(y, a)
        I.join(st, c, a, b)


class FlatIt(It):
    def __init__(self, it, f):
        self.it, self.f = it, f

    def segments(self, I, st):
        out = []
        for n, g in self.it.segments(I, st):
            out.append((n, lambda I, s, k, cb, g=g: g(I, s, k, lambda x, s2: self.one(I, x, s2, cb))))
        return out

    def one(self, I, x, st, cb):
        y = I.apply(self.f, [x], st) if self.f is not None else x
        if st.dead:
            return
        it = to_iter(I, st, y)
        I.consume(it, lambda z, s: cb(z, s), st, None, "flat_map")


class OptIt(It):
    def __init__(self, v):
        self.v = v

    def segments(self, I, st):
        c = isv(self.v, "Option", "Some")

        def gen(I, s, k, cb):
            cb(proj(self.v, "0", "Option", "Some"), s)
        return [(mkpoly(ind_d(c)), gen)]


class SuccIt(It):
    def __init__(self, first, f):
        self.first, self.f = first, f

    def idx(self, I, st):
        first, f = I.deref_all(st, self.first), self.f
        x = fresh("f")
        ob, ev = len(I.obl), len(I.events)
        y = I.apply(f, [x], st.fork())
        del I.obl[ob:]
        del I.events[ev:]
        some1 = isv(first, "Option", "Some")
        z = isv(y, "Option", "Some")
        v0 = proj(first, "0", "Option", "Some")
        if some1 is TRUE and z is TRUE:
            o = num(proj(y, "0", "Option", "Some"))
            k = fresh("i")
            closed, _ = IN.solve1(k, k, x, x, o, v0)
            return INF, lambda I, st, j: subst(closed, {k: j})
        if some1 is FALSE:
            return ZERO, lambda I, st, j: UNDEF
        s = raw("succseq", first, lam(x, y))
        return slen(s), lambda I, st, k: at(s, k)


class RepeatIt(It):
    def __init__(self, v, n=INF):
        self.v, self.n = v, n

    def idx(self, I, st):
        return self.n, lambda I, st, k: self.v


class MapPairsIt(It):
    def __init__(self, m, what):
        self.m, self.what = m, what

    def idx(self, I, st):
        m, w = self.m, self.what

        def get(I, st, i):
            k, v = mkv(m, i)
            return k if w == "keys" else v if w == "values" else tup(k, v)
        return mlen(m), get


class MapMutIt(It):
    """iter_mut / values_mut over a map"""
    def __init__(self, cell, path, what):
        self.cell, self.path, self.what = cell, path, what

    def idx(self, I, st):
        m = I.deref_all(st, I.rd(st, self.cell, self.path))

        def get(I, st, i):
            k, v = mkv(m, i)
            r = mkref(self.cell, self.path + (("mk", k),))
            return r if self.what == "values" else tup(k, r)
        return mlen(m), get


class TakeWhileIt(It):
    def __init__(self, it, f, skip):
        self.it, self.f, self.skip = it, f, skip

    def idx(self, I, st):
        n, g = self.it.aligned(I, st)
        k = fresh("i")
        c = I.apply(self.f, [g(I, st, k)], st)
        f = raw("nat", "prefix", n, lam(k, not_(c)))
        if self.skip:
            return range_len(f, n), lambda I, st, j: g(I, st, add(j, f))
        return f, g


class CursorIt(It):
    def __init__(self, it, k):
        self.it, self.k = it, k

    def idx(self, I, st):
        n, g = self.it.aligned(I, st)
        return (INF if n is INF else range_len(self.k, n)), lambda I, st, j: g(I, st, add(j, self.k))


def mkit(it):
    return mkobj(it)


def iter_of(I, st, v):
    v2 = I.deref_all(st, v)
    o = getobj(v2)
    return o if isinstance(o, It) else None


def to_iter(I, st, v, ty=None):
    o = getobj(v)
    if isinstance(o, It):
        return o
    if isinstance(o, Ref):
        w = I.deref_all(st, v)
        p = getobj(w)
        if isinstance(p, It):
            I.wr(st, o.cell, o.path, mkit(Empty()))
            return p
        if w.op in ("mapof", "groupmap", "grppush") or (ty and is_map(I, ty)):
            return MapMutIt(o.cell, o.path, "iter")
        if w.op == "struct" and w.a[0].startswith("Range"):
            return to_iter(I, st, w)
        return RefMutIt(o.cell, o.path)
    if v.op == "struct":
        if v.a[0] == "Range":
            return RangeIt(proj(v, "start"), proj(v, "end"))
        if v.a[0] == "RangeInclusive":
            return RangeIt(proj(v, "start"), add(proj(v, "end"), ONE))
        if v.a[0] == "RangeFrom":
            return RangeIt(proj(v, "start"), None)
        if v.a[0] == "Option":
            return SeqIt(lst(proj(v, "0"))) if v.a[1] == "Some" else Empty()
    if v.op in ("mapof", "groupmap", "grppush", "grpset"):
        return MapPairsIt(v, "iter")
    if v.op in ("setof",):
        return SeqIt(setseq(v))
    if ty is not None:
        t = I.strip(ty)
        if t[0] == "adt":
            n = short(t[1])
            if n in ("BTreeMap", "HashMap"):
                return MapPairsIt(v, "iter")
            if n in ("BTreeSet", "HashSet"):
                return SeqIt(setseq(v))
            if n == "Option":
                return OptIt(v)
    if v.op == "ite":
        a, b = getobj(v.a[1]), getobj(v.a[2])
        if isinstance(a, It) or isinstance(b, It):
            x = collect_seq(I, st, to_iter(I, st, v.a[1]))
            y = collect_seq(I, st, to_iter(I, st, v.a[2]))
            return SeqIt(ite(v.a[0], x, y))
    return SeqIt(v)


def is_map(I, ty):
    t = I.strip(ty)
    return t[0] == "adt" and short(t[1]) in ("BTreeMap", "HashMap")


def is_set(I, ty):
    t = I.strip(ty)
    return t[0] == "adt" and short(t[1]) in ("BTreeSet", "HashSet")


def collect_seq(I, st, it):
    """sequence of all items (driven through the loop summariser)"""
    if isinstance(it, SeqIt):
        return it.seq
    c = I.cell(st, EMPTYL)

    def step(x, s):
        s.store.set(c, concat(s.store.get(c), lst(I.deref_all(s, x) if not isinstance(getobj(x), Ref) else x)))
    I.consume(it, step, st, None, "collect")
    return st.store.get(c)


def smap(s, f):
    """map a function over a sequence term"""
    o = s.op
    if o == "list":
        return lst(*[f(x) for x in s.a[0]])
    if o == "concat":
        return concat(*[smap(x, f) for x in s.a[0]])
    if o == "flat":
        i, b = opn(s.a[1])
        return flat(s.a[0], lam(i, smap(b, f)))
    if o == "ite":
        return ite(s.a[0], smap(s.a[1], f), smap(s.a[2], f))
    i = fresh("i")
    return seqlam(slen(s), lam(i, f(at(s, i))))


def sexists(s, f):
    o = s.op
    if o == "list":
        return or_(*[f(x) for x in s.a[0]])
    if o == "concat":
        return or_(*[sexists(x, f) for x in s.a[0]])
    if o == "flat":
        i, b = opn(s.a[1])
        return exists(s.a[0], lam(i, sexists(b, f)))
    if o == "ite":
        return bite(s.a[0], sexists(s.a[1], f), sexists(s.a[2], f))
    i = fresh("i")
    return exists(slen(s), lam(i, f(at(s, i))))


# ============================================================ helpers
def D(I, st, v):
    return I.deref_all(st, v)


def selfit(I, st, args, x=None):
    return to_iter(I, st, args[0], I.argty(x, 0) if x is not None else None)


def opt_map(v, f):
    c = isv(v, "Option", "Some")
    return ite(c, some(f(proj(v, "0", "Option", "Some"))), NONE)


def getref(v):
    o = getobj(v)
    return o if isinstance(o, Ref) else None


def wrself(I, st, v, val):
    o = getref(v)
    if o is None:
        raise Analysis("mutation through a non-reference")
    # follow nested references
    inner = I.rd(st, o.cell, o.path)
    p = getobj(inner)
    while isinstance(p, Ref):
        o = p
        inner = I.rd(st, o.cell, o.path)
        p = getobj(inner)
    I.wr(st, o.cell, o.path, val)


def selfref(I, st, v):
    o = getref(v)
    if o is None:
        return None
    p = getobj(I.rd(st, o.cell, o.path))
    while isinstance(p, Ref):
        o = p
        p = getobj(I.rd(st, o.cell, o.path))
    return o


# ------------------------------------------------------------ identities
@model("Clone::clone", "ToOwned::to_owned", "Deref::deref", "AsRef::as_ref", "Into::into", "From::from",
       "hint::must_use", "Borrow::borrow", "Option::as_ref", "Option::cloned", "Option::copied", "slice::to_vec",
       "Vec::as_slice", "Box::new", "str::to_string", "ToString::to_string", "Result::as_ref", "Vec::into_boxed_slice",
       "slice::into_vec", "Option::as_deref", "Arc::new", "Rc::new", "Rc::clone", "str::as_bytes", "String::as_bytes",
       "String::as_str", "str::to_owned", "Vec::leak", "slice::as_ref", "Iterator::by_ref_", "mem::drop_", "Cow::into_owned",
       "TryInto::try_into_", "convert::identity", "array::as_slice", "String::into_bytes", "black_box", "hint::black_box")
def m_ident(I, st, args, x, fn, ts):
    p = last2(fn["path"])
    v = args[0]
    if p == "Into::into" and len(fn.get("args") or []) > 1:
        # Into is implemented through the local From of the target type
        S, U = (I.strip(I.ty(q, ts)) for q in fn["args"][:2])
        if U[0] == "adt" and U != S:
            for im in I.impls:
                if im.get("trait") and short(norm(im["trait"])) == "From" and len(im.get("trait_args") or []) > 1:
                    u, w = I.types[im["self"]], I.types[im["trait_args"][1]]
                    if u[0] == "adt" and u[1] == U[1] and (w[0] == "adt" and S[0] == "adt" and w[1] == S[1]):
                        for nm, k, _ in im["items"]:
                            if nm == "from" and k in I.bodies:
                                ps = [I.types[q] for q in u[2]]
                                return I.run_body(I.bodies[k], args, st, {q[1]: z for q, z in zip(ps, U[2:]) if q[0] == "param"}, x["sp"])
    if p in ("From::from", "Into::into"):
        # container conversions from arrays
        out = I.ty(x["ty"], ts) if x.get("ty") is not None else ("unknown",)
        w = D(I, st, v)
        if out[0] == "adt":
            n = short(out[1])
            if n in ("BTreeMap", "HashMap") and w.op in ("list", "seqlam", "concat", "flat"):
                m = mapof(EMPTYL)
                if w.op == "list":
                    for e in w.a[0]:
                        m = minsert(m, proj(e, "0"), proj(e, "1"))
                    return m
                return mapof(w)
            if n in ("BTreeSet", "HashSet") and w.op in ("list", "seqlam", "concat", "flat"):
                return setof(w)
            if n in ("Vec",) and (w.op == "setof" or w.op == "mapof"):
                return setseq(w)
        return w if not isinstance(getobj(v), Ref) else w
    o = getobj(v)
    if isinstance(o, Ref):
        return I.deref_all(st, v)
    if p == "Into::into" or p == "From::from":
        return v
    return v


@model("DerefMut::deref_mut", "BorrowMut::borrow_mut", "AsMut::as_mut", "Vec::as_mut_slice", "Option::as_mut", "Iterator::by_ref")
def m_derefmut(I, st, args, x, fn, ts):
    o = getref(args[0])
    if o is not None:
        p = getobj(I.rd(st, o.cell, o.path))
        if isinstance(p, Ref):
            return mkref(p.cell, p.path)
        if last2(fn["path"]) == "Option::as_mut":
            v = I.rd(st, o.cell, o.path)
            return ite(isv(v, "Option", "Some"), some(mkref(o.cell, o.path + (("f", "0", "Option", "Some"),))), NONE)
    return args[0]


@model("Default::default")
def m_default(I, st, args, x, fn, ts):
    t = I.ty(x["ty"], ts)
    return default_of(I, t)


def default_of(I, t):
    t = I.strip(t)
    if t[0] == "adt":
        n = short(t[1])
        if n in ("BTreeMap", "HashMap"):
            return mapof(EMPTYL)
        if n in ("BTreeSet", "HashSet"):
            return setof(EMPTYL)
        if n in ("Vec", "String", "VecDeque"):
            return EMPTYL
        if n == "Option":
            return NONE
    if I.is_num_ty(t):
        return ZERO
    if t == ("prim", "bool"):
        return FALSE
    return raw("default", raw("str", repr(t)))


# ------------------------------------------------------------ panics
@model("panicking::panic", "panicking::panic_fmt", "panicking::panic_display", "panicking::unreachable_display",
       "panicking::assert_failed", "panicking::panic_explicit", "panicking::panic_str", "panicking::panic_const",
       "rt::panic_fmt", "process::abort", "panicking::assert_failed_inner", "process::exit", "rt::begin_panic",
       "panicking::panic_2015", "panicking::panic_str_2015", "panicking::panic_nounwind")
def m_panic(I, st, args, x, fn, ts):
    I.panic(st, x["sp"])
    return UNDEF


@model("mem::drop", "mem::forget", "drop_in_place", "io::_print", "io::_eprint", "Timer::end")
def m_unit(I, st, args, x, fn, ts):
    return UNIT


@model("mem::swap")
def m_swap(I, st, args, x, fn, ts):
    a, b = selfref(I, st, args[0]), selfref(I, st, args[1])
    va, vb = I.rd(st, a.cell, a.path), I.rd(st, b.cell, b.path)
    I.wr(st, a.cell, a.path, vb)
    I.wr(st, b.cell, b.path, va)
    return UNIT


@model("mem::replace")
def m_replace(I, st, args, x, fn, ts):
    a = selfref(I, st, args[0])
    va = I.rd(st, a.cell, a.path)
    I.wr(st, a.cell, a.path, args[1])
    return va


@model("mem::take", "Option::take")
def m_take(I, st, args, x, fn, ts):
    a = selfref(I, st, args[0])
    va = I.rd(st, a.cell, a.path)
    t = I.ty(x["ty"], ts)
    if last2(fn["path"]) == "Option::take":
        I.wr(st, a.cell, a.path, NONE)
    else:
        I.wr(st, a.cell, a.path, default_of(I, t))
    return va


# ------------------------------------------------------------ iterator adaptors
@model("IntoIterator::into_iter", "slice::iter", "Vec::iter", "BTreeSet::iter", "BTreeMap::iter", "Iterator::cloned",
       "Iterator::copied", "Iterator::fuse", "Iterator::into_iter", "VecDeque::iter", "HashMap::iter", "HashSet::iter",
       "Iterator::inspect_", "BTreeMap::into_iter", "Option::iter", "Iterator::peekable")
def m_iter(I, st, args, x, fn, ts):
    v = args[0]
    ty = I.argty(x, 0)
    p = last2(fn["path"])
    if p.endswith("::iter") or p.endswith("::cloned") or p.endswith("::copied"):
        o = getobj(v)
        if isinstance(o, Ref):
            v = D(I, st, v)
    else:
        # a shared reference never yields element references we must track
        o = getobj(v)
        if isinstance(o, Ref) and not (ty[0] == "ref" and ty[1]):
            v2 = D(I, st, v)
            if not isinstance(getobj(v2), It):
                v = v2
    it = to_iter(I, st, v, ty)
    return mkit(it)


@model("slice::iter_mut", "Vec::iter_mut", "VecDeque::iter_mut")
def m_iter_mut(I, st, args, x, fn, ts):
    o = selfref(I, st, args[0])
    if o is None:
        return mkit(SeqIt(args[0]))
    return mkit(RefMutIt(o.cell, o.path))


@model("BTreeMap::values_mut", "BTreeMap::iter_mut")
def m_values_mut(I, st, args, x, fn, ts):
    o = selfref(I, st, args[0])
    return mkit(MapMutIt(o.cell, o.path, "values" if fn["path"].endswith("values_mut") else "iter"))


@model("BTreeMap::keys", "BTreeMap::into_keys", "HashMap::keys")
def m_keys(I, st, args, x, fn, ts):
    return mkit(MapPairsIt(D(I, st, args[0]), "keys"))


@model("BTreeMap::values", "BTreeMap::into_values", "HashMap::values")
def m_values(I, st, args, x, fn, ts):
    return mkit(MapPairsIt(D(I, st, args[0]), "values"))


@model("Iterator::map")
def m_map(I, st, args, x, fn, ts):
    return mkit(MapIt(selfit(I, st, args, x), args[1]))


@model("Iterator::inspect")
def m_inspect(I, st, args, x, fn, ts):
    f = args[1]

    def g(I, s, a):
        I.apply(f, a, s)
        return a[0]
    return mkit(MapIt(selfit(I, st, args, x), mkobj(Builtin(g))))


@model("Iterator::zip", "iter::zip")
def m_zip(I, st, args, x, fn, ts):
    return mkit(ZipIt(selfit(I, st, args, x), to_iter(I, st, args[1], I.argty(x, 1))))


@model("Iterator::enumerate")
def m_enum(I, st, args, x, fn, ts):
    return mkit(EnumIt(selfit(I, st, args, x)))


@model("Iterator::chain")
def m_chain(I, st, args, x, fn, ts):
    return mkit(ChainIt(selfit(I, st, args, x), to_iter(I, st, args[1], I.argty(x, 1))))


@model("Iterator::filter")
def m_filter(I, st, args, x, fn, ts):
    return mkit(FilterIt(selfit(I, st, args, x), args[1], "filter"))


@model("Iterator::filter_map")
def m_filter_map(I, st, args, x, fn, ts):
    return mkit(FilterIt(selfit(I, st, args, x), args[1], "map"))


@model("Iterator::flat_map")
def m_flat_map(I, st, args, x, fn, ts):
    return mkit(FlatIt(selfit(I, st, args, x), args[1]))


@model("Iterator::flatten")
def m_flatten(I, st, args, x, fn, ts):
    return mkit(FlatIt(selfit(I, st, args, x), None))


@model("Iterator::take")
def m_itake(I, st, args, x, fn, ts):
    return mkit(TakeIt(selfit(I, st, args, x), args[1]))


@model("Iterator::skip")
def m_iskip(I, st, args, x, fn, ts):
    return mkit(SkipIt(selfit(I, st, args, x), args[1]))


@model("Iterator::cycle")
def m_cycle(I, st, args, x, fn, ts):
    return mkit(CycleIt(selfit(I, st, args, x)))


@model("Iterator::rev")
def m_rev(I, st, args, x, fn, ts):
    return mkit(RevIt(selfit(I, st, args, x)))


@model("Iterator::step_by")
def m_step(I, st, args, x, fn, ts):
    return mkit(StepIt(selfit(I, st, args, x), args[1]))


@model("Iterator::take_while")
def m_tw(I, st, args, x, fn, ts):
    return mkit(TakeWhileIt(selfit(I, st, args, x), args[1], False))


@model("Iterator::skip_while")
def m_sw(I, st, args, x, fn, ts):
    return mkit(TakeWhileIt(selfit(I, st, args, x), args[1], True))


@model("Iterator::scan")
def m_scan(I, st, args, x, fn, ts):
    # only total scans (closure always yields Some)
    c = I.cell(st, args[1])
    f = args[2]

    def g(I, s, a):
        r = I.apply(f, [mkref(c, ()), a[0]], s)
        r = D(I, s, r)
        if isv(r, "Option", "Some") is not TRUE:
            raise Analysis("partial scan")
        return proj(r, "0", "Option", "Some")
    return mkit(MapIt(selfit(I, st, args, x), mkobj(Builtin(g))))


@model("slice::chunks")
def m_chunks(I, st, args, x, fn, ts):
    I.oblige("chunks0", eq0(args[1]), st, x["sp"])
    return mkit(ChunksIt(D(I, st, args[0]), args[1]))


@model("slice::chunks_exact")
def m_chunks_exact(I, st, args, x, fn, ts):
    return mkit(ChunksIt(D(I, st, args[0]), args[1], True))


@model("slice::windows")
def m_windows(I, st, args, x, fn, ts):
    return mkit(WindowsIt(D(I, st, args[0]), args[1]))


@model("iter::successors")
def m_succ(I, st, args, x, fn, ts):
    return mkit(SuccIt(args[0], args[1]))


@model("iter::once")
def m_once(I, st, args, x, fn, ts):
    return mkit(SeqIt(lst(args[0])))


@model("iter::repeat")
def m_repeat(I, st, args, x, fn, ts):
    return mkit(RepeatIt(args[0]))


@model("iter::repeat_n")
def m_repeat_n(I, st, args, x, fn, ts):
    return mkit(RepeatIt(args[0], args[1]))


@model("iter::repeat_with")
def m_repeat_with(I, st, args, x, fn, ts):
    f = args[0]
    return mkit(MapIt(RepeatIt(UNIT), mkobj(Builtin(lambda I, s, a: I.apply(f, [], s)))))


@model("iter::empty")
def m_empty(I, st, args, x, fn, ts):
    return mkit(Empty())


@model("iter::from_fn")
def m_from_fn(I, st, args, x, fn, ts):
    f = args[0]

    def g(I, s, a):
        r = D(I, s, I.apply(f, [], s))
        if isv(r, "Option", "Some") is not TRUE:
            raise Analysis("partial from_fn")
        return proj(r, "0", "Option", "Some")
    return mkit(MapIt(RepeatIt(UNIT), mkobj(Builtin(g))))


@model("RangeInclusive::new")
def m_rinc(I, st, args, x, fn, ts):
    return struct("RangeInclusive", "", [("start", args[0]), ("end", args[1])])


# ------------------------------------------------------------ iterator consumers
def collect_into(I, st, it, t):
    t = I.strip(t)
    if t[0] == "adt":
        n = short(t[1])
        if n == "Result" or n == "Option":
            s = collect_seq(I, st, it)
            return seq_try(I, st, s, n, t)
        if n in ("BTreeMap", "HashMap"):
            s = collect_seq(I, st, it)
            if s.op == "list":
                m = mapof(EMPTYL)
                for e in s.a[0]:
                    m = minsert(m, proj(e, "0"), proj(e, "1"))
                return m
            return mapof(s)
        if n in ("BTreeSet", "HashSet"):
            return setof(collect_seq(I, st, it))
    return collect_seq(I, st, it)


def container(I, s, t):
    t = I.strip(t)
    if t[0] == "adt":
        n = short(t[1])
        if n in ("BTreeMap", "HashMap"):
            return mapof(s)
        if n in ("BTreeSet", "HashSet"):
            return setof(s)
    return s


def seq_try(I, st, s, n, t):
    good = "Ok" if n == "Result" else "Some"
    bad = sexists(s, lambda e: not_(isv(e, n, good)))
    vals = smap(s, lambda e: proj(e, "0", n, good))
    vals = container(I, vals, t[2]) if len(t) > 2 else vals
    okv = struct(n, good, (("0", vals),))
    if bad is FALSE:
        return okv
    e = err(raw("firsterr", smap(s, lambda e: proj(e, "0", "Result", "Err")))) if n == "Result" else NONE
    return ite(bad, e, okv)


@model("Iterator::collect", "FromIterator::from_iter")
def m_collect(I, st, args, x, fn, ts):
    t = I.ty(x["ty"], ts)
    if t[0] in ("alias", "unknown", "param") and fn.get("args"):
        t = I.ty(fn["args"][0 if "from_iter" in fn["path"] else -1], ts)
    return collect_into(I, st, selfit(I, st, args, x), t)


@model("Iterator::for_each")
def m_foreach(I, st, args, x, fn, ts):
    I.consume(selfit(I, st, args, x), lambda i, s: I.apply(args[1], [i], s), st, None, x["sp"])
    return UNIT


@model("Iterator::try_for_each")
def m_tryforeach(I, st, args, x, fn, ts):
    s = collect_seq(I, st, MapIt(selfit(I, st, args, x), args[1]))
    return seq_try(I, st, s, "Result", ("adt", "Result"))


@model("Iterator::fold")
def m_fold(I, st, args, x, fn, ts):
    c = I.cell(st, args[1])

    def step(i, s):
        s.store.set(c, I.apply(args[2], [s.store.get(c), i], s))
    I.consume(selfit(I, st, args, x), step, st, None, x["sp"])
    return st.store.get(c)


@model("Iterator::try_fold")
def m_try_fold(I, st, args, x, fn, ts):
    c = I.cell(st, args[1])
    e = I.cell(st, FALSE)

    def step(i, s):
        r = D(I, s, I.apply(args[2], [s.store.get(c), i], s))
        s.store.set(e, or_(s.store.get(e), not_(isv(r, "Result", "Ok"))))
        s.store.set(c, proj(r, "0", "Result", "Ok"))
    I.consume(selfit(I, st, args, x), step, st, None, x["sp"])
    return ite(st.store.get(e), err(raw("str", "try_fold")), ok(st.store.get(c)))


@model("Iterator::reduce")
def m_reduce(I, st, args, x, fn, ts):
    n, g = selfit(I, st, args, x).aligned(I, st)
    c = I.cell(st, g(I, st, ZERO))

    def step(i, s):
        s.store.set(c, I.apply(args[1], [s.store.get(c), i], s))
    I.consume(SkipIt(FnIt(n, g), ONE), step, st, None, x["sp"])
    return ite(eq0(n), NONE, some(st.store.get(c)))


class FnIt(It):
    def __init__(self, n, g):
        self.n, self.g = n, g

    def idx(self, I, st):
        return self.n, self.g


def wrapped(I, x, ts):
    """A sum or product into Result or Option stops at the first element that is none."""
    t = I.strip(I.ty(x["ty"], ts))
    n = short(t[1]) if t[0] == "adt" else None
    return n if n in ("Result", "Option") else None


def fold_wrapped(I, st, args, x, fn, ts, w, unit, op):
    c, e = I.cell(st, unit), I.cell(st, FALSE)
    good = "Ok" if w == "Result" else "Some"

    def step(i, s):
        r = D(I, s, i)
        s.store.set(e, or_(s.store.get(e), not_(isv(r, w, good))))
        v = proj(r, "0", w, good)
        s.store.set(c, op(s.store.get(c), D(I, s, v)))
    I.consume(selfit(I, st, args, x), step, st, None, x["sp"])
    v = st.store.get(c)
    return ite(st.store.get(e), err(raw("str", "sum")), ok(v)) if w == "Result" \
        else ite(st.store.get(e), NONE, some(v))


@model("Iterator::sum", "Sum::sum")
def m_sum(I, st, args, x, fn, ts):
    w = wrapped(I, x, ts)
    if w:
        return fold_wrapped(I, st, args, x, fn, ts, w, ZERO, add)
    c = I.cell(st, ZERO)
    ispoly = I.is_poly_ty(I.ty(x["ty"], ts))

    def step(i, s):
        i = D(I, s, i)
        s.store.set(c, add(s.store.get(c), pv(i) if ispoly else i))
    I.consume(selfit(I, st, args, x), step, st, None, x["sp"])
    return st.store.get(c)


@model("Iterator::product", "Product::product")
def m_product(I, st, args, x, fn, ts):
    w = wrapped(I, x, ts)
    if w:
        return fold_wrapped(I, st, args, x, fn, ts, w, ONE, mul)
    c = I.cell(st, ONE)

    def step(i, s):
        s.store.set(c, mul(s.store.get(c), D(I, s, i)))
    I.consume(selfit(I, st, args, x), step, st, None, x["sp"])
    return st.store.get(c)


@model("Iterator::any")
def m_any(I, st, args, x, fn, ts):
    c = I.cell(st, FALSE)

    def step(i, s):
        s.store.set(c, or_(s.store.get(c), I.apply(args[1], [i], s)))
    I.consume(to_iter(I, st, args[0]), step, st, None, x["sp"])
    return st.store.get(c)


@model("Iterator::all")
def m_all(I, st, args, x, fn, ts):
    c = I.cell(st, TRUE)

    def step(i, s):
        s.store.set(c, and_(s.store.get(c), I.apply(args[1], [i], s)))
    I.consume(to_iter(I, st, args[0]), step, st, None, x["sp"])
    return st.store.get(c)


def first_where(I, st, it, f):
    s = collect_seq(I, st, it)
    i = fresh("i")
    n = slen(s)
    c = f(at(s, i))
    E = lam(i, c)
    return s, n, exists(n, E), firstidx(n, E)


@model("Iterator::find")
def m_find(I, st, args, x, fn, ts):
    s, n, ex, k = first_where(I, st, to_iter(I, st, args[0]), lambda e: I.apply(args[1], [e], st))
    return ite(ex, some(at(s, k)), NONE)


@model("Iterator::find_map")
def m_find_map(I, st, args, x, fn, ts):
    s, n, ex, k = first_where(I, st, MapIt(to_iter(I, st, args[0]), args[1]), lambda e: isv(e, "Option", "Some"))
    return ite(ex, some(proj(at(s, k), "0", "Option", "Some")), NONE)


@model("Iterator::position")
def m_position(I, st, args, x, fn, ts):
    s, n, ex, k = first_where(I, st, to_iter(I, st, args[0]), lambda e: I.apply(args[1], [e], st))
    return ite(ex, some(k), NONE)


@model("Iterator::count", "ExactSizeIterator::len")
def m_count(I, st, args, x, fn, ts):
    it = to_iter(I, st, args[0] if iter_of(I, st, args[0]) is None else D(I, st, args[0]))
    r = it.idx(I, st.fork())
    if r is not None:
        return r[0]
    return slen(collect_seq(I, st, it))


@model("Iterator::last")
def m_ilast(I, st, args, x, fn, ts):
    n, g = to_iter(I, st, args[0]).aligned(I, st)
    return ite(eq0(n), NONE, some(g(I, st, sub(n, ONE))))


@model("Iterator::nth")
def m_inth(I, st, args, x, fn, ts):
    it = D(I, st, args[0])
    n, g = to_iter(I, st, it).aligned(I, st)
    r = ite(lt(args[1], n) if n is not INF else TRUE, some(g(I, st, args[1])), NONE)
    if getref(args[0]) is not None:
        wrself(I, st, args[0], mkit(CursorIt(getobj(it), add(args[1], ONE))))
    return r


@model("Iterator::next", "Peekable::next")
def m_next(I, st, args, x, fn, ts):
    it = D(I, st, args[0])
    o = getobj(it)
    if it.op == "struct" and it.a[0].startswith("Range"):
        o = to_iter(I, st, it)
    if not isinstance(o, It):
        return NotImplemented
    n, g = o.aligned(I, st)
    c = TRUE if n is INF else pos(n)
    if c is FALSE:
        return NONE
    v = g(I, st, ZERO)
    base, k = (o.it, o.k) if isinstance(o, CursorIt) else (o, ZERO)
    wrself(I, st, args[0], mkit(CursorIt(base, add(k, ONE))))
    return ite(c, some(v), NONE)


@model("DoubleEndedIterator::next_back")
def m_next_back(I, st, args, x, fn, ts):
    it = D(I, st, args[0])
    n, g = to_iter(I, st, it).aligned(I, st)
    wrself(I, st, args[0], mkit(FnIt(sub(n, ONE), g)))
    return ite(pos(n), some(g(I, st, sub(n, ONE))), NONE)


@model("Iterator::max", "Iterator::min")
def m_imax(I, st, args, x, fn, ts):
    mx = fn["path"].endswith("max")
    s = collect_seq(I, st, selfit(I, st, args, x))
    n = slen(s)
    if not mx:
        return ite(eq0(n), NONE, some(raw("minof", s)))
    c = I.cell(st, ZERO)

    def step(i, q):
        q.store.set(c, max_(q.store.get(c), D(I, q, i)))
    I.consume(SeqIt(s), step, st, None, x["sp"])
    return ite(eq0(n), NONE, some(st.store.get(c)))


@model("Iterator::unzip")
def m_unzip(I, st, args, x, fn, ts):
    s = collect_seq(I, st, selfit(I, st, args, x))
    t = I.ty(x["ty"], ts)
    a, b = smap(s, lambda e: proj(e, "0")), smap(s, lambda e: proj(e, "1"))
    if t[0] == "tuple" and len(t) == 3:
        a, b = container(I, a, t[1]), container(I, b, t[2])
    return tup(a, b)


@model("Iterator::partition")
def m_partition(I, st, args, x, fn, ts):
    s = collect_seq(I, st, selfit(I, st, args, x))
    a = collect_seq(I, st, FilterIt(SeqIt(s), args[1], "filter"))
    f = args[1]
    b = collect_seq(I, st, FilterIt(SeqIt(s), mkobj(Builtin(lambda I, q, y: not_(I.apply(f, y, q)))), "filter"))
    return tup(a, b)


@model("Iterator::eq", "Iterator::ne")
def m_iter_eq(I, st, args, x, fn, ts):
    a = collect_seq(I, st, selfit(I, st, args, x))
    b = collect_seq(I, st, to_iter(I, st, args[1]))
    r = seq_eq(a, b)
    return r if last2(fn["path"]).endswith("eq") else not_(r)


def seq_eq(a, b):
    if a is b:
        return TRUE
    if a.op == "list" and b.op == "list":
        if len(a.a[0]) != len(b.a[0]):
            return FALSE
        return and_(*[eq(x, y) for x, y in zip(a.a[0], b.a[0])])
    return eq(a, b)


# ------------------------------------------------------------ vec! / arrays
@model("Box::new_uninit", "Box::new_uninit_in")
def m_uninit(I, st, args, x, fn, ts):
    return raw("uninit")


@model("intrinsics::write_box_via_move")
def m_wbox(I, st, args, x, fn, ts):
    return args[1]


@model("boxed::box_assume_init_into_vec_unsafe", "boxed::box_uninit_array_into_vec_unsafe")
def m_boxvec(I, st, args, x, fn, ts):
    return D(I, st, args[0])


@model("vec::from_elem")
def m_from_elem(I, st, args, x, fn, ts):
    return seqlam(args[1], lamk(D(I, st, args[0])))


@model("Vec::new", "Vec::with_capacity", "String::new", "String::with_capacity", "VecDeque::new")
def m_vecnew(I, st, args, x, fn, ts):
    return EMPTYL


@model("BTreeMap::new", "HashMap::new")
def m_mapnew(I, st, args, x, fn, ts):
    return mapof(EMPTYL)


@model("BTreeSet::new", "HashSet::new")
def m_setnew(I, st, args, x, fn, ts):
    return setof(EMPTYL)


@model("Vec::push", "VecDeque::push_back", "String::push")
def m_push(I, st, args, x, fn, ts):
    v = D(I, st, args[0])
    y = args[1] if isinstance(getobj(args[1]), Ref) else D(I, st, args[1])
    wrself(I, st, args[0], concat(v, lst(y)))
    return UNIT


@model("Vec::extend_from_slice", "Extend::extend", "Vec::append", "String::push_str", "Vec::extend", "BTreeSet::append",
       "BTreeMap::append")
def m_extend(I, st, args, x, fn, ts):
    v = D(I, st, args[0])
    t = I.strip(I.argty(x, 0))
    it = to_iter(I, st, D(I, st, args[1]) if getref(args[1]) is not None else args[1], I.argty(x, 1))
    s = collect_seq(I, st, it)
    n = short(t[1]) if t[0] == "adt" else ""
    v = D(I, st, args[0])
    if n in ("BTreeSet", "HashSet"):
        r = set_union(v, setof(s))
    elif n in ("BTreeMap", "HashMap"):
        r = mapof(concat(mseq_of(v), s))
    else:
        r = concat(v, s)
    wrself(I, st, args[0], r)
    if fn["path"].endswith("append") and getref(args[1]) is not None:
        wrself(I, st, args[1], EMPTYL)
    return UNIT


@model("Vec::pop")
def m_pop(I, st, args, x, fn, ts):
    v = D(I, st, args[0])
    n = slen(v)
    c = not_(eq0(n))
    if v.op == "list":
        if not v.a[0]:
            return NONE
        wrself(I, st, args[0], lst(*v.a[0][:-1]))
        return some(v.a[0][-1])
    wrself(I, st, args[0], ite(c, slice_(v, ZERO, sub(n, ONE)), v))
    return ite(c, some(at(v, sub(n, ONE))), NONE)


@model("Vec::len", "slice::len", "BTreeMap::len", "BTreeSet::len", "str::len", "String::len", "VecDeque::len", "array::len",
       "HashMap::len", "HashSet::len")
def m_len(I, st, args, x, fn, ts):
    v = D(I, st, args[0])
    return lenof(v)


def lenof(v):
    if v.op in ("mapof", "groupmap"):
        return mlen(v)
    if v.op == "setof":
        return slen(setseq(v))
    return slen(v)


@model("Vec::is_empty", "slice::is_empty", "BTreeMap::is_empty", "BTreeSet::is_empty", "str::is_empty", "String::is_empty",
       "HashMap::is_empty", "HashSet::is_empty", "ExactSizeIterator::is_empty")
def m_isempty(I, st, args, x, fn, ts):
    return eq0(lenof(D(I, st, args[0])))


@model("slice::first")
def m_first(I, st, args, x, fn, ts):
    v = D(I, st, args[0])
    return ite(eq0(slen(v)), NONE, some(at(v, ZERO)))


@model("slice::last")
def m_last(I, st, args, x, fn, ts):
    v = D(I, st, args[0])
    n = slen(v)
    return ite(eq0(n), NONE, some(at(v, sub(n, ONE))))


@model("slice::last_mut")
def m_last_mut(I, st, args, x, fn, ts):
    o = selfref(I, st, args[0])
    v = I.rd(st, o.cell, o.path)
    n = slen(v)
    return ite(eq0(n), NONE, some(mkref(o.cell, o.path + (("i", sub(n, ONE)),))))


@model("slice::first_mut")
def m_first_mut(I, st, args, x, fn, ts):
    o = selfref(I, st, args[0])
    n = slen(I.rd(st, o.cell, o.path))
    return ite(eq0(n), NONE, some(mkref(o.cell, o.path + (("i", ZERO),))))


@model("slice::split_first")
def m_split_first(I, st, args, x, fn, ts):
    v = D(I, st, args[0])
    n = slen(v)
    return ite(eq0(n), NONE, some(tup(at(v, ZERO), slice_(v, ONE, n))))


@model("slice::split_last")
def m_split_last(I, st, args, x, fn, ts):
    v = D(I, st, args[0])
    n = slen(v)
    return ite(eq0(n), NONE, some(tup(at(v, sub(n, ONE)), slice_(v, ZERO, sub(n, ONE)))))


@model("slice::split_at")
def m_split_at(I, st, args, x, fn, ts):
    v = D(I, st, args[0])
    n = slen(v)
    I.oblige("index", lt(n, args[1]), st, x["sp"], (args[1], n, v))
    return tup(slice_(v, ZERO, args[1]), slice_(v, args[1], n))


@model("slice::get")
def m_get(I, st, args, x, fn, ts):
    v = D(I, st, args[0])
    i = args[1]
    if i.op == "struct" and i.a[0].startswith("Range"):
        lo, hi = range_bounds(i, slen(v))
        bad = or_(lt(hi, lo), lt(slen(v), hi))
        return ite(bad, NONE, some(slice_(v, lo, hi)))
    return ite(lt(i, slen(v)), some(at(v, i)), NONE)


@model("slice::get_mut")
def m_get_mut(I, st, args, x, fn, ts):
    o = selfref(I, st, args[0])
    v = I.rd(st, o.cell, o.path)
    return ite(lt(args[1], slen(v)), some(mkref(o.cell, o.path + (("i", args[1]),))), NONE)


@model("slice::contains")
def m_contains(I, st, args, x, fn, ts):
    v, y = D(I, st, args[0]), D(I, st, args[1])
    return sexists(v, lambda e: eq(e, y))


@model("slice::concat", "Join::join_")
def m_concat(I, st, args, x, fn, ts):
    v = D(I, st, args[0])
    return collect_seq(I, st, FlatIt(SeqIt(v), None))


@model("slice::reverse")
def m_reverse(I, st, args, x, fn, ts):
    v = D(I, st, args[0])
    wrself(I, st, args[0], collect_seq(I, st, RevIt(SeqIt(v))))
    return UNIT


@model("slice::fill")
def m_fill(I, st, args, x, fn, ts):
    v = D(I, st, args[0])
    wrself(I, st, args[0], seqlam(slen(v), lamk(args[1])))
    return UNIT


@model("slice::copy_from_slice", "slice::clone_from_slice")
def m_copy_from(I, st, args, x, fn, ts):
    v, w = D(I, st, args[0]), D(I, st, args[1])
    I.oblige("copylen", not_(eq0(sub(slen(v), slen(w)))), st, x["sp"])
    wrself(I, st, args[0], w)
    return UNIT


@model("slice::swap", "Vec::swap")
def m_sswap(I, st, args, x, fn, ts):
    v = D(I, st, args[0])
    i, j = args[1], args[2]
    a, b = at(v, i), at(v, j)
    wrself(I, st, args[0], upd(upd(v, i, b), j, a))
    return UNIT


@model("Vec::resize")
def m_resize(I, st, args, x, fn, ts):
    v = D(I, st, args[0])
    n = slen(v)
    d = sub(args[1], n)
    if v is EMPTYL:
        r = seqlam(args[1], lamk(args[2]))
    else:
        c = pos(neg(d))
        r = ite(c, slice_(v, ZERO, args[1]), concat(v, seqlam(d, lamk(args[2]))))
    wrself(I, st, args[0], r)
    return UNIT


@model("Vec::truncate")
def m_truncate(I, st, args, x, fn, ts):
    v = D(I, st, args[0])
    wrself(I, st, args[0], take(v, args[1]))
    return UNIT


@model("slice::rotate_left")
def m_rotl(I, st, args, x, fn, ts):
    v = D(I, st, args[0])
    wrself(I, st, args[0], concat(slice_(v, args[1], slen(v)), slice_(v, ZERO, args[1])))
    return UNIT


@model("slice::rotate_right")
def m_rotr(I, st, args, x, fn, ts):
    v = D(I, st, args[0])
    k = sub(slen(v), args[1])
    wrself(I, st, args[0], concat(slice_(v, k, slen(v)), slice_(v, ZERO, k)))
    return UNIT


@model("Vec::swap_remove")
def m_swap_remove(I, st, args, x, fn, ts):
    v = D(I, st, args[0])
    I.bound(v, args[1], st, x["sp"])
    last = sub(slen(v), ONE)
    wrself(I, st, args[0], slice_(upd(v, args[1], at(v, last)), ZERO, last))
    return at(v, args[1])


@model("Vec::retain")
def m_retain(I, st, args, x, fn, ts):
    v = D(I, st, args[0])
    wrself(I, st, args[0], collect_seq(I, st, FilterIt(SeqIt(v), args[1], "filter")))
    return UNIT


@model("Vec::clear", "BTreeMap::clear", "BTreeSet::clear")
def m_clear(I, st, args, x, fn, ts):
    n = fn["path"]
    wrself(I, st, args[0], mapof(EMPTYL) if "BTreeMap" in n else setof(EMPTYL) if "BTreeSet" in n else EMPTYL)
    return UNIT


@model("Vec::insert")
def m_vinsert(I, st, args, x, fn, ts):
    v = D(I, st, args[0])
    wrself(I, st, args[0], concat(slice_(v, ZERO, args[1]), lst(args[2]), slice_(v, args[1], slen(v))))
    return UNIT


@model("Vec::remove")
def m_vremove(I, st, args, x, fn, ts):
    v = D(I, st, args[0])
    i = args[1]
    I.bound(v, i, st, x["sp"])
    wrself(I, st, args[0], concat(slice_(v, ZERO, i), slice_(v, add(i, ONE), slen(v))))
    return at(v, i)


@model("Vec::split_off")
def m_splitoff(I, st, args, x, fn, ts):
    v = D(I, st, args[0])
    wrself(I, st, args[0], slice_(v, ZERO, args[1]))
    return slice_(v, args[1], slen(v))


@model("Vec::drain")
def m_drain(I, st, args, x, fn, ts):
    v = D(I, st, args[0])
    lo, hi = range_bounds(args[1], slen(v))
    wrself(I, st, args[0], concat(slice_(v, ZERO, lo), slice_(v, hi, slen(v))))
    return mkit(SeqIt(slice_(v, lo, hi)))


@model("slice::sort", "slice::sort_unstable")
def m_sort(I, st, args, x, fn, ts):
    v = D(I, st, args[0])
    wrself(I, st, args[0], raw("sorted", v))
    return UNIT


@model("slice::sort_by_key", "slice::sort_unstable_by_key", "slice::sort_by_cached_key")
def m_sort_key(I, st, args, x, fn, ts):
    v = D(I, st, args[0])
    i = fresh("i")
    wrself(I, st, args[0], raw("sortkey", v, lam(i, I.deref_all(st, I.apply(args[1], [at(v, i)], st)))))
    return UNIT


@model("slice::sort_by", "slice::sort_unstable_by")
def m_sort_by(I, st, args, x, fn, ts):
    v = D(I, st, args[0])
    i, j = fresh("i"), fresh("j")
    wrself(I, st, args[0], raw("sortcmp", v, lam(i, lam(j, I.apply(args[1], [at(v, i), at(v, j)], st)))))
    return UNIT


@model("slice::join", "slice::join_", "Join::join")
def m_join(I, st, args, x, fn, ts):
    return raw("join", D(I, st, args[0]), D(I, st, args[1]))


def range_bounds(r, n):
    k = r.a[0] if r.op == "struct" else ""
    if k == "Range":
        return proj(r, "start"), proj(r, "end")
    if k == "RangeFrom":
        return proj(r, "start"), n
    if k == "RangeTo":
        return ZERO, proj(r, "end")
    if k == "RangeInclusive":
        return proj(r, "start"), add(proj(r, "end"), ONE)
    if k == "RangeToInclusive":
        return ZERO, add(proj(r, "end"), ONE)
    return ZERO, n


@model("Index::index")
def m_index(I, st, args, x, fn, ts):
    v, i = D(I, st, args[0]), D(I, st, args[1])
    t = I.argty(x, 0)
    if is_map(I, t):
        g = mget(v, i)
        I.oblige("mapindex", not_(isv(g, "Option", "Some")), st, x["sp"], (v, i))
        return proj(g, "0", "Option", "Some")
    if i.op == "struct" and i.a[0].startswith("Range"):
        n = slen(v)
        lo, hi = range_bounds(i, n)
        I.oblige("slice", or_(lt(hi, lo), lt(n, hi)), st, x["sp"], (lo, hi, n, v))
        return slice_(v, lo, hi)
    I.bound(v, i, st, x["sp"])
    return at(v, i)


@model("IndexMut::index_mut")
def m_index_mut(I, st, args, x, fn, ts):
    o = selfref(I, st, args[0])
    i = D(I, st, args[1])
    if o is None:
        return m_index(I, st, args, x, fn, ts)
    v = I.rd(st, o.cell, o.path)
    if is_map(I, I.argty(x, 0)):
        return mkref(o.cell, o.path + (("mk", i),))
    if i.op == "struct" and i.a[0].startswith("Range"):
        n = slen(v)
        lo, hi = range_bounds(i, n)
        I.oblige("slice", or_(lt(hi, lo), lt(n, hi)), st, x["sp"], (lo, hi, n, v))
        if lo is ZERO and hi is n:
            return mkref(o.cell, o.path)
        return mkref(o.cell, o.path + (("sl", lo, hi),))
    I.bound(v, i, st, x["sp"])
    return mkref(o.cell, o.path + (("i", i),))


# ------------------------------------------------------------ maps / sets
@model("BTreeMap::insert", "HashMap::insert")
def m_minsert(I, st, args, x, fn, ts):
    v, k, w = D(I, st, args[0]), D(I, st, args[1]), args[2]
    old = mget(v, k)
    wrself(I, st, args[0], minsert(v, k, w))
    return old


@model("BTreeMap::get", "HashMap::get")
def m_mget(I, st, args, x, fn, ts):
    return mget(D(I, st, args[0]), D(I, st, args[1]))


@model("BTreeMap::contains_key", "HashMap::contains_key")
def m_mhas(I, st, args, x, fn, ts):
    return isv(mget(D(I, st, args[0]), D(I, st, args[1])), "Option", "Some")


@model("BTreeMap::get_mut", "HashMap::get_mut")
def m_mgetmut(I, st, args, x, fn, ts):
    o = selfref(I, st, args[0])
    k = D(I, st, args[1])
    g = mget(I.rd(st, o.cell, o.path), k)
    return ite(isv(g, "Option", "Some"), some(mkref(o.cell, o.path + (("mk", k),))), NONE)


@model("BTreeMap::remove", "HashMap::remove")
def m_mremove(I, st, args, x, fn, ts):
    v, k = D(I, st, args[0]), D(I, st, args[1])
    wrself(I, st, args[0], raw("mremove", v, k))
    return mget(v, k)


@model("BTreeMap::entry", "HashMap::entry")
def m_entry(I, st, args, x, fn, ts):
    return struct("Entry", "", [("map", args[0]), ("key", D(I, st, args[1])),
                                ("vty", raw("str", repr(I.strip(I.argty(x, 0))[3:4])))])


@model("Entry::or_default", "Entry::or_insert", "Entry::or_insert_with", "btree_map::or_default")
def m_or_default(I, st, args, x, fn, ts):
    e = args[0]
    o = selfref(I, st, proj(e, "map"))
    k = proj(e, "key")
    v = I.rd(st, o.cell, o.path)
    p = fn["path"]
    if p.endswith("or_default"):
        t = I.ty(x["ty"], ts)
        d = default_of(I, t)
    elif p.endswith("or_insert"):
        d = args[1]
    else:
        d = I.apply(args[1], [], st)
    if v.op == "mapof" and v.a[0].op == "list" and False:
        pass
    if d is EMPTYL or d is ZERO:
        return mkref(o.cell, o.path + (("grp", k),))
    g = mget(v, k)
    I.wr(st, o.cell, o.path, ite(isv(g, "Option", "Some"), v, minsert(v, k, d)))
    return mkref(o.cell, o.path + (("mk", k),))


@model("BTreeSet::insert", "HashSet::insert")
def m_sinsert(I, st, args, x, fn, ts):
    v, k = D(I, st, args[0]), D(I, st, args[1])
    wrself(I, st, args[0], set_insert(v, k))
    return not_(raw("inset", v, k)) if v.op != "setof" or v.a[0] is not EMPTYL else TRUE


@model("BTreeSet::contains", "HashSet::contains")
def m_shas(I, st, args, x, fn, ts):
    v, k = D(I, st, args[0]), D(I, st, args[1])
    if v.op == "setof":
        return sexists(v.a[0], lambda e: eq(e, k) if e.op != "cel" else and_(e.a[0], eq(e.a[1], k)))
    return raw("bool", raw("inset", v, k))


@model("BTreeSet::union")
def m_sunion(I, st, args, x, fn, ts):
    return mkit(SeqIt(setseq(set_union(D(I, st, args[0]), D(I, st, args[1])))))


# ------------------------------------------------------------ option / result
def oname(fn):
    return "Option" if last2(fn["path"]).startswith("Option") else "Result"


def good(n):
    return "Some" if n == "Option" else "Ok"


@model("Option::unwrap", "Option::expect", "Result::unwrap", "Result::expect", "Option::unwrap_unchecked")
def m_unwrap(I, st, args, x, fn, ts):
    n = oname(fn)
    v = D(I, st, args[0])
    I.oblige("unwrap", not_(isv(v, n, good(n))), st, x["sp"], (v,))
    return proj(v, "0", n, good(n))


@model("Option::unwrap_or", "Result::unwrap_or")
def m_unwrap_or(I, st, args, x, fn, ts):
    n = oname(fn)
    v = D(I, st, args[0])
    return ite(isv(v, n, good(n)), proj(v, "0", n, good(n)), args[1])


@model("Option::unwrap_or_default", "Result::unwrap_or_default")
def m_unwrap_or_def(I, st, args, x, fn, ts):
    n = oname(fn)
    v = D(I, st, args[0])
    return ite(isv(v, n, good(n)), proj(v, "0", n, good(n)), default_of(I, I.ty(x["ty"], ts)))


def branch(I, st, c, fa, fb):
    """value-level conditional running the two sides in forks"""
    if c is TRUE:
        return fa(st)
    if c is FALSE:
        return fb(st)
    a, b = st.fork(c), st.fork(not_(c))
    va, vb = fa(a), fb(b)
    r = I.pick(c, a, va, b, vb)
    I.join(st, c, a, b)
    return r


@model("Option::unwrap_or_else", "Result::unwrap_or_else")
def m_unwrap_or_else(I, st, args, x, fn, ts):
    n = oname(fn)
    v = D(I, st, args[0])
    ea = [] if n == "Option" else [proj(v, "0", n, "Err")]
    return branch(I, st, isv(v, n, good(n)), lambda s: proj(v, "0", n, good(n)), lambda s: I.apply(args[1], ea, s))


@model("Option::map", "Result::map")
def m_omap(I, st, args, x, fn, ts):
    n = oname(fn)
    v = args[0] if n == "Option" else D(I, st, args[0])
    v = D(I, st, v)
    g = good(n)
    return branch(I, st, isv(v, n, g), lambda s: struct(n, g, (("0", I.apply(args[1], [proj(v, "0", n, g)], s)),)),
                  lambda s: NONE if n == "Option" else err(proj(v, "0", n, "Err")))


@model("Option::and_then", "Result::and_then")
def m_oand_then(I, st, args, x, fn, ts):
    n = oname(fn)
    v = D(I, st, args[0])
    g = good(n)
    return branch(I, st, isv(v, n, g), lambda s: D(I, s, I.apply(args[1], [proj(v, "0", n, g)], s)),
                  lambda s: NONE if n == "Option" else err(proj(v, "0", n, "Err")))


@model("Result::and", "Option::and")
def m_rand(I, st, args, x, fn, ts):
    n = oname(fn)
    v, w = D(I, st, args[0]), D(I, st, args[1])
    return ite(isv(v, n, good(n)), w, NONE if n == "Option" else err(proj(v, "0", n, "Err")))


@model("Option::or", "Result::or")
def m_ror(I, st, args, x, fn, ts):
    n = oname(fn)
    v, w = D(I, st, args[0]), D(I, st, args[1])
    return ite(isv(v, n, good(n)), v, w)


@model("Option::or_else", "Result::or_else")
def m_ror_else(I, st, args, x, fn, ts):
    n = oname(fn)
    v = D(I, st, args[0])
    return branch(I, st, isv(v, n, good(n)), lambda s: v,
                  lambda s: I.apply(args[1], [] if n == "Option" else [proj(v, "0", n, "Err")], s))


@model("Option::filter")
def m_ofilter(I, st, args, x, fn, ts):
    v = D(I, st, args[0])
    return branch(I, st, isv(v, "Option", "Some"),
                  lambda s: ite(I.apply(args[1], [proj(v, "0", "Option", "Some")], s), v, NONE), lambda s: NONE)


@model("Result::map_err")
def m_map_err(I, st, args, x, fn, ts):
    v = D(I, st, args[0])
    return branch(I, st, isv(v, "Result", "Ok"), lambda s: ok(proj(v, "0", "Result", "Ok")),
                  lambda s: err(I.apply(args[1], [proj(v, "0", "Result", "Err")], s)))


@model("Option::ok_or")
def m_ok_or(I, st, args, x, fn, ts):
    v = D(I, st, args[0])
    return ite(isv(v, "Option", "Some"), ok(proj(v, "0", "Option", "Some")), err(args[1]))


@model("Option::ok_or_else")
def m_ok_or_else(I, st, args, x, fn, ts):
    v = D(I, st, args[0])
    return branch(I, st, isv(v, "Option", "Some"), lambda s: ok(proj(v, "0", "Option", "Some")),
                  lambda s: err(I.apply(args[1], [], s)))


@model("Result::ok")
def m_rok(I, st, args, x, fn, ts):
    v = D(I, st, args[0])
    return ite(isv(v, "Result", "Ok"), some(proj(v, "0", "Result", "Ok")), NONE)


@model("Result::err")
def m_rerr(I, st, args, x, fn, ts):
    v = D(I, st, args[0])
    return ite(isv(v, "Result", "Ok"), NONE, some(proj(v, "0", "Result", "Err")))


@model("Option::is_some", "Result::is_ok")
def m_is_good(I, st, args, x, fn, ts):
    n = oname(fn)
    return isv(D(I, st, args[0]), n, good(n))


@model("Option::is_none", "Result::is_err")
def m_is_bad(I, st, args, x, fn, ts):
    n = oname(fn)
    return not_(isv(D(I, st, args[0]), n, good(n)))


@model("Option::is_some_and", "Result::is_ok_and")
def m_is_some_and(I, st, args, x, fn, ts):
    n = oname(fn)
    v = D(I, st, args[0])
    return branch(I, st, isv(v, n, good(n)), lambda s: I.apply(args[1], [proj(v, "0", n, good(n))], s), lambda s: FALSE)


@model("Option::map_or")
def m_map_or(I, st, args, x, fn, ts):
    v = D(I, st, args[0])
    return branch(I, st, isv(v, "Option", "Some"), lambda s: I.apply(args[2], [proj(v, "0", "Option", "Some")], s),
                  lambda s: args[1])


@model("Option::map_or_else")
def m_map_or_else(I, st, args, x, fn, ts):
    v = D(I, st, args[0])
    return branch(I, st, isv(v, "Option", "Some"), lambda s: I.apply(args[2], [proj(v, "0", "Option", "Some")], s),
                  lambda s: I.apply(args[1], [], s))


@model("Option::zip")
def m_ozip(I, st, args, x, fn, ts):
    v, w = D(I, st, args[0]), D(I, st, args[1])
    return ite(and_(isv(v, "Option", "Some"), isv(w, "Option", "Some")),
               some(tup(proj(v, "0", "Option", "Some"), proj(w, "0", "Option", "Some"))), NONE)


@model("Option::get_or_insert", "Option::get_or_insert_with")
def m_get_or_insert(I, st, args, x, fn, ts):
    old = D(I, st, args[0])
    nm = last2(fn["path"])
    new = branch(I, st, isv(old, "Option", "Some"), lambda s: proj(old, "0", "Option", "Some"),
                 lambda s: args[1] if nm == "Option::get_or_insert" else I.apply(args[1], [], s))
    wrself(I, st, args[0], some(new))
    return new


@model("Option::insert", "Option::replace")
def m_oinsert(I, st, args, x, fn, ts):
    old = D(I, st, args[0])
    if last2(fn["path"]) == "Option::insert":
        wrself(I, st, args[0], some(args[1]))
        return args[1]
    wrself(I, st, args[0], some(args[1]))
    return old


@model("Option::transpose")
def m_transpose(I, st, args, x, fn, ts):
    v = D(I, st, args[0])
    w = proj(v, "0", "Option", "Some")
    return ite(isv(v, "Option", "Some"), ite(isv(w, "Result", "Ok"), ok(some(proj(w, "0", "Result", "Ok"))),
                                             err(proj(w, "0", "Result", "Err"))), ok(NONE))


@model("bool::then")
def m_then(I, st, args, x, fn, ts):
    return branch(I, st, args[0], lambda s: some(I.apply(args[1], [], s)), lambda s: NONE)


@model("bool::then_some")
def m_then_some(I, st, args, x, fn, ts):
    return ite(args[0], some(args[1]), NONE)


def CF(v, x):
    return struct("ControlFlow", v, (("0", x),))


@model("Try::branch")
def m_branch(I, st, args, x, fn, ts):
    v = D(I, st, args[0])
    t = I.strip(I.argty(x, 0))
    n = short(t[1]) if t[0] == "adt" else "Result"
    g = good(n)
    return ite(isv(v, n, g), CF("Continue", proj(v, "0", n, g)),
               CF("Break", NONE if n == "Option" else err(proj(v, "0", n, "Err"))))


@model("FromResidual::from_residual")
def m_residual(I, st, args, x, fn, ts):
    v = D(I, st, args[0])
    if v.op == "struct" and v.a[0] == "Option":
        return NONE
    return err(proj(v, "0", "Result", "Err"))


# ------------------------------------------------------------ format / strings
@model("Argument::new_display", "Argument::new_debug", "Argument::new_lower_hex")
def m_arg(I, st, args, x, fn, ts):
    return D(I, st, args[0])


@model("Arguments::new", "Arguments::new_v1", "Arguments::new_const", "Arguments::from_str", "Arguments::new_v1_formatted")
def m_args(I, st, args, x, fn, ts):
    return raw("fmtargs", *[D(I, st, a) for a in args])


@model("fmt::format")
def m_fmt(I, st, args, x, fn, ts):
    v = D(I, st, args[0])
    return raw("fmt", v)


# ------------------------------------------------------------ compare / arithmetic
@model("PartialEq::eq", "PartialEq::ne")
def m_peq(I, st, args, x, fn, ts):
    a, b = D(I, st, args[0]), D(I, st, args[1])
    numeric = I.is_num_ty(I.argty(x, 0))
    r = eqt(a, b, numeric)
    return r if fn["path"].endswith("::eq") else not_(r)


@model("PartialOrd::lt", "PartialOrd::gt", "PartialOrd::le", "PartialOrd::ge")
def m_pord(I, st, args, x, fn, ts):
    a, b = D(I, st, args[0]), D(I, st, args[1])
    if not I.is_num_ty(I.argty(x, 0)) or I.strip(I.argty(x, 0))[0] != "prim":
        return raw("bool", raw("cmp", raw("str", fn["path"][-2:]), a, b))
    return {"lt": lt(a, b), "gt": lt(b, a), "le": not_(lt(b, a)), "ge": not_(lt(a, b))}[fn["path"][-2:]]


def ordering(k):
    return struct("Ordering", k, [])


def local_impl(I, name, v):
    """the crate's own body of a method on the struct or enum value v"""
    from harness import selfname
    for q, l in I.bypath.items():
        if q.split("::")[-1] == name:
            for b in l:
                if b.get("impl_self") is not None and short(str(selfname(I, b))) == v.a[0]:
                    return b
    return None


@model("Ord::cmp", "PartialOrd::partial_cmp")
def m_cmp(I, st, args, x, fn, ts):
    a, b = D(I, st, args[0]), D(I, st, args[1])
    r = None
    if is_const(a) and is_const(b):
        i, j = const_val(a), const_val(b)
        r = ordering("Less" if i < j else "Greater" if i > j else "Equal")
    elif a.op == "struct" and b.op == "struct" and a.a[0] == b.a[0]:
        f = local_impl(I, "cmp", a)
        if f is not None:
            r = I.run_body(f, [mkref(I.cell(st, a), ()), mkref(I.cell(st, b), ())], st, {})
    if r is None:
        r = raw("cmp", a, b)
    return some(r) if fn["path"].endswith("partial_cmp") else r


@model("Ordering::then")
def m_then(I, st, args, x, fn, ts):
    a = D(I, st, args[0])
    return ite(isv(a, "Ordering", "Equal"), D(I, st, args[1]), a)


@model("Ordering::reverse")
def m_reverse(I, st, args, x, fn, ts):
    a = D(I, st, args[0])
    return ite(isv(a, "Ordering", "Less"), ordering("Greater"), ite(isv(a, "Ordering", "Greater"), ordering("Less"), a))


@model("cmp::max", "Ord::max")
def m_max(I, st, args, x, fn, ts):
    return max_(D(I, st, args[0]), D(I, st, args[1]))


@model("cmp::min", "Ord::min")
def m_min(I, st, args, x, fn, ts):
    return min_(D(I, st, args[0]), D(I, st, args[1]))


def pv(t):
    """a polynomial-valued term as an element of the polynomial ring"""
    if t.op in ("poly", "P", "polyX", "interp", "cosetinterp", "polydiv", "polyfrom", "sum", "prod", "recn", "undef",
                "polyrem", "fold", "vanish"):
        return t
    if t.op == "sym" and t.a[0].startswith("$f"):
        return t
    if t.op == "ite":
        return num(raw("ite", t.a[0], pv(t.a[1]), pv(t.a[2])))
    if t.op == "struct" or t.op == "obj":
        return t
    return raw("P", t)


POLYATOMS = ("P", "polyX", "interp", "cosetinterp", "polydiv", "polyfrom", "polyrem", "vanish")


def hom(p, x):
    """evaluation of a polynomial term at x (ring homomorphism)"""
    d = pd(p)
    r = {}
    for m, c in d.items():
        q = {(): c}
        for a, e in m:
            if a.op == "sym" and a.a[0].startswith("$f") and a.a[0] not in SCALARSYMS:
                return raw("hom", p, x)
            h = hom_atom(a, x)
            q = pmul(q, pd(power(h, e)))
        r = padd(r, q)
    return mkpoly(r)


SCALARSYMS = set()


def hom_atom(a, x):
    if a.op in ("P", "interp", "cosetinterp", "polydiv", "polyfrom", "polyrem"):
        return raw("evalat", a, x)
    if a.op == "vanish":
        return sub(power(x, TM.dsize(a.a[0])), ONE)
    if a.op == "polyX":
        return x
    if a.op == "sum":
        i, b = opn(a.a[1])
        return summ(a.a[0], lam(i, hom(b, x)))
    if a.op == "prod":
        i, b = opn(a.a[1])
        return prodd(a.a[0], lam(i, hom(b, x)))
    if a.op == "poly":
        return hom(a, x)
    if a.op == "recn" and any(t.op in POLYATOMS for t in subterms(a)):
        return raw("hom", a, x)
    return a


def reb_evalat(p, x):
    if p.op in ("P",):
        return raw("evalat", pv(p.a[0]), x) if pv(p.a[0]).op == "P" else hom(pv(p.a[0]), x)
    return hom(p, x)


def reb_P(t):
    return pv(t)


TM.REB["evalat"] = reb_evalat
TM.REB["hom"] = hom
TM.REB["P"] = reb_P


def ringargs(I, st, args, x, ts):
    a, b = D(I, st, args[0]), D(I, st, args[1])
    try:
        pa, pb = I.is_poly_ty(I.argty(x, 0)), I.is_poly_ty(I.argty(x, 1))
    except Exception:
        pa = pb = False
    if I.is_poly_ty(I.ty(x["ty"], ts)) if x.get("ty") is not None else False:
        if not pa and not pb:
            pa = True
    return (pv(a) if pa else a), (pv(b) if pb else b), pa or pb


def ringop(name, I, st, args, x, ts):
    a, b, p = ringargs(I, st, args, x, ts)
    if name == "Add":
        return add(a, b)
    if name == "Sub":
        if not p:
            t = I.strip(I.argty(x, 0))
            if t[0] == "prim" and t[1][:1] == "u":
                I.oblige("underflow", lt(a, b), st, x["sp"], (a, b))
        return sub(a, b)
    if name == "Mul":
        return mul(a, b)
    if name == "Div":
        if p:
            return raw("polydiv", a, b)
        t = I.strip(I.argty(x, 0))
        if t[0] == "prim":
            return idiv(a, b)
        return mul(a, inv(b))
    if name == "Rem":
        return mod(a, b)


def _mk(nm):
    def f(I, st, args, x, fn, ts):
        return ringop(nm, I, st, args, x, ts)

    def g(I, st, args, x, fn, ts):
        t0 = I.strip(I.argty(x, 0))
        a, b = D(I, st, args[0]), D(I, st, args[1])
        if I.is_poly_ty(t0):
            a, b = pv(a), pv(D(I, st, b)) if I.is_poly_ty(I.argty(x, 1)) or b.op == "struct" else b
            if b.op == "struct":      # AddAssign<(F, &Poly)>
                b = mul(proj(b, "0"), pv(proj(b, "1")))
        r = {"Add": add, "Sub": sub, "Mul": mul}[nm](a, b) if nm in ("Add", "Sub", "Mul") else mul(a, inv(b))
        wrself(I, st, args[0], r)
        return UNIT
    MODELS[nm + "::" + nm.lower()] = f
    MODELS[nm + "Assign::" + nm.lower() + "_assign"] = g


for _n in ("Add", "Sub", "Mul", "Div", "Rem"):
    _mk(_n)


@model("Neg::neg")
def m_neg(I, st, args, x, fn, ts):
    v = D(I, st, args[0])
    return neg(pv(v) if I.is_poly_ty(I.argty(x, 0)) else v)


@model("Not::not")
def m_not(I, st, args, x, fn, ts):
    return not_(D(I, st, args[0]))


@model("Zero::zero", "DensePolynomial::zero")
def m_zero(I, st, args, x, fn, ts):
    return ZERO


@model("One::one")
def m_one(I, st, args, x, fn, ts):
    return ONE


@model("Zero::is_zero")
def m_is_zero(I, st, args, x, fn, ts):
    return eq0(D(I, st, args[0]))


@model("One::is_one")
def m_is_one(I, st, args, x, fn, ts):
    return eq0(sub(D(I, st, args[0]), ONE))


@model("Randomness::is_hiding")
def m_is_hiding(I, st, args, x, fn, ts):
    return not_(eq0(pv(proj(D(I, st, args[0]), "blinding_polynomial"))))


@model("Zero::set_zero")
def m_set_zero(I, st, args, x, fn, ts):
    wrself(I, st, args[0], ZERO)
    return UNIT


@model("Field::inverse")
def m_inverse(I, st, args, x, fn, ts):
    v = D(I, st, args[0])
    return ite(eq0(v), NONE, some(inv(v)))


@model("Field::inverse_in_place")
def m_inverse_ip(I, st, args, x, fn, ts):
    v = D(I, st, args[0])
    wrself(I, st, args[0], ite_num(eq0(v), v, inv(v)))
    return ite(eq0(v), NONE, some(args[0]))


@model("Field::square")
def m_square(I, st, args, x, fn, ts):
    v = D(I, st, args[0])
    return mul(v, v)


@model("Field::square_in_place")
def m_square_ip(I, st, args, x, fn, ts):
    v = D(I, st, args[0])
    wrself(I, st, args[0], mul(v, v))
    return args[0]


@model("Field::double")
def m_double(I, st, args, x, fn, ts):
    return mul(const(2), D(I, st, args[0]))


@model("Field::double_in_place")
def m_double_ip(I, st, args, x, fn, ts):
    wrself(I, st, args[0], mul(const(2), D(I, st, args[0])))
    return args[0]


@model("Field::pow")
def m_pow(I, st, args, x, fn, ts):
    b, e = D(I, st, args[0]), D(I, st, args[1])
    if e.op == "list" and all(y is ZERO for y in e.a[0][1:]):
        return power(b, e.a[0][0])
    return raw("numcall", raw("str", "pow"), b, e)


@model("usize::pow", "u64::pow", "u32::pow", "num::pow", "i64::pow", "u128::pow")
def m_ipow(I, st, args, x, fn, ts):
    return power(args[0], args[1])


@model("num::checked_sub", "usize::checked_sub")
def m_checked_sub(I, st, args, x, fn, ts):
    a, b = D(I, st, args[0]), D(I, st, args[1])
    return ite(lt(a, b), NONE, some(sub(a, b)))


@model("num::checked_add", "usize::checked_add")
def m_checked_add(I, st, args, x, fn, ts):
    return some(add(args[0], args[1]))


@model("num::checked_mul", "usize::checked_mul")
def m_checked_mul(I, st, args, x, fn, ts):
    return some(mul(args[0], args[1]))


@model("num::checked_div", "usize::checked_div")
def m_checked_div(I, st, args, x, fn, ts):
    return ite(eq0(args[1]), NONE, some(idiv(args[0], args[1])))


@model("num::saturating_sub", "usize::saturating_sub")
def m_sat_sub(I, st, args, x, fn, ts):
    return max_(sub(args[0], args[1]), ZERO)


@model("num::wrapping_add", "num::saturating_add", "num::wrapping_mul_")
def m_wadd(I, st, args, x, fn, ts):
    return add(args[0], args[1])


@model("num::abs_diff")
def m_absdiff(I, st, args, x, fn, ts):
    a, b = args
    return ite_num(lt(a, b), sub(b, a), sub(a, b))


@model("num::rem_euclid", "usize::rem_euclid", "i64::rem_euclid", "isize::rem_euclid")
def m_remeuclid(I, st, args, x, fn, ts):
    I.oblige("divzero", eq0(args[1]), st, x["sp"])
    return mod(args[0], args[1])


@model("num::div_ceil", "usize::div_ceil")
def m_divceil(I, st, args, x, fn, ts):
    I.oblige("divzero", eq0(args[1]), st, x["sp"])
    return ceil_div(args[0], args[1])


@model("num::next_power_of_two", "usize::next_power_of_two")
def m_npot(I, st, args, x, fn, ts):
    return raw("nat", "npot", args[0])


@model("num::is_power_of_two", "usize::is_power_of_two")
def m_ipot(I, st, args, x, fn, ts):
    return raw("bool", raw("ispot", args[0]))


@model("TryFrom::try_from", "TryInto::try_into")
def m_tryfrom(I, st, args, x, fn, ts):
    return ok(D(I, st, args[0]))


@model("ark_ff::batch_inversion", "fields::batch_inversion", "batch_inversion")
def m_batchinv(I, st, args, x, fn, ts):
    v = D(I, st, args[0])
    wrself(I, st, args[0], smap(v, lambda e: ite_num(eq0(e), e, inv(e))))
    return UNIT


@model("batch_inversion_and_mul")
def m_batchinv_mul(I, st, args, x, fn, ts):
    v = D(I, st, args[0])
    c = D(I, st, args[1])
    wrself(I, st, args[0], smap(v, lambda e: ite_num(eq0(e), e, mul(c, inv(e)))))
    return UNIT


@model("FftField::multiplicative_generator")
def m_gen(I, st, args, x, fn, ts):
    return raw("gen")


@model("intrinsics::discriminant_value", "mem::discriminant")
def m_discr(I, st, args, x, fn, ts):
    return discr(I, D(I, st, args[0]))


def discr(I, v):
    if v.op == "struct" and v.a[1]:
        for p, a in I.adts.items():
            if a["enum"] and short(p) == v.a[0]:
                for i, w in enumerate(a["variants"]):
                    if w[0] == v.a[1]:
                        return const(i)
    return raw("discr", v)


# ------------------------------------------------------------ domains / polynomials
def welem(dom, i):
    """omega_D^i with the exponent reduced modulo |D|"""
    n = TM.dsize(dom)

    def red(e):
        d = {}
        for m, c in pd(e).items():
            if len(m) == 1 and m[0][0] is n:
                continue
            if any(a is n and isinstance(x, int) and x >= 1 for a, x in m) and \
                    all(isinstance(x, int) and x > 0 for a, x in m):
                continue
            if len(m) == 1 and m[0][1] == 1 and m[0][0].op == "mod" and m[0][0].a[1] is n:
                d = padd(d, pscale(pd(red(m[0][0].a[0])), c))
                continue
            d = padd(d, {m: c})
        return mkpoly(d)
    return power(raw("omega", dom), red(i))


TM.WELEM = welem
TM.HOM = hom


@model("EvaluationDomain::new", "GeneralEvaluationDomain::new", "Radix2EvaluationDomain::new")
def m_domnew(I, st, args, x, fn, ts):
    n = args[0]
    return ite(raw("bool", raw("domok", n)), some(raw("dom", n)), NONE)


@model("EvaluationDomain::size", "EvaluationDomain::size_as_field_element")
def m_domsize(I, st, args, x, fn, ts):
    return TM.dsize(D(I, st, args[0]))


@model("EvaluationDomain::element")
def m_element(I, st, args, x, fn, ts):
    return welem(D(I, st, args[0]), args[1])


@model("EvaluationDomain::elements")
def m_elements(I, st, args, x, fn, ts):
    return mkit(SeqIt(raw("elements", D(I, st, args[0]))))


@model("EvaluationDomain::group_gen", "GeneralEvaluationDomain::group_gen")
def m_group_gen(I, st, args, x, fn, ts):
    return raw("omega", D(I, st, args[0]))


@model("EvaluationDomain::fft")
def m_fft(I, st, args, x, fn, ts):
    return raw("fft", D(I, st, args[0]), coeffpoly(I, st, args[1]))


@model("EvaluationDomain::coset_fft")
def m_coset_fft(I, st, args, x, fn, ts):
    return raw("coset_fft", D(I, st, args[0]), coeffpoly(I, st, args[1]))


def coeffpoly(I, st, v):
    """polynomial denoted by a coefficient slice (or a polynomial derefed to its coefficients)"""
    v = D(I, st, v)
    if v.op == "coeffs":
        return v.a[0]
    if v.op in ("list", "seqlam", "concat", "slice", "chunkof", "upd", "ite", "flat"):
        return polyfrom(v)
    return pv(v)


def polyfrom(v):
    if v.op == "coeffs":
        return v.a[0]
    if v.op == "list":
        return add(*[mul(c, power(POLYX, i)) for i, c in enumerate(v.a[0])]) if v.a[0] else ZERO
    if v.op == "ifft":
        return raw("interp", v.a[0], v.a[1])
    if v.op == "coset_ifft":
        return raw("cosetinterp", v.a[0], v.a[1])
    return raw("polyfrom", v)


POLYX = raw("polyX")
TM.REB["polyfrom"] = polyfrom


@model("EvaluationDomain::ifft")
def m_ifft(I, st, args, x, fn, ts):
    return raw("ifft", D(I, st, args[0]), D(I, st, args[1]))


@model("EvaluationDomain::coset_ifft")
def m_coset_ifft(I, st, args, x, fn, ts):
    return raw("coset_ifft", D(I, st, args[0]), D(I, st, args[1]))


@model("EvaluationDomain::vanishing_polynomial")
def m_vanpoly(I, st, args, x, fn, ts):
    return raw("vanish", D(I, st, args[0]))


@model("EvaluationDomain::evaluate_vanishing_polynomial")
def m_evalvan(I, st, args, x, fn, ts):
    return sub(power(D(I, st, args[1]), TM.dsize(D(I, st, args[0]))), ONE)


@model("Polynomial::evaluate", "DensePolynomial::evaluate", "SparsePolynomial::evaluate")
def m_polyeval(I, st, args, x, fn, ts):
    return hom(pv(D(I, st, args[0])), D(I, st, args[1]))


@model("Polynomial::degree")
def m_polydeg(I, st, args, x, fn, ts):
    p = pv(D(I, st, args[0]))
    if p.op == "vanish":
        return TM.dsize(p.a[0])
    return raw("nat", "deg", p)


@model("UVPolynomial::coeffs")
def m_coeffs(I, st, args, x, fn, ts):
    return raw("coeffs", pv(D(I, st, args[0])))


@model("UVPolynomial::from_coefficients_slice", "UVPolynomial::from_coefficients_vec")
def m_fromcoeffs(I, st, args, x, fn, ts):
    return polyfrom(D(I, st, args[0]))


@model("Evaluations::from_vec_and_domain")
def m_evalsfrom(I, st, args, x, fn, ts):
    return struct("Evaluations", "", [("evals", args[0]), ("domain", D(I, st, args[1]))])


@model("Evaluations::interpolate", "Evaluations::interpolate_by_ref")
def m_interp(I, st, args, x, fn, ts):
    v = D(I, st, args[0])
    return raw("interp", proj(v, "domain"), proj(v, "evals"))


@model("DensePolynomial::mul_by_vanishing_poly")
def m_mulvan(I, st, args, x, fn, ts):
    return mul(pv(D(I, st, args[0])), raw("vanish", D(I, st, args[1])))


@model("DensePolynomial::naive_mul")
def m_naivemul(I, st, args, x, fn, ts):
    return mul(pv(D(I, st, args[0])), pv(D(I, st, args[1])))


@model("DenseOrSparsePolynomial::divide_with_q_and_r")
def m_divqr(I, st, args, x, fn, ts):
    a, b = pv(D(I, st, args[0])), pv(D(I, st, args[1]))
    return some(tup(raw("polydiv", a, b), raw("polyrem", a, b)))


# ------------------------------------------------------------ randomness / transcript
def rngstate(I, st, v):
    o = selfref(I, st, v)
    if o is None:
        return None, D(I, st, v)
    s = I.rd(st, o.cell, o.path)
    if s.op != "struct":
        s = struct("Rng", "", [("base", s), ("cnt", ZERO)])
    return o, s


def draw(I, st, v, x, kind="draw"):
    o, s = rngstate(I, st, v)
    if o is None:
        return raw("numcall", raw("str", "rand"), s)
    r = raw("draw", proj(s, "base"), proj(s, "cnt"))
    I.event("rand", st, x["sp"], proj(s, "base"), proj(s, "cnt"), raw("str", kind))
    I.wr(st, o.cell, o.path, with_field(s, "cnt", add(proj(s, "cnt"), ONE)))
    return r


@model("UniformRand::rand", "Rng::gen", "Rng::sample")
def m_rand(I, st, args, x, fn, ts):
    return draw(I, st, args[0], x)


@leaf("FiatShamirRng::absorb")
@model("FiatShamirRng::absorb")
def m_absorb(I, st, args, x, fn, ts):
    o, s = rngstate(I, st, args[0])
    if o is None:
        return NotImplemented
    b = tokens(I, D(I, st, args[1]), I.argty(x, 1))
    I.event("absorb", st, x["sp"], proj(s, "base"), proj(s, "cnt"), b)
    I.wr(st, o.cell, o.path, struct("Rng", "", [("base", raw("absorb", proj(s, "base"), proj(s, "cnt"), b)),
                                                ("cnt", ZERO)]))
    return UNIT


@leaf("FiatShamirRng::initialize")
@model("FiatShamirRng::initialize")
def m_fsinit(I, st, args, x, fn, ts):
    b = D(I, st, args[0])
    return struct("Rng", "", [("base", raw("fsinit", b)), ("cnt", ZERO)])


@model("ark_std::test_rng", "test_helper::test_rng", "rand_helper::test_rng", "rand::thread_rng", "rngs::thread_rng", "thread::thread_rng")
@model("SeedableRng::from_seed")
@model("SeedableRng::seed_from_u64")
@model("SeedableRng::from_entropy")
def m_otherrng(I, st, args, x, fn, ts):
    """a generator the code makes itself: its state depends only on the seed, if there is one"""
    if any("FiatShamirRng" in str(f.body["path"]) for f in I.frames):
        return NotImplemented   # the transcript generator's own stream (C23)
    return struct("Rng", "", [("base", raw("otherrng", str(fn.get("path", "generator")) if isinstance(fn, dict) else str(fn), *[D(I, st, a) for a in args])), ("cnt", ZERO)])


@model("Digest::new", "Digest::new_with_prefix")
def m_dnew(I, st, args, x, fn, ts):
    return struct("DigestState", "", [("data", D(I, st, args[0]) if args else lst())])


@model("Digest::update", "Digest::input")
def m_dupdate(I, st, args, x, fn, ts):
    o = selfref(I, st, args[0])
    s = I.rd(st, o.cell, o.path)
    I.wr(st, o.cell, o.path, struct("DigestState", "", [("data", concat(proj(s, "data"), D(I, st, args[1])))]))
    return UNIT


@model("Digest::chain", "Digest::chain_update")
def m_dchain(I, st, args, x, fn, ts):
    return struct("DigestState", "", [("data", concat(proj(D(I, st, args[0]), "data"), D(I, st, args[1])))])


@model("Digest::finalize", "Digest::result")
def m_dfinal(I, st, args, x, fn, ts):
    return raw("call", "Digest::digest", (proj(D(I, st, args[0]), "data"),))


def tokens(I, v, ty):
    """byte string denoted by serialising v: a sequence of element tokens"""
    if v.op == "bytes" or v.op == "str":
        return lst(v)
    return v


def bytesof(I, v, t):
    t = I.strip(t)
    if v.op == "sym" and v.a[0] == "$message":
        return sym("$messagebytes")     # a sequence of bytes of any length
    if t[0] in ("slice", "array") and t[1] != ("prim", "u8"):
        return smap(v, lambda e: tok(e, I.strip(t[1])))
    if t[0] == "adt" and short(t[1]) == "Vec" and t[2] != ("prim", "u8"):
        return smap(v, lambda e: tok(e, I.strip(t[2])))
    if v.op in ("list", "concat", "flat") and all_tokens(v):
        return v
    return lst(tok(v, t))


def all_tokens(v):
    return v.op == "list" and all(e.op == "bytes" for e in v.a[0])


def tok(v, t):
    if t[0] == "adt" and short(t[1]) == "LabeledCommitment":
        return raw("bytes", proj(v, "commitment"))
    return raw("bytes", v)


@model("ToBytes::write")
def m_write(I, st, args, x, fn, ts):
    v = D(I, st, args[0])
    t = I.strip(I.argty(x, 0))
    o = selfref(I, st, args[1])
    b = I.rd(st, o.cell, o.path)
    I.wr(st, o.cell, o.path, concat(b, bytesof(I, v, t)))
    return ok(UNIT)


# ------------------------------------------------------------ polynomial commitment
@model("LabeledPolynomial::new")
def m_lp(I, st, args, x, fn, ts):
    return struct("LabeledPolynomial", "", [("label", D(I, st, args[0])), ("polynomial", pv(D(I, st, args[1]))),
                                            ("degree_bound", args[2]), ("hiding_bound", args[3])])


@model("LabeledPolynomial::polynomial", "LabeledPolynomial::label", "LabeledPolynomial::hiding_bound",
       "LabeledPolynomial::degree_bound", "LabeledCommitment::commitment", "LabeledCommitment::label")
def m_lp_get(I, st, args, x, fn, ts):
    f = fn["path"].split("::")[-1]
    r = proj(D(I, st, args[0]), f)
    return pv(r) if f == "polynomial" else r


@model("LabeledCommitment::new", "LabeledCommitment::new_with_commitment")
def m_lc(I, st, args, x, fn, ts):
    return struct("LabeledCommitment", "", [("label", D(I, st, args[0])), ("commitment", D(I, st, args[1])),
                                            ("degree_bound", args[2])])


@model("PolynomialCommitment::commit")
def m_commit(I, st, args, x, fn, ts):
    ck = D(I, st, args[0])
    polys = args[1]
    it = to_iter(I, st, D(I, st, polys), I.argty(x, 1))
    s = collect_seq(I, st, it)
    r = D(I, st, args[2])
    rr = NONE
    o = None
    if isv(r, "Option", "Some") is TRUE:
        o, ss = rngstate(I, st, proj(r, "0", "Option", "Some"))
        rr = some(proj(ss, "base")) if o is not None else some(ss)
        rr = some(tup(proj(ss, "base"), proj(ss, "cnt"))) if o is not None else rr
    elif isv(r, "Option", "None") is not TRUE:
        rr = r

    def com(p):
        return struct("LabeledCommitment", "", [
            ("label", proj(p, "label")),
            ("commitment", raw("com", pv(proj(p, "polynomial")), proj(p, "hiding_bound"), rr, ck)),
            ("degree_bound", proj(p, "degree_bound"))])

    def rnd(p):
        return raw("rnd", pv(proj(p, "polynomial")), proj(p, "hiding_bound"), rr)
    coms, rnds = smap(s, com), smap(s, rnd)
    I.event("commit", st, x["sp"], ck, s, rr)
    if o is not None:
        I.wr(st, o.cell, o.path, struct("Rng", "", [("base", raw("adv", proj(ss, "base"), proj(ss, "cnt"), s)),
                                                    ("cnt", ZERO)]))
    R = raw("call", "commit", (ck, s, rr))
    return ite(isv(R, "Result", "Ok"), ok(tup(coms, rnds)), err(proj(R, "0", "Result", "Err")))


def opt_rng(I, st, v):
    r = D(I, st, v)
    if r.op == "struct" and r.a[1] == "Some":
        o, ss = rngstate(I, st, proj(r, "0"))
        if o is not None:
            I.wr(st, o.cell, o.path, struct("Rng", "", [("base", raw("adv", proj(ss, "base"), proj(ss, "cnt"), UNIT)),
                                                        ("cnt", ZERO)]))
        return some(ss)
    return r


@model("PolynomialCommitment::open", "PolynomialCommitment::check")
def m_open(I, st, args, x, fn, ts):
    nm = last2(fn["path"]).split("::")[-1]
    vals = []
    for j, a in enumerate(args):
        v = D(I, st, a)
        o = getobj(v)
        if isinstance(o, It):
            v = collect_seq(I, st, o)
        if j == len(args) - 1:
            v = opt_rng(I, st, v)
        vals.append(v)
    I.event(nm, st, x["sp"], *vals)
    return raw("call", nm, tuple(vals))


@model("HomomorphicCommitment::add", "HomomorphicCommitment::add_rands")
def m_cadd(I, st, args, x, fn, ts):
    return add(D(I, st, args[0]), D(I, st, args[1]))


@model("HomomorphicCommitment::scale_com", "HomomorphicCommitment::scale_rand")
def m_cscale(I, st, args, x, fn, ts):
    return mul(D(I, st, args[0]), D(I, st, args[1]))


@model("HomomorphicCommitment::neg_com")
def m_cneg(I, st, args, x, fn, ts):
    return neg(D(I, st, args[0]))


@model("HomomorphicCommitment::zero_comm", "PCRandomness::empty")
def m_czero(I, st, args, x, fn, ts):
    return ZERO


@model("HomomorphicCommitment::is_zero")
def m_ciszero(I, st, args, x, fn, ts):
    return eq0(D(I, st, args[0]))


@model("HomomorphicCommitment::eq_cm")
def m_ceq(I, st, args, x, fn, ts):
    return eqt(D(I, st, args[0]), D(I, st, args[1]), True)


@model("HomomorphicCommitment::add_assign_rand")
def m_caddassign(I, st, args, x, fn, ts):
    wrself(I, st, args[0], add(D(I, st, args[0]), D(I, st, args[1])))
    return UNIT


@model("HomomorphicCommitment::msm")
def m_cmsm(I, st, args, x, fn, ts):
    return m_msm(I, st, args, x, fn, ts)


@model("AffineCurve::mul", "ProjectiveCurve::mul", "AffineCurve::scale_by_cofactor_never")
def m_gmul(I, st, args, x, fn, ts):
    return mul(D(I, st, args[0]), D(I, st, args[1]))


@model("PrimeField::into_repr", "PrimeField::into", "ProjectiveCurve::into_affine", "AffineCurve::into_projective")
def m_repr(I, st, args, x, fn, ts):
    return D(I, st, args[0])


@model("VariableBaseMSM::multi_scalar_mul")
def m_msm(I, st, args, x, fn, ts):
    a, b = D(I, st, args[0]), D(I, st, args[1])
    i = fresh("i")
    return summ(min_(slen(a), slen(b)), lam(i, mul(at(a, i), at(b, i))))


# ------------------------------------------------------------ expressions (as boundary)
@leaf("Expression::evaluate")
def m_exprval(I, st, args, x, fn, ts):
    fs = [D(I, st, a) for a in args[1:7]]
    if not all(isinstance(getobj(f), (Closure, FnItem, Builtin)) for f in fs):
        return NotImplemented
    expr = D(I, st, args[0])
    cf, of, nf, sf, pf, kf = fs
    ob, ev = len(I.obl), len(I.events)

    def run(f, *a):
        return D(I, st, I.apply(f, list(a), st.fork(), x["sp"]))
    v, w, c, e = fresh("f"), fresh("f"), fresh("f"), fresh("h")
    cv = run(cf, c)
    q = fresh("q")
    standard = None
    if cv is c:
        standard = "plain" if (run(nf, v) is neg(v) and run(sf, v, w) is add(v, w) and run(pf, v, w) is mul(v, w)
                               and run(kf, v, c) is mul(v, c)) else None
    elif cv is ok(c):
        good = run(nf, ok(v)) is ok(neg(v)) and run(sf, ok(v), ok(w)) is ok(add(v, w)) and \
            run(pf, ok(v), ok(w)) is ok(mul(v, w)) and run(kf, ok(v), c) is ok(mul(v, c))
        bad = all(isv(t, "Result", "Ok") is FALSE for t in (
            run(nf, err(e)), run(sf, err(e), ok(w)), run(sf, ok(v), err(e)), run(pf, err(e), ok(w)),
            run(pf, ok(v), err(e)), run(kf, err(e), c)))
        standard = "lifted" if good and bad else None
    del I.obl[ob:]
    del I.events[ev:]
    # obligations inside the query resolution, for an arbitrary query of the expression
    R = D(I, st, I.apply(of, [q], st.fork(), x["sp"]))
    for o in I.obl[ob:] + I.events[ev:]:
        o.ctx = [(q, expr)] + o.ctx
    if standard == "plain":
        return raw("evalx", expr, lam(q, R))
    if standard == "lifted":
        bad = raw("anyq", expr, lam(q, not_(isv(R, "Result", "Ok"))))
        if isv(R, "Result", "Ok") is TRUE:
            return ok(raw("evalx", expr, lam(q, proj(R, "0", "Result", "Ok"))))
        return ite(bad, err(raw("qerr", expr, lam(q, proj(R, "0", "Result", "Err")))),
                   ok(raw("evalx", expr, lam(q, proj(R, "0", "Result", "Ok")))))
    probes = (cv, run(nf, v), run(sf, v, w), run(pf, v, w), run(kf, v, c))
    body = raw("interpr", lam(v, lam(w, lam(c, raw("tuple", probes)))))
    return raw("evalraw", expr, lam(q, R), body)


@leaf("Expression::degree")
def m_exprdeg(I, st, args, x, fn, ts):
    f = D(I, st, args[1])
    if not isinstance(getobj(f), (Closure, FnItem, Builtin)):
        return NotImplemented
    expr = D(I, st, args[0])
    q = fresh("q")
    ob = len(I.obl)
    R = D(I, st, I.apply(f, [q], st.fork(), x["sp"]))
    for o in I.obl[ob:]:
        o.ctx = [(q, expr)] + o.ctx
    v = raw("nat", "degx", expr, lam(q, proj(R, "0", "Result", "Ok")))
    if isv(R, "Result", "Ok") is TRUE:
        return ok(v)
    bad = raw("anyq", expr, lam(q, not_(isv(R, "Result", "Ok"))))
    return ite(bad, err(raw("qerr", expr, lam(q, proj(R, "0", "Result", "Err")))), ok(v))


@model("Vec::resize_with")
def m_resize_with(I, st, args, x, fn, ts):
    v = D(I, st, args[0])
    d = sub(args[1], slen(v))
    f = args[2]
    t = collect_seq(I, st, TakeIt(MapIt(RepeatIt(UNIT), mkobj(Builtin(lambda I, s, a: I.apply(f, [], s)))), max_(d, ZERO)))
    c = pos(neg(d))
    wrself(I, st, args[0], ite(c, slice_(v, ZERO, args[1]), concat(v, t)))
    return UNIT


@model("Entry::and_modify")
def m_and_modify(I, st, args, x, fn, ts):
    e = args[0]
    o = selfref(I, st, proj(e, "map"))
    k = proj(e, "key")
    g = isv(mget(I.rd(st, o.cell, o.path), k), "Option", "Some")

    def hit(s):
        I.apply(args[1], [mkref(o.cell, o.path + (("mk", k),))], s)
        return UNIT
    branch(I, st, g, hit, lambda s: UNIT)
    return e


@model("Iterator::max_by_key", "Iterator::min_by_key")
def m_max_by_key(I, st, args, x, fn, ts):
    mx = fn["path"].endswith("max_by_key")
    s = collect_seq(I, st, selfit(I, st, args, x))
    n = slen(s)
    h = at(s, ZERO)
    c, k = I.cell(st, h), I.cell(st, D(I, st, I.apply(args[1], [mkref(I.cell(st, h), ())], st)))

    def step(i, q):
        j = D(I, q, I.apply(args[1], [mkref(I.cell(q, i), ())], q))
        o = q.store.get(k)
        # the last of equal maxima, the first of equal minima
        b = not_(lt(j, o)) if mx else lt(j, o)
        q.store.set(c, ite(b, i, q.store.get(c)))
        q.store.set(k, ite(b, j, o))
    I.consume(SeqIt(s), step, st, None, x["sp"])
    return ite(eq0(n), NONE, some(st.store.get(c)))


@model("Option::is_none_or")
def m_is_none_or(I, st, args, x, fn, ts):
    v = D(I, st, args[0])
    return branch(I, st, isv(v, "Option", "Some"), lambda s: I.apply(args[1], [proj(v, "0", "Option", "Some")], s), lambda s: TRUE)


@model("Ord::clamp")
def m_clamp(I, st, args, x, fn, ts):
    return min_(max_(D(I, st, args[0]), D(I, st, args[1])), D(I, st, args[2]))


@model("Ordering::then_with")
def m_then_with(I, st, args, x, fn, ts):
    a = D(I, st, args[0])
    return branch(I, st, isv(a, "Ordering", "Equal"), lambda s: I.apply(args[1], [], s), lambda s: a)


@model("Ordering::is_eq", "Ordering::is_ne", "Ordering::is_lt", "Ordering::is_gt", "Ordering::is_le", "Ordering::is_ge")
def m_ord_is(I, st, args, x, fn, ts):
    a = D(I, st, args[0])
    q = fn["path"].rsplit("_", 1)[1]
    b = isv(a, "Ordering", {"e": "Equal", "l": "Less", "g": "Greater"}[q[0] if q != "ne" else "e"])
    if q in ("ne",):
        return not_(b)
    if q in ("le", "ge"):
        return not_(isv(a, "Ordering", "Greater" if q == "le" else "Less"))
    return b

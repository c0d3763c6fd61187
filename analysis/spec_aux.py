"""Mock prover (C25) and serialization (C26)."""
import random
from protocol import *
from circuit import rotS, qS, some, NONE, Ok, Err, Circuit, Col
from spec_protocol import fires, interp_
import spec_basic as B
import ri


# ================================================================== C25
def mock():
    I = newinterp()
    return H.run("prove", selfty="MockProver", I=I, args=prover_args(I), names=PROVE)


class Mock:
    """a circuit whose gates vanish on every row; break_ makes one gate nonzero at one row"""

    def __init__(self, ctx, k, shape):
        R = self.R = random.Random(repr((ctx.seed, "mock", k, shape)))
        self.r = once(ctx, "mock", mock)
        self.m = ctx.model("mock/%s/%s" % (shape, k))
        c = self.c = Circuit((ctx.seed, "mock", k), shape)
        if k % 2:
            # oracles of different kinds may share a label
            for a, b in zip(c.fixed, c.wit):
                self.relabel(a, b.label)
        self.aux = []
        for i, g in enumerate(c.gates):
            r = R.choice([0, 1, -1, 2, -3])
            kind = R.choice(["Witness", "Instance", "Fixed"])
            col = Col("aux%d" % i, [0], {r})
            ys = [c.evt(g, pow(c.wg, j, PRIME)) for j in range(c.N)]
            # aux(omega^(j+r)) = gate(omega^j)
            col.rows = [ys[(j - r) % c.N] for j in range(c.N)]
            self.fit(col)
            lst = {"Witness": c.wit, "Instance": c.inst, "Fixed": c.fixed}[kind]
            lst.insert(R.randrange(len(lst) + 1), col)
            c.gates[i] = R.choice([("s", g, ("n", ("q", qS(col.label, r, kind), col, r))),
                                   ("s", g, ("k", ("q", qS(col.label, r, kind), col, r), Fe(PRIME - 1))),
                                   ("p", ("c", Fe(5)), ("s", g, ("n", ("q", qS(col.label, r, kind), col, r))))])
            self.aux.append((col, r))
        self.tag = "%s#%s" % (shape, k)

    def relabel(self, col, label):
        def go(t):
            if t[0] == "q" and t[2] is col:
                return ("q", qS(label, t[3], "Fixed"), col, t[3])
            return tuple([t[0]] + [go(x) if isinstance(x, tuple) else x for x in t[1:]])
        self.c.gates = [go(g) for g in self.c.gates]
        col.label = label

    def fit(self, col):
        col.poly = interp_([pow(self.c.wg, j, PRIME) for j in range(self.c.N)], col.rows)

    def rejected(self, why=False):
        self.c.install(self.m)
        self.m.memo.clear()
        for o in self.r.obl:
            if fires(self, o):
                return "%s at %s" % (o.kind, o.src.rsplit(":", 1)[0])
        v = self.m.ev(self.r.val)
        return "Err" if self.m.variant(v, "Result") == "Err" else None


def c25(ctx):
    acc = Acc(ctx)
    a = "MockProver::prove"
    for k in range(4 if ctx.tier == "quick" else 30):
        for shape in ("gates", "gates2") + (() if k else ("gates/N=128,big=1,gates=24",)):
            w = Mock(ctx, k, shape)
            large = "/" in shape
            ok_ = []

            def honest():
                x = w.rejected()
                ok_.append(not x)
                return not x, "rejects an assignment that satisfies every gate: %s (%s)" % (x, w.tag)
            acc.do("an assignment satisfying every gate on every row is accepted", a, honest)
            if not ok_ or not ok_[0]:
                continue
            N = w.c.N
            for i, (col, r) in enumerate(w.aux):
                if large and i not in (0, len(w.aux) // 2, len(w.aux) - 1):
                    continue
                for j in sorted({0, N - 1, w.R.randrange(N), w.c.u}) if not large else (w.R.randrange(N - 2), N - 1):
                    def bad():
                        q = (j + r) % N
                        col.rows[q] = (col.rows[q] + 1) % PRIME
                        w.fit(col)
                        try:
                            return bool(w.rejected()), "gate %d of %d is nonzero at row %d only, and accepted (%s)" % (i, len(w.aux), j, w.tag)
                        finally:
                            col.rows[q] = (col.rows[q] - 1) % PRIME
                            w.fit(col)
                    nm = "first row" if j == 0 else "last row" if j == N - 1 else "inner row"
                    acc.do("a gate violated at one %s is rejected" % nm, a, bad)

            if large:
                continue
            for kind in ("Witness", "Instance", "Fixed"):
                def gone():
                    # a column of zeros, were it there
                    g, r = w.R.randrange(len(w.c.gates)), w.R.choice([0, 1, -1])
                    old, z = w.c.gates[g], Col("nosuchcolumn", [0], {r})
                    z.rows = [0] * N
                    w.c.gates[g] = ("s", old, ("q", qS(z.label, r, kind), z, r))
                    try:
                        return bool(w.rejected()), "gate %d queries a %s column that was not given, and is accepted (%s)" % (g, kind, w.tag)
                    finally:
                        w.c.gates[g] = old
                acc.do("a gate querying a missing column is rejected", a, gone)

            def unconf():
                w.c.install(w.m)
                w.m.memo.clear()
                w.m.geterr = "gate"
                v = any(fires(w, o) for o in w.r.obl) or w.m.variant(w.m.ev(w.r.val), "Result") == "Err"
                w.m.geterr = None
                return v, "an unconfigured gate is accepted"
            acc.do("an unconfigured gate is rejected", a, unconf)
    acc.finish()


# ================================================================== C26
MODES = (("serialize", "deserialize", "c"), ("serialize_uncompressed", "deserialize_uncompressed", "u"),
         ("serialize_unchecked", "deserialize_unchecked", "u"))
FMT = {x: f for s, d, f in MODES for x in (s, d)}


class Serial:
    """a byte stream as the list of (format, value) written to it; failat: the write or read that fails"""

    def __init__(self, ctx, tag, failat=None):
        m = self.m = ctx.model(tag)
        self.failat = failat

        def stream(v):
            if not (isinstance(v, S) and v.n == "stream"):
                raise Imprecise("not a stream: %s" % v)
            return v

        def meth(nm):
            x = nm.rsplit("::", 1)[-1]
            return x if x in FMT or x == "serialized_size" or x == "uncompressed_size" else None

        def call(mm, t, env):
            nm = t.a[0]
            if not isinstance(nm, str) or not meth(nm):
                return None
            args = t.a[1] if len(t.a) > 1 and isinstance(t.a[1], tuple) else t.a[1:]
            a = [mm.ev(x, env) for x in args]
            x = meth(nm)
            if x.endswith("_size"):
                return sum(mm.h("size", x) % 1000 + 1 for x in atoms(a[0]))
            if x.startswith("serialize"):
                s = stream(a[1])
                return Err(L("io")) if len(s.f["items"]) == self.failat else Ok(S("()", "", {}))
            s = stream(a[0])
            it, p = s.f["items"], s.f["pos"]
            if p >= len(it) or p == self.failat or it[p][0] != FMT[x]:
                return Err(L("malformed"))
            return Ok(it[p][1])
        m.hooks["call"] = call

        def callmut(mm, t, env):
            nm, ix, args = t.a[0], t.a[1], t.a[2]
            if not isinstance(nm, str) or not meth(nm):
                return None
            a = [mm.ev(x, env) for x in args]
            x = meth(nm)
            if x.startswith("serialize") and ix == 1:
                s = stream(a[1])
                return S("stream", "", {"items": s.f["items"] + ((FMT[x], a[0]),), "pos": s.f["pos"]})
            if x.startswith("deserialize") and ix == 0:
                s = stream(a[0])
                return S("stream", "", dict(s.f, pos=s.f["pos"] + 1))
            return None
        m.hooks["callmut"] = callmut


def stream0(items=()):
    return S("stream", "", {"items": tuple(items), "pos": 0})


def value(I, ty, path=()):
    """a value of the struct ty whose components are distinct atoms; structs of the crate are expanded"""
    from interp import short
    f = {}
    for x in I.adts[ty]["variants"][0][1]:
        t = I.ty(x[1], {})
        nm = t[1] if t[0] == "adt" else ""
        if nm.endswith("PhantomData"):
            f[x[0]] = S("PhantomData", "", {})
        elif nm in I.adts and not I.adts[nm]["enum"]:
            f[x[0]] = value(I, nm, path + (x[0],))
        else:
            f[x[0]] = L("field", *path, x[0])
    return S(short(ty), "", f)


def atoms(v):
    """components of a value, without the parts that carry no data"""
    if isinstance(v, S):
        return [] if v.n == "PhantomData" else [a for f in v.f.values() for a in atoms(f)]
    return [str(v)]


def proof_types(ctx):
    """ADTs with a hand-written or derived serialization in the crate"""
    I = Interp(H.get(), set(H.BASE_LEAVES))
    out = []
    for p, l in I.bypath.items():
        if p.split("::")[-1] == "serialize":
            for b in l:
                if b.get("impl_self") is not None:
                    out.append(H.selfname(I, b))
    return I, out


def c26(ctx):
    from interp import short
    I, tys = proof_types(ctx)
    for need in ("turbo_plonk::TPProof", "multiproof::Proof"):
        if need not in tys:
            ctx.put("serialization exists", need, VIOLATED, "anchor missing: %s has no serialize" % need)
    acc = Acc(ctx)
    for ty in sorted(set(str(t) for t in tys)):
        adt = I.adts.get(ty)
        if adt is None or adt["enum"]:
            ctx.put("components are known", ty, UNDECIDED, "not a struct of the crate")
            continue
        whole = value(I, ty)
        parts = atoms(whole)
        sh = short(ty)
        for s, d, fmt in MODES:
            def mode():
                if not B.has(s, sh) or not B.has(d, sh):
                    # the library's default forwards to the compressed form
                    return
                rs = once(ctx, (s, ty), lambda: B.call(ctx, s, sh, pos=[sym("self"), sym("writer")]))
                rd = once(ctx, (d, ty), lambda: B.call(ctx, d, sh, pos=[sym("reader")]))
                a1, a2 = "%s::%s" % (sh, s), "%s::%s" % (sh, d)
                wr = [p["pat"].get("var", "").split("#")[0] for p in rs.body["params"]]
                items = []

                def wworld(k=None):
                    w = Serial(ctx, (s, ty), k)
                    w.m.syms["self"], w.m.syms["writer"] = whole, stream0()
                    return w

                def rworld(k=None):
                    w = Serial(ctx, (d, ty), k)
                    w.m.syms["reader"] = stream0(items)
                    return w

                def writes():
                    w = wworld()
                    if w.m.variant(w.m.ev(rs.val), "Result") != "Ok":
                        return False, "an error although every write succeeds"
                    items.extend(written(w, rs))
                    got = [a for _, x in items for a in atoms(x)]
                    return sorted(got) == sorted(parts), "writes %s, components are %s" % (got, parts)
                acc.do("every component is written once", a1, writes)

                def trip():
                    w = rworld()
                    m = w.m
                    v = m.ev(rd.val)
                    if m.variant(v, "Result") != "Ok":
                        return False, "an error on what %s wrote" % s
                    v = m.proj(v, "0", "Ok")
                    bad = []

                    def cmp(x, y):
                        for f, z in y.f.items():
                            g = m.proj(x, f)
                            if isinstance(z, S):
                                cmp(g, z) if z.n != "PhantomData" else None
                            elif str(g) != str(z):
                                bad.append("%s reads back %s" % (f, g))
                    cmp(v, whole)
                    return not bad, "; ".join(bad)
                acc.do("every component is read back into its place", a2, trip)
                for k in range(len(items)):
                    acc.do("a failing write is reported", a1, lambda: (
                        (lambda w: w.m.variant(w.m.ev(rs.val), "Result") == "Err")(wworld(k)), "component %d" % k))
                    acc.do("a malformed component is an error", a2, lambda: (
                        (lambda w: w.m.variant(w.m.ev(rd.val), "Result") == "Err")(rworld(k)), "component %d" % k))
                acc.do("does not panic", a1, lambda: not any(fires(wworld(), o) for o in rs.obl))
                for k in [None] + list(range(len(items))):
                    acc.do("does not panic on any input", a2, lambda: not any(fires(rworld(k), o) for o in rd.obl))
            ctx.guard(s, ty, mode)

        def size():
            if not B.has("serialized_size", sh):
                return
            r = B.call(ctx, "serialized_size", sh, pos=[sym("self")])
            an = sh + "::serialized_size"

            def f():
                w = Serial(ctx, ("size", ty))
                m = w.m
                m.syms["self"] = whole
                want = sum(m.h("size", x) % 1000 + 1 for x in parts)
                got = m.nat(m.ev(r.val))
                return got == want, "%s, expected %s" % (got, want)
            acc.do("size is the sum over the components", an, f)
        ctx.guard("size", ty, size)
    acc.finish()


def written(w, r):
    """items in the writer after the last write"""
    m = w.m
    best = ()
    for e in r.events:
        if e.kind.startswith("call:") and e.kind.rsplit("::", 1)[-1] in FMT:
            nm = e.kind[5:]
            ws = m.ev(e.args[1])
            it = ws.f["items"] + ((FMT[nm.rsplit("::", 1)[-1]], m.ev(e.args[0])),)
            if len(it) > len(best):
                best = it
    return list(best)

"""C32 copies and comparisons, C33 keys, C34 statistics."""
import re
import harness as H
from interp import Interp, short, mkref
from frame import *
from protocol import *
from circuit import *
from spec_basic import bodies, byref, panics
from spec_honest import MoLink
from ri import PRIME, Fe, S, L, Str
from terms import *
import terms as TM


# ================================================================== C32
def concrete(v):
    return v.op == "struct"


def c32(ctx):
    I0 = Interp(H.get(), set(H.BASE_LEAVES))
    n = 0
    for p, l in sorted(I0.bypath.items()):
        for b in l:
            if p.split("::")[-1] != "clone" or b.get("impl_self") is None:
                continue
            ty = H.selfname(I0, b)
            if not isinstance(ty, str) or ty not in I0.adts:
                continue
            n += 1
            copy(ctx, I0, b, ty)
    if n < 15:
        ctx.put("copies", "Clone", VIOLATED, "anchor: only %d Clone implementations found" % n)
    for ty in ("Sign", "Rotation"):
        ctx.guard("comparison", ty, lambda: compare(ctx, ty))


def copy(ctx, I0, b, ty):
    a = I0.adts[ty]
    anchor = "%s::clone" % short(ty)

    def go():
        for var in a["variants"]:
            fs = [(f[0], sym("%s_%s" % (var[0], f[0]))) for f in var[1]]
            for f, (nm, v) in zip(var[1], fs):
                t = I0.ty(f[1], {})
                if I0.is_num_ty(t):
                    TM.NUMSYMS.add(v)
            me = struct(short(ty), var[0] if a["enum"] else "", fs)
            r = ctx.run(None, args={pn(b, 0): byref(me)}, I=Interp(H.get(), set(H.BASE_LEAVES)), body=b)
            what = "copy carries every component" + (" (%s)" % var[0] if a["enum"] else "")
            if not fs:
                ctx.eq(what, anchor, r.val, me)
            for nm, v in fs:
                kw = (short(ty), var[0]) if a["enum"] else ()
                ctx.eq(what + ": " + nm if fs else what, anchor, proj(r.val, nm, *kw), v)
            if a["enum"]:
                ctx.true("copy keeps the variant", anchor, isv(r.val, short(ty), var[0]))
            panics(ctx, "copying does not panic", anchor, r)
    ctx.guard("copy carries every component", anchor, go)


def pn(b, j):
    p = b["params"][j]
    return p["pat"].get("name") or p["pat"].get("var", "a%d" % j).split("#")[0]


def compare(ctx, ty):
    I = Interp(H.get(), set(H.BASE_LEAVES))
    sgn = [struct("Sign", v, []) for v in ("Plus", "Minus")]
    vals = sgn if ty == "Sign" else [struct("Rotation", "", [("degree", const(d)), ("sign", s)]) for d in (0, 1, 2, 3, 7, 1 << 8, 1 << 16, (1 << 16) + 1, 1 << 32, (1 << 32) + 1, 1 << 48) for s in sgn]

    def run(name, a, b):
        bs = bodies(I, name, ty)
        if len(bs) != 1:
            raise Analysis("anchor %s::%s: %d candidates" % (ty, name, len(bs)))
        r = ctx.run(None, args={pn(bs[0], 0): byref(a), pn(bs[0], 1): byref(b)}, I=Interp(H.get(), set(H.BASE_LEAVES)), body=bs[0])
        return r.val

    def variant(v, opt=False):
        if opt:
            v = proj(v, "0", "Option", "Some")
        if v.op != "struct" or v.a[0] != "Ordering":
            raise Imprecise("ordering %s" % safe_pp(v))
        return {"Less": -1, "Equal": 0, "Greater": 1}[v.a[1]]
    acc = Acc(ctx)
    C = {}
    for i, x in enumerate(vals):
        for j, y in enumerate(vals):
            at = "%s / %s" % (safe_pp(x), safe_pp(y))

            def eqf():
                v = run("eq", x, y)
                if v is not TRUE and v is not FALSE:
                    raise Imprecise("equality %s" % safe_pp(v))
                return (v is TRUE) == (i == j), at

            def cmpf():
                C[i, j] = variant(run("cmp", x, y))
                return (C[i, j] == 0) == (i == j), at

            def pcf():
                return variant(run("partial_cmp", x, y), True) == C[i, j], at
            acc.do("equal exactly when direction and distance are", "%s::eq" % ty, eqf)
            acc.do("ordered as equal exactly when equal", "%s::cmp" % ty, cmpf)
            acc.do("partial order is the total order", "%s::partial_cmp" % ty, pcf)
    k = range(len(vals))
    if len(C) == len(vals) ** 2:
        acc.do("order is antisymmetric", "%s::cmp" % ty, lambda: all(C[i, j] == -C[j, i] for i in k for j in k))
        acc.do("order is transitive", "%s::cmp" % ty, lambda: all(not (C[i, j] < 0 and C[j, l] < 0) or C[i, l] < 0 for i in k for j in k for l in k))
    acc.finish()


# ================================================================== C33
def c33(ctx):
    for ty in ("TurboPlonk", "MockProver"):
        ctx.guard("keys", ty, lambda: keys(ctx, ty))


def hiding(ctx):
    """the largest hiding bound any commitment of the prover asks for"""
    hs = set()
    w = World(ctx, 3, "all2")
    w.prove()
    pa, _ = w.pevent(w.r, "Multiopen::prove")
    w.load(w.proof)
    va, _ = w.pevent(w.v, "Multiopen::verify")
    l = MoLink(w, pa, va)
    l.prove()
    for m in (w.m, l.m):
        for cs in m.coms.values():
            for _, hb, _ in cs:
                if m.variant(hb, "Option") == "Some":
                    hs.add(m.nat(m.proj(hb, "0", "Some")))
    return max(hs)


def only(r, name):
    es = [e for e in r.events if e.kind == "call:" + name]
    if len(es) != 1 or es[0].ctx or es[0].gpc is not TRUE:
        raise Analysis("anchor: %d unconditional calls of %s" % (len(es), name))
    return es[0].args


def keys(ctx, ty):
    def one(name):
        bs = bodies(Interp(H.get(), set()), name, ty)
        if len(bs) != 1:
            raise Analysis("anchor %s::%s: %d candidates" % (ty, name, len(bs)))
        b = bs[0]
        return H.run(None, body=b, names=["max_degree", "rng"] if len(b["params"]) == 2 else ["srs"])
    acc = Acc(ctx)
    a = ty + "::universal_setup"
    r = one("universal_setup")
    ctx.see(r.I)
    args = only(r, "PolynomialCommitment::setup")
    res = calls_in(r.val, "PolynomialCommitment::setup")
    acc.do("setup is for the requested degree", a, lambda: (args[0] is sym("max_degree"), safe_pp(args[0])))
    acc.do("setup draws from the caller's randomness", a, lambda: (args[2].op == "struct" and args[2].a[0] == "Rng" and dict(args[2].a[2])["base"] is sym("rng"), safe_pp(args[2])))
    result(ctx, acc, a, r, res, lambda k, o: o)
    a = ty + "::prepare_keys"
    r = one("prepare_keys")
    ctx.see(r.I)
    args = only(r, "PolynomialCommitment::trim")
    res = calls_in(r.val, "PolynomialCommitment::trim")
    acc.do("keys are trimmed from the given parameters", a, lambda: (args[0] is sym("srs"), safe_pp(args[0])))
    acc.do("keys support every degree the parameters do", a, lambda: (
        args[1].op == "call" and args[1].a[0] == "PCUniversalParams::max_degree" and sym("srs") in args[1].a[1], safe_pp(args[1])))

    def hb():
        if not is_const(args[2]):
            raise Imprecise("hiding bound %s" % safe_pp(args[2]))
        return const_val(args[2]) >= hiding(ctx), "keys support hiding bound %s, the prover asks for %s" % (const_val(args[2]), hiding(ctx))
    acc.do("keys support the prover's hiding bound", a, hb)
    acc.do("keys are not restricted to fixed degree bounds", a, lambda: (isv(args[3], "Option", "None") is TRUE, safe_pp(args[3])))
    result(ctx, acc, a, r, res, lambda k, o: proj(o, k))
    acc.finish()


def calls_in(t, name):
    out, seen, st = [], set(), [t]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            st.extend(x)
        elif isinstance(x, T) and x.id not in seen:
            seen.add(x.id)
            if x.op == "call" and x.a and x.a[0] == name:
                out.append(x)
            st.extend(y for y in x.a if isinstance(y, (T, tuple)))
    return out


def result(ctx, acc, a, r, res, part):
    """the call's Ok value is handed out, its Err is reported, nothing panics"""
    if len(res) != 1:
        raise Analysis("anchor: result does not come from one call (%d)" % len(res))
    c = res[0]
    for k in range(4):
        m = ctx.model("%s/%d" % (a, k))
        good = k % 2 == 0
        okv = [L("first"), L("second")]
        m.hooks["call"] = lambda mm, t, env: ((Ok(S("()", "", {"0": okv[0], "1": okv[1]})) if good else Err(L("pcerr"))) if t is c else None)

        def f():
            if m.ev(r.pc) is not True:
                return False, "does not return"
            v = m.ev(r.val)
            if m.variant(v, "Result") != ("Ok" if good else "Err"):
                return False, "library result %s becomes %s" % ("Ok" if good else "Err", m.variant(v, "Result"))
            if good:
                o = m.proj(v, "0", "Ok")
                return all(m.key(m.proj(o, str(i))) == m.key(okv[i]) for i in range(2)), "other keys than the library's are handed out"
            return True
        acc.do("library result is handed out, library error is reported", a, f)
    panics(ctx, "does not panic", a, r)


# ================================================================== C34
LINES = [("witness_commitments", "witness", "commit", None), ("witness_evals", "witness", "eval", None),
         ("fixed_oracle_evals", "fixed", "eval", None), ("table_oracle_evals", "table", "eval", None),
         ("permutation_oracle_evals", "permutation", "eval", None), ("lookup_commitments", "lookup", "commit", " z "),
         ("lookup_evals", "lookup", "eval", " z "), ("quotient_chunk_commitments", "quotient", "commit", None),
         ("quotient_chunks_evals", "quotient", "eval", None)]


def c34(ctx):
    acc = Acc(ctx)

    def go():
        I0 = Interp(H.get(), set(H.BASE_LEAVES))
        ty = [p for p in I0.adts if short(p) == "TPProof"]
        if len(ty) != 1:
            raise Analysis("anchor TPProof: %d candidates" % len(ty))
        rs = {}
        for nm in ("info", "cumulative_info"):
            bs = bodies(I0, nm, "TPProof")
            if len(bs) != 1:
                raise Analysis("anchor TPProof::%s: %d candidates" % (nm, len(bs)))
            rs[nm] = H.run(None, body=bs[0], names=["self"])
            ctx.see(rs[nm].I)
        for k in range(6):
            m = ctx.model("stats/%d" % k)
            R = m.rng if hasattr(m, "rng") else __import__("random").Random(k)
            cnt = {"Commitment": 0, "Field": 0}
            lens = {}
            pool = R.sample(range(3 if k else 0, 60), 40)

            def build(t, path):
                a = I0.adts[t]
                f = {}
                for x in a["variants"][0][1]:
                    ft = I0.ty(x[1], {})
                    f[x[0]] = leaf(ft, x[0], path)
                return S(short(t), "", f)

            def kind(t):
                s = str(t)
                if "Commitment" in s and "PCCommitment" not in s and t[0] != "adt":
                    return "Commitment"
                if t[0] == "param":
                    return "Field"
                return None

            def leaf(t, nm, path):
                if t[0] == "adt" and t[1] in I0.adts and not I0.adts[t[1]]["enum"]:
                    return build(t[1], path + (nm,))
                e = elem(I0, t)
                if e is not None:
                    n = pool.pop()
                    kd = kind(e)
                    if kd is None:
                        raise Imprecise("component %s of type %s" % (nm, e))
                    cnt[kd] += n
                    lens[nm] = n
                    return [L("el", nm, i) for i in range(n)]
                kd = kind(t)
                if kd and not is_proof(t):
                    cnt[kd] += 1
                return L("one", nm)
            m.syms["self"] = build(ty[0], ())

            def text(nm):
                v = m.ev(rs[nm].val)
                if not isinstance(v, Str):
                    raise Imprecise("text of %s" % nm)
                return v.s

            def cumulative():
                t = text("cumulative_info")
                d = shown(t)
                return cnt["Commitment"] in d and cnt["Field"] in d, "shows %s, the proof has %d commitments and %d field elements" % (d, cnt["Commitment"], cnt["Field"])
            acc.do("totals count every commitment and field element", "TPProof::cumulative_info", cumulative)

            def lines():
                for l in text("cumulative_info").split("\n"):
                    d = shown(l)
                    if len(d) == 1:
                        c, f = "commitment" in l.lower(), "field element" in l.lower()
                        if c != f and d[0] != cnt["Commitment" if c else "Field"]:
                            return False, l.strip()
                return True
            acc.do("totals are labelled as what they count", "TPProof::cumulative_info", lines)

            def per():
                d = shown(text("info"))
                bad = [n for n, v in lens.items() if v not in d]
                return not bad, "number of %s is not shown" % bad
            acc.do("statistics show the size of every component", "TPProof::info", per)

            def labelled():
                for l in text("info").split("\n"):
                    d = shown(l)
                    for f, a, b, no in LINES:
                        lo = " " + l.lower() + " "
                        if f in lens and len(d) == 1 and a in lo and b in lo and not (no and no in lo):
                            if d[0] != lens[f]:
                                return False, "%s: %d, the proof has %d" % (l.strip(), d[0], lens[f])
                return True
            acc.do("statistics are labelled as what they count", "TPProof::info", labelled)
        for nm in rs:
            panics(ctx, "does not panic", "TPProof::" + nm, rs[nm])
    ctx.guard("statistics", "TPProof::info", go)
    acc.finish()


def shown(t):
    return [int(x) for x in re.findall(r"(?<![\w.])\d+(?![\w.])", t)]


def elem(I, t):
    if t[0] == "adt" and short(t[1]) == "Vec":
        return t[2]
    return None


def is_proof(t):
    return "Proof" in str(t) and "Commitment" not in str(t).replace("PolynomialCommitment", "")

"""Specifications of the leaf components: expressions, rotations, oracles, gates, commitments, transcript generator."""
from terms import *
import random
import terms as TM
import harness as H
import ri
from frame import *
from contracts import srot
from relational import N, DOM, nat, field, newinterp
from models import pv, hom
from interp import Interp, mkref, Analysis, short, getobj, Ref


def bodies(I, name, selfty):
    """bodies of methods `name` of type selfty (inherent or trait impl)"""
    out = []
    for p, l in I.bypath.items():
        if p == name or p.endswith("::" + name):
            for b in l:
                if b.get("impl_self") is not None and short(str(H.selfname(I, b))) == selfty:
                    out.append(b)
                elif p.split("::")[-2:-1] == [selfty] and b not in out:
                    out.append(b)
    return out


def has(name, selfty):
    return bool(bodies(Interp(H.get(), set()), name, selfty))


def call(ctx, name, selfty, contracts=False, leaves=(), trait_default=None, **args):
    I = newinterp(leaves) if contracts else Interp(H.get(), set(leaves) | H.BASE_LEAVES)
    bs = bodies(I, name, selfty)
    if not bs and trait_default:
        bs = H.find(I, trait_default)
    if len(bs) != 1:
        raise Analysis("anchor %s::%s: %d candidates" % (selfty, name, len(bs)))
    # positional arguments, independent of parameter names
    b = bs[0]
    a = {}
    pos_ = args.pop("pos", None)
    if pos_ is not None:
        for p, v in zip(b["params"], pos_):
            nm = pname(p)
            if v is not None:
                a[nm] = v
    return ctx.run(None, args=a, I=I, body=b)


def pname(p):
    return p["pat"].get("name") or p["pat"].get("var", "a").split("#")[0]


def byref(v):
    return lambda I, st: mkref(I.cell(st, v), ())


def outself(r):
    """value of the &mut receiver (first reference parameter) afterwards"""
    return r.out[pname(r.body["params"][0])]


def allow(*calls):
    def mk(m, k):
        m.okcalls |= set(calls)
    return mk


# ================================================================== C15
def c15(ctx, virtual=True):
    fns = [sym(n) for n in ("constant_fn", "oracle_fn", "negated_fn", "sum_fn", "product_fn", "scaled_fn")]
    s = sym("self")
    V = lambda v, f: proj(s, f, "Expression", v)
    is_ = lambda v: isv(s, "Expression", v)
    A = lambda i, *a: raw("apply", fns[i], tuple(a))

    def ev():
        r = call(ctx, "evaluate", "Expression", pos=[s] + fns)
        rec = lambda e: raw("call", "Expression::evaluate", (e,) + tuple(fns))
        spec = ite(is_("Constant"), A(0, V("Constant", "0")), ite(is_("Oracle"), A(1, V("Oracle", "0")), ite(
            is_("Negated"), A(2, rec(V("Negated", "0"))), ite(
                is_("Sum"), A(3, rec(V("Sum", "0")), rec(V("Sum", "1"))), ite(
                    is_("Product"), A(4, rec(V("Product", "0")), rec(V("Product", "1"))),
                    A(5, rec(V("Scaled", "0")), V("Scaled", "1")))))))
        ctx.eq("evaluate is the compositional interpretation", "Expression::evaluate", r.val, spec,
               mk=allow("Expression::evaluate"), n=24)
        panics(ctx, "evaluate cannot panic", "Expression::evaluate", r)
    ctx.guard("evaluate", "Expression::evaluate", ev)

    def dg():
        r = call(ctx, "degree", "Expression", pos=[s, sym("oracle_fn")])
        rec = lambda e: raw("call", "Expression::degree", (e, sym("oracle_fn")))
        okp = lambda t: proj(t, "0", "Result", "Ok")
        iok = lambda t: isv(t, "Result", "Ok")

        def two(v, f):
            a, b = rec(V(v, "0")), rec(V(v, "1"))
            return ite(and_(iok(a), iok(b)), ok(f(okp(a), okp(b))), err(sym("e")))
        spec = ite(is_("Constant"), ok(ZERO), ite(is_("Oracle"), A(1, V("Oracle", "0")), ite(
            is_("Negated"), rec(V("Negated", "0")), ite(
                is_("Sum"), two("Sum", max_), ite(
                    is_("Product"), two("Product", add), rec(V("Scaled", "0")))))))

        def mk(m, k):
            m.okcalls.add("Expression::degree")
            m.leaf.append(lambda m, p: m.h("dg", p) % 7 if p[-1] == "0" and p[-2] == "Ok" else None)
        ctx.eq("degree succeeds exactly when its parts do", "Expression::degree", bool01(isv(r.val, "Result", "Ok")),
               bool01(isv(spec, "Result", "Ok")), mk=mk, n=24)
        ctx.eq("degree is the compositional bound", "Expression::degree", proj(r.val, "0", "Result", "Ok"),
               proj(spec, "0", "Result", "Ok"), mk=mk, ok=isv(spec, "Result", "Ok"), n=24)
    ctx.guard("degree", "Expression::degree", dg)
    operators(ctx, "Expression", "OracleQuery")
    if virtual:
        operators(ctx, "VirtualExpression", "VirtualQuery")
    visit_leafcheck(ctx)


def bool01(c):
    return num(raw("ite", c, ONE, ZERO)) if c is not TRUE and c is not FALSE else (ONE if c is TRUE else ZERO)


def panics(ctx, name, anchor, r, mk=None, allow_=()):
    """no potential panic of the run can fire"""
    for o in r.obl:
        cond = and_(o.gpc, o.cond)
        if cond is FALSE:
            continue
        if o.kind == "opaque-loop":
            ctx.put(name, anchor, UNDECIDED, "a loop the analysis does not follow")
            continue
        ctx.true(name + " (%s)" % o.kind, anchor, not_(cond), mk=mk, detail="panic guard")
    if not r.obl:
        ctx.put(name, anchor, HOLDS, "no panicking operation")


def tree(t, env=None):
    """ring element denoted by an expression term built from enum constructors; queries become atoms"""
    if t.op == "struct":
        f = dict(t.a[2])
        v = t.a[1]
        if v == "Constant":
            return f["0"]
        if v == "Oracle":
            return raw("evalx", raw("list", (f["0"],)), raw("lam", 1, raw("bv", 1)))
        if v == "Negated":
            return neg(tree(f["0"]))
        if v == "Sum":
            return add(tree(f["0"]), tree(f["1"]))
        if v == "Product":
            return mul(tree(f["0"]), tree(f["1"]))
        if v == "Scaled":
            return mul(tree(f["0"]), f["1"])
    if t.op == "ite":
        return num(raw("ite", t.a[0], tree(t.a[1]), tree(t.a[2])))
    return raw("evalx", t, raw("lam", 1, raw("bv", 1)))


def _e(ty, v, *a):
    return ri.S(ty, v, {str(i): x for i, x in enumerate(a)})


CONSTS = (0, 1, -1, 2, -2, 7)
SHAPES = [lambda m, ty, w, c=c: _e(ty, "Constant", ri.Fe(c)) for c in CONSTS] + [
    lambda m, ty, w: ri.L(w),
    lambda m, ty, w: _e(ty, "Oracle", ri.L(w, "q")),
    lambda m, ty, w: _e(ty, "Oracle", ri.L("samequery")),
    lambda m, ty, w: _e(ty, "Negated", ri.L(w, "n")),
    lambda m, ty, w: _e(ty, "Negated", _e(ty, "Constant", ri.Fe(1))),
    lambda m, ty, w: _e(ty, "Negated", _e(ty, "Negated", _e(ty, "Oracle", ri.L("samequery")))),
    lambda m, ty, w: _e(ty, "Negated", _e(ty, "Oracle", ri.L("samequery"))),
    lambda m, ty, w: _e(ty, "Sum", ri.L(w, "l"), ri.L(w, "r")),
    lambda m, ty, w: _e(ty, "Sum", _e(ty, "Oracle", ri.L("samequery")), _e(ty, "Constant", ri.Fe(0))),
    lambda m, ty, w: _e(ty, "Product", ri.L(w, "l"), ri.L(w, "r")),
    lambda m, ty, w: _e(ty, "Product", _e(ty, "Constant", ri.Fe(0)), ri.L(w, "r"))] + [
    lambda m, ty, w, c=c: _e(ty, "Scaled", ri.L(w, "s"), ri.Fe(c)) for c in (0, 1, -1, 5)] + [
    lambda m, ty, w: _e(ty, "Scaled", _e(ty, "Constant", ri.Fe(3)), ri.Fe(4))]


def operands(ty):
    """operands of every outermost shape, with the special constants, equal operands among them"""
    def mk(m, k):
        m.syms["lhs"] = SHAPES[k % len(SHAPES)](m, ty, "lhs")
        m.syms["rhs"] = SHAPES[k // len(SHAPES) % len(SHAPES)](m, ty, "rhs")
        m.syms["k"] = ri.Fe(CONSTS[k // len(SHAPES) % len(CONSTS)])
    return mk


def operators(ctx, ty, qty):
    a, b, k = sym("lhs"), sym("rhs"), field("k")
    ta, tb = tree(a), tree(b)

    def op(name, spec, body_filter=None, args=None):
        def f():
            I = Interp(H.get(), set(H.BASE_LEAVES))
            bs = bodies(I, name, ty)
            if body_filter:
                bs = [x for x in bs if body_filter(I, x)]
            if len(bs) != 1:
                raise Analysis("anchor %s for %s: %d candidates" % (name, ty, len(bs)))
            r = ctx.run(None, I=I, body=bs[0], args=dict(zip([pname(p) for p in bs[0]["params"]], args)))
            ctx.eq("operator %s" % name, ty, tree(r.val), spec, mk=operands(ty), n=len(SHAPES) ** 2, edge=False)
        ctx.guard("operator %s" % name, ty, f)

    def second_is(self_):
        def flt(I, b):
            t = I.ty(b["params"][1]["ty"], {})
            return (t[0] == "adt" and short(t[1]) == ty) == self_
        return flt
    op("neg", neg(ta), None, [a])
    op("add", add(ta, tb), second_is(True), [a, b])
    op("sub", sub(ta, tb), second_is(True), [a, b])
    op("mul", mul(ta, tb), second_is(True), [a, b])
    op("mul", mul(ta, k), second_is(False), [a, k])

    def frm():
        I = Interp(H.get(), set(H.BASE_LEAVES))
        bs = bodies(I, "from", ty)
        if len(bs) != 1:
            raise Analysis("anchor From<%s> for %s: %d candidates" % (qty, ty, len(bs)))
        q = sym("query")
        r = ctx.run(None, I=I, body=bs[0], args={pname(bs[0]["params"][0]): q})
        ctx.eq("From<%s> is the query" % qty, ty, r.val, struct(r.val.a[0] if r.val.op == "struct" else ty, "Oracle", [("0", q)]))
    ctx.guard("From<%s>" % qty, ty, frm)


def visit_leafcheck(ctx):
    """the derived enum has exactly the six documented variants"""
    I = Interp(H.get(), set())
    for nm in ("Expression", "VirtualExpression"):
        vs = TM.ENUMS.get(nm)
        want = {"Constant", "Oracle", "Negated", "Sum", "Product", "Scaled"}
        if vs is None:
            ctx.put("variants", nm, VIOLATED, "anchor missing: enum %s" % nm)
        elif set(vs) == want:
            ctx.put("variants", nm, HOLDS, ",".join(vs))
        else:
            ctx.put("variants", nm, UNDECIDED, "variants are %s" % vs)


# ================================================================== C16
def rot(d, s):
    return struct("Rotation", "", [("degree", d), ("sign", struct("Sign", s, ()))])


def rotmk(m, k):
    """rotation degrees below the domain size; all sign/degree shapes over the models"""
    m.okcalls |= {"Instantiable::evals", "Instantiable::get_extended_coset_evals", "ConcreteOracle::get_label",
                  "ConcreteOracle::get_queried_rotations"}
    R = random.Random(repr((m.seed, "rot", k)))
    ratio = (1, 2, 4, 8, 16, 32)[k % 6]
    m.N = (4, 8, 16, 64, 128)[k % 5]
    m.syms["domain_size"] = m.N
    d = R.choice((0, 1, 2, 3, m.N // 2 - 1, m.N // 2, m.N // 2 + 1, m.N - 2, m.N - 1, R.randrange(m.N))) % m.N
    sg = ("Plus", "Minus")[(k // 2) % 2]
    i = R.choice((0, 1, d * ratio - 1, d * ratio, d * ratio + 1, (m.N - d) * ratio - 1, (m.N - d) * ratio,
                  m.N * ratio - 1, R.randrange(m.N * ratio), R.randrange(m.N * ratio))) % (m.N * ratio)

    def length(p, o=m.length):
        s = repr(p)
        if "get_extended_coset_evals" in s and "Ok" in s:
            return m.N * ratio
        if "Instantiable::evals" in s:
            return m.N
        return o(p)
    m.length = length
    m.syms.setdefault("rotation", ri.S("Rotation", "", {"degree": d, "sign": ri.S("Sign", sg, {})}))
    m.syms.setdefault("omega_index", i)
    m.syms.setdefault("row", i % m.N)


def rotation_points(ctx):
    r0 = sym("rotation")
    x = field("evaluation_point")
    lab = sym("lbl")
    els = raw("elements", DOM)

    def a():
        r = call(ctx, "compute_evaluation_point", "Rotation", pos=[r0, x, els])
        ctx.eq("point is x * omega^rotation", "Rotation::compute_evaluation_point", r.val,
               mul(x, power(raw("omega", DOM), srot(r0))), mk=rotmk, n=120)
    ctx.guard("point", "Rotation::compute_evaluation_point", a)

    def b():
        r = call(ctx, "get_point_info", "Rotation", pos=[r0, lab, x, els])
        ctx.eq("opening point is x * omega^rotation", "Rotation::get_point_info", proj(r.val, "1"),
               mul(x, power(raw("omega", DOM), srot(r0))), mk=rotmk, n=120)
        # labels: injective in the signed rotation and in the challenge label
        for nm in ("xi", "x_3"):
            seen = {}
            bad = None
            for d in range(0, 25):
                for sg in ("Plus", "Minus"):
                    if d == 0 and sg == "Minus":
                        continue
                    m = ctx.model(0)
                    m.syms["rotation"] = ri.S("Rotation", "", {"degree": d, "sign": ri.S("Sign", sg, {})})
                    m.syms["lbl"] = ri.Str(nm)
                    v = m.key(m.ev(proj(r.val, "0")))
                    if v in seen:
                        bad = "rotations %s and %s share label %s" % (seen[v], (d, sg), v)
                    seen[v] = (d, sg)
            if bad:
                ctx.put("distinct points get distinct labels", "Rotation::get_point_info", VIOLATED, bad)
            else:
                ctx.put("distinct points get distinct labels", "Rotation::get_point_info", HOLDS,
                        "%d rotations, %d labels" % (len(seen), len(seen)))
    ctx.guard("point info", "Rotation::get_point_info", b)


def rotation_queries(ctx):
    r0 = sym("rotation")

    def a():
        r = call(ctx, "query_in_coset", "Instantiable", trait_default="Instantiable::query_in_coset",
                 pos=[sym("self"), nat("omega_index"), r0])
        ce = raw("call", "Instantiable::get_extended_coset_evals", (sym("self"),))
        ev = raw("call", "Instantiable::evals", (sym("self"),))
        s = proj(ce, "0", "Result", "Ok")
        spec = raw("at", s, raw("mod", add(nat("omega_index"), mul(srot(r0), idiv(raw("len", s), raw("len", ev)))),
                                raw("len", s)))
        okc = isv(ce, "Result", "Ok")
        ctx.eq("reads r*ratio positions ahead, cyclically", "Instantiable::query_in_coset",
               proj(r.val, "0", "Result", "Ok"), spec, mk=rotmk, ok=okc, n=300)
        ctx.eq("succeeds exactly when the extension is present", "Instantiable::query_in_coset",
               bool01(isv(r.val, "Result", "Ok")), bool01(okc), mk=rotmk, n=60)
        panics_in(ctx, "no panic for rotations below the domain size", "Instantiable::query_in_coset", r, rotmk, 300)
    ctx.guard("coset query", "Instantiable::query_in_coset", a)

    def b():
        r = call(ctx, "query_at_omega_in_original_domain", "Instantiable",
                 trait_default="Instantiable::query_at_omega_in_original_domain",
                 pos=[sym("self"), nat("row"), r0])
        ev = raw("call", "Instantiable::evals", (sym("self"),))
        spec = raw("at", ev, raw("mod", add(nat("row"), srot(r0)), raw("len", ev)))
        ctx.eq("reads r rows ahead, cyclically", "Instantiable::query_at_omega_in_original_domain", r.val, spec,
               mk=rotmk, n=200)
        panics_in(ctx, "no panic for rotations below the domain size",
                  "Instantiable::query_at_omega_in_original_domain", r, rotmk, 300)
    ctx.guard("row query", "Instantiable::query_at_omega_in_original_domain", b)


def panics_in(ctx, name, anchor, r, mk, n):
    conds = [and_(o.gpc, o.cond) for o in r.obl]
    c = or_(*conds) if conds else FALSE
    ctx.true(name, anchor, not_(c), mk=mk, n=n, detail="absence of panics")


def query_sets(ctx):
    def f():
        x = field("xi")
        lab = sym("lbl")
        s = sym("self")
        r = call(ctx, "get_query_set", "QuerySetProvider", trait_default="QuerySetProvider::get_query_set",
                 contracts=True, pos=[s, lab, x, raw("elements", DOM)])
        rs = raw("setseq", raw("call", "ConcreteOracle::get_queried_rotations", (s,)))
        i = fresh("i")
        spec = setof(seqlam(raw("len", rs), lam(i, tup(
            raw("call", "ConcreteOracle::get_label", (s,)),
            tup(raw("call", "ptlabel", (srot(at(rs, i)), lab)), mul(x, power(raw("omega", DOM), srot(at(rs, i)))))))))
        ctx.eq("opens exactly the queried rotations", "QuerySetProvider::get_query_set", r.val, spec, mk=rotmk, n=40)
    ctx.guard("query set", "QuerySetProvider::get_query_set", f)


def constructors(ctx):
    for nm, want in (("curr", rot(ZERO, "Plus")), ("next", rot(ONE, "Plus")), ("prev", rot(ONE, "Minus"))):
        def f(nm=nm, want=want):
            r = call(ctx, nm, "Rotation", pos=[])
            ctx.eq("Rotation::%s shifts by its name" % nm, "Rotation::%s" % nm, srot(r.val), srot(want))
            if nm == "curr":
                ctx.eq("the current row has one representation", "Rotation::curr", r.val, want)
        ctx.guard("constructor " + nm, "Rotation::" + nm, f)

    def g():
        d, s = nat("degree"), sym("sign")
        r = call(ctx, "new", "Rotation", pos=[d, s])
        ctx.eq("Rotation::new keeps degree and sign", "Rotation::new", tup(proj(r.val, "degree"), proj(r.val, "sign")),
               tup(d, s))
    ctx.guard("constructor new", "Rotation::new", g)


def c16(ctx):
    rotation_points(ctx)
    rotation_queries(ctx)
    query_sets(ctx)
    constructors(ctx)


# ================================================================== C21
def build(ctx, ty, ctor="new"):
    """value built by the public constructor, with its inputs"""
    lab, p = sym("label0"), pv(sym("poly0"))
    ev = raw("fft", DOM, p)
    c0 = sym("commitment0")
    I = Interp(H.get(), set())
    bs = bodies(I, ctor, ty)
    if len(bs) != 1:
        raise Analysis("anchor %s::%s: %d candidates" % (ty, ctor, len(bs)))
    args = {}
    for q in bs[0]["params"]:
        nm = pname(q)
        t = I.strip(I.ty(q["ty"], {}))
        if t == ("prim", "bool"):
            args[nm] = raw("bool", sym("permute0"))
        elif t[0] == "adt" and short(t[1]) == "DensePolynomial":
            args[nm] = p
        elif t[0] == "slice" or t[0] == "adt" and short(t[1]) == "Vec":
            args[nm] = ev
        elif t[0] == "adt" and short(t[1]) == "Option":
            args[nm] = c0
        else:
            args[nm] = lab
    r = ctx.run(None, I=Interp(H.get(), set(H.BASE_LEAVES)), body=bs[0], args=args)
    return r.val, lab, p, ev, c0


def oracle_kinds():
    I = Interp(H.get(), set())
    kinds = {}
    for im in I.impls:
        t = im.get("trait")
        if t and t.startswith("oracles::traits::"):
            st = I.types[im["self"]]
            if st[0] == "adt":
                kinds.setdefault(short(st[1]), set()).add(t.split("::")[-1])
    return kinds


def c21(ctx):
    kinds = oracle_kinds()
    need = {"WitnessProverOracle", "WitnessVerifierOracle", "InstanceProverOracle", "InstanceVerifierOracle",
            "FixedProverOracle", "FixedVerifierOracle"}
    for k in sorted(need - set(kinds)):
        ctx.put("oracle kind exists", k, VIOLATED, "anchor missing: %s implements no oracle trait" % k)
    for ty in sorted(kinds):
        tr = kinds[ty]
        if not has("new", ty):
            ctx.put("constructor", ty, UNDECIDED, "no constructor `new`")
            continue
        ctx.guard("oracle", ty, lambda ty=ty, tr=tr: oracle(ctx, ty, tr))
    ctx.guard("from_evals_and_domains", "FixedProverOracle", lambda: from_evals(ctx))
    for nm in ("from_commitment", "from_labeled_commitment"):
        def f(nm=nm):
            if not has(nm, "FixedVerifierOracle"):
                ctx.put(nm, "FixedVerifierOracle", UNDECIDED, "not present")
                return
            lc = sym("lc")
            r = call(ctx, nm, "FixedVerifierOracle", pos=[lc])
            g = call(ctx, "get_label", "FixedVerifierOracle", pos=[r.val])
            c = call(ctx, "get_commitment", "FixedVerifierOracle", pos=[r.val])
            ctx.eq(nm + " keeps the label", "FixedVerifierOracle::" + nm, g.val, proj(lc, "label"))
            ctx.eq(nm + " keeps the commitment", "FixedVerifierOracle::" + nm, c.val, ok(proj(lc, "commitment")))
        ctx.guard(nm, "FixedVerifierOracle", f)
    degree_bound(ctx)
    rotation_queries(ctx)
    query_sets(ctx)

    def lag():
        r = call(ctx, "query_in_evals_form", "Instantiable", trait_default="Instantiable::query_in_evals_form",
                 pos=[sym("self"), sym("lagrange_evals")])
        ev = raw("call", "Instantiable::evals", (sym("self"),))
        l = sym("lagrange_evals")
        i = fresh("i")
        ctx.eq("barycentric evaluation", "Instantiable::query_in_evals_form", r.val,
               summ(min_(raw("len", ev), raw("len", l)), lam(i, mul(at(ev, i), at(l, i)))), mk=rotmk)
    ctx.guard("barycentric evaluation", "Instantiable::query_in_evals_form", lag)


def degree_bound(ctx):
    def deg():
        I = Interp(H.get(), set(H.BASE_LEAVES))
        bs = [b for p, l in I.bypath.items() if p.endswith("::get_degree") for b in l]
        if not bs:
            raise Analysis("anchor get_degree")
        for b in bs:
            n = nat("domain_size")
            r = ctx.run(None, I=Interp(H.get(), set(H.BASE_LEAVES)), body=b,
                        args={pname(b["params"][1]): n})
            ctx.eq("column degree is domain size minus one for every kind", b["path"], r.val, sub(n, ONE),
                   mk=lambda m, k: m.syms.update(domain_size=8))
    ctx.guard("get_degree", "ConcreteOracle::get_degree", deg)


def oracle(ctx, ty, tr):
    v, lab, p, ev, c0 = build(ctx, ty)
    x = field("x")
    r1, r2 = sym("rot1"), sym("rot2")
    g = lambda name, val, *a: call(ctx, name, ty, pos=[val] + list(a))
    ctx.eq("label", ty, g("get_label", v).val, lab)
    e0 = g("get_queried_rotations", v).val
    ctx.eq("no rotation before registration", ty, e0, raw("setof", EMPTYL))
    a = outself(g("register_rotation", byref(v), r1))
    a = outself(g("register_rotation", byref(a), r2))
    ctx.eq("registered rotations are reported", ty, g("get_queried_rotations", a).val, setof(lst(r1, r2)))
    def sequence(name, reg, args, query, expect, n=60):
        """a long sequence of registrations: the summary of one of them, iterated over model values"""
        def f():
            st = sym("$state")
            step = outself(g(reg, byref(st), *args))
            q = query(st)
            for k in range(3):
                m = ctx.model(k)
                state = m.ev(v)
                hist = []
                for i in range(n):
                    m.memo.clear()
                    m.syms["$state"] = state
                    # every seventh registration repeats an earlier point
                    j = i if i % 7 or not i else (i * 5 + k) % i
                    vals = expect(m, j, i)
                    for t, x in zip(args, vals):
                        m.syms[t.a[0]] = x
                    hist.append(vals)
                    state = m.ev(step)
                m.memo.clear()
                m.syms["$state"] = state
                ctx.stats["models"] += 1
                bad = q(m, hist)
                if bad:
                    ctx.put(name, ty, VIOLATED, bad)
                    return
            ctx.put(name, ty, AGREES, "3 sequences of %d registrations" % n)
        ctx.guard(name, ty, f)

    def reported(st):
        t = g("get_queried_rotations", st).val
        return lambda m, hist: None if m.key(m.ev(t)) == m.key(m.mkset([h[0] for h in hist])) else \
            "rotations reported after %d registrations differ" % len(hist)
    sequence("long sequences of registered rotations are reported", "register_rotation", (sym("$rot"),), reported,
             lambda m, j, i: (ri.S("Rotation", "", {"degree": j // 2, "sign": ri.S("Sign", ("Plus", "Minus")[j % 2], {})}),))
    ctx.eq("registering a rotation keeps the label", ty, g("get_label", a).val, lab)
    if has("clone", ty):
        c = g("clone", a).val
        ctx.eq("clone keeps rotations", ty, g("get_queried_rotations", c).val, setof(lst(r1, r2)))
        ctx.eq("clone keeps the label", ty, g("get_label", c).val, lab)
    else:
        c = None
    if "WitnessOracle" in tr:
        for q, nm in ((v, ""), (c, " after clone")):
            if q is not None:
                w = g("should_include_in_copy", q).val
                ctx.eq("permute flag" + nm, ty, bool01(w), bool01(raw("bool", sym("permute0"))))
    if "Instantiable" in tr:
        inst(ctx, ty, v, p, ev, lab, g, x, "")
        ce0 = g("get_extended_coset_evals", v).val
        ctx.eq("a missing extension is an error", ty, bool01(isv(ce0, "Result", "Err")), ONE)
        D2 = raw("dom", nat("ext_size"))
        b = outself(g("compute_extended_evals", byref(v), D2))
        want = ok(raw("coset_fft", D2, p))
        ctx.eq("extended values are the coset evaluation of the polynomial", ty,
               g("get_extended_coset_evals", b).val, want, mk=extmk)
        inst(ctx, ty, b, p, ev, lab, g, x, " after extension")
        D3 = raw("dom", nat("ext_size2"))
        ctx.eq("a new extension replaces an earlier one", ty, g("get_extended_coset_evals",
               outself(g("compute_extended_evals", byref(b), D3))).val, ok(raw("coset_fft", D3, p)), mk=extmk)
        a2 = outself(g("register_rotation", byref(b), r1))
        ctx.eq("registering keeps the extension", ty, g("get_extended_coset_evals", a2).val, want, mk=extmk)
        if c is not None:
            cb = g("clone", b).val
            ctx.eq("clone keeps the extension", ty, g("get_extended_coset_evals", cb).val, want, mk=extmk)
            inst(ctx, ty, cb, p, ev, lab, g, x, " after clone")
        lp = g("to_labeled", v).val
        ctx.eq("labelled polynomial carries label and polynomial", ty,
               tup(proj(lp, "label"), proj(lp, "polynomial")), tup(lab, p))
        ctx.eq("labelled polynomial has no degree bound", ty, bool01(isv(proj(lp, "degree_bound"), "Option", "None")), ONE)
    elif has("register_eval_at_challenge", ty):
        e1, e2 = field("eval1"), field("eval2")
        y = field("y")
        q0 = g("query", v, x).val
        ctx.eq("a missing evaluation is an error", ty, bool01(isv(q0, "Result", "Err")), ONE)
        a1 = outself(g("register_eval_at_challenge", byref(v), x, e1))
        a1 = outself(g("register_eval_at_challenge", byref(a1), y, e2))
        ctx.eq("registered evaluations are returned", ty, tup(g("query", a1, x).val, g("query", a1, y).val),
               tup(ok(e1), ok(e2)), ok=not_(eq(x, y)))
        z = field("z")
        ctx.eq("an evaluation at another point is an error", ty, bool01(isv(g("query", a1, z).val, "Result", "Err")), ONE,
               ok=and_(not_(eq(x, z)), not_(eq(y, z))))
        def answered(st):
            t = g("query", st, field("$at")).val

            def q(m, hist):
                last = {m.key(p_): (p_, e_) for p_, e_ in hist}
                for p_, e_ in last.values():
                    m.memo.clear()
                    m.syms["$at"] = p_
                    r = m.ev(t)
                    if r.v != "Ok" or m.num(r.f["0"]) != e_:
                        return "after %d registrations the last evaluation at a point is not returned" % len(hist)
            return q
        sequence("long sequences of registered evaluations are returned", "register_eval_at_challenge", (field("$pt"), field("$ev")), answered,
                 lambda m, j, i: (ri.Fe(m.h("pt", j)), ri.Fe(m.h("ev", i))))
        a2 = outself(g("register_eval_at_challenge", byref(a1), x, e2))
        ctx.eq("the last registered evaluation wins", ty, g("query", a2, x).val, ok(e2))
        if c is not None:
            ca = g("clone", a1).val
            ctx.eq("clone keeps evaluations", ty, g("query", ca, x).val, ok(e1), ok=not_(eq(x, y)))
    else:
        ctx.eq("evaluation is the polynomial's", ty, g("query", v, x).val, ok(hom(p, x)))
    if "CommittedOracle" in tr:
        cm = sym("commitment1")
        b = outself(g("register_commitment", byref(v), cm))
        ctx.eq("registered commitment is returned", ty, g("get_commitment", b).val, ok(cm))
        if has("clone", ty):
            ctx.eq("clone keeps the commitment", ty, g("get_commitment", g("clone", b).val).val, ok(cm))
        I = Interp(H.get(), set())
        opt = any(short(str(I.strip(I.ty(q["ty"], {}))[1])) == "Option" for q in bodies(I, "new", ty)[0]["params"])
        gc = g("get_commitment", v).val
        if opt:
            ctx.eq("commitment given at construction is returned, none is an error", ty, bool01(isv(gc, "Result", "Ok")),
                   bool01(isv(c0, "Option", "Some")))
            ctx.eq("commitment given at construction", ty, proj(gc, "0", "Result", "Ok"),
                   proj(c0, "0", "Option", "Some"), ok=isv(c0, "Option", "Some"))
        else:
            ctx.eq("a missing commitment is an error", ty, bool01(isv(gc, "Result", "Err")), ONE)


def extmk(m, k):
    m.syms["ext_size"] = 16
    m.syms["ext_size2"] = 32
    m.syms["domain_size"] = 8


def inst(ctx, ty, v, p, ev, lab, g, x, when):
    ctx.eq("polynomial" + when, ty, pv(g("polynomial", v).val), p, mk=extmk)
    ctx.eq("row values" + when, ty, g("evals", v).val, ev, mk=extmk)
    ctx.eq("evaluation is the polynomial's" + when, ty, g("query", v, x).val, ok(hom(p, x)), mk=extmk)
    ctx.eq("label" + when, ty, g("get_label", v).val, lab)


def from_evals(ctx):
    lab, evs = sym("label0"), sym("evals0")
    D1, D2 = DOM, raw("dom", nat("ext_size"))
    r = call(ctx, "from_evals_and_domains", "FixedProverOracle", pos=[lab, evs, D1, D2])
    g = lambda name, *a: call(ctx, name, "FixedProverOracle", pos=[r.val] + list(a)).val

    def mk(m, k):
        extmk(m, k)
        o = m.length
        m.length = lambda p: 8 if p == ("evals0",) else o(p)
    poly = raw("interp", D1, evs)
    an = "FixedProverOracle::from_evals_and_domains"
    ctx.eq("label", an, g("get_label"), lab)
    ctx.eq("row values are the given ones", an, g("evals"), evs, mk=mk)
    ctx.eq("polynomial interpolates the row values", an, pv(g("polynomial")), poly, mk=mk)
    ctx.eq("extension is the coset evaluation", an, g("get_extended_coset_evals"), ok(raw("coset_fft", D2, poly)), mk=mk)


# ================================================================== C22
def bp(t):
    """blinding polynomial of a randomness term"""
    if t.op == "withf" or t.op == "struct":
        r = proj(t, "blinding_polynomial")
        if not (r.op == "proj" and r.a[0] is t):
            return pv(r)
    if t.op == "ite":
        return ite(t.a[0], bp(t.a[1]), bp(t.a[2]))
    if t.op == "poly":
        out = []
        for c, m in t.a[0]:
            rand = [a for a, e in m if a in (sym("a"), sym("b"), sym("randomness"))]
            if len(rand) != 1:
                raise Analysis("randomness term %s" % show(t)[:200])
            rest = mkpoly({tuple(x for x in m if x[0] is not rand[0]): c})
            out.append(mul(rest, bp(rand[0])))
        return add(*out) if out else ZERO
    return pv(proj(t, "blinding_polynomial"))


def c22(ctx):
    ty = "SonicKZG10"
    g0 = lambda t: proj(t, "0")

    def cm(n):
        return sym(n)

    def run(name, *a):
        return call(ctx, name, ty, pos=list(a))
    a, b = cm("a"), cm("b")
    k = field("k")
    A, B = g0(a), g0(b)
    an = "HomomorphicCommitment for KZG10"

    def chk(name, val, spec, mk=None):
        ctx.eq(name, an, val, spec, mk=mk)

    def do(name, f):
        ctx.guard(name, an, f)
    do("add", lambda: chk("add is the group sum", g0(run("add", a, b).val), add(A, B), mk=grpmk))
    do("scale", lambda: chk("scale_com is the scalar multiple", g0(run("scale_com", a, k).val), mul(k, A), mk=grpmk))
    do("neg", lambda: chk("neg_com is the inverse", g0(run("neg_com", a).val), neg(A), mk=grpmk))
    do("zero", lambda: chk("zero_comm is neutral", g0(run("zero_comm").val), ZERO))
    do("is_zero", lambda: chk("is_zero recognises exactly the neutral element", bool01(run("is_zero", a).val), bool01(eq0(A)), mk=zmk))
    do("eq", lambda: chk("eq_cm is group equality", bool01(run("eq_cm", a, b).val), bool01(raw("eq", *sorted((A, B)))), mk=eqmk))

    def msm():
        cs, ks = sym("commitments"), sym("scalars")
        i = fresh("i")
        chk("msm is the linear combination", g0(run("msm", cs, ks).val),
            summ(raw("len", cs), lam(i, mul(at(ks, i), g0(at(cs, i))))), mk=msmk)
    do("msm", msm)
    do("scale_rand", lambda: chk("scale_rand scales the blinding polynomial", bp(run("scale_rand", sym("a"), k).val), mul(k, bp(a)), mk=rndmk))
    do("add_rands", lambda: chk("add_rands adds the blinding polynomials", bp(run("add_rands", a, b).val), add(bp(a), bp(b)), mk=rndmk))

    def asg():
        r = run("add_assign_rand", byref(a), b)
        chk("add_assign_rand agrees with add_rands", bp(outself(r)), add(bp(a), bp(b)), mk=rndmk)
    do("add_assign_rand", asg)


def rndmk(m, k):
    """empty randomness on either side (an unblinded polynomial's), and opposite scalars"""
    z = ri.S("Randomness", "", {"blinding_polynomial": ri.Poly([])})
    if k % 3 == 0:
        m.syms["a"] = z
    if k % 4 == 1:
        m.syms["b"] = z
    if k % 5 >= 2:
        m.syms["k"] = ri.Fe((0, 1, ri.PRIME - 1)[k % 5 - 2])


def grpmk(m, k):
    """group elements that are neutral, equal or opposite, and scalars 0, 1, -1, 2"""
    c = lambda x: ri.S("Commitment", "", {"0": ri.Fe(x % ri.PRIME)})
    x, y = m.h("point a") % ri.PRIME, m.h("point b") % ri.PRIME
    m.syms["a"] = c((x, x, 0, x)[k % 4])
    m.syms["b"] = c((y, x, y, -x, 0, 0)[k // 2 % 6])
    m.syms["k"] = ri.Fe((m.h("scalar") % ri.PRIME, 0, 1, ri.PRIME - 1, 2)[k % 5])


def zmk(m, k):
    if k % 2:
        m.syms["a"] = ri.S("Commitment", "", {"0": 0})


def eqmk(m, k):
    grpmk(m, k)


def msmk(m, k):
    n = (0, 1, 2, 3, 5, 8)[k % 6]
    v = lambda i, x: (0 if (k + i) % 5 == 1 else 1 if (k + i) % 7 == 3 else m.h(x, i) % ri.PRIME)
    m.syms["commitments"] = [ri.S("Commitment", "", {"0": ri.Fe(v(i, "point"))}) for i in range(n)]
    m.syms["scalars"] = [ri.Fe(v(i + 2, "scalar")) for i in range(n)]


# ================================================================== C23
def c23(ctx):
    ty = "SimpleHashFiatShamirRng"
    oc = ("Digest::digest", "FromBytes::read", "SeedableRng::from_seed", "RngCore::next_u32", "RngCore::next_u64",
          "RngCore::fill_bytes", "RngCore::try_fill_bytes")
    LENS = (0, 1, 2, 31, 32, 33, 63, 64, 65, 96, 100, 127, 128, 129, 255, 256, 257, 1000, 1024, 4095, 4096, 5000, 70000)
    msg, msgb = sym("$message"), sym("$messagebytes")

    def mk(m, k):
        m.okcalls |= set(oc)
        def cmut(m, t, env):
            if t.a[0] not in oc:
                raise ri.Imprecise("callmut %s" % t.a[0])
            return ri.L("callmut", t.a[0], t.a[1], *[m.key(m.ev(x, env)) for x in t.a[2]])
        m.hooks["callmut"] = cmut

        def word(m, t, env):
            if t.a[0] in ("RngCore::next_u32", "RngCore::next_u64"):
                return m.h("word", t.a[0], *[m.key(m.ev(x, env)) for x in t.a[1]]) % (1 << (32 if t.a[0].endswith("32") else 64))
        m.hooks["call"] = word
        m.choose["Result"] = lambda m, p: "Ok"
        old = m.length
        m.length = lambda p: LENS[k % len(LENS)] if p == ("$messagebytes",) else 32 if p == ("seed0",) else old(p)
        m.budget = 5_000_000
    n = len(LENS)
    seedof = lambda bs: proj(raw("call", "FromBytes::read", (raw("call", "Digest::digest", (bs,)),)), "0", "Result", "Ok")
    gen = lambda s: raw("call", "SeedableRng::from_seed", (s,))

    def whole(news, anchor, name, options, bad):
        """the state is the digest of one of the byte strings in options, for messages of every length"""
        d = {t.a[1][0] for t in subterms(news) if t.op == "call" and t.a[0] == "Digest::digest"}
        if any(t.op in ("callmut", "loopval", "undef") for t in subterms(news)):
            ctx.put(name, anchor, UNDECIDED, show(news)[:300])
            return
        if not d:
            ctx.put(name, anchor, VIOLATED, "the new state is no digest")
            return
        for k, m in ctx.models(mk, n, False):
            try:
                v = m.key(m.ev(news))
                if v in [m.key(m.ev(seedof(o))) for o in options]:
                    continue
                # another input: does it still contain everything?
                got = [m.key(x) for t in d for x in m.seq(m.ev(t))]
                miss = [x for x in map(m.key, m.seq(m.ev(options[0]))) if x not in got]
            except ri.Imprecise as e:
                ctx.put(name, anchor, UNDECIDED, "value not modelled: %s" % e)
                return
            if v == m.key(m.ev(sym("seed0"))):
                ctx.put(name, anchor, VIOLATED, "a message of %d bytes leaves the state as it was" % LENS[k % n])
            elif miss:
                ctx.put(name, anchor, VIOLATED, "%s: %d bytes of the message and the state missing for a message of %d bytes" % (bad, len(miss), LENS[k % n]))
            else:
                ctx.put(name, anchor, UNDECIDED, "hashed input of %d bytes for a message of %d" % (len(got), LENS[k % n]))
            return
        ctx.put(name, anchor, AGREES, "%d message lengths up to %d" % (n, max(LENS)))

    def init():
        r = call(ctx, "initialize", ty, pos=[msg])
        news = proj(r.val, "seed")
        whole(news, ty + "::initialize", "initial state is the hash of the whole input", [msgb], "part of the input is not hashed")
        ctx.eq("stream is seeded from the state", ty + "::initialize", proj(r.val, "r"), gen(news), mk=mk, n=n)
    ctx.guard("initialize", ty, init)
    st0 = struct(ty, "", [("r", sym("r0")), ("seed", sym("seed0")), ("digest", sym("ph"))])

    def absorb():
        r = call(ctx, "absorb", ty, pos=[byref(st0), msg])
        o = outself(r)
        news = proj(o, "seed")
        # the digest input contains the new message and the whole previous state, in a fixed order
        whole(news, ty + "::absorb", "state chains message and previous state", [concat(msgb, sym("seed0")), concat(sym("seed0"), msgb)],
              "part of the input is not hashed")
        ctx.eq("stream is reseeded from the new state", ty + "::absorb", proj(o, "r"), gen(news), mk=mk, n=n)
    ctx.guard("absorb", ty, absorb)

    for nm in ("next_u32", "next_u64"):
        def f(nm=nm):
            r = call(ctx, nm, ty, pos=[byref(st0)])
            ctx.eq("output comes from the stream", ty + "::" + nm, r.val, raw("call", "RngCore::" + nm, (sym("r0"),)), mk=mk)
            ctx.eq("stream advances", ty + "::" + nm, proj(outself(r), "r"),
                   raw("callmut", "RngCore::" + nm, 0, (sym("r0"),)), mk=mk)
            ctx.eq("state is kept", ty + "::" + nm, proj(outself(r), "seed"), sym("seed0"))
        ctx.guard(nm, ty, f)
    for nm in ("fill_bytes", "try_fill_bytes"):
        def f(nm=nm):
            dest = sym("dest")
            r = call(ctx, nm, ty, pos=[byref(st0), byref(dest)])
            pn = pname(r.body["params"][1])
            want = {raw("callmut", "RngCore::" + k, 1, (sym("r0"), dest)) for k in ("fill_bytes", "try_fill_bytes")}
            got = r.out[pn]
            hit = [w for w in want if w is got]
            ctx.eq("bytes come from the stream", ty + "::" + nm, got, hit[0] if hit else sorted(want)[0], mk=mk)
            w0 = {raw("callmut", "RngCore::" + k, 0, (sym("r0"), dest)) for k in ("fill_bytes", "try_fill_bytes")}
            got0 = proj(outself(r), "r")
            hit = [w for w in w0 if w is got0]
            ctx.eq("stream advances", ty + "::" + nm, got0, hit[0] if hit else sorted(w0)[0], mk=mk)
        ctx.guard(nm, ty, f)


# ================================================================== C18
def Q(kind, i, r=0):
    return ("q", kind, i, r)


def qatom(kind, i, r):
    return sym("q_%s_%d_%d" % (kind, i, r))


def vtree(t):
    """polynomial denoted by a VirtualExpression term over query atoms; None if not closed"""
    if t.op != "struct":
        raise Analysis("expression is not a closed term: %s" % show(t)[:200])
    f = dict(t.a[2])
    v = t.a[1]
    if v == "Constant":
        return f["0"]
    if v == "Oracle":
        k = qid(f["0"])
        s = qatom(*k)
        TM.NUMSYMS.add(s)
        return s
    if v == "Negated":
        return neg(vtree(f["0"]))
    if v == "Sum":
        return add(vtree(f["0"]), vtree(f["1"]))
    if v == "Product":
        return mul(vtree(f["0"]), vtree(f["1"]))
    if v == "Scaled":
        return mul(vtree(f["0"]), f["1"])
    raise Analysis("variant " + v)


def qid(q):
    i, r, k = proj(q, "index"), srot(proj(q, "rotation")), proj(q, "oracle_type")
    if not is_const(i) or not is_const(r) or k.op != "struct":
        raise Analysis("query is not closed: %s" % show(q)[:200])
    return k.a[1], const_val(i), const_val(r)


def vqueries(t):
    out = set()

    def go(t):
        if t.op == "struct":
            if t.a[1] == "Oracle":
                out.add(qid(proj(t, "0")))
                return
            for _, x in t.a[2]:
                if x.op == "struct":
                    go(x)
    go(t)
    return out


def gate_specs():
    W = lambda i, r=0: qatom("Witness", i, r)
    Fx = lambda i, r=0: qatom("Fixed", i, r)
    In = lambda i, r=0: qatom("Instance", i, r)
    c = const
    sp = {}
    sp["PrecompiledMul"] = sub(mul(W(0), W(1)), In(0))
    sp["PrecompiledPlonkArith"] = add(mul(Fx(0), W(0), W(1)), mul(Fx(1), W(0)), mul(Fx(2), W(1)), mul(Fx(3), W(2)),
                                      Fx(4), In(0))
    sp["PlonkArith4"] = add(mul(Fx(0), W(0), W(1)), mul(Fx(1), W(0)), mul(Fx(2), W(1)), mul(Fx(3), W(3)),
                            mul(Fx(4), W(2)), Fx(5), In(0))
    sp["PrecompiledRescue"] = sub(add(*[mul(Fx(i), power(W(i), 5)) for i in range(4)]), W(4))
    d = sub(W(0, 1), mul(c(4), W(0)))
    sp["Delta"] = mul(sub(ONE, Fx(0)), d, sub(d, ONE), sub(d, c(2)), sub(d, c(3)))
    a, b, p, dd, qc = W(0), W(1), W(2), W(3), Fx(0)
    ab = add(a, b)
    F = mul(p, add(mul(p, add(mul(c(4), p), mul(c(-18), ab), c(81))),
                   mul(c(18), add(mul(a, a), mul(b, b))), mul(c(-81), ab), c(83)))
    E = sub(mul(c(3), add(ab, dd)), mul(c(2), F))
    Hh = mul(qc, sub(mul(c(9), dd), mul(c(3), ab)))
    sp["DeltaXorAnd"] = add(Hh, E)
    return sp


def c18(ctx):
    operators(ctx, "VirtualExpression", "VirtualQuery")
    constructors(ctx)
    I = Interp(H.get(), set())
    impls = {"PrecompiledVO": [], "PrecompiledLookupVO": []}
    for im in I.impls:
        t = (im.get("trait") or "").split("::")[-1]
        if t in impls:
            st = I.types[im["self"]]
            impls[t].append(short(st[1]))
    sp = gate_specs()
    for ty in sorted(set(sp) | set(impls["PrecompiledVO"])):
        def f(ty=ty):
            r = call(ctx, "get_expr_and_queries", ty, pos=[])
            ex, qs = proj(r.val, "0"), proj(r.val, "1")
            if ty in sp:
                ctx.eq("denotes its documented polynomial", ty, vtree(ex), sp[ty])
            if qs.op != "list":
                raise Analysis("query list of %s: %s" % (ty, show(qs)[:200]))
            decl = {qid(q) for q in qs.a[0]}
            used = vqueries(ex)
            miss = used - decl
            ctx.put("declares every query it uses", ty, VIOLATED if miss else HOLDS,
                    "undeclared: %s" % sorted(miss) if miss else "%d queries" % len(used))
            extra = decl - used
            ctx.put("uses every query it declares", ty, VIOLATED if extra else HOLDS,
                    "unused: %s" % sorted(extra) if extra else "%d queries" % len(decl))
            panics(ctx, "building the gate cannot panic", ty, r)
        ctx.guard("gate", ty, f)
    lsp = {"PrecompiledSimple1ArithLookup": 1, "PrecompiledSimple3ArithLookup": 3}
    for ty in sorted(set(lsp) | set(impls["PrecompiledLookupVO"])):
        def f(ty=ty):
            r = call(ctx, "get_expressions_and_queries", ty, pos=[])
            ex, qs, tq = proj(r.val, "0"), proj(r.val, "1"), proj(r.val, "2")
            if ex.op != "list" or qs.op != "list" or tq.op != "list":
                raise Analysis("lists of %s" % ty)
            if ty in lsp:
                n = lsp[ty]
                ctx.eq("looks up its columns", ty, lst(*[vtree(e) for e in ex.a[0]]),
                       lst(*[qatom("Witness", i, 0) for i in range(n)]))
                ctx.put("in the matching table columns", ty,
                        HOLDS if [qid(q) for q in tq.a[0]] == [("Fixed", i, 0) for i in range(n)] else VIOLATED,
                        str([qid(q) for q in tq.a[0]]))
            used = set().union(*[vqueries(e) for e in ex.a[0]]) if ex.a[0] else set()
            decl = {qid(q) for q in qs.a[0]}
            ctx.put("declares every query it uses", ty, VIOLATED if used - decl else HOLDS, str(sorted(used - decl)))
            ctx.put("one table column per expression", ty, HOLDS if len(ex.a[0]) == len(tq.a[0]) else VIOLATED, "")
        ctx.guard("lookup", ty, f)

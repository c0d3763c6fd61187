"""Obligations on preprocessing (C20)."""
import random
from protocol import *
from circuit import rotS, some, NONE
from spec_protocol import sweep, A_P, A_V, polys
import spec_protocol as SPR
from spec_config import nopanic
import spec_basic as B
import ri

LISTS = ("fixed_oracles", "permutation_oracles", "table_oracles")


class PreWorld:
    def __init__(self, ctx, tag, k):
        R = self.R = random.Random(repr((ctx.seed, tag, k)))
        m = self.m = ctx.model("%s/%s" % (tag, k))
        self.ext = R.choice([8, 16, 32])
        self.dom = Dom(self.ext)
        ls = ["c%d" % i for i in range(200)]
        cnt = [0, 1, 2, 3] if k % 10 != 7 else [17, 21, 33]
        R.shuffle(ls)

        def col():
            # row values are not tied to the polynomial: neither may be derived from the other
            return S("FixedProverOracle", "", {
                "label": Str(ls.pop()), "poly": Poly([R.randrange(PRIME) for _ in range(R.choice([1, 3, 8]))]),
                "evals": [Fe(R.randrange(PRIME)) for _ in range(8)],
                "evals_at_coset_of_extended_domain": R.choice([NONE, some([Fe(R.randrange(PRIME)) for _ in range(16)])]),
                "queried_rotations": m.mkset([rotS(r) for r in sorted(R.sample([0, 1, -1, 2], R.choice([0, 1, 2])))])})
        self.lists = [[col() for _ in range(R.choice(cnt))] for _ in LISTS]
        self.q = col()
        self.index = S("Index", "", {"quotient_degree": 7, "extended_coset_domain": self.dom, "permutation_argument": L("pa"),
                                     "lookups": [], "usable_rows": 3})

    def rots(self, o):
        m = self.m
        out = set()
        for r in m.seq(m.set_(m.proj(o, "queried_rotations"))):
            d = m.nat(m.proj(r, "degree"))
            out.add(-d if m.variant(m.proj(r, "sign"), "Sign") == "Minus" else d)
        return out

    def ext_evals(self, p):
        g, w = ri.GEN, self.m.omega(self.dom)
        return [peval_(p, g * pow(w, i, PRIME) % PRIME) for i in range(self.ext)]


def prover_input(ctx, acc):
    a = "ProverPreprocessedInput::new"
    P = LISTS + ("q_blind", "index_info")
    r = once(ctx, a, lambda: ctx.run(a, names=P))
    for k in range(20 if ctx.tier == "quick" else 200):
        w = PreWorld(ctx, "pre", k)
        m = w.m
        for n, l in zip(LISTS, w.lists):
            m.syms[n] = l
        m.syms["q_blind"], m.syms["index_info"] = w.q, w.index
        v = []
        acc.do("input is modelled", a, lambda: v.append(m.ev(r.val)) or True)
        if not v:
            continue
        v = v[0]

        def oracle(got, src, extra, nm):
            keep = lambda f: m.key(m.proj(got, f)) == m.key(src.f[f])
            acc.do(nm + ": labels are kept", a, lambda: (keep("label"), "label %s" % m.proj(got, "label")))
            acc.do(nm + ": row values are kept", a, lambda: keep("evals"))
            acc.do(nm + ": polynomials are kept", a, lambda: m.poly(m.proj(got, "poly")).c == m.poly(src.f["poly"]).c)
            want = w.rots(src) | extra
            acc.do(nm + ": registered rotations" + (" and the evaluation challenge" if extra else ""), a,
                   lambda: (w.rots(got) == want, "rotations %s, expected %s" % (w.rots(got), want)))

            def e():
                x = m.proj(got, "evals_at_coset_of_extended_domain")
                if m.variant(x, "Option") != "Some":
                    return False, "no extension"
                return [m.fld(y) for y in m.seq(m.proj(x, "0", "Some"))] == w.ext_evals(m.poly(src.f["poly"]).c), "values differ"
            acc.do(nm + ": extension over the index's extended domain", a, e)
        for n, l in zip(LISTS, w.lists):
            got = []
            acc.do(n + ": every column once", a, lambda: (got.extend(m.seq(m.proj(v, n))) or len(got) == len(l), "%d of %d" % (len(got), len(l))))
            if len(got) == len(l):
                for g, s in zip(got, l):
                    oracle(m.resolve(g), s, {0} if n == "permutation_oracles" else set(), n)
        oracle(m.resolve(m.proj(v, "q_blind")), w.q, {0}, "q_blind")

        def rands():
            x = m.seq(m.proj(v, "empty_rands_for_fixed"))
            return len(x) == sum(map(len, w.lists)) + 1 and all(m.fld(y) == 0 for y in x), "randomness %s for %d columns" % (
                x, sum(map(len, w.lists)) + 1)
        acc.do("one empty randomness per preprocessed column", a, rands)
        acc.do("preprocessing does not panic", a, lambda: nopanic(w, r))


def vcol(w, i):
    R = w.R
    return S("FixedVerifierOracle", "", {"label": Str("v%d" % i), "queried_rotations": w.m.mkset([rotS(0)]),
                                         "evals_at_challenges": Map({}), "commitment": some(Fe(R.randrange(PRIME)))})


def verifier_input(ctx, acc):
    VL = ("fixed_oracles", "table_oracles", "permutation_oracles", "q_blind")
    for fn in ("new", "new_wo_blind", "clone"):
        a = "VerifierPreprocessedInput::" + fn
        r = once(ctx, a, lambda: B.call(ctx, fn, "VerifierPreprocessedInput", pos=[sym("vp")] if fn == "clone" else [sym(x) for x in VL]))
        for k in range(6 if ctx.tier == "quick" else 60):
            w = PreWorld(ctx, "vpre" + fn, k)
            m = w.m
            ls = [[vcol(w, 100 * j + i) for i in range(w.R.choice([0, 1, 2, 3] if k != 5 else [17, 33]))] for j in range(3)]
            q = vcol(w, 999)
            for n, l in zip(VL, ls + [q]):
                m.syms[n] = l
            if fn == "clone":
                m.syms["vp"] = S("VerifierPreprocessedInput", "", dict(zip(VL, ls + [q])))
            v = []
            acc.do("input is modelled", a, lambda: v.append(m.ev(r.val)) or True)
            if not v:
                continue
            for n, l in zip(VL, ls):
                acc.do(n + " are kept in order", a, lambda: [m.key(m.resolve(x)) for x in m.seq(m.proj(v[0], n))] == [m.key(x) for x in l])
            if fn == "new_wo_blind":
                def qz():
                    o = m.resolve(m.proj(v[0], "q_blind"))
                    c = m.proj(o, "commitment")
                    return (m.variant(c, "Option") == "Some" and m.fld(m.proj(c, "0", "Some")) == 0 and
                            not w.rots(o) and not m.map_(m.proj(o, "evals_at_challenges")).d), "q_blind is not the zero column"
                acc.do("without a row selector the zero commitment stands for it", a, qz)
            else:
                acc.do("row selector is kept", a, lambda: m.key(m.resolve(m.proj(v[0], "q_blind"))) == m.key(q))


def key_pieces(ctx, acc):
    """keys keep the committer and verifier parts they were built from"""
    ck, vk = sym("ck"), sym("vk")
    r = B.call(ctx, "from_ck_and_vk", "ProverKey", pos=[ck, vk])
    for f in ("verifier_key", "index_info", "zh_inverses_over_coset"):
        ctx.eq("prover key carries the verifier key's " + f, "ProverKey::from_ck_and_vk", proj(proj(r.val, "vk"), f), proj(vk, f))
    ctx.eq("prover key carries the committer key", "ProverKey::from_ck_and_vk", proj(r.val, "committer_key"), ck)
    r = B.call(ctx, "clone", "VerifierKey", pos=[vk])
    for f in ("verifier_key", "index_info", "zh_inverses_over_coset"):
        ctx.eq("cloned key carries " + f, "VerifierKey::clone", proj(r.val, f), proj(vk, f))


def linked(ctx):
    def fn(w, acc):
        m, c = w.m, w.c
        cols = [("fixed column", x) for x in c.fixed] + [("table column", x) for x in c.table] + \
               [("permutation column", x) for x in c.sigma] + [("row selector", c.qblind)]
        st = {}

        def setup():
            w.prove()
            a, _ = w.pevent(w.r, "Multiopen::prove")
            os, rs = m.seq(a[1]), m.seq(a[2])
            st["p"] = [(m.proj(o, "label"), tuple(m.poly(m.proj(o, "poly")).c), PreRots(m, o), m.fld(r)) for o, r in zip(os, rs)]
            w.load(w.proof)
            a, _ = w.pevent(w.v, "Multiopen::verify")
            st["v"] = [(m.proj(o, "label"), m.key(m.proj(m.proj(o, "commitment"), "0", "Some")), PreRots(m, o)) for o in m.seq(a[2])]
            return True
        acc.do("openings are modelled", A_P + " / " + A_V, setup)
        if "v" not in st:
            return
        ck = m.key(L("pk", "committer_key"))
        for n, col in cols:
            rots = frozenset(col.rots) | (frozenset() if n in ("fixed column", "table column") else {0})
            pl = tuple(Poly(col.poly).c)
            # a column is found by its label: degenerate circuits repeat polynomials
            ps = [x for x in st["p"] if x[1] == pl and x[0].s == col.label]
            acc.put("prover opens each %s once, unblinded, at its rotations" % n, A_P,
                    len(ps) == 1 and ps[0][2] == rots and ps[0][3] == 0,
                    "%s opened as %s (%s)" % (n, [(x[0], sorted(x[2]), x[3]) for x in ps], w.tag))
            cm = ("n", peval_(col.poly, m.h("tau", ck) % PRIME))
            same = sum(1 for n2, c2 in cols if tuple(Poly(c2.poly).c) == pl)
            vs = [x for x in st["v"] if x[1] == cm]
            if same > 1 or not any(pl):
                vs = [x for x in vs if x[0].s == col.label]
            acc.put("verifier opens each %s's commitment once at its rotations" % n, A_V, len(vs) == 1 and vs[0][2] == rots,
                    "%s opened as %s (%s)" % (n, [(x[0], sorted(x[2])) for x in vs], w.tag))
    sweep(ctx, fn, ["all", "gates", "perm2", "lookup2", "permlookup"])


def PreRots(m, o):
    out = set()
    for r in m.seq(m.set_(m.proj(o, "queried_rotations"))):
        d = m.nat(m.proj(r, "degree"))
        out.add(-d if m.variant(m.proj(r, "sign"), "Sign") == "Minus" else d)
    return frozenset(out)


def c20(ctx):
    acc = Acc(ctx)
    ctx.guard("prover's input", "ProverPreprocessedInput::new", lambda: prover_input(ctx, acc))
    ctx.guard("verifier's input", "VerifierPreprocessedInput", lambda: verifier_input(ctx, acc))
    ctx.guard("keys", "ProverKey", lambda: key_pieces(ctx, acc))
    acc.finish()
    ctx.guard("openings", A_P + " / " + A_V, lambda: linked(ctx))
    if B.has("from_evals_and_domains", "FixedProverOracle"):
        ctx.guard("from_evals_and_domains", "FixedProverOracle", lambda: B.from_evals(ctx))
    def labeled():
        v, lab, p, ev, _ = B.build(ctx, "FixedProverOracle")
        lp = B.call(ctx, "to_labeled", "FixedProverOracle", pos=[v]).val
        an = "FixedProverOracle::to_labeled"
        ctx.eq("committed polynomial is the column's", an, tup(proj(lp, "label"), proj(lp, "polynomial")), tup(lab, p))
        ctx.eq("preprocessed columns are committed without blinding", an, B.bool01(isv(proj(lp, "hiding_bound"), "Option", "None")), ONE)
        ctx.eq("preprocessed columns have no degree bound", an, B.bool01(isv(proj(lp, "degree_bound"), "Option", "None")), ONE)
    ctx.guard("labelled polynomial", "FixedProverOracle::to_labeled", labeled)
    for nm in ("from_commitment", "from_labeled_commitment"):
        def f(nm=nm):
            lc = sym("lc")
            r = B.call(ctx, nm, "FixedVerifierOracle", pos=[lc])
            an = "FixedVerifierOracle::" + nm
            ctx.eq("keeps the label", an, B.call(ctx, "get_label", "FixedVerifierOracle", pos=[r.val]).val, proj(lc, "label"))
            ctx.eq("keeps the commitment", an, B.call(ctx, "get_commitment", "FixedVerifierOracle", pos=[r.val]).val, ok(proj(lc, "commitment")))
        ctx.guard(nm, "FixedVerifierOracle", f)

"""Obligations on the whole protocol: prover and verifier linked over the same circuit."""
from protocol import *
import spec_basic as B

A_P, A_V = "TurboPlonk::prove", "TurboPlonk::verify"
A_MP, A_MV = "Multiopen::prove", "Multiopen::verify"
NAMES = ["theta", "beta", "gamma", "alpha", "xi"]


# permuted columns and columns per chunk, with other domain sizes and extension ratios
CHUNKS = ["perm/n=1,c=3,N=4", "perm/n=2,c=2,N=16", "perm/n=3,c=1,scale=2", "perm/n=5,c=2", "perm/n=6,c=3,scale=8", "perm/n=3,c=3"]


def sweep(ctx, fn, shapes=None, reps=None, tweak=None, what="world"):
    acc = Acc(ctx)

    def go():
        for w in worlds(ctx, shapes, reps, tweak):
            acc.do("prover's proof is modelled", A_P, lambda: bool(w.prove()))
            if hasattr(w, "proof"):
                fn(w, acc)
    ctx.guard("linked analysis", A_P + " / " + A_V, go)
    acc.finish()


# ================================================================== C01
def c01(ctx):
    def fn(w, acc):
        a = A_P + " / " + A_V
        w.load(w.proof)
        acc.do("the same number of challenges is drawn", a, lambda: (len(w.kp) == len(w.kv) == len(NAMES), "%d vs %d in %s" % (len(w.kp), len(w.kv), w.tag)))
        for i, n in enumerate(NAMES):
            acc.do("challenge %s" % n, a, lambda: (w.kp[i] == w.kv[i], "transcripts differ in " + w.tag))
        def state():
            ev, tv = w.pevent(w.v, "Multiopen::verify")
            vs = [w.m.key(x) for x, t in zip(ev, tv) if t.op == "struct" and t.a[0] == "Rng" and is_fs(proj(t, "base"))]
            w.prove()
            ep, tp = w.pevent(w.r, "Multiopen::prove")
            ps = [w.m.key(x) for x, t in zip(ep, tp) if t.op == "struct" and t.a[0] == "Rng" and is_fs(proj(t, "base"))]
            return (len(ps) == len(vs) == 1 and ps == vs, "transcript states differ in " + w.tag)
        acc.do("transcript state handed to the multi-opening", a, state)
    sweep(ctx, fn)
    mo_sweep(ctx, c01_mo)


def c01_mo(w, acc):
    a = A_MP + " / " + A_MV
    w.prove()
    w.load(w.proof)
    acc.do("the same number of challenges is drawn", a, lambda: (len(w.kp) == len(w.kv) == 4, "%d vs %d" % (len(w.kp), len(w.kv))))
    for i, n in enumerate(["x1", "x2", "x3", "x4"]):
        acc.do("challenge %s" % n, a, lambda: (w.kp[i] == w.kv[i], "transcripts differ in " + w.tag))
    acc.do("the four challenges are different draws", a, lambda: (len(set(w.kv)) == 4, "shared draw"))


# ================================================================== C02
SENT = [  # messages of each round and the first challenge drawn after it
    (("witness_commitments",), 0), (("lookup_commitments",), 1), (("z_commitments", "lookup_z_commitments"), 3),
    (("quotient_chunk_commitments",), 4)]
EVALS = ("witness_evals", "fixed_oracle_evals", "table_oracle_evals", "permutation_oracle_evals", "q_blind_eval",
         "lookup_evals", "lookup_z_evals", "z_evals", "quotient_chunks_evals")


def fs_state(w):
    ev, tv = w.pevent(w.v, "Multiopen::verify")
    vs = [w.m.key(x) for x, t in zip(ev, tv) if t.op == "struct" and t.a[0] == "Rng"]
    if len(vs) != 1:
        raise Imprecise("transcript argument of the multi-opening")
    return vs[0]


def longer(w, n=14):
    """the proof with random quotient chunks added to make up n: how many there are is the prover's choice"""
    d = {}
    for f in ("quotient_chunk_commitments", "quotient_chunks_evals"):
        l = list(w.m.seq(w.proof.f[f]))
        d[f] = l + [Fe(w.m.h("longer", f, i) % PRIME) for i in range(n - len(l))]
    return w.with_(w.proof, **d)


def c02(ctx):
    def fn(w, acc):
        w.load(w.proof)
        k0, s0 = w.kv, fs_state(w)
        good = len(k0) == len(NAMES) == len(set(k0))
        acc.do("challenges are pairwise different draws", A_V, lambda: (good, "%d challenges, %d different draws instead of %d" % (len(k0), len(set(k0)), len(NAMES))))
        if not good:
            return

        def bound(first, what, kv=None, s=None):
            w2, s2 = w.kv, fs_state(w)
            for j in range(first, len(NAMES)):
                if w2[j] == k0[j]:
                    return False, "%s does not influence %s in %s" % (what, NAMES[j], w.tag)
            return s2 != s0, "%s does not influence the multi-opening challenges in %s" % (what, w.tag)
        for fields, first in SENT:
            for f in fields:
                def g():
                    n = 0
                    for f_, i in w.items(f):
                        w.load(w.bump(f_, i))
                        r = bound(first, "%s[%s]" % (f_, i))
                        if not r[0]:
                            return r
                        n += 1
                    return True if n else None
                acc.do("%s bound before %s" % (f, NAMES[first]), A_V, g)
        for f in EVALS:
            def g():
                n = 0
                for f_, i in w.items(f):
                    w.load(w.bump(f_, i))
                    r = bound(len(NAMES), "%s[%s]" % (f_, i))
                    if not r[0]:
                        return r
                    n += 1
                return True if n else None
            acc.do("%s bound before the multi-opening" % f, A_V, g)

        def many():
            """a proof with many quotient chunks"""
            P = longer(w)
            first = dict((f, i) for fs, i in SENT for f in fs)["quotient_chunk_commitments"]
            w.load(P)
            k, s = w.kv, fs_state(w)
            for f, lo in (("quotient_chunk_commitments", first), ("quotient_chunks_evals", len(NAMES))):
                for i in range(len(P.f[f])):
                    w.load(w.bump(f, i, proof=P))
                    for j in range(lo, len(NAMES)):
                        if w.kv[j] == k[j]:
                            return False, "%s[%d] does not influence %s in %s" % (f, i, NAMES[j], w.tag)
                    if fs_state(w) == s:
                        return False, "%s[%d] does not influence the multi-opening challenges in %s" % (f, i, w.tag)
            return True
        acc.do("every one of many quotient chunks is bound", A_V, many)

        def inst():
            for col in w.c.inst:
                for j in range(len(col.poly)):
                    old = list(col.poly)
                    col.poly[j] = (col.poly[j] + 1) % PRIME
                    w.load(w.proof)
                    r = bound(0, "public instance %s coefficient %d" % (col.label, j))
                    col.poly[:] = old
                    if not r[0]:
                        return r
            return True
        acc.do("public instance bound before the first challenge", A_V, inst)

        def which():
            """the same polynomial in another column is another statement"""
            old = [list(col.poly) for col in w.c.inst]
            n, seen = 0, {}
            P = [list(p) for p in old if p] + [[1]]
            try:
                for v in [P[0], [7], [7, 9]]:
                    for i in range(len(old) + 1):
                        for j, col in enumerate(w.c.inst):
                            col.poly[:] = v if i == j else []
                        w.load(w.proof)
                        k = w.kv[0]
                        if k in seen and i < len(old):
                            return False, "columns %s and %s holding the same public input give the same challenge (%s)" % (seen[k], i, w.tag)
                        seen[k] = i
                        n += 1
            finally:
                for col, p in zip(w.c.inst, old):
                    col.poly[:] = p
                w.load(w.proof)
            return True if len(old) > 1 else None
        acc.do("public instances in different columns give different challenges", A_V, which)
    ctx.guard("challenges range over the whole field", A_V, lambda: fullrange(ctx, V_(ctx), A_V, len(NAMES), lambda t: t.op == "fsinit"))
    ctx.guard("challenges range over the whole field", A_MV, lambda: fullrange(ctx, MV_(ctx), A_MV, 4, lambda t: t is sym("fs_rng")))
    sweep(ctx, fn, ["all", "gates", "perm2", "lookup", "all2"])
    mo_sweep(ctx, c02_mo)


def fsroot(t, base):
    """does a generator state come from the transcript (through every kind of draw)?"""
    while True:
        if t.op == "struct":
            d = dict(t.a[2])
            if "base" not in d:
                return False
            t = d["base"]
        elif t.op == "callmut":
            t = t.a[2][0]
        else:
            u = stateroot(t)
            if u is t:
                return base(t)
            t = u


def fullrange(ctx, r, anchor, need, base):
    """every challenge is a draw of a field element, not of a machine word"""
    nar = [e for e in r.events if e.kind in ("call:RngCore::next_u32", "call:RngCore::next_u64") and e.args and fsroot(e.args[0], base)]
    full = [e for e in r.events if e.kind == "rand" and fsroot(e.args[0], base)]
    if not nar:
        ctx.put("challenges range over the whole field", anchor, AGREES, "%d draws of field elements" % len(full))
    elif len(nar) + len(full) <= need:
        ctx.put("challenges range over the whole field", anchor, VIOLATED, "%d of %d challenges are made from at most 64 bits" % (need - len(full), need))
    else:
        ctx.put("challenges range over the whole field", anchor, UNDECIDED, "%d machine words are drawn" % len(nar))


def c02_mo(w, acc):
    w.prove()
    w.load(w.proof)
    k0 = w.kv
    f = dict(w.proof.f)
    good = len(k0) == len(set(k0)) == 4
    acc.do("challenges are pairwise different draws", A_MV, lambda: (good, "%d challenges, %d different draws instead of 4" % (len(k0), len(set(k0)))))
    if not good:
        return

    def fc():
        w.load(S(w.proof.n, w.proof.v, dict(f, f_commit=Fe(w.m.fld(f["f_commit"]) + 1))))
        return all(w.kv[j] != k0[j] for j in (2, 3)), "x3 or x4 does not depend on f_commit"
    acc.do("f_commit bound before x3 and x4", A_MV, fc)

    def qe():
        q = w.m.seq(f["q_evals"])
        for i in range(len(q)):
            l = list(q)
            l[i] = Fe(w.m.fld(l[i]) + 1)
            w.load(S(w.proof.n, w.proof.v, dict(f, q_evals=l)))
            if w.kv[3] == k0[3]:
                return False, "x4 does not depend on q_evals[%d]" % i
        return True
    acc.do("q_evals bound before x4", A_MV, qe)

    def st():
        w.fs = L("otherfs")
        w.load(w.proof)
        w.fs = L("fs")
        return all(x != y for x, y in zip(w.kv, k0)), "a challenge does not depend on the transcript so far"
    acc.do("all challenges bound to the transcript so far", A_MV, st)


# ================================================================== C03
def c03(ctx):
    def fn(w, acc):
        t = []

        def ident():
            x = w.identity()
            if x is None:
                return False, "no equation of the accept condition depends on the quotient evaluations (%s)" % w.tag
            t.append(x)
            return True
        acc.do("acceptance tests the quotient identity", A_V, ident)
        if not t:
            return
        t = t[0]

        def only(field):
            n = 0
            for f, i in w.items(field):
                p = w.bump(f, i)
                d = w.at(t, p)
                if d == 0:
                    continue
                n += 1
                if w.verify(p):
                    return False, "accepted although the identity fails after changing %s[%s] (%s)" % (f, i, w.tag)
            return True if n else None
        for f in EVALS:
            acc.do("a failing identity is rejected (%s)" % f, A_V, lambda: only(f))
        def counts():
            """proofs with another number of quotient chunks: the identity is tested whatever the number"""
            n0 = len(w.proof.f["quotient_chunks_evals"])
            n = 0
            for k in sorted({0, 1, 2, max(n0 - 1, 0), n0 + 1, n0 + 3}):
                p = w.with_(quotient_chunk_commitments=[Fe(901 + i) for i in range(k)], quotient_chunks_evals=[Fe(77 + i) for i in range(k)])
                if w.at(t, p) != 0:
                    n += 1
                    if w.verify(p):
                        return False, "accepted with %d quotient chunks although the identity fails (%s)" % (k, w.tag)
            return True if n else None
        acc.do("a failing identity is rejected for any number of quotient chunks", A_V, counts)
        acc.do("a failing opening is rejected", A_V, lambda: (not w.verify(w.proof, mo=False), "accepted in " + w.tag))

        def special(val):
            """vectors of the proof filled with one special value, alone and all together"""
            fs = [f for f, x in w.proof.f.items() if isinstance(x, list) and f not in ("quotient_chunks_evals",)]
            n = 0
            for sel in [[f] for f in fs] + [[f for f in fs if f in EVALS], [f for f in fs if f not in EVALS], fs]:
                p = w.with_(**{f: [Fe(val) for _ in w.proof.f[f]] for f in sel})
                if not any(w.proof.f[f] for f in sel):
                    continue
                n += 1
                if w.verify(p, mo=False):
                    return False, "accepted with %s all %s although the opening fails (%s)" % (", ".join(sel)[:200], val, w.tag)
                if any(f in EVALS for f in sel) and w.at(t, p) != 0 and w.verify(p):
                    return False, "accepted with %s all %s although the identity fails (%s)" % (", ".join(sel)[:200], val, w.tag)
            return True if n else None
        for val in (0, 1):
            acc.do("a forged proof of all %s is rejected" % ("zeros", "ones")[val], A_V, lambda: special(val))

        def once_():
            es = calls(w.v, "Multiopen::verify")
            return len(es) == 1 and not es[0].ctx and w.m.b(es[0].gpc, {}) if es else (False, "the batched opening is never checked")
        w.load(w.proof)
        acc.do("the batched opening is checked on every accepting path", A_V, once_)

        # errors of sub-checks
        def bad(mut, undo):
            mut()
            try:
                return not w.verify(w.proof), "accepted although a sub-check failed"
            finally:
                undo()
        if w.c.gates:
            g0 = w.m.gexpr[0]
            for kind in ("Witness", "Instance", "Fixed"):
                e = Expr(("s", ("k", ("q", qS("no_such_oracle", 0, kind)), Fe(0)), g0.t), ("bad", kind))
                acc.do("a gate query of an unknown %s oracle is an error" % kind, A_V, lambda: bad(
                    lambda: w.m.gexpr.__setitem__(0, e), lambda: w.m.gexpr.__setitem__(0, g0)))
            # a point at which no evaluation was registered
            col = w.c.wit[0]
            r = next(x for x in range(1, w.c.N) if x not in {q % w.c.N for q in col.rots})
            e = Expr(("s", ("k", ("q", qS(col.label, r, "Witness")), Fe(0)), g0.t), ("bad", "rot"))
            acc.do("a gate query without a claimed evaluation is an error", A_V, lambda: bad(
                lambda: w.m.gexpr.__setitem__(0, e), lambda: w.m.gexpr.__setitem__(0, g0)))
        if w.c.lookups:
            l0 = w.m.lexpr[0][0]
            for kind in ("Witness", "Instance", "Fixed"):
                e2 = Expr(("s", ("k", ("q", qS("no_such_oracle", 0, kind)), Fe(0)), l0.t), ("badl", kind))
                acc.do("a lookup query of an unknown %s oracle is an error" % kind, A_V, lambda: bad(
                    lambda: w.m.lexpr[0].__setitem__(0, e2), lambda: w.m.lexpr[0].__setitem__(0, l0)))
            t0 = w.m.ltab[0][0]
            acc.do("an unknown table column is an error", A_V, lambda: bad(
                lambda: w.m.ltab[0].__setitem__(0, qS("no_such_table", 0, "Fixed")), lambda: w.m.ltab[0].__setitem__(0, t0)))
        for what in ("gate", "lookup inputs", "lookup table"):
            def g():
                w.m.geterr = what
                try:
                    return not w.verify(w.proof), "accepted although the %s is not configured" % what
                finally:
                    w.m.geterr = None
            if what == "gate" or w.c.lookups:
                acc.do("an unconfigured %s is an error" % what, A_V, g)
    sweep(ctx, fn, ["all", "gates", "perm", "lookup", "permlookup"])
    mo_sweep(ctx, c03_mo)


def c03_mo(w, acc):
    w.prove()
    w.check = "real"
    acc.do("an honest opening is accepted", A_MV, lambda: (w.verify(w.proof), "rejected: " + w.tag))
    for c in ("false", "err"):
        def g():
            w.check = c
            try:
                return not w.verify(w.proof), "accepted although the commitment scheme's check said %s" % c
            finally:
                w.check = "real"
        acc.do("the check's result %s is a rejection" % c, A_MV, g)

    def special():
        """proof and statement components that a shortcut might single out"""
        q = w.m.seq(w.proof.f["q_evals"])
        ps = []
        for z in (0, 1):
            ps += [("f_commit = %d" % z, dict(f_commit=Fe(z))), ("all q_evals = %d" % z, dict(q_evals=[Fe(z) for _ in q])),
                   ("f_commit and q_evals %d" % z, dict(f_commit=Fe(z), q_evals=[Fe(z) for _ in q]))]
            ps += [("q_evals[%d] = %d" % (i, z), dict(q_evals=[Fe(z) if i == j else x for j, x in enumerate(q)])) for i in range(len(q))]
        w.check = "false"
        try:
            for why, d in ps:
                if w.verify(S(w.proof.n, w.proof.v, dict(w.proof.f, **d))):
                    return False, "accepted with %s although the commitment scheme's check failed (%s)" % (why, w.tag)
            old = w.oracles
            for sel in [[i] for i in range(len(old))] + [range(len(old))]:
                w.oracles = [S("mo", "", dict(o.f, com=0, evals={p: 0 for p in o.f["evals"]})) if i in sel else o for i, o in enumerate(old)]
                try:
                    if w.verify(w.proof):
                        return False, "accepted with zero commitments although the commitment scheme's check failed (%s)" % w.tag
                finally:
                    w.oracles = old
        finally:
            w.check = "real"
        return True
    acc.do("forged openings with special components are rejected", A_MV, special)

    def chk():
        es = [e for e in w.v.events if e.kind == "check"]
        w.load(w.proof)
        return len(es) == 1 and not es[0].ctx and w.m.b(es[0].gpc, {}), "%d checks" % len(es)
    acc.do("one commitment check on every accepting path", A_MV, chk)
    for what in ("nocom", "noeval"):
        def g():
            w.fault = what
            try:
                return not w.verify(w.proof), "accepted although an oracle had %s" % what
            finally:
                w.fault = None
        acc.do("an oracle error is a rejection (%s)" % what, A_MV, g)

    opening_sets(w, acc)


def opening_sets(w, acc):
    def lens():
        q = w.m.seq(w.proof.f["q_evals"])
        for l in (q[:-1], q + [Fe(5)], q + q, []):
            if len(l) == len(q):
                continue
            if w.verify(S(w.proof.n, w.proof.v, dict(w.proof.f, q_evals=l))):
                return False, "accepted %d evaluations for %d opening sets" % (len(l), len(q))
            # even when the commitment check itself would pass
            w.check = "true"
            try:
                if w.verify(S(w.proof.n, w.proof.v, dict(w.proof.f, q_evals=l))):
                    return False, "%d evaluations for %d opening sets reach acceptance" % (len(l), len(q))
            finally:
                w.check = "real"
        return True
    acc.do("every opening set needs its evaluation", A_MV, lens)


# ================================================================== C04
def triples(w):
    """(name, commitment, point, evaluation) the identity relies on"""
    c, m, p = w.c, w.m, w.proof
    out = []
    P = PRIME
    pt = lambda r: c.xi * pow(c.wg, r % c.N, P) % P
    ck = m.key(L("pk", "committer_key"))
    fixed = lambda col: ("n", peval_(col.poly, m.h("tau", ck) % P))
    com = lambda f, i: m.key(m.seq(p.f[f])[i])
    poly = lambda f, i: w.polys[f][i]
    for i, col in enumerate(c.wit):
        for r in sorted(col.rots):
            out.append(("witness column at rotation %d" % r, com("witness_commitments", i), pt(r), c.val(col, c.xi, r)))
    for col in c.fixed:
        for r in sorted(col.rots):
            out.append(("fixed column at rotation %d" % r, fixed(col), pt(r), c.val(col, c.xi, r)))
    for col in c.table:
        for r in sorted(col.rots):
            out.append(("table column at rotation %d" % r, fixed(col), pt(r), c.val(col, c.xi, r)))
    for col in c.sigma:
        out.append(("permutation column", fixed(col), pt(0), c.val(col, c.xi)))
    out.append(("row selector", fixed(c.qblind), pt(0), c.val(c.qblind, c.xi)))
    for j in range(len(c.lookups)):
        for k, r, n in ((0, 0, "a'"), (0, -1, "a' at the previous row"), (1, 0, "s'")):
            out.append(("lookup " + n, com("lookup_commitments", 2 * j + k), pt(r), peval_(poly("lookup_commitments", 2 * j + k), pt(r))))
        for r in (0, 1):
            out.append(("lookup aggregation at rotation %d" % r, com("lookup_z_commitments", j), pt(r), peval_(poly("lookup_z_commitments", j), pt(r))))
    n = len(c.chunks())
    for k in range(n):
        for r in [0, 1] + ([c.u] if k + 1 < n else []):
            out.append(("permutation aggregation at rotation %s" % ("u" if r > 1 else r), com("z_commitments", k), pt(r), peval_(poly("z_commitments", k), pt(r))))
    for i in range(len(m.seq(p.f["quotient_chunk_commitments"]))):
        out.append(("quotient chunk", com("quotient_chunk_commitments", i), pt(0), peval_(poly("quotient_chunk_commitments", i), pt(0))))
    return out


def polys(w):
    w.polys = {}
    for f in ("witness_commitments", "lookup_commitments", "lookup_z_commitments", "z_commitments", "quotient_chunk_commitments"):
        w.polys[f] = [w.poly_of(v) for v in w.m.seq(w.proof.f[f])]


def c04(ctx):
    def fn(w, acc):
        got = {}

        def setup():
            polys(w)
            w.load(w.proof)
            got["args"], _ = w.pevent(w.v, "Multiopen::verify")
            got["open"] = w.opened(got["args"])
            got["set"] = {(com, pt, e) for _, com, pts in got["open"] for pt, e in pts.items()}
            got["need"] = triples(w)
            return True
        acc.do("opened oracles are modelled", A_V, setup)
        if "need" not in got:
            return
        for n, com, pt, e in got["need"]:
            acc.put("%s is opened" % n, A_V, (com, pt, e) in got["set"], "missing from the batched opening in " + w.tag)
        t = []
        acc.do("acceptance tests the quotient identity", A_V, lambda: t.append(w.identity()) or (t[0] is not None))
        if not t or t[0] is None:
            return
        d0 = w.at(t[0], w.proof)
        keys = {(com, pt) for _, com, pts in got["open"] for pt in pts}
        for f in EVALS:
            def g():
                n = 0
                for f_, i in w.items(f):
                    p = w.bump(f_, i)
                    d = w.at(t[0], p)
                    if d == d0:
                        continue
                    n += 1
                    args, _ = w.pevent(w.v, "Multiopen::verify")
                    s = {(com, pt, e) for _, com, pts in w.opened(args) for pt, e in pts.items()}
                    new = {(c_, p_) for c_, p_, e in s - got["set"]}
                    if not new & keys:
                        return False, "%s[%s] enters the identity but no opening claim depends on it (%s)" % (f_, i, w.tag)
                return True if n else None
            acc.do("values of %s used by the identity are vouched for" % f, A_V, g)

        def many():
            P, m = longer(w), w.m
            w.load(P)
            a, _ = w.pevent(w.v, "Multiopen::verify")
            has = {(com, pt, e) for _, com, ps in w.opened(a) for pt, e in ps.items()}
            for i, (x, e) in enumerate(zip(P.f["quotient_chunk_commitments"], P.f["quotient_chunks_evals"])):
                if (m.key(x), w.c.xi, m.fld(e)) not in has:
                    return False, "quotient chunk %d of %d is missing from the batched opening in %s" % (i, len(P.f["quotient_chunks_evals"]), w.tag)
            return True
        acc.do("every one of many quotient chunks is opened", A_V, many)

        def pts():
            # each opening claim is about the evaluation challenge the identity uses
            a, tv = w.pevent(w.v, "Multiopen::verify")
            return any(isinstance(x, Fe) and x.v == w.c.xi for x in a), "the evaluation point is not passed on"
        w.load(w.proof)
        acc.do("the opening is about the challenge of the identity", A_V, pts)
    sweep(ctx, fn, ["all", "gates", "perm2", "lookup2", "permlookup"])
    mo_sweep(ctx, c04_mo)


def c04_mo(w, acc):
    w.prove()
    w.load(w.proof)
    c0, v0, p0 = w.claim()

    def ev():
        for i, o in enumerate(w.oracles):
            for pt in o.f["evals"]:
                old = o.f["evals"][pt]
                o.f["evals"][pt] = (old + 1) % PRIME
                w.load(w.proof)
                v = w.claim()[1]
                o.f["evals"][pt] = old
                if v == v0:
                    return False, "claimed evaluation %d of oracle %d does not enter the checked value" % (list(o.f["evals"]).index(pt), i)
        return True
    acc.do("every claimed evaluation enters the checked value", A_MV, ev)

    def cm():
        for i, o in enumerate(w.oracles):
            old = o.f["com"]
            o.f["com"] = (old + 1) % PRIME
            w.load(w.proof)
            c = w.claim()[0]
            o.f["com"] = old
            if c == c0:
                return False, "the commitment of oracle %d does not enter the checked commitment" % i
        return True
    acc.do("every commitment enters the checked commitment", A_MV, cm)

    def fcm():
        w.load(S(w.proof.n, w.proof.v, dict(w.proof.f, f_commit=Fe(w.m.fld(w.proof.f["f_commit"]) + 1))))
        c = w.claim()[0]
        return c != c0, "f_commit does not enter the checked commitment"
    acc.do("f_commit enters the checked commitment", A_MV, fcm)
    opening_sets(w, acc)


# ================================================================== constraints: C05 C06 C08 C09 C11 C24
def spec_constraints(w):
    c = w.c
    polys(w)
    z, zl = w.polys["z_commitments"], w.polys["lookup_z_commitments"]
    lc = w.polys["lookup_commitments"]
    return c.constraints(c.xi, z, zl, lc[0::2], lc[1::2])


class Coefs:
    """coefficients of alpha of one side, matched with the specified constraints"""

    def __init__(self, cs, spec):
        P = PRIME
        self.raw = cs
        best = None
        for lam in (1, -1):
            where = {}
            for i, (fam, name, v) in enumerate(spec):
                where[i] = [k for k, x in enumerate(cs) if x and x == v * lam % P]
            n = sum(1 for x in where.values() if x)
            if best is None or n > best[0]:
                best = (n, where, lam)
        self.n, self.where, self.lam = best
        # a constraint may be multiplied by -1 on its own
        for i, (fam, name, v) in enumerate(spec):
            if not self.where[i]:
                self.where[i] = [k for k, x in enumerate(cs) if x and x == -v * self.lam % P]
        used = {k for x in self.where.values() for k in x}
        self.left = {k: x for k, x in enumerate(cs) if x and k not in used}
        # several constraints under one power
        self.shared = {}
        miss = [i for i, (f, n, v) in enumerate(spec) if not self.where[i]]
        import itertools
        for k, x in list(self.left.items()):
            for r in (2, 3):
                for q in itertools.combinations(miss, r):
                    if x == self.lam * sum(spec[i][2] for i in q) % P:
                        self.shared[k] = [spec[i][1] for i in q]
                        for i in q:
                            self.where[i] = [k]
                        self.left.pop(k, None)
                        break
                if k in self.shared:
                    break


class NoIdentity(Imprecise):
    pass


def sides(w, full):
    """coefficient tables of the verifier's identity and (if it disagrees) of the prover's numerator"""
    spec = spec_constraints(w)
    t = w.identity()
    if t is None:
        raise NoIdentity("identity not found")
    zero = w.with_(quotient_chunks_evals=[Fe(0)] * len(w.m.seq(w.proof.f["quotient_chunks_evals"])))
    cv = coefficients(lambda a: w.at(t, zero, a), len(spec))
    V = Coefs(cv, spec)
    # the prover's numerator, for a few values of alpha
    a0 = w.c.alpha

    def num(a):
        w.c.alpha = a
        try:
            return w.numerator()
        finally:
            w.c.alpha = a0
    okp = all(V.lam * num(a) % PRIME == peval_(cv, a) for a in (a0, 12345))
    if okp:
        Pc = Coefs([x * V.lam % PRIME for x in cv], spec)
        Pc.same = True
    else:
        Pc = Coefs(coefficients(num, len(spec)), spec)
        Pc.same = False
    V.same = okp
    return spec, V, Pc, t


def constraint_check(ctx, families, select=None, shapes=None, contracts=True):
    def fn(w, acc):
        got = []
        def separated():
            try:
                got.append(sides(w, True))
            except NoIdentity:
                if any(f in families for f, n, v in spec_constraints(w)):
                    return False, "the verifier accepts without an equation on the quotient evaluations (%s)" % w.tag
                return None
            return True
        acc.do("constraints are separated by powers of the challenge", A_P + " / " + A_V, separated)
        if not got:
            return
        spec, V, Pc, t = got[0]
        for side, co, anchor in (("verifier", V, A_V), ("prover", Pc, A_P)):
            if side == "prover" and not Pc.same and Pc.n == 0 and len(spec) > 1:
                # nothing matches: the quotient itself is not recombined (reported by C24)
                acc.slot("prover's quotient is recombined", A_P)[2] = "no constraint recognised in the prover's quotient (see C24)"
                continue
            for i, (fam, name, v) in enumerate(spec):
                if fam not in families or v == 0 or select and not select(name):
                    continue
                nm = "%s: %s" % (side, re.sub(r"\d+", "k", name))
                ws = co.where[i]
                if not ws:
                    acc.put(nm, anchor, False, "%s is not among the constraints the %s combines (%s)" % (name, side, w.tag))
                elif len(ws) != sum(x[2] == v for x in spec):     # a circuit may declare one constraint twice
                    acc.put(nm, anchor, False, "%s is combined %d times (%s)" % (name, len(ws), w.tag))
                else:
                    acc.put(nm, anchor, True)
        for i, (fam, name, v) in enumerate(spec):
            if fam in families and v and V.where[i] and Pc.where[i] and not (select and not select(name)):
                acc.put("same power on both sides: " + re.sub(r"\d+", "k", name), A_P + " / " + A_V,
                        V.where[i] == Pc.where[i], "%s: verifier alpha^%s, prover alpha^%s (%s)" % (name, V.where[i], Pc.where[i], w.tag))
    sweep(ctx, fn, shapes)
    if contracts:
        B.rotation_points(ctx)
        B.rotation_queries(ctx)


def c05(ctx):
    constraint_check(ctx, {"gate"}, shapes=["gates", "gates2", "all", "all2", "gates/N=4,big=1,gates=24"])


def c06(ctx):
    constraint_check(ctx, {"perm"}, shapes=["perm", "perm2", "all", "all2", "permlookup"] + CHUNKS)


def c08(ctx):
    constraint_check(ctx, {"lookup"}, shapes=["lookup", "lookup2", "all2", "permlookup"])
    lookup_only(ctx)


def lookup_only(ctx):
    """a lookup-only circuit indexed with a dummy permutation"""
    acc = Acc(ctx)

    def go():
        w = World(ctx, 7, "lookup")
        w.c.pa_usable = 0
        w.c.install(w.m)
        w.prove()
        spec, V, Pc, t = sides(w, True)
        for i, (fam, name, v) in enumerate(spec):
            if fam == "lookup" and v:
                acc.put("lookup-only circuit: last usable row", A_V, bool(V.where[i]) and bool(Pc.where[i]),
                        "%s is not enforced at the index's last usable row when the permutation has none" % name)
    ctx.guard("lookup-only circuit", A_V, go)
    acc.finish()


def c09(ctx):
    constraint_check(ctx, {"lookup"}, select=lambda n: "subset step" in n, shapes=["lookup", "lookup2", "all", "permlookup", "all2"])

    def fn(w, acc):
        a = "LookupArgument (prover)"
        perms = {}

        def f():
            pa = [p for p in w.m.perms if p[0] == "permA"]
            for j in range(len(w.c.lookups)):
                rows = [pow(w.c.wg, i, PRIME) for i in range(w.c.u)]
                ra, rs = [w.c.lookup_a(j, x) for x in rows], [w.c.lookup_s(j, x) for x in rows]
                if not any(p[1] == ra for p in pa):
                    return False, "no permuted input is computed from the theta-combination of lookup %d (%s)" % (j, w.tag)
                if not any(p[1] == ra and p[2] == rs for p in pa):
                    return False, "the permuted table is not computed from the theta-combination of lookup %d's table (%s)" % (j, w.tag)
            return True
        acc.do("prover compresses inputs and tables by powers of theta", a, f)
    sweep(ctx, fn, ["lookup", "lookup2", "all", "permlookup"])


def c11(ctx):
    def fn(w, acc):
        got = []
        acc.do("constraints are separated by powers of the challenge", A_P + " / " + A_V, lambda: got.append(sides(w, True)) or True)
        if not got:
            return
        spec, V, Pc, t = got[0]
        for side, co, anchor in (("verifier", V, A_V), ("prover", Pc, A_P)):
            if side == "prover" and not Pc.same and Pc.n == 0:
                continue
            for k, ns in co.shared.items():
                acc.put("%s: no two constraints share a power" % side, anchor, False, "alpha^%d multiplies %s (%s)" % (k, " and ".join(ns), w.tag))
            live = [i for i, s in enumerate(spec) if s[2]]
            # equal constraints take their places in turn
            turn = {i: sum(spec[j][2] == spec[i][2] for j in live if j < i) for i in live}
            pw = [co.where[i][min(turn[i], len(co.where[i]) - 1)] for i in live if co.where[i]]
            acc.put("%s: no two constraints share a power" % side, anchor, len(set(pw)) == len(pw), "powers %s (%s)" % (sorted(pw), w.tag))
            miss = [spec[i][1] for i in live if not co.where[i]]
            if not miss or not co.left:
                acc.put("%s: every power carries one constraint" % side, anchor,
                        len([x for x in co.raw if x]) == len(pw) - 0 if not miss else True,
                        "%d powers for %d constraints (%s)" % (len([x for x in co.raw if x]), len(live), w.tag))
    sweep(ctx, fn, SHAPES + ["gates/N=4,big=1,gates=24"])


def c24(ctx):
    def fn(w, acc):
        got = []
        acc.do("constraints are separated by powers of the challenge", A_P + " / " + A_V, lambda: got.append(sides(w, True)) or True)
        if not got:
            return
        spec, V, Pc, t = got[0]
        c = w.c
        acc.put("quotient times the vanishing polynomial is the numerator", A_P, Pc.same or Pc.n > 0,
                "recombined quotient times zh(xi) is not the combination of the constraints (%s)" % w.tag)
        d0 = w.at(t, w.proof)
        n = len(w.m.seq(w.proof.f["quotient_chunks_evals"]))

        def f():
            for i in range(n):
                d = (w.at(t, w.bump("quotient_chunks_evals", i)) - d0) * V.lam % PRIME
                if d != -c.zh(c.xi) * pow(c.xi, c.N * i, PRIME) % PRIME:
                    return False, "chunk %d of %d is not weighted by zh(xi)*xi^(n*%d) (%s)" % (i, n, i, w.tag)
            return True
        acc.do("verifier weights chunk i by zh(xi)*xi^(n i)", A_V, f)

        def many():
            P = longer(w)
            d0 = w.at(t, P)
            for i in range(len(P.f["quotient_chunks_evals"])):
                d = (w.at(t, w.bump("quotient_chunks_evals", i, proof=P)) - d0) * V.lam % PRIME
                if d != -c.zh(c.xi) * pow(c.xi, c.N * i, PRIME) % PRIME:
                    return False, "chunk %d of %d is not weighted by zh(xi)*xi^(n*%d) (%s)" % (i, len(P.f["quotient_chunks_evals"]), i, w.tag)
            return True
        acc.do("every one of many chunks is weighted", A_V, many)

        def g():
            w.prove()
            polys(w)
            q = w.polys["quotient_chunk_commitments"]
            if any(len(p) > c.N for p in q):
                return False, "a chunk is longer than the domain (%s)" % w.tag
            return len(q) <= c.ext // c.N and len(q) == len(w.m.seq(w.proof.f["quotient_chunks_evals"])), "%d chunks (%s)" % (len(q), w.tag)
        acc.do("chunks are domain-sized and committed once", A_P, g)

        def h():
            w.prove()
            polys(w)
            e = [w.m.fld(x) for x in w.m.seq(w.proof.f["quotient_chunks_evals"])]
            return e == [peval_(p, c.xi) for p in w.polys["quotient_chunk_commitments"]], "chunk evaluations (%s)" % w.tag
        acc.do("chunk evaluations belong to the committed chunks", A_P, h)
    sweep(ctx, fn, ["gates", "gates2", "all", "permlookup", "all2", "lookup2", "all/scale=8", "gates/N=4", "gates/N=4,scale=32", "perm/n=2,c=1,scale=2"])

    def sparse(w, acc):
        polys(w)
        w.prove()
        acc.do("a quotient with zero chunks is recombined", A_P + " / " + A_V, lambda: (
            w.verify(w.proof), "the identity fails for a quotient with zero chunks (%s)" % w.tag))
    sweep(ctx, sparse, ["gates/mono=%d,N=4,scale=%d" % (i, sc) for i in (1, 2, 3, 4, 5) for sc in (4, 8)])


# ================================================================== argument polynomials: C07 C10 C13
def rows(c, p):
    return [peval_(p, pow(c.wg, i, PRIME)) for i in range(c.N)]


def c07(ctx):
    def fn(w, acc):
        c = w.c
        ch, cols = c.chunks(), c.permcols()
        if not ch:
            return
        a = "PermutationArgument (prover)"
        zs = []

        def setup():
            polys(w)
            zs.extend(rows(c, p) for p in w.polys["z_commitments"])
            return len(zs) == len(ch), "%d aggregation polynomials for %d chunks (%s)" % (len(zs), len(ch), w.tag)
        acc.do("one aggregation polynomial per chunk", a, setup)
        if len(zs) != len(ch):
            return
        acc.put("starts at one", a, zs[0][0] == 1, "first value %x (%s)" % (zs[0][0], w.tag))
        for k, idx in enumerate(ch):
            if k:
                acc.put("carries the previous chunk's last value", a, zs[k][0] == zs[k - 1][c.u], "chunk %d (%s)" % (k, w.tag))
            for i in range(c.u):
                x = pow(c.wg, i, PRIME)
                n, d = zs[k][i], zs[k][i + 1]
                for j in idx:
                    v = c.val(cols[j], x)
                    n = n * (v + c.beta * c.deltas[j] % PRIME * x + c.gamma) % PRIME
                    d = d * (v + c.beta * c.val(c.sigma[j], x) + c.gamma) % PRIME
                acc.put("multiplies by the quotient of identity and permutation factors", a, n == d,
                        "chunk %d row %d (%s)" % (k, i, w.tag))
            acc.put("polynomial is determined by the domain rows", a, len(w.polys["z_commitments"][k]) <= c.N, w.tag)
        fresh_rows(w, acc, a, "z_commitments", c.u + 1)
    sweep(ctx, fn, ["perm", "perm2", "all", "permlookup", "all2"] + CHUNKS)


def rank(mat):
    mat, r = [x[:] for x in mat if any(x)], 0
    for j in range(len(mat[0]) if mat else 0):
        p = next((i for i in range(r, len(mat)) if mat[i][j]), None)
        if p is None:
            continue
        mat[r], mat[p] = mat[p], mat[r]
        inv = pow(mat[r][j], -1, PRIME)
        for i in range(r + 1, len(mat)):
            if mat[i][j]:
                k = mat[i][j] * inv % PRIME
                mat[i] = [(x - k * y) % PRIME for x, y in zip(mat[i], mat[r])]
        r += 1
    return r


def fresh_rows(w, acc, a, field, frm):
    """the rows from `frm` on are pairwise independent draws of the prover's randomness"""
    c, m = w.c, w.m

    def again(swap=None):
        m.drawn, m.swapdraw = {}, swap
        w.reset()
        m.coms.clear()
        w.roles(w.r)
        p2 = m.ev(w.r.proof)
        return [rows(c, w.poly_of(v)) for v in m.seq(p2.f[field])]

    def f():
        z1 = [rows(c, p) for p in w.polys[field]]
        # the same circuit with other randomness
        m.syms["zk_rng"] = L("zk2")
        try:
            z2 = again()
            drawn = {m.fld(ri.Fe(m.h("drawno", o))): k for k, o in m.drawn.items()}
            vals, new = [], []
            for x, y in zip(z1, z2):
                for i in range(frm, c.N):
                    if x[i] == y[i]:
                        return False, "row %d does not depend on the prover's randomness (%s)" % (i, w.tag)
                    vals.append(x[i])
                    new.append(y[i])
                if x[:frm] != y[:frm] and field != "lookup_z_commitments" and field != "x":
                    return False, "a usable row depends on the prover's randomness (%s)" % w.tag
            if len(set(vals)) != len(vals):
                return False, "rows share a random value (%s)" % w.tag
            if all(v in drawn for v in new):
                # every row is a draw of its own: independent, unless the draw is used by another polynomial too
                used = w.__dict__.setdefault("useddraws", {})
                for v in new:
                    o = used.setdefault(drawn[v], field)
                    if o != field:
                        return False, "a row of %s and a row of %s are the same draw (%s)" % (o, field, w.tag)
                return True, ""
            # rows computed from draws: as many degrees of freedom as rows
            if len(drawn) > 160 or acc.__dict__.setdefault("rankruns", 0) >= 6:
                return True, ""
            acc.rankruns += 1
            mat = []
            for k in range(len(drawn)):
                z3 = again(k)
                mat.append([(v - u) % PRIME for x, y in zip(z2, z3) for u, v in list(zip(x, y))[frm:]])
            return rank(mat) == len(vals), "%d unused rows are computed from fewer independent draws (%s)" % (len(vals), w.tag)
        finally:
            del m.syms["zk_rng"]
            m.drawn = m.swapdraw = None
    acc.do("%s: unused rows are independent fresh randomness" % field, a, f)


def c10(ctx):
    def fn(w, acc):
        c = w.c
        if not c.lookups:
            return
        a = "LookupArgument (prover)"
        got = []

        def setup():
            polys(w)
            n = len(c.lookups)
            lc, zl = w.polys["lookup_commitments"], w.polys["lookup_z_commitments"]
            got.append((lc, zl))
            return len(lc) == 2 * n and len(zl) == n, "%d permuted columns, %d aggregations for %d lookups (%s)" % (len(lc), len(zl), n, w.tag)
        acc.do("two permuted columns and one aggregation per lookup", a, setup)
        if not got or len(got[0][0]) != 2 * len(c.lookups) or len(got[0][1]) != len(c.lookups):
            return
        lc, zl = got[0]
        for j in range(len(c.lookups)):
            xs = [pow(c.wg, i, PRIME) for i in range(c.N)]
            ra, rs = [c.lookup_a(j, x) for x in xs[:c.u]], [c.lookup_s(j, x) for x in xs[:c.u]]
            pa = [p for p in w.m.perms if p[0] == "permA" and p[1] == ra and p[2] == rs]
            ps = [p for p in w.m.perms if p[0] == "permS" and p[1] == ra and p[2] == rs]
            acc.put("permuted columns are computed from the usable rows", a, bool(pa) and bool(ps), "lookup %d (%s)" % (j, w.tag))
            A, Sx, Z = rows(c, lc[2 * j]), rows(c, lc[2 * j + 1]), rows(c, zl[j])
            if pa and ps:
                acc.put("permuted input column", a, A[:c.u] == pa[0][3][:c.u], "lookup %d (%s)" % (j, w.tag))
                acc.put("permuted table column", a, Sx[:c.u] == ps[0][3][:c.u], "lookup %d (%s)" % (j, w.tag))
            acc.put("aggregation starts at one", a, Z[0] == 1, "lookup %d (%s)" % (j, w.tag))
            for i in range(c.u):
                lhs = Z[i + 1] * (A[i] + c.beta) % PRIME * (Sx[i] + c.gamma) % PRIME
                rhs = Z[i] * (c.lookup_a(j, xs[i]) + c.beta) % PRIME * (c.lookup_s(j, xs[i]) + c.gamma) % PRIME
                acc.put("aggregation multiplies by the subset-equality quotient", a, lhs == rhs, "lookup %d row %d (%s)" % (j, i, w.tag))
        fresh_rows(w, acc, a, "lookup_commitments", c.u)
        fresh_rows(w, acc, a, "lookup_z_commitments", c.u + 1)
    sweep(ctx, fn, ["lookup", "lookup2", "all", "permlookup", "all2"])


def c13(ctx):
    def fn(w, acc):
        c, m = w.c, w.m
        seen = {}

        def zk(rr):
            """the randomness argument is a state of the caller's generator"""
            if m.variant(rr, "Option") != "Some":
                return None
            return m.key(m.proj(rr, "0", "Some"))
        for f in ("witness_commitments", "lookup_commitments", "lookup_z_commitments", "z_commitments", "quotient_chunk_commitments"):
            def g():
                n = 0
                for i, v in enumerate(m.seq(w.proof.f[f])):
                    cs = m.coms.get(m.fld(v))
                    if not cs:
                        raise Imprecise("commitment without a known polynomial")
                    p, hb, rr = cs[0]
                    if m.variant(hb, "Option") != "Some" or m.nat(m.proj(hb, "0", "Some")) < 1:
                        return False, "%s[%d] has no hiding bound (%s)" % (f, i, w.tag)
                    k = zk(rr)
                    if k is None:
                        return False, "%s[%d] is committed without randomness (%s)" % (f, i, w.tag)
                    n += 1
                return True if n else None
            acc.do("%s are hiding" % f, A_P, g)

        def rng():
            ev = [e for e in w.r.events if e.kind == "commit"]
            ks = []
            for e in ev:
                r = next((t for t in e.args[::-1] if t.op == "struct" and t.a[1] in ("Some", "None") or t.op == "ite"), None)
                if r is None:
                    raise Imprecise("randomness argument of a commit call")
                v = m.ev(r)
                if m.variant(v, "Option") != "Some":
                    continue
                t = proj(r, "0", "Option", "Some")
                root = stateroot(proj(t, "base") if t.op == "struct" and t.a[0] == "Rng" else proj(t, "0"))
                if root is not sym("zk_rng"):
                    known(t)
                    return False, "a commitment is blinded by %s instead of the caller's randomness" % safe_pp(root)
                k = m.key(m.proj(v, "0", "Some"))
                if k in ks:
                    return False, "two commitments are blinded from the same generator state"
                ks.append(k)
            return True if ks else None
        acc.do("blinding comes from the caller's generator, advanced in between", A_P, rng)
        polys(w)
        if c.chunks():
            fresh_rows(w, acc, "PermutationArgument (prover)", "z_commitments", c.u + 1)
        if c.lookups:
            w.prove()
            polys(w)
            fresh_rows(w, acc, "LookupArgument (prover)", "lookup_commitments", c.u)
            w.prove()
            polys(w)
            fresh_rows(w, acc, "LookupArgument (prover)", "lookup_z_commitments", c.u + 1)

        def across():
            w.prove()
            polys(w)
            vals = []
            for f, frm in (("z_commitments", c.u + 1), ("lookup_commitments", c.u), ("lookup_z_commitments", c.u + 1)):
                for p in w.polys[f]:
                    vals += rows(c, p)[frm:]
            return (len(vals) == len(set(vals)), "two argument polynomials share a blinding value (%s)" % w.tag) if vals else None
        acc.do("blinding rows of different polynomials are independent", A_P, across)

        def arg():
            w.prove()
            a, t = w.pevent(w.r, "Multiopen::prove")
            rs = [x for x in t if x.op == "struct" and x.a[0] == "Rng" and stateroot(proj(x, "base")) is sym("zk_rng")]
            if len(rs) != 1:
                known(*t)
            return len(rs) == 1, "the multi-opening does not receive the caller's randomness"
        acc.do("multi-opening receives the caller's generator", A_P, arg)
    sweep(ctx, fn, ["all", "gates", "perm2", "lookup2", "permlookup"])
    mo_sweep(ctx, c13_mo)
    B.hiding_bounds(ctx) if hasattr(B, "hiding_bounds") else None


def known(*ts):
    """raise unless the value of every term is known to the analysis"""
    for t in ts:
        if isinstance(t, T) and any(x.op in ("loopval", "undef") for x in subterms(t)):
            raise Imprecise("a value the analysis does not follow")


def c13_mo(w, acc):
    w.prove()

    def g():
        cs = w.m.coms.get(w.m.fld(w.proof.f["f_commit"]))
        if not cs:
            raise Imprecise("f_commit")
        p, hb, rr = cs[0]
        return (w.m.variant(hb, "Option") == "Some" and w.m.nat(w.m.proj(hb, "0", "Some")) >= 1
                and w.m.variant(rr, "Option") == "Some"), "f_commit is not hiding"
    acc.do("batched opening polynomial is hiding", A_MP, g)

    def h():
        a = w.m.key(w.m.proj(w.m.coms[w.m.fld(w.proof.f["f_commit"])][0][2], "0", "Some"))
        k0 = w.m.fld(w.proof.f["f_commit"])
        w.zk = L("zk2")
        w.prove()
        w.zk = L("zk")
        return w.m.fld(w.proof.f["f_commit"]) != k0, "f_commit does not depend on the caller's randomness"
    acc.do("its blinding comes from the caller's generator", A_MP, h)


# ================================================================== C14
def fires(w, o):
    """does the potential panic o fire in the current model"""
    t = and_(o.gpc, o.cond)
    m = w.m
    ctx = list(o.ctx)

    x = t
    for s, n in reversed(ctx):
        if n.op in ("sym",) and n not in TM.NATSYMS or n.op in ("proj", "call", "at") and not isnat(n):
            x = raw("anyq", n, lam(s, x))
        else:
            x = raw("exists", n, lam(s, x))
    v = m.b(x, {})
    if v and o.kind == "opaque-loop":
        raise Imprecise("a loop the analysis does not follow")
    return v


def isnat(n):
    return n.op in ("nat", "len", "poly", "const") or n in TM.NATSYMS


def c14(ctx):
    import random
    acc = Acc(ctx)

    def go():
        for w in worlds(ctx, ["all", "gates", "perm2", "lookup2", "permlookup"]):
            R = random.Random(repr((w.tag, ctx.seed)))
            w.prove()
            acc.put("honest proof is modelled", A_V, True)
            vecs = [f for f, x in w.proof.f.items() if isinstance(x, list)]
            cases = [("honest", w.proof)]
            for f in vecs:
                x = w.proof.f[f]
                alts = [x[:-1], [], x + [Fe(3)], x + x] if x else [[Fe(1)], [Fe(1), Fe(2), Fe(3)]]
                cases += [("%s of length %d instead of %d" % (f, len(l), len(x)), w.with_(**{f: l})) for l in alts]
            for k in range(6 if ctx.tier == "quick" else 40):
                ch = {}
                for f in R.sample(vecs, min(len(vecs), R.choice([2, 3]))):
                    ch[f] = [Fe(R.randrange(PRIME)) for _ in range(R.randrange(0, 9))]
                cases.append(("lengths %s" % {f: len(x) for f, x in ch.items()}, w.with_(**ch)))
            q = w.proof.f.get("quotient_chunk_commitments")
            if isinstance(q, list):
                for n in (0, 1, len(q) + 2):
                    cases.append(("%d quotient chunks" % n, w.with_(quotient_chunk_commitments=[Fe(9)] * n, quotient_chunks_evals=[Fe(8)] * n)))
            for f in vecs:
                x = w.proof.f[f]
                for l in ([x[:-1]] if x else []) + [x + [Fe(3)], x + [Fe(5)] * 6]:
                    acc.do("a proof with the wrong number of %s is rejected" % f, A_V, lambda: (
                        not w.verify(w.with_(**{f: l})), "accepted with %d instead of %d (%s)" % (len(l), len(x), w.tag)))
            for what, p in cases:
                w.load(p)
                for o in w.v.obl:
                    nm = "no %s in %s" % (o.kind, "::".join(o.fn.split("::")[-2:]))
                    acc.do(nm, A_V, lambda: (not fires(w, o), "%s at %s for a proof with %s (%s)" % (o.kind, o.src.split(":")[0], what, w.tag)))
    ctx.guard("malformed proofs", A_V, go)
    acc.finish()
    mo_sweep(ctx, c14_mo)


def c14_mo(w, acc):
    w.prove()
    q = w.m.seq(w.proof.f["q_evals"])
    for n in range(0, len(q) + 3):
        if n != len(q):
            p = S(w.proof.n, w.proof.v, dict(w.proof.f, q_evals=(q + [Fe(5)] * 3)[:n]))
            acc.do("a proof with the wrong number of opening evaluations is rejected", A_MV, lambda: (
                not w.verify(p), "accepted with %d instead of %d (%s)" % (n, len(q), w.tag)))
        p = S(w.proof.n, w.proof.v, dict(w.proof.f, q_evals=[Fe(11 + i) for i in range(n)]))
        w.load(p)
        for o in w.v.obl:
            nm = "no %s in %s" % (o.kind, "::".join(o.fn.split("::")[-2:]))
            acc.do(nm, A_MV, lambda: (not fires(w, o), "%s at %s for %d evaluations, %d opening sets (%s)" % (o.kind, o.src.split(":")[0], n, len(q), w.tag)))


# ================================================================== C27
def c27(ctx):
    def stale_of(kind):
        def f(m, c):
            circ = m.circ
            d = []
            for r in range(circ.N):
                if kind == "other" or kind == "same" and r in {x % circ.N for x in c.rots}:
                    pt = circ.xi * pow(circ.wg, r, PRIME) % PRIME
                    d.append((Fe(pt), Fe(m.h("stale", c.label, r))))
            d.append((Fe(m.h("stalept", c.label)), Fe(m.h("staleval", c.label))))
            return m.mkmap(d)
        return f

    def fn(w, acc):
        proofs = [("an honest proof", w.proof)]
        for f in EVALS:
            for g, i in w.items(f)[:1]:
                proofs.append(("a proof with a changed %s" % g, w.bump(g, i)))
                x = w.proof.f[g]
                if isinstance(x, list) and x:
                    proofs.append(("a proof with a shorter %s" % g, w.with_(**{g: x[:-1]})))
        for f in ("witness_commitments", "quotient_chunk_commitments", "z_commitments", "lookup_commitments", "lookup_z_commitments"):
            for g, i in w.items(f)[:1]:
                proofs.append(("a proof with a changed %s" % g, w.bump(g, i)))
                proofs.append(("a proof with fewer %s" % g, w.with_(**{g: w.proof.f[g][:-1]})))
        for kind in ("same", "other"):
            st = stale_of(kind)
            for what, p in proofs:
                acc.do("outcome does not depend on leftovers (%s points)" % kind, A_V, lambda: (
                    w.verify(p) == w.verify(p, stale=st), "%s is judged differently after an earlier verification (%s)" % (what, w.tag)))

                def tr():
                    w.load(p)
                    k0 = list(w.kv)
                    if w.m.variant(w.m.ev(w.v.val), "Result") != "Ok" and "changed" not in what:
                        return None
                    a, _ = w.pevent(w.v, "Multiopen::verify")
                    o0 = w.opened(a)
                    w.load(p, stale=st)
                    a, _ = w.pevent(w.v, "Multiopen::verify")
                    if w.kv != k0:
                        return False, "challenges depend on leftovers (%s)" % w.tag
                    o1 = w.opened(a)
                    for x, y in zip(o0, o1):
                        if x[1:] != y[1:]:
                            return False, "the opening of %r uses a leftover commitment or evaluation for %s (%s)" % (x[0], what, w.tag)
                    return len(o0) == len(o1)
                if "shorter" not in what and "fewer" not in what:
                    acc.do("opening claims do not depend on leftovers (%s points)" % kind, A_V, tr)
    sweep(ctx, fn, ["all", "gates", "perm2", "lookup", "permlookup"])


# ================================================================== C12 and the multi-opening worlds
class MoWorld:
    def __init__(self, ctx, k):
        import random
        self.ctx, self.k = ctx, k
        self.r, self.v = MP_(ctx), MV_(ctx)
        m = self.m = ctx.model("mo/%s" % k)
        R = random.Random(repr((ctx.seed, "mo", k)))
        self.N = 8
        m.N = 8
        m.budget = 50_000_000
        self.wg = pow(pow(ri.GEN, (PRIME - 1) >> ri.TWOAD, PRIME), 1 << (ri.TWOAD - 3), PRIME)
        self.x = R.randrange(2, PRIME)
        sets = [[0], [0, 1], [0, -1], [-2, 0, 3], [0, 1, 4], [2]]
        sets = R.sample(sets, R.choice([1, 2, 3]) if k % 3 else 3)
        n = R.choice([1, 2, 3, 4, 6]) if k else 5
        if k % 6 == 4:
            # many oracles and groups
            sets = [[0], [0, 1], [0, -1], [-2, 0, 3], [0, 1, 4], [2], [-3], [-1, 0, 1, 2, 3], [1], [-1, 1], [-3, 3], [0, 2, 3],
                    [-2, -1, 1, 2], [-3, -2, -1, 0, 1, 2, 3, 4]]
            n = 16
            if k % 12 == 10:
                # one large group
                sets, n = [[0, 1]], 18
        self.spec = []
        for i in range(n):
            s = sets[i] if k % 6 == 4 and i < len(sets) else R.choice(sets)
            self.spec.append(([R.randrange(PRIME) for _ in range(self.N - (i % 2))], s, i % 3 != 2))
        if k % 2:
            # degenerate groups: zero, constant, low degree and repeated polynomials
            i = R.randrange(n)
            s = self.spec[i][1]
            for j in range(n):
                if self.spec[j][1] == s:
                    self.spec[j] = ([R.randrange(PRIME) for _ in range(R.choice([0, 1, len(s) - 1]))], s, self.spec[j][2])
            if n > 1 and k % 4 == 3:
                self.spec[-1] = (self.spec[0][0], self.spec[-1][1], True)
        self.tag = "%d oracles with rotations %s" % (n, [s for _, s, _ in self.spec])
        self.fs, self.zk = L("fs"), L("zk")
        self.check, self.fault = "real", None
        self.tau, self.gam = m.h("tau", m.key(L("ck"))) % PRIME, m.h("gam", m.key(L("ck"))) % PRIME
        self.rands = [m.h("orand", i) % PRIME if hid else 0 for i, (_, _, hid) in enumerate(self.spec)]
        self.oracles = []
        for i, (p, s, hid) in enumerate(self.spec):
            ev = {self.pt(r): peval_(p, self.pt(r)) for r in s}
            self.oracles.append(S("mo", "", {"id": i, "evals": ev, "com": (peval_(p, self.tau) + self.gam * self.rands[i]) % PRIME}))
        self.install()

    def install(self):
        m = self.m
        m.coms = {}

        def com(mm, t, env):
            a = t.a
            p = mm.poly(mm.ev(a[0], env))
            hb, rr = mm.ev(a[1], env), mm.ev(a[2], env)
            v = Fe(peval_(p.c, self.tau) + self.gam * mm.rnd(p, hb, rr))
            mm.coms.setdefault(v.v, []).append((p, hb, rr))
            return v
        m.hooks["com"] = com

        def call(mm, t, env):
            nm = t.a[0]
            if not isinstance(nm, str):
                return None
            args = t.a[1] if len(t.a) > 1 and isinstance(t.a[1], tuple) else t.a[1:]
            if nm == "commit":
                return Ok(L("committed"))
            if nm == "open":
                v = [mm.ev(x, env) for x in args]
                lp = mm.seq(v[1])
                if len(lp) != 1:
                    raise Imprecise("open of %d polynomials" % len(lp))
                return Ok(S("opening", "", {"poly": Poly(mm.poly(mm.proj(lp[0], "polynomial")).c), "point": Fe(mm.fld(v[3])),
                                            "rand": Fe(mm.fld(mm.seq(v[5])[0]))}))
            if nm == "check":
                if self.check == "err":
                    return Err(L("checkerr"))
                if self.check in ("false", "true"):
                    return Ok(self.check == "true")
                v = [mm.ev(x, env) for x in args]
                lc = mm.seq(v[1])
                vals = mm.seq(v[3])
                o = v[4]
                if len(lc) != 1 or len(vals) != 1 or not isinstance(o, S) or "poly" not in o.f:
                    raise Imprecise("check of %d commitments" % len(lc))
                self.seen = (mm.fld(mm.proj(lc[0], "commitment")), mm.fld(vals[0]), mm.fld(v[2]), o)
                p = o.f["poly"].c
                return Ok(self.seen[0] == (peval_(p, self.tau) + self.gam * o.f["rand"].v) % PRIME
                          and self.seen[1] == peval_(p, self.seen[2]) and self.seen[2] == o.f["point"].v)
            if not args:
                return None
            if nm.split("::")[-1] not in ("get_queried_rotations", "get_commitment", "polynomial", "query", "get_label", "to_labeled"):
                return None
            o = mm.resolve(mm.ev(args[0], env))
            if not (isinstance(o, S) and o.n == "mo"):
                return None
            i = o.f["id"]
            meth = nm.split("::")[-1]
            if meth == "get_queried_rotations":
                return mm.mkset([rotS(r) for r in self.spec[i][1]])
            if meth == "get_commitment":
                return Err(L("nocom")) if self.fault == "nocom" and i == len(self.oracles) - 1 else Ok(Fe(o.f["com"]))
            if meth == "polynomial":
                return Poly(self.spec[i][0])
            if meth == "get_label":
                return Str("o%d" % i)
            if meth == "query":
                p = mm.fld(mm.ev(args[1], env))
                if self.side == "p":
                    return Ok(Fe(peval_(self.spec[i][0], p)))
                if p not in o.f["evals"] or self.fault == "noeval" and i == 0:
                    return Err(L("noeval"))
                return Ok(Fe(o.f["evals"][p]))
            return None
        m.hooks["call"] = call

    def pt(self, r):
        return self.x * pow(self.wg, r % self.N, PRIME) % PRIME

    def keys(self, r):
        m = self.m
        return [(m.key(m.ev(e.args[0])), m.key(m.ev(e.args[1]))) for e in draws(r, lambda t: stateroot(t) is sym("fs_rng"))]

    def base(self):
        y = self.m.syms
        y.clear()
        y.update(evaluation_challenge=Fe(self.x), domain_size=self.N, fs_rng=self.fs, zk_rng=self.zk, ck=L("ck"), vk=L("vk"),
                 oracles=self.oracles, oracle_rands=[Fe(x) for x in self.rands])
        self.m.memo.clear()

    def prove(self):
        self.side = "p"
        self.m.coms.clear()
        self.base()
        self.kp = self.keys(self.r)
        v = self.m.ev(self.r.val)
        if self.m.variant(v, "Result") != "Ok":
            raise Imprecise("prover fails")
        self.proof = self.m.proj(v, "0", "Ok")
        return self.proof

    def load(self, proof):
        self.side = "v"
        self.base()
        self.m.syms["proof"] = proof
        self.kv = self.keys(self.v)

    def verify(self, proof):
        self.load(proof)
        return self.m.variant(self.m.ev(self.v.val), "Result") == "Ok"

    def claim(self):
        """(commitment, value, point) handed to the commitment scheme"""
        es = [e for e in self.v.events if e.kind == "check"]
        if len(es) != 1:
            raise Imprecise("%d checks" % len(es))
        v = [self.m.ev(a) for a in es[0].args]
        return self.m.fld(self.m.proj(self.m.seq(v[1])[0], "commitment")), self.m.fld(self.m.seq(v[3])[0]), self.m.fld(v[2])


def mo_sweep(ctx, fn):
    acc = Acc(ctx)

    def go():
        for k in range(12 if ctx.tier == "quick" else 40):
            w = MoWorld(ctx, k)
            acc.do("batched opening is modelled", A_MP, lambda: bool(w.prove()))
            if hasattr(w, "proof"):
                try:
                    fn(w, acc)
                except (Imprecise, Skip) as e:
                    acc.slot("batched opening is modelled", A_MP)[2] = str(e)[:300]
    ctx.guard("batched opening", A_MP + " / " + A_MV, go)
    acc.finish()


def c12(ctx):
    mo_sweep(ctx, c12_mo)

    def fn(w, acc):
        """the openings' randomness belongs to the oracle it is paired with"""
        def g():
            m = w.m
            w.prove()
            a, _ = w.pevent(w.r, "Multiopen::prove")
            os, rs = m.seq(a[1]), m.seq(a[2])
            if len(os) != len(rs):
                return False, "%d oracles, %d randomness values (%s)" % (len(os), len(rs), w.tag)
            # by polynomial: the randomness of its commitments, none for preprocessed columns
            want, got, name = {}, {}, {}
            for v, l in m.coms.items():
                for p, hb, rr in l:
                    want.setdefault(tuple(p.c), []).append(m.rnd(p, hb, rr) % PRIME)
            for col in w.c.fixed + w.c.table + w.c.sigma + [w.c.qblind]:
                want.setdefault(tuple(Poly(col.poly).c), []).append(0)
            for i, (o, r) in enumerate(zip(os, rs)):
                p = tuple(m.poly(m.proj(o, "poly")).c)
                got.setdefault(p, []).append(m.fld(r) % PRIME)
                name[p] = (i, m.proj(o, "label"))
            for p in got:
                if sorted(got[p]) != sorted(want.get(p, [0] * len(got[p]))):
                    return False, "oracle %d (%s) is opened with another oracle's randomness (%s)" % (name[p] + (w.tag,))
            return True
        acc.do("each oracle is opened with its own randomness", A_P, g)

        def h():
            # prover and verifier hand over the same oracles in the same order
            m = w.m
            w.prove()
            a, _ = w.pevent(w.r, "Multiopen::prove")
            po = [(tuple(m.poly(m.proj(o, "poly")).c), m.key(m.proj(o, "queried_rotations"))) for o in m.seq(a[1])]
            inv = {}
            for v, l in m.coms.items():
                for p, hb, rr in l:
                    inv[("n", v)] = tuple(p.c)
            ck = m.key(L("pk", "committer_key"))
            for col in w.c.fixed + w.c.table + w.c.sigma + [w.c.qblind]:
                inv[("n", peval_(col.poly, m.h("tau", ck) % PRIME))] = tuple(Poly(col.poly).c)
            w.load(w.proof)
            a, _ = w.pevent(w.v, "Multiopen::verify")
            vo = [(inv.get(m.key(m.proj(m.proj(o, "commitment"), "0", "Some"))), m.key(m.proj(o, "queried_rotations"))) for o in m.seq(a[2])]
            # order only matters inside a group of equal rotation sets
            def grp(l):
                d = {}
                for p, k in l:
                    d.setdefault(k, []).append(p)
                return d
            return grp(po) == grp(vo), "prover and verifier open different oracle groups (%s)" % w.tag
        acc.do("prover and verifier open the same oracles at the same rotations", A_P + " / " + A_V, h)
        def x():
            w.prove()
            a, _ = w.pevent(w.r, "Multiopen::prove")
            return any(isinstance(q, Fe) and q.v == w.c.xi for q in a), w.tag
        acc.do("prover opens at the evaluation challenge", A_P, x)
    sweep(ctx, fn, ["all", "gates", "perm2", "lookup2", "permlookup"])


def set_weights(w):
    """The checked value is the sum over the opening sets of  w2 (q - r(x3)) / Z(x3) + w4 q,  the checked
    commitment that of  f + sum w4 q.  Up to the weight its first oracle has within the set, w4 of a set is the
    difference of the commitment in that oracle's, and w2 that of the value in its evaluation."""
    w.load(w.proof)
    c0, v0, x3 = w.claim()[:3]
    inv = lambda a: pow(a, PRIME - 2, PRIME)
    first = {}
    for o, (p, s, _) in zip(w.oracles, w.spec):
        first.setdefault(tuple(s), o)
    w2, w4 = [], []
    for s, o in sorted(first.items()):
        pts = [w.pt(r) for r in s]
        z, t0, l = 1, pts[0], 1
        for t in pts:
            z = z * (x3 - t) % PRIME
        for t in pts[1:]:
            l = l * (x3 - t) * inv((t0 - t) % PRIME) % PRIME
        o.f["com"] = (o.f["com"] + 1) % PRIME
        w.load(w.proof)
        w4.append((w.claim()[0] - c0) % PRIME)
        o.f["com"] = (o.f["com"] - 1) % PRIME
        old = o.f["evals"][t0]
        o.f["evals"][t0] = (old + 1) % PRIME
        w.load(w.proof)
        w2.append(-(w.claim()[1] - v0) * z * inv(l) % PRIME)
        o.f["evals"][t0] = old
    good = lambda l: 0 not in l and len(set(l)) == len(l)
    return good(w2) and good(w4), "two opening sets enter the checked %s with the same weight (%s)" % (
        "value" if good(w4) else "commitment", w.tag)


def c12_mo(w, acc):
    a = A_MP + " / " + A_MV
    w.prove()
    w.check = "real"

    def honest():
        w.seen = None
        r = w.verify(w.proof)
        if w.seen is None:
            raise Imprecise("check not reached")
        return r
    def whole():
        honest()
        c, v, x, o = w.seen
        p = o.f["poly"].c
        w.parts = (c == (peval_(p, w.tau) + w.gam * o.f["rand"].v) % PRIME, v == peval_(p, x), x == o.f["point"].v)
        return True
    acc.do("opening is modelled", a, whole)
    if not hasattr(w, "parts"):
        return
    c, v, x, o = w.seen
    p = o.f["poly"].c
    acc.put("recomputed commitment is the commitment of the opened polynomial", a, w.parts[0] or c - peval_(p, w.tau) != 0 and
            (c - peval_(p, w.tau) - w.gam * o.f["rand"].v) % PRIME == 0, "commitments differ (%s)" % w.tag)
    acc.put("claimed value is the opened polynomial's value", a, w.parts[1], "values differ (%s)" % w.tag)
    acc.put("opening point", a, w.parts[2], "points differ (%s)" % w.tag)
    acc.do("one evaluation per opening set", A_MP, lambda: (len(w.m.seq(w.proof.f["q_evals"])) == len({tuple(s) for _, s, _ in w.spec}), w.tag))

    def coef():
        # batching coefficients of the commitments are pairwise different and nonzero
        w.load(w.proof)
        c0 = w.claim()[0]
        cs = []
        for o in w.oracles:
            old = o.f["com"]
            o.f["com"] = (old + 1) % PRIME
            w.load(w.proof)
            cs.append((w.claim()[0] - c0) % PRIME)
            o.f["com"] = old
        kf = 1
        cs.append(kf)
        return len(set(cs)) == len(cs) and 0 not in cs, "batching coefficients of two commitments coincide (%s)" % w.tag
    acc.do("commitments are batched with different powers", A_MV, coef)

    def vcoef():
        w.load(w.proof)
        v0 = w.claim()[1]
        vs = []
        for o in w.oracles:
            for pt in o.f["evals"]:
                old = o.f["evals"][pt]
                o.f["evals"][pt] = (old + 1) % PRIME
                w.load(w.proof)
                vs.append((w.claim()[1] - v0) % PRIME)
                o.f["evals"][pt] = old
        return len(set(vs)) == len(vs) and 0 not in vs, "two claimed evaluations enter the checked value with the same weight (%s)" % w.tag
    acc.do("claimed evaluations are batched with different weights", A_MV, vcoef)
    if w.k % 2 == 0:
        acc.do("opening sets are batched with different weights", A_MV, lambda: set_weights(w))
    opening_sets(w, acc)

"""Honest proofs of satisfiable circuits verify (C29)."""
import random
from protocol import *
from circuit import rotS, qS, Col, Ok
from spec_protocol import fires, MoWorld, interp_, A_P, A_V, A_MP, A_MV
from spec_pre import PreRots
import ri


class Honest(World):
    """a circuit with a satisfying assignment; brk names one constraint to violate"""

    def __init__(self, ctx, k, shape, brk=None, drop=False, at=None):
        self.brk, self.drop, self.at = brk, drop, at
        self.seed = (ctx.seed, "honest", k, shape)
        World.__init__(self, ctx, "honest%d" % k, shape, self.satisfy)
        self.tag += {None: "", "gate": " with a violated gate", "copy": " with a violated copy constraint",
                     "lookup": " with a value outside the table"}[brk] + (" and fewer roots" if drop else "") + ("" if at is None else " (%s)" % (at,))
        m = self.m
        def perm(mm, t, env):
            a = [mm.fld(q) for q in mm.seq(mm.ev(t.a[0], env))]
            s = [mm.fld(q) for q in mm.seq(mm.ev(t.a[1], env))]
            # duplicates next to each other; first of each run meets its table entry
            b = sorted(a)
            left = list(s)
            out = [None] * len(b)
            for i, x in enumerate(b):
                if i == 0 or x != b[i - 1]:
                    if x not in left:
                        raise Skip("lookup input not in the table")
                    left.remove(x)
                    out[i] = x
            for i in range(len(out)):
                if out[i] is None:
                    out[i] = left.pop()
            return [Fe(x) for x in (b if t.op == "permA" else out)]
        if brk != "lookup":
            m.hooks["permA"] = m.hooks["permS"] = perm
        old = m.hooks["call"]
        # committing and opening succeed
        m.hooks["call"] = lambda mm, t, env: Ok(L("committed")) if t.a[0] == "commit" else old(mm, t, env)

    def fit(self, rows):
        w = self.c.wg
        return interp_([pow(w, j, PRIME) for j in range(self.c.N)], rows)

    def satisfy(self, c):
        self.c = c
        R = random.Random(repr(self.seed))
        N, u, w = c.N, c.u, c.wg
        rnd = lambda: R.choice([0, 0, 1, 2]) if c.small else R.randrange(PRIME)
        pt = [pow(w, j, PRIME) for j in range(N)]
        off = []
        if self.drop and u + 1 < N:
            # the vanishing polynomial leaves out rows behind the last one the arguments use
            off = R.sample(range(u + 1, N), min(R.choice([1, 2]), N - u - 1))
            c.zhpoly = [1]
            for j in range(N):
                if j not in off:
                    c.zhpoly = ri.pmul_(c.zhpoly, [-pt[j] % PRIME, 1])
            c.zh = lambda x: peval_(c.zhpoly, x)
        c.qblind.poly = self.fit([1 if j > u else 0 for j in range(N)])
        # copy constraints: a random permutation of the usable cells
        pc = c.permcols()
        cells = [(i, j) for i in range(len(pc)) for j in range(u)]
        img = list(cells)
        R.shuffle(img)
        sig = dict(zip(cells, img))
        val = {}
        for x in cells:
            y = x
            v = rnd()
            while y not in val:
                val[y] = v
                y = sig[y]
        if self.brk == "copy":
            x = R.choice([x for x in cells if sig[x] != x and (self.at is None or x[0] == self.at)])
            val[x] = (val[x] + 1) % PRIME
        for i, col in enumerate(pc):
            col.poly = self.fit([val[(i, j)] if j < u else rnd() for j in range(N)])
            rows = [sig[(i, j)] if j < u else (i, j) for j in range(N)]
            c.sigma[i].poly = self.fit([c.deltas[a] * pt[b] % PRIME for a, b in rows])
        # lookups: an extra column makes every usable row hit one table row
        for n, (es, tq) in enumerate(c.lookups):
            hit = [R.randrange(u) for _ in range(u)]
            for q, (t, r) in enumerate(tq):
                base = es[q]
                rot = R.choice([0, 1, -1])
                col = Col("lk%d_%d" % (n, q), [0], {rot})
                rows = [rnd() for _ in range(N)]
                for j in range(u):
                    want = c.val(t, pt[hit[j]], r)
                    if self.brk == "lookup" and (n, q, j) == ((0, 0, u - 1) if self.at is None else self.at):
                        want = (want + 1) % PRIME
                    rows[(j + rot) % N] = (want - c.evt(base, pt[j])) % PRIME
                col.poly = self.fit(rows)
                c.wit.insert(R.randrange(len(c.wit) + 1), col)
                es[q] = ("s", base, ("q", qS(col.label, rot, "Witness"), col, rot))
        # gates
        for i, g in enumerate(c.gates):
            r = R.choice([0, 1, -1, 2, -3])
            col = Col("aux%d" % i, [0], {r})
            rows = [0] * N
            for j in range(N):
                rows[(j + r) % N] = rnd() if j in off else c.evt(g, pt[j])
            if self.brk == "gate" and i == (len(c.gates) - 1 if self.at is None else self.at):
                q = (R.choice([j for j in range(N) if j not in off]) + r) % N
                rows[q] = (rows[q] + 1) % PRIME
            col.poly = self.fit(rows)
            c.wit.insert(R.randrange(len(c.wit) + 1), col)
            c.gates[i] = ("s", g, ("n", ("q", qS(col.label, r, "Witness"), col, r)))
        # the permuted columns keep their relative order, so sigma still matches
        assert c.permcols() == pc
        c.xi = R.randrange(PRIME)

    def outcome(self):
        """None if the prover succeeds, else why not"""
        pend = None
        try:
            self.prove()
        except Imprecise as e:
            pend = e    # no proof to evaluate if the prover panics or fails
        try:
            v = self.m.ev(self.r.val)
            if self.m.variant(v, "Result") != "Ok":
                return "an error: %s" % str(self.m.proj(v, "0", "Err"))[:80]
        except Imprecise as e:
            pend = pend or e
        for o in self.r.obl:
            if fires(self, o):
                return "%s at %s" % (o.kind, o.src.rsplit(":", 1)[0])
        if pend is not None:
            raise pend
        return None


class MoLink(MoWorld):
    """the batched opening on the oracles the two sides hand over"""

    def __init__(self, w, pargs, vargs):
        ctx = self.ctx = w.ctx
        self.r, self.v = MP_(ctx), MV_(ctx)
        m0 = w.m
        m = self.m = ctx.model("molink/%s" % w.tag)
        m.N = self.N = w.c.N
        m.budget = 100_000_000
        self.wg, self.x = w.c.wg, w.c.xi
        self.fs, self.zk = L("fs"), L("zk")
        self.check, self.fault = "real", None
        ck = m0.key(L("pk", "committer_key"))
        self.tau, self.gam = m0.h("tau", ck) % PRIME, m0.h("gam", ck) % PRIME
        self.spec, self.lab, self.lists = [], [], {"p": [], "v": []}
        self.rands = [m0.fld(r) for r in m0.seq(pargs[2])]
        for o in m0.seq(pargs[1]):
            self.lists["p"].append(S("mo", "", {"id": len(self.spec), "evals": {}, "com": 0}))
            self.spec.append((m0.poly(m0.proj(o, "poly")).c, sorted(PreRots(m0, o)), True))
            self.lab.append(m0.proj(o, "label").s)
        for l, com, pts in w.opened(vargs):
            if isinstance(com, tuple):
                com = com[-1]
            self.lists["v"].append(S("mo", "", {"id": len(self.spec), "evals": {k: e for k, e in pts.items() if e is not None}, "com": com}))
            o = [o for o in m0.seq(vargs[2]) if m0.proj(o, "label").s == l.s][0]
            self.spec.append(([], sorted(PreRots(m0, o)), True))
            self.lab.append(l.s)
        self.oracles = []
        self.install()

    def base(self):
        self.oracles = self.lists[self.side]
        MoWorld.base(self)


def honest(ctx, acc, k, shape, drop):
    w = Honest(ctx, k, shape, drop=drop)
    st = {}

    def p():
        st["why"] = w.outcome()
        return st["why"] is None, "%s on a satisfying assignment (%s)" % (st["why"], w.tag)
    acc.do("the prover succeeds on a satisfying assignment", A_P, p)
    if st.get("why", 1) is not None:
        return

    def v():
        good = w.verify(w.proof)
        if w.kp != w.kv:
            return False, "challenges differ"
        return good, "the quotient identity or a shape check fails for an honest proof (%s)" % w.tag
    acc.do("the verifier accepts the honest proof up to the batched opening", A_V, v)

    def np():
        w.load(w.proof)
        for o in w.v.obl:
            if fires(w, o):
                return False, "%s at %s for an honest proof (%s)" % (o.kind, o.src.rsplit(":", 1)[0], w.tag)
        return True
    acc.do("the verifier does not panic on the honest proof", A_V, np)

    def mo():
        w.prove()
        pa, _ = w.pevent(w.r, "Multiopen::prove")
        pa = [w.m.seq(x) if j in (1, 2) else x for j, x in enumerate(pa)]
        w.load(w.proof)
        va, _ = w.pevent(w.v, "Multiopen::verify")
        l = MoLink(w, pa, va)
        try:
            l.prove()
        except Imprecise as e:
            if str(e) == "prover fails":
                return False, "the prover cannot open its own oracles (%s)" % w.tag
            raise
        return l.verify(l.proof), "the honest batched opening is rejected (%s)" % w.tag
    acc.do("the honest batched opening is accepted", A_MP + " / " + A_MV, mo)


SHAPES = ["all", "gates", "perm", "perm2", "lookup", "lookup2", "permlookup"]
# every remainder of permuted columns modulo columns per chunk
CHUNKS = ["perm/n=%d,c=%d" % x for x in ((1, 1), (1, 2), (2, 2), (3, 2), (5, 2), (6, 2), (1, 3), (4, 3), (5, 3), (6, 3))]

# one and two usable rows (rotations of the arguments coincide), one blinding row
USABLE = ["perm/n=3,c=1,u=1", "perm2/n=5,c=2,u=2", "lookup/u=1", "permlookup/u=1", "perm/n=3,c=1,N=4,u=1", "all/u=6"]
# a gate of degree 17: 14 quotient chunks
HIGH = ["gates/scale=16,high=17"]


def c29(ctx):
    acc = Acc(ctx)

    def go():
        for q in range(1 if ctx.tier == "quick" else 6):
            for i, sh in enumerate(degenerate(SHAPES) + CHUNKS + USABLE + HIGH):
                honest(ctx, acc, q * 100 + i, sh, drop=i % 2 != q % 2)
    ctx.guard("honest run", A_P + " / " + A_V, go)
    acc.finish()


# what is violated where: every gate, every column of every lookup and every chunk of a large circuit counts
BREAKS = ([("all", "gate", None), ("gates2", "gate", None), ("lookup2", "gate", None), ("all", "copy", None), ("perm", "copy", None),
           ("perm2", "copy", None), ("permlookup", "copy", None), ("lookup", "lookup", None), ("lookup2", "lookup", None),
           ("permlookup", "lookup", None)]
          + [("gates/big=1", "gate", k) for k in range(11)]
          + [("perm/big=1", "copy", k) for k in (0, 1, 2, 4, 7, 9, 11, 14, 16)]
          + [("lookup/big=1,u=3", "lookup", (n, q, j)) for n, q, j in ((0, 5, 0), (1, 0, 1), (2, 3, 2), (3, 4, 0), (4, 1, 1), (5, 2, 2), (0, 2, 1))])


def c31(ctx):
    acc = Acc(ctx)

    def go():
        for q in range(1 if ctx.tier == "quick" else 6):
            for i, (sh, brk, at) in enumerate(BREAKS):
                w = Honest(ctx, 100 + q * 10 + i, sh, brk, drop=i % 2 != q % 2, at=at)

                def f():
                    w.prove()
                    return not w.verify(w.proof), "the verifier accepts (%s)" % w.tag
                acc.do("a proof computed from an assignment violating a %s is rejected" % {"gate": "gate", "copy": "copy constraint", "lookup": "lookup"}[brk], A_P + " / " + A_V, f)
    ctx.guard("dishonest run", A_P + " / " + A_V, go)
    acc.finish()

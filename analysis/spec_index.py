"""Obligations on indexing (C19) and preprocessing (C20)."""
import random
from protocol import *
import circuit as CC
from circuit import qS, some, NONE, Ok, Err
from spec_protocol import fires, isnat

A_I = "Indexer::index"
INDEX = ("vk", "vos", "lookups", "witness", "instance", "fixed", "domain", "z_h", "pinfo", "usable_rows")


def I_(ctx):
    return once(ctx, "index", lambda: ctx.run("Indexer::index", names=INDEX))


class IdxWorld:
    """a random circuit shape handed to Indexer::index"""

    def __init__(self, ctx, k):
        self.ctx, self.k = ctx, k
        R = self.R = random.Random(repr((ctx.seed, "idx", k)))
        K = k if isinstance(k, int) else 1
        self.r = I_(ctx)
        m = self.m = ctx.model("idx/%s" % k)
        m.budget = 20_000_000
        m.bigdom = 1 << 17
        # large domains, with few rows left out
        big = self.big = int(k[3:]) if str(k).startswith("big") else None
        self.N = N = R.choice([2, 4, 8, 8, 16]) if big is None else (256, 1024, 4096 if ctx.tier == "quick" else 16384)[big]
        m.N = N
        self.wg = m.omega(Dom(N))
        # rows the vanishing polynomial leaves out
        self.t = R.choice([0, 0, 0, 1, 2, 3, 4, 5, 7]) if K % 4 else 0
        self.t = min(self.t, N - 1) if big is None else (2, 0, 0)[big]
        z = [1] if self.t else [PRIME - 1] + [0] * (N - 1) + [1]
        for i in range(N - self.t if self.t else 0):
            z = ri.pmul_(z, [-pow(self.wg, i, PRIME) % PRIME, 1])
        # a non-monic vanishing polynomial has the same roots
        self.scale = random.Random(repr((ctx.seed, "scale", k))).choice([1, 1, 1, 5])
        self.z = z = [x * self.scale % PRIME for x in z]
        self.d = len(z) - 1
        wide = K % 11 == 10 and big is None
        self.np = R.choice([0, 0, 1, 2, 3, 5]) if not wide else R.choice([12, 19])
        self.wit = [("w%d" % i, False) for i in range(R.choice([1, 2, 3]))] + [("p%d" % i, True) for i in range(self.np)]
        R.shuffle(self.wit)
        self.inst = ["pi%d" % i for i in range(R.choice([0, 1, 2]))]
        self.fixed = ["f%d" % i for i in range(R.choice([1, 2]))]
        self.missing = R.choice([None] * 5 + ["Witness", "Instance", "Fixed"]) if big is None else None
        self.usedmissing = False
        ng, nl = (R.choice([1, 1, 2, 3]), R.choice([0, 0, 1, 2])) if not wide else (10, 6)
        self.miss_in = R.choice(["gate", "lookup"]) if nl else "gate"
        deg = R.choice([1, 2, 2, 3, 5]) if big is None else 5
        self.gates = [self.prod(R.randint(1, deg)) for _ in range(ng)]
        if big is not None:
            self.gates[-1] = self.prod(5 if big == 2 else 3)
        # the shortest gate a vanishing polynomial of this degree needs
        if K % 5 and all(self.deg(g) < self.d for g in self.gates):
            self.gates[-1] = self.prod(3)
        self.lookups = [[self.prod(R.choice([0, 1, 1, 2, 4])) for _ in range(R.choice([1, 2]) if not wide else R.choice([1, 4, 7]))] for _ in range(nl)]
        if self.missing:
            bad = ("q", qS("nosuch", 0, self.missing))
            if self.miss_in == "gate":
                i = R.randrange(ng)
                self.gates[i] = ("s", self.gates[i], bad)
            else:
                i = R.randrange(nl)
                self.lookups[i][-1] = ("s", bad, self.lookups[i][-1])
        self.unconf = R.choice([None] * 8 + ["gate", "lookup"]) if K % 3 == 0 and big is None else None
        if self.unconf == "lookup" and not nl:
            self.unconf = "gate"
        self.which = R.randrange(ng if self.unconf == "gate" else max(nl, 1))
        self.u = R.randrange(1, N) if N > 1 else 0
        self.pu = R.randrange(1000, 2000)
        self.install(m)
        self.tag = "N=%d, deg zh=%d, gate degrees %s, lookup degrees %s, %d permuted columns%s%s" % (
            N, self.d, [self.deg(g) for g in self.gates], [[self.deg(e) for e in l] for l in self.lookups], self.np,
            ", missing %s in a %s" % (self.missing, self.miss_in) if self.missing else "",
            ", unconfigured " + self.unconf if self.unconf else "")

    def q(self):
        R = self.R
        kinds = ["Witness", "Fixed"] + (["Instance"] if self.inst else [])
        k = R.choice(kinds)
        l = R.choice({"Witness": [w for w, _ in self.wit], "Fixed": self.fixed, "Instance": self.inst}[k])
        return ("q", qS(l, R.choice([0, 1, -1]), k))

    def prod(self, n):
        R = self.R
        if n == 0:
            return ("c", Fe(R.randrange(PRIME)))
        t = self.q()
        for _ in range(n - 1):
            t = ("p", t, self.q()) if R.random() < .5 else ("p", self.q(), t)
        if R.random() < .5:
            t = ("s", self.q(), ("n", t)) if R.random() < .5 else ("s", ("k", t, Fe(R.randrange(PRIME))), self.q())
        return t

    def deg(self, t):
        k = t[0]
        if k == "c":
            return 0
        if k == "q":
            return self.N - 1
        if k in "nk":
            return self.deg(t[1])
        if k == "s":
            return max(self.deg(t[1]), self.deg(t[2]))
        return self.deg(t[1]) + self.deg(t[2])

    def install(self, m):
        y = m.syms
        col = lambda l, p=False: S("col", "", {"label": Str(l), "should_permute": p})
        y["witness"] = [col(l, p) for l, p in self.wit]
        y["instance"] = [col(l) for l in self.inst]
        y["fixed"] = [col(l) for l in self.fixed]
        y["vos"] = [S("vo", "", {"id": i}) for i in range(len(self.gates))]
        y["lookups"] = [S("lk", "", {"id": i}) for i in range(len(self.lookups))]
        y["domain"] = Dom(self.N)
        y["z_h"] = Poly(self.z)
        y["usable_rows"] = self.u
        self.vk = y["vk"] = L("verifier key")
        self.deltas = [Fe(self.R.randrange(PRIME)) for _ in range(self.np)]
        y["pinfo"] = S("PermutationInfo", "", {"u": self.pu, "deltas": self.deltas})
        ge = [Expr(t, ("g", i)) for i, t in enumerate(self.gates)]
        le = [[Expr(t, ("l", i, j)) for j, t in enumerate(es)] for i, es in enumerate(self.lookups)]

        def call(mm, t, env):
            nm = t.a[0]
            if not isinstance(nm, str):
                return None
            args = t.a[1] if len(t.a) > 1 and isinstance(t.a[1], tuple) else t.a[1:]
            v = mm.ev(args[0], env) if args else None
            if not isinstance(v, S):
                return None             # element past the end, on a branch that is not taken
            if nm in ("VirtualOracle::get_expression", "LookupVirtualOracle::get_expressions"):
                g = nm.startswith("V")
                if self.unconf == ("gate" if g else "lookup") and v.f["id"] == self.which:
                    return Err(L("unconfigured"))
                return Ok((ge if g else le)[v.f["id"]])
            if nm == "ConcreteOracle::get_label":
                return v.f["label"]
            if nm == "WitnessOracle::should_include_in_copy":
                return v.f["should_permute"]
            if nm.endswith("::get_degree"):
                return self.N - 1
            return None
        m.hooks["call"] = call

    # ---------------------------------------------- requirements
    def quotient(self):
        """coefficients of the quotient of each constraint: (name, degree of the constraint)"""
        n1 = self.N - 1
        out = [("gate %d" % i, self.deg(g)) for i, g in enumerate(self.gates)]
        for i, es in enumerate(self.lookups):
            a = max([self.deg(e) for e in es] + [0])
            out += [("lookup %d: subset step" % i, n1 + max(3 * n1, n1 + a + n1)), ("lookup %d: other" % i, 3 * n1)]
        return out

    def perm(self, width):
        return (2 + width) * (self.N - 1)

    def ok(self):
        if self.missing or self.unconf:
            return False
        q = max([self.deg(g) for g in self.gates] + [0]) - self.d
        return q >= 0 and q + 1 >= self.N

    def run(self):
        v = self.m.ev(self.r.val)
        if not (isinstance(v, S) and v.v in ("Ok", "Err")):
            raise Imprecise("result %s" % str(v)[:200])
        if v.v == "Err":
            return None
        return v.f["0"]


def c19(ctx):
    acc = Acc(ctx)
    n = 240 if ctx.tier == "quick" else 400
    a = A_I

    def go():
        r = I_(ctx)
        for k in [*range(n), "big0", "big1", "big2"]:
            w = IdxWorld(ctx, k)
            m = w.m
            res = []

            def run():
                v = w.run()
                res.append(v)
                if v is None:
                    return (not w.ok(), "a circuit with room for its quotient is refused: %s" % w.tag)
                return (not (w.missing or w.unconf), "indexed in spite of a missing oracle or expression: %s" % w.tag)
            acc.do("refused exactly when an oracle, an expression or a quotient is missing", a, run)

            def panics():
                for o in r.obl:
                    if fires(w, o):
                        return False, "%s at %s (%s)" % (o.kind, o.src.split(":")[0], w.tag)
                return True
            acc.do("indexing does not panic", a, panics)
            v = res[0] if res else None
            if v is None:
                continue
            f = lambda *p: get(m, v, p)
            I = "index_info"
            E = []

            def ext():
                e = m.dom(f(I, "extended_coset_domain")).n
                E.append(e)
                for nm, d in w.quotient():
                    if d - w.d + 1 > e:
                        return False, "%s of degree %d needs %d points, the extended domain has %d (%s)" % (nm, d, d - w.d + 1, e, w.tag)
                return e >= w.N and e % w.N == 0, "extended domain of %d points (%s)" % (e, w.tag)
            acc.do("extended domain holds the quotient of every gate and lookup constraint", a, ext)
            if not E:
                continue

            def cols():
                if not w.np:
                    return None
                c = m.nat(f(I, "permutation_argument", "max_cols"))
                if c < 1:
                    return False, "chunks of %d columns (%s)" % (c, w.tag)
                d = max(w.perm(min(c, w.np)), 3 * (w.N - 1))
                return d - w.d + 1 <= E[0], "chunks of %d columns need %d points, the extended domain has %d (%s)" % (c, d - w.d + 1, E[0], w.tag)
            acc.do("permutation chunks fit the extended domain", a, cols)

            def zh():
                zi = [m.fld(x) for x in m.seq(f("zh_inverses_over_coset"))]
                g = m.omega(Dom(E[0]))
                if w.scale != 1 and E[0] <= w.d:
                    return None
                if len(zi) != E[0]:
                    return False, "%d inverses for %d points (%s)" % (len(zi), E[0], w.tag)
                at = (lambda p: w.scale * (pow(p, w.N, PRIME) - 1)) if not w.t else (lambda p: peval_(w.z, p))
                for i, x in enumerate(zi):
                    if x * at(ri.GEN * pow(g, i, PRIME) % PRIME) % PRIME != 1:
                        return False, "inverse %d of %d is wrong (%s)" % (i, E[0], w.tag)
                return True
            acc.do("inverses of the vanishing polynomial on the extended coset", a, zh)

            def kept():
                p = f(I, "permutation_argument")
                return (m.nat(f(I, "usable_rows")) == w.u and m.nat(get(m, p, ("usable_rows",))) == w.pu and
                        [m.fld(x) for x in m.seq(get(m, p, ("deltas",)))] == [d.v for d in w.deltas] and
                        [x.f["id"] for x in m.seq(f(I, "lookups"))] == list(range(len(w.lookups))) and
                        m.key(f("verifier_key")) == m.key(w.vk)), "usable rows, separators, lookups or key differ from the arguments"
            acc.do("the key carries the rows, separators and lookups it was given", a, kept)
        # fields without a large enough domain
        for k in range(n // 4):
            w = IdxWorld(ctx, "small%d" % k)
            if not w.ok():
                continue
            need = max(d - w.d + 1 for _, d in w.quotient())
            w.m.maxdom = w.N if w.k in ("small0", "small4") else max(w.N, w.N * w.R.choice([1, 2, 4]))
            res = []

            def small():
                v = w.run()
                res.append(v)
                if v is None:
                    return True
                e = m2.dom(get(m2, v, ("index_info", "extended_coset_domain"))).n
                return need <= e <= w.m.maxdom, "domain of %d points where %d are needed and %d exist" % (e, need, w.m.maxdom)
            m2 = w.m
            acc.do("a circuit too large for the field is refused", a, small)

            def panics():
                for o in r.obl:
                    if fires(w, o):
                        return False, "%s at %s (largest domain %d, %s)" % (o.kind, o.src.split(":")[0], w.m.maxdom, w.tag)
                return True
            acc.do("indexing does not panic where the field has no larger domain", a, panics)
    ctx.guard("indexing", a, go)
    acc.finish()


def get(m, v, path):
    for p in path:
        v = m.resolve(m.proj(m.resolve(v), p))
    return v

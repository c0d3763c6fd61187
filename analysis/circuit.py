"""Concrete shapes for random interpretation of the protocol summaries.

A circuit fixes the finite structure (columns, queried rotations, constraint trees, chunk
width, usable rows); polynomials, challenges and proof contents stay random values of the
algebra.  The same structure is given to the prover's and the verifier's summaries, so both
can be compared with constraint values computed directly from the circuit.
"""
import random
from terms import *
import terms as TM
import ri
from ri import Fe, Poly, L, S, Set, Map, Str, Dom, Expr, PRIME, GEN, peval_

SHAPES = ["all", "gates", "perm", "lookup", "all2", "gates2", "perm2", "lookup2", "permlookup"]
BIG = ("gates2",)
WIDE = ("lookup2",)


def interp_(xs, ys):
    """coefficients of the polynomial through the points"""
    n = len(xs)
    c = [0] * n
    full = [1]
    for x in xs:
        full = ri.pmul_(full, [(-x) % PRIME, 1])
    for x, y in zip(xs, ys):
        q, _ = ri.pdivmod_(full, [(-x) % PRIME, 1])
        k = y * pow(peval_(q, x), PRIME - 2, PRIME) % PRIME
        for j, a in enumerate(q):
            c[j] = (c[j] + k * a) % PRIME
    return c


class Col:
    def __init__(self, label, poly, rots, permute=False):
        self.label, self.poly, self.rots, self.permute = label, poly, rots, permute


def rotS(r):
    return S("Rotation", "", {"degree": abs(r), "sign": S("Sign", "Minus" if r < 0 else "Plus", {})})


def qS(label, r, kind):
    return S("OracleQuery", "", {"label": Str(label), "rotation": rotS(r), "oracle_type": S("OracleType", kind, {})})


def some(v):
    return S("Option", "Some", {"0": v})


NONE = S("Option", "None", {})


def Ok(v):
    return S("Result", "Ok", {"0": v})


def Err(v):
    return S("Result", "Err", {"0": v})


class Circuit:
    """finite structure + random polynomials"""

    def __init__(self, seed, shape):
        R = self.R = random.Random(repr((seed, shape)))
        self.shape = shape
        # "shape/N=16,scale=8,n=5,c=2": rows, extension ratio, permuted columns, columns per chunk
        shape, _, o = shape.partition("/")
        opt = {k: int(v) for k, v in (z.split("=") for z in o.split(",") if z)}
        self.pa_usable = None
        self.N = opt.get("N", 16 if shape in BIG else 8)
        self.scale = opt.get("scale", 8 if shape in WIDE else 4)
        self.ext = self.N * self.scale
        self.u = min(R.choice([3, 4, 5]) if self.N <= 8 else R.choice([5, 8, 10]), self.N - 2)
        if opt.get("last"):
            self.u = self.N - 1     # no blinding rows
        self.u = opt.get("u", self.u)
        big = opt.get("big")
        lg = lambda n: n.bit_length() - 1
        self.wg = pow(pow(GEN, (PRIME - 1) >> ri.TWOAD, PRIME), 1 << (ri.TWOAD - lg(self.N)), PRIME)
        self.wext = pow(pow(GEN, (PRIME - 1) >> ri.TWOAD, PRIME), 1 << (ri.TWOAD - lg(self.ext)), PRIME)
        gates = shape in ("all", "gates", "all2", "gates2")
        perm = shape in ("all", "perm", "all2", "perm2", "permlookup")
        look = shape in ("all", "lookup", "all2", "lookup2", "permlookup")
        rp = lambda: [R.randrange(PRIME) for _ in range(self.N)]
        self.small = opt.get("small")
        if self.small:
            # few different values, zero among them: rows coincide within and between columns
            rp = lambda: self.fit([R.choice([0, 0, 1, 2]) for _ in range(self.N)])
        nperm = (R.choice([1, 2, 3]) if shape in ("perm", "all") else R.choice([4, 5])) if perm else 0
        self.max_cols = R.choice([1, 2, 3])
        if perm and shape.endswith("2"):
            self.max_cols = R.choice([2, 3])
        if big and perm:
            nperm, self.max_cols = 17, 2
        nperm, self.max_cols = opt.get("n", nperm), opt.get("c", self.max_cols)
        nw = max(nperm, 2) + R.choice([0, 1])
        names = ["w%d" % i for i in range(nw)]
        R.shuffle(names)                       # label order differs from declaration order
        flags = [True] * nperm + [False] * (nw - nperm)
        R.shuffle(flags)
        far = [0, 1, -1, 4, -4, 7, -7, self.N // 2, self.N - 1, 1 - self.N]
        rot = lambda: R.choice(far if opt.get("far") else [0, 0, 1, -1, 2, -2, 3])
        bare = opt.get("bare")                  # witness columns only
        self.wit = [Col(names[i], rp(), set([0]) if flags[i] else set(), flags[i]) for i in range(nw)]
        self.inst = [Col("pi%d" % i, rp(), set()) for i in range(0 if bare else 4 if big else R.choice([1, 2]))]
        self.fixed = [Col("f%d" % i, rp(), set()) for i in range(0 if bare else 5 if big else R.choice([2, 3]))]
        self.table = [Col("t%d" % i, rp(), set()) for i in range((5 if big else R.choice([2, 3])) if look else 0)]
        self.sigma = [Col("sigma_%d" % i, rp(), set([0])) for i in range(nperm)]
        self.qblind = Col("q_blind", rp(), set([0]))
        self.deltas = [R.randrange(1, PRIME) for _ in range(nperm)]
        if self.small:
            # many cells are not copied
            for k, col in enumerate(self.sigma):
                col.poly = self.fit([R.choice([1, 1, 1, 2]) * self.deltas[k] * pow(self.wg, i, PRIME) % PRIME for i in range(self.N)])
        self.cnt = 0

        def query():
            kind = "Witness" if bare else R.choice(["Witness", "Witness", "Witness", "Instance", "Fixed"])
            c = R.choice({"Witness": self.wit, "Instance": self.inst, "Fixed": self.fixed}[kind])
            r = rot()
            c.rots.add(r)
            return ("q", qS(c.label, r, kind), c, r)

        def tree(d):
            k = R.choice(["q", "q", "c", "n", "s", "p", "k"]) if d else R.choice(["q", "q", "q", "c"])
            if k == "q":
                return query()
            if k == "c":
                return ("c", Fe(R.randrange(PRIME)))
            if k == "n":
                return ("n", tree(d - 1))
            if k == "k":
                return ("k", tree(d - 1), Fe(R.randrange(PRIME)))
            return (k, tree(d - 1), tree(d - 1))

        def strip(t):
            if t[0] == "q":
                return ("q", t[1])
            return tuple([t[0]] + [strip(x) if isinstance(x, tuple) else x for x in t[1:]])
        self.tree = strip
        ng = (opt.get("gates") or 11 if big else 3 if shape.endswith("2") else 2) if gates else 1
        self.gates = [("s", ("p", tree(1), tree(1)), ("s", ("n", ("k", query(), Fe(R.randrange(PRIME)))), tree(0)))
                      for _ in range(ng)]
        if opt.get("high"):
            # one gate of a high degree
            t = query()
            for _ in range(opt["high"] - 1):
                t = ("p", t, query())
            self.gates[-1] = t
        self.lookups = []
        for j in range((6 if big else 2 if shape.endswith("2") else 1) if look else 0):
            n = (10, 1, 4, 5, 2, 3)[j] if big else R.choice([1, 2, 3])
            # lookup inputs that use every operator: one quadratic, the others affine
            es = [("s", ("k", R.choice([query(), ("n", query())]), Fe(R.randrange(PRIME))),
                   R.choice([query(), ("c", Fe(R.randrange(PRIME)))])) for _ in range(n)]
            i = R.randrange(n)
            es[i] = ("s", ("p", query(), ("s", query(), ("c", Fe(R.randrange(PRIME))))), ("n", es[i]))
            if self.small:
                es = [query()]
            tq = []
            for _ in es:
                c = R.choice(self.table)
                r = R.choice([0, 0, 1, -1])
                c.rots.add(r)
                tq.append((c, r))
            self.lookups.append((es, tq))
        if opt.get("dup"):
            # the same gate and the same lookup declared twice, next to each other and apart
            if self.gates:
                self.gates = [self.gates[0]] + self.gates + [self.gates[0]]
            if self.lookups:
                self.lookups = [self.lookups[0]] + self.lookups + [self.lookups[0]]
        # two columns that share a rotation set, several that do not
        for c in self.wit + self.fixed:
            if not c.rots:
                c.rots.add(0)
        if opt.get("deg"):
            # degenerate columns: zero, constant and repeated polynomials
            self.inst[0].poly = []
            self.fixed[0].poly = []
            self.fixed[1].poly = [5]
            if opt["deg"] > 1:
                self.wit[0].poly = [3]
                self.wit[1].poly = []
                self.fixed[1].poly = list(self.fixed[-1].poly)
        if opt.get("mono"):
            # satisfied on every row, with a quotient of few nonzero coefficients
            x = self.wit[0]
            x.poly = [0, 1]
            x.rots.add(0)
            q = ("q", qS(x.label, 0, "Witness"), x, 0)
            pw = {1: q}
            while max(pw) < 4 * self.N:
                k = max(pw)
                pw[2 * k] = ("p", pw[k], pw[k])
            N = self.N
            self.gates = [{1: ("s", pw[2 * N], ("n", pw[N])),                               # X^N
                           2: ("s", ("p", pw[2 * N], pw[N]), ("n", pw[2 * N])),             # X^2N
                           3: ("s", ("p", pw[2 * N], pw[N]), ("n", pw[N])),                 # X^2N + X^N
                           4: ("s", q, ("n", q)),                                           # 0
                           5: ("s", pw[N], ("c", Fe(PRIME - 1)))}[opt["mono"]]]             # 1
        self.zh = lambda x: (pow(x, self.N, PRIME) - 1) % PRIME
        self.zhpoly = [PRIME - 1] + [0] * (self.N - 1) + [1]
        self.xi = GEN * pow(self.wext, R.randrange(1, self.ext), PRIME) % PRIME
        self.theta, self.beta, self.gamma, self.alpha = [R.randrange(2, PRIME) for _ in range(4)]

    def fit(self, rows):
        return interp_([pow(self.wg, i, PRIME) for i in range(self.N)], rows)

    # ---------------------------------------------------- values of the specification
    def val(self, col, x, r=0):
        return peval_(col.poly, x * pow(self.wg, r % self.N, PRIME) % PRIME)

    def evt(self, t, x):
        k = t[0]
        if k == "c":
            return t[1].v
        if k == "q":
            return self.val(t[2], x, t[3])
        if k == "n":
            return -self.evt(t[1], x) % PRIME
        if k == "s":
            return (self.evt(t[1], x) + self.evt(t[2], x)) % PRIME
        if k == "p":
            return self.evt(t[1], x) * self.evt(t[2], x) % PRIME
        return self.evt(t[1], x) * t[2].v % PRIME

    def lagrange(self, i, x):
        """l_i(x) over the row domain"""
        w = pow(self.wg, i, PRIME)
        return self.zh(x) * w % PRIME * pow(self.N * (x - w) % PRIME, PRIME - 2, PRIME) % PRIME

    def lookup_a(self, j, x):
        return sum(pow(self.theta, i, PRIME) * self.evt(e, x) for i, e in enumerate(self.lookups[j][0])) % PRIME

    def lookup_s(self, j, x):
        return sum(pow(self.theta, i, PRIME) * self.val(c, x, r) for i, (c, r) in enumerate(self.lookups[j][1])) % PRIME

    def permcols(self):
        return [c for c in self.wit if c.permute]

    def chunks(self):
        p = self.permcols()
        idx = list(range(len(p)))
        return [idx[i:i + self.max_cols] for i in range(0, len(p), self.max_cols)]

    def constraints(self, x, z, zl, ap, sp):
        """[(family, name, value at x)]; z, zl, ap, sp: coefficient lists of the prover's argument polynomials"""
        P = PRIME
        w = self.wg
        l0, lu, qb = self.lagrange(0, x), self.lagrange(self.u, x), self.val(self.qblind, x)
        act = (1 - lu - qb) % P
        out = [("gate", "gate %d" % i, self.evt(g, x)) for i, g in enumerate(self.gates)]
        ch = self.chunks()
        cols = self.permcols()
        b, g = self.beta, self.gamma
        if ch:
            out.append(("perm", "first grand product starts at one", l0 * (1 - peval_(z[0], x)) % P))
            for k, idx in enumerate(ch):
                lhs, rhs = peval_(z[k], x * w % P), peval_(z[k], x)
                for i in idx:
                    v = self.val(cols[i], x)
                    lhs = lhs * (v + b * self.val(self.sigma[i], x) + g) % P
                    rhs = rhs * (v + b * self.deltas[i] % P * x + g) % P
                out.append(("perm", "grand product step of chunk %d" % k, act * (lhs - rhs) % P))
            for k in range(1, len(ch)):
                out.append(("perm", "stitch of chunk %d" % k,
                            l0 * (peval_(z[k], x) - peval_(z[k - 1], x * pow(w, self.u, P) % P)) % P))
            zz = peval_(z[-1], x)
            out.append(("perm", "last grand product ends in a bit", lu * (zz * zz - zz) % P))
        for j in range(len(self.lookups)):
            a, s = self.lookup_a(j, x), self.lookup_s(j, x)
            a1, s1, am = peval_(ap[j], x), peval_(sp[j], x), peval_(ap[j], x * pow(w, P - 2, P) % P)
            zx, zw = peval_(zl[j], x), peval_(zl[j], x * w % P)
            n = "lookup %d: " % j
            out.append(("lookup", n + "aggregation starts at one", l0 * (1 - zx) % P))
            out.append(("lookup", n + "subset step",
                        act * (zw * (a1 + b) % P * (s1 + g) - zx * (a + b) % P * (s + g)) % P))
            out.append(("lookup", n + "aggregation ends in a bit", lu * (zx * zx - zx) % P))
            out.append(("lookup", n + "first permuted rows agree", l0 * (a1 - s1) % P))
            out.append(("lookup", n + "permuted input equals entry or predecessor",
                        act * (a1 - s1) % P * (a1 - am) % P))
        return out

    # ---------------------------------------------------- model
    def install(self, m):
        m.circ = self
        m.N = self.N
        P = lambda c: Poly(c)
        rots = lambda c: m.mkset([rotS(r) for r in sorted(c.rots)])
        pcol = lambda c: S("col", "", {"label": Str(c.label), "poly": P(c.poly), "queried_rotations": rots(c),
                                       "should_permute": c.permute,
                                       "evals_at_coset_of_extended_domain": NONE})
        y = m.syms
        y["domain_size"] = self.N
        y["wit"] = [pcol(c) for c in self.wit]
        y["inst"] = [pcol(c) for c in self.inst]
        y["fixed"] = [pcol(c) for c in self.fixed]
        y["table"] = [pcol(c) for c in self.table]
        # sigma and q_blind get their opening point registered by preprocessing
        y["sigma"] = [S("col", "", dict(pcol(c).f, queried_rotations=m.mkset([]))) for c in self.sigma]
        y["q_blind"] = S("col", "", dict(pcol(self.qblind).f, queried_rotations=m.mkset([])))
        y["vos"] = [S("vo%d" % i, "", {"id": i}) for i in range(len(self.gates))]
        y["vk"] = L("pk", "vk")
        y["vanishing_polynomial"] = Poly(self.zhpoly)
        lk = [S("lookup%d" % i, "", {"id": i}) for i in range(len(self.lookups))]
        zhi = [Fe(pow(self.zh(GEN * pow(self.wext, i, PRIME) % PRIME), PRIME - 2, PRIME)) for i in range(self.ext)]
        II = ("pk", "vk", "index_info")
        PA = II + ("permutation_argument",)
        table = {
            II + ("extended_coset_domain",): Dom(self.ext),
            II + ("usable_rows",): self.u,
            II + ("lookups",): lk,
            II + ("quotient_degree",): self.ext - 1,
            PA + ("max_cols",): self.max_cols,
            PA + ("usable_rows",): self.u if self.pa_usable is None else self.pa_usable,
            PA + ("deltas",): [Fe(d) for d in self.deltas],
            ("pk", "vk", "zh_inverses_over_coset"): zhi,
        }
        m.leaf.insert(0, lambda mm, p: table.get(p))
        m.gexpr = [Expr(self.tree(g), ("gate", i)) for i, g in enumerate(self.gates)]
        m.lexpr = [[Expr(self.tree(e), ("lk", i, j)) for j, e in enumerate(es)] for i, (es, _) in enumerate(self.lookups)]
        m.ltab = [[qS(c.label, r, "Fixed") for c, r in tq] for _, tq in self.lookups]
        m.mo_result = True
        m.geterr = None
        m.calls = {}

        def call(mm, t, env):
            nm = t.a[0]
            if not isinstance(nm, str):
                return None
            args = t.a[1] if len(t.a) > 1 and isinstance(t.a[1], tuple) else t.a[1:]
            if nm == "VirtualOracle::get_expression":
                v = mm.ev(args[0], env)
                if mm.geterr == "gate" and isinstance(v, S) and v.f.get("id") == 0:
                    return Err(L("unconfigured"))
                return Ok(mm.gexpr[v.f["id"]]) if isinstance(v, S) and "id" in v.f else None
            if nm.startswith("LookupVirtualOracle::"):
                v = mm.ev(args[0], env)
                if not (isinstance(v, S) and "id" in v.f):
                    return None
                if mm.geterr == ("lookup inputs" if nm.endswith("get_expressions") else "lookup table") and v.f["id"] == 0:
                    return Err(L("unconfigured"))
                return Ok(mm.lexpr[v.f["id"]] if nm.endswith("get_expressions") else mm.ltab[v.f["id"]])
            if nm == "Multiopen::verify":
                return Ok(S("()", "", {})) if mm.mo_result else Err(L("moerr"))
            if nm == "Multiopen::prove":
                return Ok(L("moproof"))
            return None
        m.hooks["call"] = call
        m.coms = {}

        def com(mm, t, env):
            a = t.a
            p = mm.poly(mm.ev(a[0], env))
            hb, rr = mm.ev(a[1], env), mm.ev(a[2], env)
            ck = mm.key(mm.ev(a[3], env))
            v = Fe(peval_(p.c, mm.h("tau", ck) % PRIME) + mm.h("gam", ck) * mm.rnd(p, hb, rr))
            mm.coms.setdefault(v.v, []).append((p, hb, rr))
            return v
        m.hooks["com"] = com
        m.perms = []

        def perm(mm, t, env):
            x, y = mm.seq(mm.ev(t.a[0], env)), mm.seq(mm.ev(t.a[1], env))
            v = mm.perm(t.op, x, y)
            if self.small:
                v = sorted(map(Fe, map(mm.fld, x)), key=lambda f: f.v) if t.op == "permA" else [Fe(mm.fld(q)) for q in y[::-1]]
            mm.perms.append((t.op, [mm.fld(q) for q in x], [mm.fld(q) for q in y], [q.v for q in v]))
            return v
        m.hooks["permA"] = m.hooks["permS"] = perm
        m.roles = {}
        m.drawhook = lambda mm, b, c: mm.roles.get((mm.key(b), mm.key(c)))
        return m

    def chal(self):
        return [Fe(x) for x in (self.theta, self.beta, self.gamma, self.alpha, self.xi)]

    def verifier_syms(self, m, proof, stale=None):
        """the verifier's inputs for the same statement"""
        y = m.syms
        ck = m.key(L("pk", "committer_key"))
        com = lambda c: Fe(peval_(c.poly, m.h("tau", ck) % PRIME))
        rots = lambda c: m.mkset([rotS(r) for r in sorted(c.rots)])
        st = (lambda c: stale(m, c)) if stale else (lambda c: Map({}))
        fo = lambda c, rs: S("FixedVerifierOracle", "", {
            "label": Str(c.label), "queried_rotations": rs, "evals_at_challenges": st(c), "commitment": some(com(c))})
        y["witness_oracles"] = [S("WitnessVerifierOracle", "", {
            "label": Str(c.label), "queried_rotations": rots(c), "should_permute": c.permute,
            "evals_at_challenges": st(c), "commitment": some(Fe(m.h("stalecom", c.label))) if stale else NONE})
            for c in self.wit]
        y["instance_oracles"] = [S("InstanceVerifierOracle", "", {
            "label": Str(c.label), "poly": Poly(c.poly), "evals": [Fe(peval_(c.poly, pow(self.wg, i, PRIME))) for i in range(self.N)],
            "queried_rotations": rots(c)}) for c in self.inst]
        y["preprocessed"] = S("VerifierPreprocessedInput", "", {
            "fixed_oracles": [fo(c, rots(c)) for c in self.fixed],
            "table_oracles": [fo(c, rots(c)) for c in self.table],
            "permutation_oracles": [fo(c, m.mkset([])) for c in self.sigma],
            "q_blind": fo(self.qblind, m.mkset([]))})
        y["proof"] = proof

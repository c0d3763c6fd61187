"""Obligations on configuring virtual oracles (C17)."""
import random
from protocol import *
from circuit import rotS, qS, some, NONE, Ok, Err
from spec_protocol import fires
from spec_index import get
import harness as H

KINDS = ("Witness", "Instance", "Fixed")


def VX(v, **f):
    return S("VirtualExpression", v, {k[1:]: x for k, x in f.items()})


def vq(k, i, r):
    return S("VirtualQuery", "", {"index": i, "rotation": rotS(r), "oracle_type": S("OracleType", k, {})})


class CfgWorld:
    def __init__(self, ctx, tag, k, lookup, badtable=False):
        R = self.R = random.Random(repr((ctx.seed, tag, k)))
        self.ctx = ctx
        m = self.m = ctx.model("%s/%s" % (tag, k))
        m.budget = 5_000_000
        self.cols = {}
        wide = k % 8 == 7
        for kd, p in (("Witness", "w"), ("Instance", "i"), ("Fixed", "f"), ("Table", "t")):
            # labels may repeat between kinds and are not in index order
            ls = ["%s%d" % (R.choice([p, "c"]), i) for i in range(R.choice([12, 20]) if wide else R.choice([2, 3, 4]))]
            R.shuffle(ls)
            self.cols[kd] = [(l, set(R.sample([0, 1, -1, 2], R.choice([0, 0, 1])))) for l in ls]
        self.queries = [self.rq(R.choice(KINDS)) for _ in range(R.choice([1, 3, 5, 7]) if not wide else 70)]
        self.tq = [self.rq("Table") for _ in range(R.choice([1, 2, 3]) if not wide else 17)]
        self.bad = None
        if badtable:
            self.bad = R.choice(["Witness", "Instance"])
            j = R.randrange(len(self.tq) + 1)
            self.tq.insert(j, (self.bad, 0, 0))
        self.exprs = [self.tree(R.choice([0, 1, 2, 3]) if not wide else 6) for _ in range((R.choice([1, 2, 3]) if not wide else 11) if lookup else 1)]
        col = lambda c: S("col", "", {"label": Str(c[0]), "rots": m.mkset([rotS(r) for r in sorted(c[1])])})
        self.lists = {kd: [col(c) for c in cs] for kd, cs in self.cols.items()}

        def call(mm, t, env):
            nm = t.a[0]
            if not isinstance(nm, str):
                return None
            args = t.a[1] if len(t.a) > 1 and isinstance(t.a[1], tuple) else t.a[1:]
            if nm == "VirtualExpression::to_expression":
                a = [mm.ev(x, env) for x in args]
                if not isinstance(a[0], S):
                    return None
                return self.translate(a[0], *[mm.seq(x) for x in a[1:4]])
            if nm.endswith("::get_label"):
                v = mm.ev(args[0], env)
                return v.f["label"] if isinstance(v, S) else None
            if nm.endswith("::get_queried_rotations"):
                v = mm.ev(args[0], env)
                return v.f["rots"] if isinstance(v, S) else None
            return None
        m.hooks["call"] = call

        def callmut(mm, t, env):
            nm, ix, args = t.a[0], t.a[1], t.a[2]
            if isinstance(nm, str) and nm.endswith("::register_rotation") and ix == 0:
                v, r = mm.ev(args[0], env), mm.ev(args[1], env)
                if not isinstance(v, S):
                    return None
                return S(v.n, v.v, dict(v.f, rots=mm.mkset(mm.set_(v.f["rots"]).xs + [r])))
            return None
        m.hooks["callmut"] = callmut

    def rq(self, kd):
        return kd, self.R.randrange(len(self.cols[kd])), self.R.choice([0, 0, 1, -1, 2, -3])

    def vq(self, q):
        return vq("Fixed" if q[0] == "Table" else q[0], q[1], q[2])

    def tree(self, d):
        R = self.R
        k = R.choice("qqcnspk") if d else R.choice("qqc")
        if k == "q":
            q = R.choice(self.queries)
            return VX("Oracle", _0=self.vq(q))
        if k == "c":
            return VX("Constant", _0=Fe(R.randrange(PRIME)))
        if k == "n":
            return VX("Negated", _0=self.tree(d - 1))
        if k == "k":
            return VX("Scaled", _0=self.tree(d - 1), _1=Fe(R.randrange(PRIME)))
        return VX("Sum" if k == "s" else "Product", _0=self.tree(d - 1), _1=self.tree(d - 1))

    def translate(self, v, w, i, f):
        """the expression over the columns w, i, f that v denotes"""
        x = v.f
        if v.v == "Constant":
            return S("Expression", "Constant", {"0": x["0"]})
        if v.v == "Oracle":
            q = x["0"]
            kd = q.f["oracle_type"].v
            c = {"Witness": w, "Instance": i, "Fixed": f}[kd]
            if not 0 <= q.f["index"] < len(c):
                raise Skip("query out of range")
            return S("Expression", "Oracle", {"0": S("OracleQuery", "", {
                "label": c[q.f["index"]].f["label"], "rotation": q.f["rotation"], "oracle_type": q.f["oracle_type"]})})
        if v.v in ("Negated", "Scaled"):
            g = {"0": self.translate(x["0"], w, i, f)}
            if v.v == "Scaled":
                g["1"] = x["1"]
            return S("Expression", v.v, g)
        return S("Expression", v.v, {"0": self.translate(x["0"], w, i, f), "1": self.translate(x["1"], w, i, f)})

    def lists3(self):
        return [self.lists[k] for k in KINDS]

    def same(self, code, v):
        """code (an Expression value) denotes the polynomial the virtual expression v denotes"""
        m = self.m
        spec = self.translate(v, *self.lists3())
        for s in range(3):
            at = lambda q: Fe(m.h("atom", s, m.key(q)))
            a, b = (m.evx(Expr(m.totree(e), ("e", s)), at) for e in (code, spec))
            if m.fld(a) != m.fld(b):
                return False
        return True

    def wantrots(self, kd, used):
        return [(l, frozenset(r | {q[2] for q in used if q[0] == kd and q[1] == j})) for j, (l, r) in enumerate(self.cols[kd])]

    def gotrots(self, seq):
        m = self.m
        out = []
        for c in m.seq(seq):
            c = m.resolve(c)
            rs = set()
            for r in m.set_(m.proj(c, "rots")).xs:
                d = m.nat(m.proj(r, "degree"))
                rs.add(-d if m.variant(m.proj(r, "sign"), "Sign") == "Minus" else d)
            out.append((m.proj(c, "label").s, frozenset(rs)))
        return out


def outs(r):
    """final values of the &mut parameters by position"""
    return [r.out.get(p["pat"].get("var", "a%d" % j).split("#")[0]) for j, p in enumerate(r.body["params"])]


def nopanic(w, r):
    for o in r.obl:
        if fires(w, o):
            return False, "%s at %s" % (o.kind, o.src.rsplit(":", 1)[0])
    return True


def c17(ctx):
    acc = Acc(ctx)
    n = 40 if ctx.tier == "quick" else 400
    P = ("self", "witness", "instance", "fixed", "table")

    def translation():
        r = once(ctx, "to_expression", lambda: ctx.run("VirtualExpression::to_expression", names=P[:4]))
        for k in range(n):
            w = CfgWorld(ctx, "tox", k, False)
            m = w.m
            y = m.syms
            y["self"] = w.exprs[0]
            y["witness"], y["instance"], y["fixed"] = w.lists3()
            a = "VirtualExpression::to_expression"
            acc.do("translation denotes the declared expression over the resolved columns", a,
                   lambda: (w.same(m.ev(r.val), w.exprs[0]), "translation of %s differs" % w.exprs[0]))
            acc.do("translation does not panic on in-range queries", a, lambda: nopanic(w, r))
    ctx.guard("translation", "VirtualExpression::to_expression", translation)

    def gate():
        a = "GenericVO::configure"
        r = once(ctx, a, lambda: ctx.run(a, names=P[:4]))
        o = outs(r)
        for k in range(n):
            w = CfgWorld(ctx, "gate", k, False)
            m = w.m
            y = m.syms
            old = some(S("Expression", "Constant", {"0": Fe(5)})) if k % 3 == 0 else NONE
            y["self"] = S("GenericVO", "", {"virtual_exp": w.exprs[0], "virtual_queries": [w.vq(q) for q in w.queries],
                                            "queries": NONE if k % 3 else some([]), "expression": old})
            y["witness"], y["instance"], y["fixed"] = w.lists3()

            def expr():
                v = m.ev(o[0])
                e = get(m, v, ("expression",))
                if m.variant(e, "Option") != "Some":
                    return False, "no expression after configuring"
                return w.same(m.proj(e, "0", "Some"), w.exprs[0]), "configured expression differs from the declared one"
            acc.do("configured expression is the declared one", a, expr)
            for j, kd in enumerate(KINDS):
                acc.do("registers each query's rotation on its %s column" % kd.lower(), a,
                       lambda: (w.gotrots(m.ev(o[j + 1])) == w.wantrots(kd, w.queries),
                                "rotations %s, expected %s" % (w.gotrots(m.ev(o[j + 1])), w.wantrots(kd, w.queries))))
            acc.do("configuring does not panic on in-range queries", a, lambda: nopanic(w, r))
    ctx.guard("gate", "GenericVO::configure", gate)

    def lookup():
        a = "GenericLookupVO::configure"
        r = once(ctx, a, lambda: ctx.run(a, names=P))
        o = outs(r)
        for k in range(2 * n):
            w = CfgWorld(ctx, "lookup", k, True, badtable=k % 2 == 1)
            m = w.m
            y = m.syms
            fresh = k % 3 != 0
            y["self"] = S("GenericLookupVO", "", {
                "virtual_expressions": w.exprs, "virtual_queries": [w.vq(q) for q in w.queries],
                "virtual_table_queries": [w.vq(q) for q in w.tq],
                "table_queries": NONE if fresh else some([]), "expressions": NONE if fresh else some([])})
            y["witness"], y["instance"], y["fixed"] = w.lists3()
            y["table"] = w.lists["Table"]
            res = []

            def result():
                v = m.ev(r.val)
                res.append(m.variant(v, "Result"))
                return (res[0] == ("Err" if w.bad else "Ok"), "%s although the table queries are %s" % (res[0], [q[0] for q in w.tq]))
            acc.do("only fixed columns can be looked up in", a, result)
            if w.bad:
                continue

            def exprs():
                e = get(m, m.ev(o[0]), ("expressions",))
                if m.variant(e, "Option") != "Some":
                    return False, "no expressions after configuring"
                es = m.seq(m.proj(e, "0", "Some"))
                return len(es) == len(w.exprs) and all(w.same(x, v) for x, v in zip(es, w.exprs)), "configured expressions differ from the declared ones"
            acc.do("configured expressions are the declared ones, in order", a, exprs)

            def tqs():
                e = get(m, m.ev(o[0]), ("table_queries",))
                if m.variant(e, "Option") != "Some":
                    return False, "no table queries after configuring"
                want = [qS(w.cols["Table"][i][0], rr, "Fixed") for _, i, rr in w.tq]
                got = m.seq(m.proj(e, "0", "Some"))
                return [m.key(x) for x in got] == [m.key(x) for x in want], "table queries %s, expected %s" % (got, want)
            acc.do("table queries are resolved on the table columns", a, tqs)
            for j, kd in enumerate(KINDS + ("Table",)):
                used = w.tq if kd == "Table" else w.queries
                acc.do("registers each query's rotation on its %s column" % kd.lower(), a,
                       lambda: (w.gotrots(m.ev(o[j + 1])) == w.wantrots(kd, used),
                                "rotations %s, expected %s" % (w.gotrots(m.ev(o[j + 1])), w.wantrots(kd, used))))
            acc.do("configuring does not panic on in-range queries", a, lambda: nopanic(w, r))
    ctx.guard("lookup", "GenericLookupVO::configure", lookup)

    for ty, fn, fld_, kind in (("GenericVO", "get_expression", "expression", 0), ("GenericLookupVO", "get_expressions", "expressions", 1),
                               ("GenericLookupVO", "get_table_queries", "table_queries", 2)):
        def getter():
            import spec_basic as B
            s = sym("self")
            r = B.call(ctx, fn, ty, pos=[s])
            a = "%s::%s" % (ty, fn)
            for k in range(8):
                m = ctx.model("get/%s/%d" % (fn, k))
                e = S("Expression", "Constant", {"0": Fe(k)})
                val = [e, [e, e], [qS("t%d" % k, 0, "Fixed")]][kind]
                f = {"virtual_exp": L("x"), "virtual_expressions": [], "virtual_queries": [], "virtual_table_queries": [],
                     "queries": NONE, "expression": NONE, "expressions": NONE, "table_queries": NONE}
                # the other fields are configured when this one is not
                for g in ("expression", "expressions", "table_queries", "queries"):
                    f[g] = some(L("other", g)) if k % 2 == 0 and g != fld_ else NONE
                f[fld_] = some(val) if k % 2 else NONE
                m.syms["self"] = S(ty, "", f)

                def chk():
                    v = m.ev(r.val)
                    if k % 2 == 0:
                        return m.variant(v, "Result") == "Err", "unconfigured, but not an error"
                    return m.variant(v, "Result") == "Ok" and m.key(m.proj(v, "0", "Ok")) == m.key(val), "returns something else"
                acc.do("hands out the configured value, or an error before", a, chk)
        ctx.guard("getter " + fn, ty, getter)
    acc.finish()

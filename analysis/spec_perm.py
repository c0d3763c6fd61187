"""C28: the permutation of a lookup's input and table."""
import itertools
import random
import harness as H
from ri import Fe, S
from frame import *
from protocol import *
from circuit import *
from spec_protocol import fires
from ri import PRIME, Fe

A = "permute_for_lookup"


class W:
    def __init__(self, ctx, r, k):
        self.ctx, self.r = ctx, r
        self.m = ctx.model("permute/%s" % k)
        self.m.budget = 10_000_000
        self.m.emptyzero = True

    def run(self, a, s):
        """(a', s') or None when the code refuses"""
        m = self.m
        m.memo.clear()
        m.syms["a"], m.syms["s"] = [Fe(x) for x in a], [Fe(x) for x in s]
        bad = None
        for o in self.r.obl:
            try:
                if fires(self, o):
                    return None
            except Imprecise as e:
                # the values behind a panic need not exist
                bad = bad or e
        if bad:
            raise bad
        if m.ev(self.r.pc) is not True:
            return None
        v = m.ev(self.r.val)
        if isinstance(v, S):
            v = [v.f[k] for k in sorted(v.f)]
        x, y = v
        return [m.fld(q) for q in m.seq(x)], [m.fld(q) for q in m.seq(y)]


def inputs(ctx):
    R = random.Random(repr((ctx.seed, "permute")))
    big = [1, 2, PRIME - 1, 77, R.randrange(PRIME), R.randrange(PRIME), R.randrange(PRIME)]
    for n in (1, 2):
        for a in itertools.product(range(3), repeat=n):
            for s in itertools.product(range(3), repeat=n):
                yield list(a), list(s)
    q = ctx.tier == "quick"
    for k in range(400 if q else 6000):
        n = R.choice([3, 3, 4, 5, 6, 8, 11]) if k % 50 != 49 else R.choice([33, 70, 150])
        V = R.sample(big, R.choice([2, 3, 4, 5]))
        s = [R.choice(V) for _ in range(n)]
        if k % 100 == 98:
            # one value fills most of the rows
            n = R.choice([280, 520])
            s = [V[0] if R.random() < .97 else R.choice(V) for _ in range(n)]
        src = s if k % 4 else V
        a = [R.choice(src) for _ in range(n)]
        yield a, s


def c28(ctx):
    acc = Acc(ctx)

    def go():
        r = once(ctx, "permute", lambda: H.run(A, names=["a", "s"]))
        ctx.funcs |= r.I.analysed
        w = W(ctx, r, 0)
        P = lambda n, f: acc.do(n, A, f)
        for a, s in inputs(ctx):
            at = "input %s, table %s" % (a, s)
            got = []

            def f():
                got.append(w.run(a, s))
                if set(a) <= set(s):
                    return got[0] is not None, "refuses although every value is in the table: " + at
                return got[0] is None, "accepts a value that is not in the table: " + at
            P("refuses exactly the inputs with a value outside the table", f)
            if not got or got[0] is None or not set(a) <= set(s):
                continue
            x, y = got[0]
            P("permuted input is a permutation of the input", lambda: (sorted(x) == sorted(q % PRIME for q in a), "%s for %s" % (x, at)))
            P("permuted table is a permutation of the table", lambda: (sorted(y) == sorted(q % PRIME for q in s), "%s for %s" % (y, at)))
            P("every permuted input equals its table entry or its predecessor", lambda: (
                len(x) == len(y) and all(x[i] == y[i] or i and x[i] == x[i - 1] for i in range(len(x))), "%s / %s for %s" % (x, y, at)))
    ctx.guard("permutation of lookup columns", A, go)
    acc.finish()

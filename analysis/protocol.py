"""Worlds: one circuit, one set of symbols, the prover's and the verifier's summaries evaluated in it."""
from terms import *
import terms as TM
import ri
from ri import Fe, Poly, L, S, Set, Map, Str, Dom, Expr, PRIME, peval_, Imprecise, Skip
from relational import *
from circuit import *
from frame import *

_cache = {}


def once(ctx, name, f):
    if name not in _cache:
        try:
            _cache[name] = f()
        except Analysis as e:
            _cache[name] = e
    r = _cache[name]
    if isinstance(r, Exception):
        raise r
    ctx.see(r.I)
    return r


def P_(ctx):
    return once(ctx, "prove", prove)


def V_(ctx):
    return once(ctx, "verify", verify)


def MP_(ctx):
    return once(ctx, "mprove", mprove)


def MV_(ctx):
    return once(ctx, "mverify", mverify)


def stateroot(t):
    while True:
        if t.op in ("absorb", "adv", "iterabsorb", "iteradv"):
            t = t.a[0]
        elif t.op in ("rec", "recn"):
            t = t.a[2].a[0][t.a[3]]     # a loop's state starts as the state before it
        elif t.op == "ite":
            a, b = stateroot(t.a[1]), stateroot(t.a[2])
            return a if a is b else t
        else:
            return t


def is_fs(t):
    return stateroot(t).op == "fsinit"


def draws(r, root=is_fs):
    """draws from the transcript, in program order"""
    return [e for e in r.events if e.kind == "rand" and root(e.args[0])]


def calls(r, name):
    return [e for e in r.events if e.kind == "call:" + name]


class Acc:
    """verdicts of one obligation over many models"""

    def __init__(self, ctx):
        self.ctx = ctx
        self.d = {}
        self.order = []

    def slot(self, name, anchor):
        k = (name, anchor)
        if k not in self.d:
            self.d[k] = [0, None, None]
            self.order.append(k)
        return self.d[k]

    def put(self, name, anchor, okay, detail=""):
        s = self.slot(name, anchor)
        if okay:
            s[0] += 1
        elif s[1] is None:
            s[1] = str(detail)[:1500]

    def do(self, name, anchor, f):
        """f() -> True / False / (bool, detail)"""
        s = self.slot(name, anchor)
        try:
            r = f()
            self.ctx.stats["models"] += 1
            if isinstance(r, tuple):
                self.put(name, anchor, r[0], r[1])
            elif r is not None:
                self.put(name, anchor, bool(r), "")
        except (Imprecise, Skip) as e:
            self.ctx.stats["models_skipped"] += 1
            s[2] = s[2] or "imprecise: " + str(e)[:300]
        except Analysis as e:
            if str(e).startswith("anchor"):
                s[1] = s[1] or str(e)[:300]
            else:
                s[2] = s[2] or str(e)[:300]
        except (KeyError, AttributeError, IndexError, TypeError, ValueError) as e:
            s[2] = s[2] or "shape of the value not modelled: %s %s" % (type(e).__name__, str(e)[:200])

    def finish(self):
        for k in self.order:
            n, bad, und = self.d[k]
            if bad is not None:
                self.ctx.put(k[0], k[1], VIOLATED, bad)
            elif und is not None:
                self.ctx.put(k[0], k[1], UNDECIDED, und)
            elif n:
                self.ctx.put(k[0], k[1], AGREES, "%d random interpretations agree" % n)


def degenerate(shapes):
    """adds circuits with zero, constant and repeated columns, one without blinding rows and one with many
    gates, lookups, lookup columns and permutation chunks to a list of shapes"""
    plain = [s for s in shapes if "/" not in s]
    return list(shapes) + [s + "/deg=1" for s in plain[:1]] + [s + "/deg=2" for s in plain[-1:]] + [
        s + "/last=1" for s in plain[-1:]] + [s + "/big=1" for s in plain[:1]] + [
        s + "/small=1" for s in plain[:1] + plain[-1:]] + [s + "/bare=1" for s in plain[:1]] + [
        s + "/dup=1" for s in plain[-1:]] + [s + "/N=32,far=1" for s in plain[-1:]]


def worlds(ctx, shapes=None, reps=None, tweak=None):
    shapes = degenerate(shapes or SHAPES)
    reps = reps or (1 if ctx.tier == "quick" else 4)
    for q in range(reps):
        for i, sh in enumerate(shapes):
            yield World(ctx, q * 100 + i, sh, tweak)


class World:
    def __init__(self, ctx, k, shape, tweak=None):
        self.ctx, self.k, self.shape = ctx, k, shape
        self.r, self.v = P_(ctx), V_(ctx)
        self.m = ctx.model("%s/%s" % (shape, k))
        self.c = Circuit((ctx.seed, k), shape)
        if tweak:
            tweak(self.c)
        self.c.install(self.m)
        self.m.budget = 100_000_000
        self.tag = "circuit %s#%s" % (shape, k)

    # ------------------------------------------------------------ challenges
    def roles(self, r):
        """the challenges of the circuit, in the order in which the transcript yields them"""
        m = self.m
        ks = []
        es = draws(r)
        ch = self.c.chal()
        for i, e in enumerate(es):
            if e.ctx:
                raise Imprecise("challenge drawn in a loop")
            k = (m.key(m.ev(e.args[0])), m.key(m.ev(e.args[1])))
            ks.append(k)
            if i < len(ch):
                m.roles[k] = ch[i]
        return ks

    def reset(self):
        self.m.memo.clear()
        self.m.roles.clear()

    # ------------------------------------------------------------ prover
    def prove(self):
        self.reset()
        m = self.m
        m.coms.clear()
        del m.perms[:]
        self.kp = self.roles(self.r)
        self.proof = m.ev(self.r.proof)
        if not isinstance(self.proof, S):
            raise Imprecise("proof is not a struct")
        return self.proof

    def pevent(self, r, name):
        es = calls(r, name)
        if len(es) != 1 or es[0].ctx:
            raise Imprecise("%d calls of %s" % (len(es), name))
        return [self.m.ev(a) for a in es[0].args], es[0].args

    def numerator(self):
        """zh(xi) * quotient(xi) from the committed quotient chunks"""
        self.reset()
        m, c = self.m, self.c
        self.roles(self.r)
        t = proj(self.r.proof, "quotient_chunk_commitments")
        q = 0
        for i, v in enumerate(m.seq(m.ev(t))):
            p = self.poly_of(v)
            q = (q + pow(c.xi, c.N * i, PRIME) * peval_(p, c.xi)) % PRIME
        return q * c.zh(c.xi) % PRIME

    def poly_of(self, com):
        ps = self.m.coms.get(self.m.fld(com))
        if not ps:
            raise Imprecise("commitment without a known polynomial")
        return ps[0][0].c

    # ------------------------------------------------------------ verifier
    def load(self, proof, mo=True, stale=None):
        self.reset()
        self.m.mo_result = mo
        self.c.verifier_syms(self.m, proof, stale)
        self.kv = self.roles(self.v)

    def verify(self, proof, mo=True, stale=None, log=False):
        self.load(proof, mo, stale)
        m = self.m
        m.eqlog = [] if log else None
        a = m.ev(self.v.val)
        if log:
            self.log, m.eqlog = m.eqlog, None
        return m.variant(a, "Result") == "Ok"

    def with_(self, proof=None, **kw):
        """copy of the proof with fields replaced"""
        p = proof or self.proof
        f = dict(p.f)
        f.update(kw)
        return S(p.n, p.v, f)

    def bump(self, field, i, by=1, proof=None):
        p = proof or self.proof
        x = p.f[field]
        if i is None:
            return self.with_(p, **{field: Fe(self.m.fld(x) + by)})
        l = list(self.m.seq(x))
        l[i] = Fe(self.m.fld(l[i]) + by)
        return self.with_(p, **{field: l})

    def items(self, *fields):
        """(field, index) of the proof's vectors; scalars have index None"""
        out = []
        for f in fields:
            if f not in self.proof.f:
                raise Imprecise("proof has no field " + f)
            x = self.proof.f[f]
            if isinstance(x, list):
                out += [(f, i) for i in range(len(x))]
            else:
                out.append((f, None))
        return out

    def identity(self):
        """the equation of the accept condition that depends on the quotient's evaluations"""
        honest = self.verify(self.proof, log=True)
        h = {t: v for t, e, v in self.log if not e}
        if not self.proof.f["quotient_chunks_evals"]:
            raise Imprecise("no quotient chunk")
        self.verify(self.bump("quotient_chunks_evals", 0), log=True)
        for t, e, v in self.log:
            if not e and v.v != 0 and (t not in h or h[t].v != v.v):
                return t
        if not honest:
            raise Imprecise("the verifier rejects before it reaches the identity")
        return None

    def at(self, t, proof, alpha=None):
        a = self.c.alpha
        if alpha is not None:
            self.c.alpha = alpha
        try:
            self.load(proof)
            return self.m.fld(self.m.ev(t))
        finally:
            self.c.alpha = a

    def opened(self, args):
        """[(label, commitment, {rotation key}, {point: evaluation})] of the opened oracles"""
        m = self.m
        out = []
        for o in m.seq(args[2]):
            c = m.proj(o, "commitment")
            if m.variant(c, "Option") != "Some":
                raise Imprecise("oracle without a commitment")
            com = m.key(m.proj(c, "0", "Some"))
            pts = {}
            mp = m.map_(m.proj(o, "evals_at_challenges"))
            for r in m.seq(m.set_(m.proj(o, "queried_rotations"))):
                d = m.nat(m.proj(r, "degree"))
                d = d if m.variant(m.proj(r, "sign"), "Sign") == "Plus" else -d
                pt = self.c.xi * pow(self.c.wg, d % self.c.N, PRIME) % PRIME
                e = mp.d.get(("n", pt))
                pts[pt] = m.fld(e[1]) if e else None
            out.append((m.proj(o, "label"), com, pts))
        return out


def coefficients(f, guess):
    """coefficients of the polynomial alpha -> f(alpha)"""
    n = guess + 3
    while True:
        xs = list(range(2, 2 + n))
        c = interp_(xs, [f(x) for x in xs])
        chk = 1_000_003
        if peval_(c, chk) == f(chk):
            while c and c[-1] == 0:
                c.pop()
            return c
        n *= 2
        if n > 70:
            raise Imprecise("not a polynomial of small degree in alpha")

"""Linked analysis of the prover and the verifier of one proof over one set of symbols."""
from terms import *
import terms as TM
import harness as H
from contracts import CONTRACTS
from interp import Interp, mkref, Analysis
from models import pv


def nat(name):
    s = sym(name)
    TM.NATSYMS.add(s)
    return s


def field(name):
    s = sym(name)
    TM.NUMSYMS.add(s)
    return s


N = nat("domain_size")
TM.POW2SYMS.add(N)
DOM = raw("dom", N)


def pstruct(I, short, **fields):
    """struct value with all fields of the ADT, in declaration order"""
    from interp import short as sh
    for p, a in I.adts.items():
        if sh(p) == short and not a["enum"]:
            fl = [f[0] if isinstance(f, (list, tuple)) else f for f in a["variants"][0][1]]
            miss = [f for f in fl if f not in fields]
            extra = [f for f in fields if f not in fl]
            if miss or extra:
                raise Analysis("struct %s: fields changed (missing %s, unknown %s)" % (short, miss, extra))
            return struct(short, "", [(f, fields[f]) for f in fl])
    raise Analysis("anchor struct %s" % short)


def prover_oracle(I, kind, base, permute=False, coset=None, wf=True):
    """a well-formed prover oracle: evals are the evaluations of poly over the domain"""
    p = pv(proj(base, "poly"))
    f = dict(label=proj(base, "label"), poly=p, evals=raw("fft", DOM, p),
             evals_at_coset_of_extended_domain=coset if coset is not None else
             proj(base, "evals_at_coset_of_extended_domain"),
             queried_rotations=proj(base, "queried_rotations"))
    if permute:
        f["should_permute"] = proj(base, "should_permute")
    return pstruct(I, kind, **f)


def oseq(I, kind, name, **kw):
    b = sym(name)
    i = fresh("i")
    n = raw("len", b)
    return seqlam(n, lam(i, prover_oracle(I, kind, raw("at", b, i), **kw)))


def newinterp(leaves=()):
    I = Interp(H.get(), set(leaves) | H.BASE_LEAVES)
    I.contracts = dict(CONTRACTS)
    return I


def okleaf(t):
    """(condition, payload) of the Ok results of a Result-valued term; payload merged over the Ok leaves"""
    out = []

    def go(t, c):
        if t.op == "ite":
            go(t.a[1], and_(c, t.a[0]))
            go(t.a[2], and_(c, not_(t.a[0])))
            return
        if t.op == "struct" and t.a[1] == "Err":
            return
        if t.op == "struct" and t.a[1] == "Ok":
            out.append((c, proj(t, "0")))
            return
        out.append((c, t))
    go(t, TRUE)
    return out


class Linked:
    pass


def prover_args(I):
    ext = None
    pk = sym("pk")
    ext = proj(proj(proj(pk, "vk"), "index_info"), "extended_coset_domain")
    pp = H.run("ProverPreprocessedInput::new", I=newinterp(), args=dict(
        fixed_oracles=oseq(I, "FixedProverOracle", "fixed"),
        permutation_oracles=oseq(I, "FixedProverOracle", "sigma"),
        table_oracles=oseq(I, "FixedProverOracle", "table"),
        q_blind=prover_oracle(I, "FixedProverOracle", sym("q_blind")),
        index_info=proj(proj(pk, "vk"), "index_info")),
        names=("fixed_oracles", "permutation_oracles", "table_oracles", "q_blind", "index_info"))
    return dict(
        pk=pk, preprocessed=pp.val, domain_size=N,
        witness_oracles=lambda I, st: mkref(I.cell(st, oseq(I, "WitnessProverOracle", "wit", permute=True)), ()),
        instance_oracles=lambda I, st: mkref(I.cell(st, oseq(I, "InstanceProverOracle", "inst")), ()))


PROVE = ("pk", "preprocessed", "witness_oracles", "instance_oracles", "vos", "domain_size", "zk_rng")
VERIFY = ("vk", "preprocessed", "proof", "witness_oracles", "instance_oracles", "vos", "domain_size", "vanishing_polynomial")
MPROVE = ("ck", "oracles", "oracle_rands", "evaluation_challenge", "domain_size", "fs_rng", "zk_rng")
MVERIFY = ("vk", "proof", "oracles", "evaluation_challenge", "domain_size", "fs_rng")


def verify():
    return H.run("verify", selfty="TurboPlonk", I=newinterp(("Multiopen::verify",)), args=dict(domain_size=N), names=VERIFY)


def mprove():
    return H.run("prove", selfty="Multiopen", I=newinterp(), names=MPROVE)


def mverify():
    return H.run("verify", selfty="Multiopen", I=newinterp(), names=MVERIFY)


def prove():
    I = newinterp(("Multiopen::prove",))
    r = H.run("prove", selfty="TurboPlonk", I=I, args=prover_args(I), names=PROVE)
    ls = okleaf(r.val)
    if len(ls) != 1:
        raise Analysis("prove: %d success results" % len(ls))
    r.okcond, r.proof = ls[0]
    return r

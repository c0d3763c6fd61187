"""Function contracts used in place of callee bodies when a whole protocol run is analysed.

Every contract used by a check is discharged against the callee's body by the same check
(spec.contract_obligations), so the split is modular, not an assumption.
"""
from terms import *
import terms as TM
from models import hom, pv, welem
from interp import getobj, Ref


def reb_srot(r):
    """signed rotation of a Rotation value"""
    if r.op == "struct":
        d = proj(r, "degree")
        s = proj(r, "sign")
        p = isv(s, "Sign", "Plus")
        if p is TRUE:
            return d
        if p is FALSE:
            return neg(d)
        if d is ZERO:
            return ZERO
    if r.op == "ite":
        a, b = reb_srot(r.a[1]), reb_srot(r.a[2])
        return ite(r.a[0], a, b)
    return raw("srot", r)


TM.REB["srot"] = reb_srot
srot = reb_srot


def _ne(I, st, args, n):
    if len(args) != n:
        return None
    return [I.deref_all(st, a) for a in args]


def c_eval_point(I, st, args):
    a = _ne(I, st, args, 3)
    if a is None or a[2].op not in ("elements",):
        return NotImplemented
    return mul(a[1], power(raw("omega", a[2].a[0]), srot(a[0])))


def c_point_info(I, st, args):
    a = _ne(I, st, args, 4)
    if a is None or a[3].op not in ("elements",):
        return NotImplemented
    return tup(raw("call", "ptlabel", (srot(a[0]), a[1])), mul(a[2], power(raw("omega", a[3].a[0]), srot(a[0]))))


def rotat(s, i, r, ratio):
    if r is ZERO:
        return at(s, i)
    if s.op in ("fft", "coset_fft"):
        # index arithmetic modulo the domain size is absorbed by the periodicity of omega
        return at(s, add(i, mul(r, ratio)))
    return at(s, raw("mod", add(i, mul(r, ratio)), slen(s)))


def c_query_in_coset(I, st, args):
    a = _ne(I, st, args, 3)
    if a is None or a[0].op == "sym":
        return NotImplemented
    o = proj(a[0], "evals_at_coset_of_extended_domain")
    ev = proj(a[0], "evals")
    r = srot(a[2])
    c = isv(o, "Option", "Some")
    s = proj(o, "0", "Option", "Some")
    v = rotat(s, a[1], r, idiv(slen(s), slen(ev)) if r is not ZERO else ZERO)
    if c is TRUE:
        return ok(v)
    return ite(c, ok(v), err(raw("call", "missing_coset", (a[0],))))


def c_query_at_omega(I, st, args):
    a = _ne(I, st, args, 3)
    if a is None or a[0].op == "sym":
        return NotImplemented
    return rotat(proj(a[0], "evals"), a[1], srot(a[2]), ONE)


def c_permute(I, st, args):
    a = _ne(I, st, args, 2)
    if a is None:
        return NotImplemented
    c = raw("call", "permute_for_lookup", (a[0], a[1]))
    return tup(raw("permA", a[0], a[1]), raw("permS", a[0], a[1]))


CONTRACTS = {
    "Rotation::compute_evaluation_point": c_eval_point,
    "Rotation::get_point_info": c_point_info,
    "Instantiable::query_in_coset": c_query_in_coset,
    "Instantiable::query_at_omega_in_original_domain": c_query_at_omega,
    "permute::permute_for_lookup": c_permute,
}

"""Symbolic entry points for the analysis: builds typed symbolic arguments and runs a body."""
import sys
from dump import dump
from terms import *
import terms as TM
import interp as IP
from interp import Interp, mkref, St, Store, short, norm, Analysis, getobj

_D = None
BASE_LEAVES = {"Expression::evaluate", "Expression::degree"}


def get():
    global _D
    if _D is None:
        _D = dump()[0]
    return _D


def symval(I, t, name, st):
    """symbolic argument of type t"""
    if t[0] == "ref":
        if t[1]:
            return mkref(I.cell(st, symval(I, t[2], name, st)), ())
        return symval(I, t[2], name, st)
    if t[0] == "prim":
        if t[1] in ("usize", "u64", "u32", "u8"):
            s = sym(name)
            TM.NATSYMS.add(s)
            return s
        if t[1] == "bool":
            return raw("bool", sym(name))
    if I.is_num_ty(t):
        s = sym(name)
        TM.NUMSYMS.add(s)
        if I.is_poly_ty(t):
            return raw("P", s)
        return s
    if t[0] == "param" and t[1] in ("R", "FS") or t[0] == "dyn" and "Rng" in str(t[1]):
        return struct("Rng", "", [("base", sym(name)), ("cnt", ZERO)])
    if t[0] == "adt" and "FiatShamirRng" in t[1]:
        return struct("Rng", "", [("base", sym(name)), ("cnt", ZERO)])
    return sym(name)


def find(I, path, **kw):
    bs = [b for p, l in I.bypath.items() if p == path or p.endswith("::" + path) for b in l]
    if kw.get("selfty"):
        bs = [b for b in bs if b.get("impl_self") is not None and short(str(selfname(I, b))) == kw["selfty"]]
    return bs


def selfname(I, b):
    t = I.types[b["impl_self"]]
    return t[1] if t[0] == "adt" else t


class Run:
    pass


def run(path, args=None, leaves=(), selfty=None, I=None, body=None, tsub=None, names=None):
    if I is None:
        I = Interp(get(), set(leaves) | BASE_LEAVES)
    if body is None:
        bs = find(I, path, selfty=selfty)
        if len(bs) != 1:
            raise Analysis("anchor %s%s: %d candidates" % (path, " for " + selfty if selfty else "", len(bs)))
        body = bs[0]
    st = St(Store(), TRUE)
    r = Run()
    r.I, r.st, r.body = I, st, body
    vals = []
    for j, p in enumerate(body["params"]):
        nm = p["pat"].get("name") or p["pat"].get("var", "a%d" % j).split("#")[0] if p.get("pat") else "a%d" % j
        if names and j < len(names):
            nm = names[j]       # parameters by position, whatever they are called
        if args and nm in args:
            v = args[nm]
            if callable(v):
                v = v(I, st)
        else:
            v = symval(I, I.ty(p["ty"], tsub or {}), nm, st)
        vals.append(v)
    r.args = vals
    r.val = I.run_body(body, vals, st, tsub or {})
    r.dead = st.dead
    r.pc = st.pc
    r.obl, r.events = I.obl, I.events
    r.out = {}
    for j, v in enumerate(vals):
        o = getobj(v)
        if isinstance(o, IP.Ref):
            p = body["params"][j]
            r.out[p["pat"].get("var", "a%d" % j).split("#")[0]] = I.rd(st, o.cell, o.path)
    return r


if __name__ == "__main__":
    import time
    t0 = time.time()
    sel = None
    a = sys.argv[1:]
    if "@" in a[0]:
        a[0], sel = a[0].split("@")
    r = run(a[0], selfty=sel, leaves=a[1:])
    print("VAL", show(r.val)[:6000])
    for k, v in r.out.items():
        print("OUT", k, show(v)[:6000])
    print("PC", show(r.pc)[:2000], "dead", r.dead)
    for o in r.obl:
        print("OBL", o.kind, o.src, "cond", show(o.cond)[:300], "| ctx", [(show(x), show(y)[:80]) for x, y in o.ctx], "| g", show(o.gpc)[:200])
    for o in r.events:
        print("EV", o.kind, o.src, [show(x)[:200] if isinstance(x, T) else x for x in o.args], [(show(x), show(y)[:80]) for x, y in o.ctx])
    print("unmodelled", r.I.unmodelled, "%.2fs" % (time.time() - t0))

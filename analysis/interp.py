"""Interprocedural value-numbering analysis over the dumped THIR.

One structured pass per function (joins at merges, no path enumeration).  Values are
terms (terms.py).  Crate-local callees are analysed in place; external ones through
models.py; the remaining ones are uninterpreted functions of their arguments.  Loops
and iterator consumers are summarised by recurrence (see loop()).
"""
import re
from terms import *
import terms as TM

UNDEF = raw("undef")
OBJ = {}          # uid -> python object
_okeys = {}


WIDTH = {p + w: n for p in "ui" for w, n in (("8", 8), ("16", 16), ("32", 32), ("64", 64), ("128", 128), ("size", 64))}


def wrap(v, t):
    w = WIDTH[t]
    v &= (1 << w) - 1
    return v - (1 << w) if t[0] == "i" and v >> (w - 1) else v


class Analysis(Exception):
    pass


def mkobj(o, key=None):
    if key is not None:
        u = _okeys.get(key)
        if u is None:
            u = len(OBJ)
            _okeys[key] = u
            OBJ[u] = o
    else:
        u = len(OBJ)
        OBJ[u] = o
    return raw("obj", u)


def getobj(t):
    return OBJ[t.a[0]] if isinstance(t, T) and t.op == "obj" else None


class Ref:
    """&mut place"""
    def __init__(self, cell, path):
        self.cell, self.path = cell, path


def mkref(cell, path):
    return mkobj(Ref(cell, path), ("ref", cell, path))


class Closure:
    def __init__(self, key, env, tsub, frame):
        self.key, self.env, self.tsub, self.frame = key, env, tsub, frame


class FnItem:
    def __init__(self, fn, tsub):
        self.fn, self.tsub = fn, tsub


class Builtin:
    def __init__(self, f, name="builtin"):
        self.f, self.name = f, name


class Store:
    __slots__ = ("d", "p", "o")

    def __init__(self, p=None):
        self.d, self.p, self.o = {}, p, None

    def get(self, c):
        s = self
        while s is not None:
            v = s.d.get(c)
            if v is not None:
                return v
            s = s.p
        return UNDEF

    def has(self, c):
        s = self
        while s is not None:
            if c in s.d:
                return True
            s = s.p
        return False

    def set(self, c, v):
        self.d[c] = v

    def fork(self):
        return Store(self)


class St:
    __slots__ = ("store", "pc", "dead")

    def __init__(self, store, pc=TRUE, dead=False):
        self.store, self.pc, self.dead = store, pc, dead

    def fork(self, c=TRUE):
        return St(self.store.fork(), and_(self.pc, c), self.dead)


class Exit:
    __slots__ = ("kind", "label", "cond", "store", "val", "base")

    def __init__(self, kind, label, cond, store, val):
        self.kind, self.label, self.cond, self.store, self.val = kind, label, cond, store, val


def patint(w):
    """the integer a literal pattern denotes, or None"""
    m = re.match(r"^(-?[0-9]+)(_?[iu](8|16|32|64|128|size))?$", w)
    return int(m.group(1)) if m else None


class Frame:
    def __init__(self, body, env, tsub, base):
        self.body, self.env, self.tsub, self.base = body, env, tsub, base
        self.exits = []
        self.label = None


class Oblig:
    """potential panic / recorded site; cond = condition under which it is reached (and fires)"""
    __slots__ = ("kind", "cond", "src", "ctx", "fn", "args", "stack", "gpc")

    def __init__(self, kind, cond, src, fn, args=(), stack=(), gpc=TRUE):
        self.kind, self.cond, self.src, self.fn, self.args = kind, cond, src, fn, args
        self.ctx = []
        self.stack = stack
        self.gpc = gpc


import functools


@functools.lru_cache(maxsize=None)
def norm(p):
    """strip generic arguments and impl headers from a path"""
    out, depth, i = [], 0, 0
    while i < len(p):
        ch = p[i]
        if ch == "<":
            depth += 1
        elif ch == ">" and (i == 0 or p[i - 1] != "-"):
            depth -= 1
        elif depth == 0:
            out.append(ch)
        i += 1
    s = "".join(out)
    while "::::" in s:
        s = s.replace("::::", "::")
    return s.strip(":").replace(" ", "")


def last2(p):
    x = norm(p).split("::")
    return "::".join(x[-2:])


POLYTY = ("DensePolynomial",)


def short(path):
    return norm(path).split("::")[-1]


class Interp:
    def __init__(self, dump, leaves=()):
        self.dump = dump
        self.types = dump["types"]
        self.bodies = {b["key"]: b for b in dump["bodies"]}
        self.bypath = {}
        for b in dump["bodies"]:
            self.bypath.setdefault(norm(b.get("path", "")), []).append(b)
        self.adts = {a["path"]: a for a in dump["adts"]}
        for a in dump["adts"]:
            if a["enum"]:
                vs = [v[0] for v in a["variants"]]
                TM.ENUMS[short(a["path"])] = vs
        self.impls = dump["impls"]
        self.traits = {t["key"]: t for t in dump["traits"]}
        self.implkey = {}
        for im in self.impls:
            for nm, k, _ in im["items"]:
                self.implkey[k] = im
        self.ncell = 0
        self.obl = []
        self.events = []
        self.frames = []
        self.tymemo = {}
        self.leaves = set(leaves)
        self.depth = 0
        self.loopctx = []
        self.analysed = set()
        self.callcount = 0
        self.unmodelled = {}
        self.gpc = [TRUE]
        self.contracts = {}
        self.used_contracts = set()
        import models
        self.models = models.MODELS
        self.M = models

    # ------------------------------------------------------------ types
    def ty(self, i, ts):
        if i is None:
            return ("unknown",)
        if not ts:
            r = self.tymemo.get(i)
            if r is not None:
                return r
        t = self.types[i]
        k = t[0]
        if k == "adt":
            r = ("adt", t[1]) + tuple(self.ty(x, ts) for x in t[2])
        elif k == "param":
            r = ts.get(t[1], ("param", t[1])) if ts else ("param", t[1])
        elif k == "ref":
            r = ("ref", t[1], self.ty(t[2], ts))
        elif k == "tuple":
            r = ("tuple",) + tuple(self.ty(x, ts) for x in t[1])
        elif k in ("slice",):
            r = ("slice", self.ty(t[1], ts))
        elif k == "array":
            r = ("array", self.ty(t[1], ts), str(t[2]))
        elif k == "fndef":
            r = ("fndef", t[1]["key"])
        elif k == "closure":
            r = ("closure", t[1])
        elif k == "alias":
            r = ("alias", t[1])
        elif k == "dyn":
            r = ("dyn", t[1])
        else:
            r = ("prim", t[1] if len(t) > 1 else "")
        if not ts:
            self.tymemo[i] = r
        return r

    @staticmethod
    def strip(t):
        while t[0] == "ref":
            t = t[2]
        if t[0] == "adt" and short(t[1]) == "Box" and len(t) > 2:
            return Interp.strip(t[2])
        return t

    def is_poly_ty(self, t):
        t = self.strip(t)
        return t[0] == "adt" and short(t[1]) in POLYTY

    def is_num_ty(self, t):
        t = self.strip(t)
        if t[0] == "prim":
            return t[1] in ("usize", "u8", "u16", "u32", "u64", "u128", "isize", "i8", "i16", "i32", "i64", "i128")
        if t[0] == "param":
            return t[1] in ("F", "T") or t[1].startswith("F")
        if t[0] == "alias":
            return "ScalarField" in t[1] or "::Fr" in t[1]
        if t[0] == "adt":
            return short(t[1]) in POLYTY or short(t[1]).startswith("Fp")
        return False

    # ------------------------------------------------------------ cells
    def cell(self, st, v):
        self.ncell += 1
        st.store.set(self.ncell, v)
        return self.ncell

    def rd(self, st, c, path):
        v = st.store.get(c)
        return self.rdpath(st, v, path)

    def rdpath(self, st, v, path):
        for p in path:
            if p[0] == "f":
                v = self.deref_all(st, v)
                v = proj(v, p[1], p[2], p[3])
            elif p[0] == "i":
                v = self.deref_all(st, v)
                v = at(v, p[1])
            elif p[0] == "mk":
                v = proj(mget(v, p[1]), "0", "Option", "Some")
            elif p[0] == "lastmut":
                v = at(v, sub(slen(v), ONE))
            elif p[0] == "grp":
                v = raw("grpval", v, p[1])
            elif p[0] == "sl":
                v = slice_(v, p[1], p[2])
        return v

    def deref_all(self, st, v):
        o = getobj(v)
        while isinstance(o, Ref):
            v = self.rd(st, o.cell, o.path)
            o = getobj(v)
        return v

    def wr(self, st, c, path, val):
        v = st.store.get(c)
        st.store.set(c, self.wrv(st, v, path, val))

    def wrv(self, st, v, path, val):
        if not path:
            return val
        p = path[0]
        o = getobj(v)
        if isinstance(o, Ref):
            self.wr(st, o.cell, o.path + path, val)
            return v
        if p[0] == "f":
            return with_field(v, p[1], self.wrv(st, proj(v, p[1], p[2], p[3]), path[1:], val), p[3])
        if p[0] == "i":
            return upd(v, p[1], self.wrv(st, at(v, p[1]), path[1:], val))
        if p[0] == "mk":
            old = proj(mget(v, p[1]), "0", "Option", "Some")
            return mset(v, p[1], self.wrv(st, old, path[1:], val))
        if p[0] == "grp":
            if len(path) == 1 and val.op == "concat" and val.a[0][0] is raw("grpval", v, p[1]) and \
                    len(val.a[0]) == 2 and val.a[0][1].op == "list":
                r = v
                for x in val.a[0][1].a[0]:
                    r = grp_push(r, p[1], x)
                return r
            if len(path) == 1 and val.op == "poly":
                r = sub(val, raw("grpval", v, p[1]))
                return grp_push(v, p[1], raw("inc", r))
            return raw("grpset", v, p[1], self.wrv(st, raw("grpval", v, p[1]), path[1:], val))
        if p[0] == "sl":
            n = slen(v)
            return concat(slice_(v, ZERO, p[1]), self.wrv(st, slice_(v, p[1], p[2]), path[1:], val),
                          slice_(v, p[2], n))
        raise Analysis("write path %r" % (p,))

    # --------------------------------------------------------- obligations
    def src(self, sp):
        return sp.replace("/repo/", "") if isinstance(sp, str) else sp

    def oblige(self, kind, cond, st, sp, args=()):
        """a site reached under st.pc where `cond` makes it panic (or an event if cond TRUE)"""
        if st.dead or cond is FALSE:
            return
        o = Oblig(kind, cond, self.src(sp), self.frames[-1].body["path"] if self.frames else "",
                  args, tuple(f.body["path"] for f in self.frames), and_(self.gpc[-1], st.pc))
        self.obl.append(o)

    def event(self, kind, st, sp, *args):
        if st.dead:
            return
        o = Oblig(kind, TRUE, self.src(sp), self.frames[-1].body["path"] if self.frames else "",
                  args, tuple(f.body["path"] for f in self.frames), and_(self.gpc[-1], st.pc))
        self.events.append(o)

    # ------------------------------------------------------------ joins
    def join(self, st, c, a, b):
        """merge fork a (under c) and fork b (under not c) of st back into st"""
        if a.dead and b.dead:
            st.dead = True
            # keep nothing
            return
        if a.dead or b.dead:
            k = b if a.dead else a
            for x, v in k.store.d.items():
                st.store.set(x, v)
            st.pc = k.pc
            return
        if a.store.d or b.store.d:
            for x in set(a.store.d) | set(b.store.d):
                ina, inb = x in a.store.d, x in b.store.d
                va = a.store.d[x] if ina else st.store.get(x)
                vb = b.store.d[x] if inb else st.store.get(x)
                if va is vb:
                    st.store.set(x, va)
                elif va is UNDEF:
                    st.store.set(x, vb)
                elif vb is UNDEF:
                    st.store.set(x, va)
                else:
                    st.store.set(x, ite(c, va, vb))
        if a.pc is not and_(st.pc, c) or b.pc is not and_(st.pc, not_(c)):
            # something exited inside a branch
            st.pc = or_(a.pc, b.pc)

    # ------------------------------------------------------- expressions
    def e(self, i):
        return self.frames[-1].body["exprs"][i]

    def ety(self, i):
        return self.ty(self.e(i)["ty"], self.frames[-1].tsub)

    def ev(self, i, st):
        if st.dead:
            return UNDEF
        x = self.e(i)
        return getattr(self, "x_" + x["k"])(x, st)

    def x_scope(self, x, st):
        f = self.frames[-1]
        if "id" in x:
            f.label = x["id"]
        return self.ev(x["e"], st)

    def x_use(self, x, st):
        return self.ev(x["e"], st)

    def x_lit(self, x, st):
        if "int" in x:
            return const(x["int"])
        if "bool" in x:
            return TRUE if x["bool"] else FALSE
        if "str" in x:
            return raw("str", x["str"])
        if "bytes" in x:
            return raw("str", "b:" + str(x["bytes"]))
        return raw("str", "lit:" + str(x.get("other", "")))

    def x_unsupported(self, x, st):
        raise Analysis("unsupported expression at %s" % x.get("sp"))

    def x_zst(self, x, st):
        f = x.get("fty")
        if f and f[0] == "fndef":
            return mkobj(FnItem(f[1], self.frames[-1].tsub), ("fn", f[1]["key"], repr(sorted(self.frames[-1].tsub.items()))
                                                             + repr(f[1].get("args"))))
        return UNIT

    def x_const(self, x, st):
        p = norm(x["path"])
        bs = self.bypath.get(p)
        if x.get("key") in self.bodies and self.bodies[x["key"]].get("kind") in ("Const", "AssocConst", "Static"):
            b = self.bodies[x["key"]]
            return self.run_body(b, [], st, {}, x.get("sp"))
        if bs and len(bs) == 1 and bs[0].get("kind") in ("Const", "AssocConst"):
            return self.run_body(bs[0], [], st, {}, x.get("sp"))
        # Self::CONST of the enclosing trait impl
        if x.get("trait"):
            for f in reversed(self.frames):
                im = self.implkey.get(f.body["key"])
                if im and im.get("trait") and norm(im["trait"]) == norm(x["trait"]):
                    for nm, k, kd in im["items"]:
                        if nm == p.split("::")[-1] and k in self.bodies:
                            return self.run_body(self.bodies[k], [], st, {}, x.get("sp"))
        t = self.ty(x["ty"], self.frames[-1].tsub) if "ty" in x else None
        if t and t[0] == "prim" and t[1] in WIDTH and p.split("::")[-1] in ("MAX", "MIN") and x.get("key") not in self.bodies:
            w, sg = WIDTH[t[1]], t[1][0] == "i"
            return const((1 << (w - sg)) - 1 if p.endswith("MAX") else -(1 << (w - 1)) if sg else 0)
        return raw("const", p)

    x_static = x_const

    def x_constparam(self, x, st):
        return raw("const", str(x.get("name", "")))

    def x_constblock(self, x, st):
        return raw("const", str(x.get("key", "")))

    def x_var(self, x, st):
        return st.store.get(self.lookup(x["v"]))

    x_upvar = x_var

    def lookup(self, v):
        c = self.frames[-1].env.get(v)
        if c is None:
            raise Analysis("unbound %s in %s" % (v, self.frames[-1].body["path"]))
        return c

    def x_deref(self, x, st):
        t = self.ety(x["e"])
        v = self.ev(x["e"], st)
        if t[0] == "ref" and not t[1]:
            o = getobj(v)
            if isinstance(o, Ref) and not (t[2][0] == "ref" and t[2][1]):
                return self.deref_all(st, v)
            return v
        o = getobj(v)
        if isinstance(o, Ref):
            return self.rd(st, o.cell, o.path)
        if v.op == "ite":
            return self.map_ite(v, lambda y: self.rd(st, getobj(y).cell, getobj(y).path)
                                if isinstance(getobj(y), Ref) else y)
        return v

    def map_ite(self, v, f):
        if v.op == "ite":
            return ite(v.a[0], self.map_ite(v.a[1], f), self.map_ite(v.a[2], f))
        return f(v)

    def x_field(self, x, st):
        k, c, p = self.place_of_field(x, st)
        if st.dead:
            return UNDEF
        if k == "val":
            return c
        return self.rd(st, c, p)

    def place_of_field(self, x, st):
        pl = self.place(x["e"], st)
        if pl[0] == "val":
            v = self.deref_all(st, pl[1])
            return ("val", proj(v, x["f"]), None)
        return ("cell", pl[1], pl[2] + (("f", x["f"], "", ""),))

    def x_index(self, x, st):
        pl = self.place(x["_self"], st) if "_self" in x else self.place_index(x, st)
        if st.dead:
            return UNDEF
        return pl[1] if pl[0] == "val" else self.rd(st, pl[1], pl[2])

    def place_index(self, x, st):
        pl = self.place(x["e"], st)
        i = self.ev(x["i"], st)
        if st.dead:
            return ("val", UNDEF, None)
        s = pl[1] if pl[0] == "val" else self.rd(st, pl[1], pl[2])
        s = self.deref_all(st, s)
        self.bound(s, i, st, x["sp"])
        if pl[0] == "val":
            return ("val", at(s, i), None)
        return ("cell", pl[1], pl[2] + (("i", i),))

    def bound(self, s, i, st, sp):
        n = slen(s)
        if n is INF:
            return
        self.oblige("index", not_(lt(i, n)), st, sp, (i, n, s))

    def place(self, i, st):
        """('cell', c, path) or ('val', v, None)"""
        if st.dead:
            return ("val", UNDEF, None)
        x = self.e(i)
        k = x["k"]
        if k in ("scope", "use"):
            if "id" in x:
                self.frames[-1].label = x["id"]
            return self.place(x["e"], st)
        if k in ("var", "upvar"):
            return ("cell", self.lookup(x["v"]), ())
        if k == "field":
            return self.place_of_field(x, st)
        if k == "index":
            return self.place_index(x, st)
        if k == "deref":
            t = self.ety(x["e"])
            if t[0] == "ref" and not t[1]:
                pl = self.place(x["e"], st)
                v = pl[1] if pl[0] == "val" else self.rd(st, pl[1], pl[2])
                o = getobj(v)
                if isinstance(o, Ref):
                    if t[2][0] == "ref" and t[2][1]:
                        return ("val", v, None)
                    return ("cell", o.cell, o.path)
                return ("val", v, None)
            v = self.ev(x["e"], st)
            if st.dead:
                return ("val", UNDEF, None)
            o = getobj(v)
            if isinstance(o, Ref):
                return ("cell", o.cell, o.path)
            if t[0] == "adt":      # Box
                pl = self.place(x["e"], st)
                return pl
            return ("val", self.x_deref(x, st) if v.op == "ite" else v, None)
        return ("val", self.ev(i, st), None)

    def x_borrow(self, x, st):
        if not x["mut"]:
            pl = self.place(x["e"], st)
            if st.dead:
                return UNDEF
            if pl[0] == "val":
                return pl[1]
            v = self.rd(st, pl[1], pl[2])
            return v
        pl = self.place(x["e"], st)
        if st.dead:
            return UNDEF
        if pl[0] == "val":
            o = getobj(pl[1])
            if isinstance(o, Ref):
                return pl[1]
            return mkref(self.cell(st, pl[1]), ())
        v = self.rd(st, pl[1], pl[2])
        return mkref(pl[1], pl[2])

    def x_rawborrow(self, x, st):
        return self.x_borrow(x, st)

    def x_coerce(self, x, st):
        return self.ev(x["e"], st)

    def x_cast(self, x, st):
        v = self.ev(x["e"], st)
        t, s = self.ty(x["ty"], self.frames[-1].tsub), self.ety(x["e"])
        if s == ("prim", "bool") and is_bool(v):
            return mkpoly(ind_d(v))
        if s[0] == "adt" and t[0] == "prim":
            import models
            return models.discr(self, v)
        ws, wt = WIDTH.get(s[1] if s[0] == "prim" else None), WIDTH.get(t[1] if t[0] == "prim" else None)
        if ws and wt and wt < ws:
            # a narrowing cast keeps the low bits
            if is_const(v):
                return const(wrap(const_val(v), t[1]))
            return raw("trunc", const(wt), v) if t[1][0] == "u" else raw("strunc", const(wt), v)
        return v

    def x_bin(self, x, st):
        l = self.ev(x["l"], st)
        r = self.ev(x["r"], st)
        if st.dead:
            return UNDEF
        return self.binop(x["op"], l, r, self.ety(x["l"]), st, x["sp"])

    def binop(self, op, l, r, t, st, sp):
        l, r = self.deref_all(st, l), self.deref_all(st, r)
        if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
            numeric = self.is_num_ty(t)
            if op == "Eq":
                return eqt(l, r, numeric)
            if op == "Ne":
                return not_(eqt(l, r, numeric))
            if op == "Lt":
                return lt(l, r)
            if op == "Gt":
                return lt(r, l)
            if op == "Le":
                return not_(lt(r, l))
            return not_(lt(l, r))
        if op in ("Add", "Mul") and t[0] == "prim" and t[1] in ("u8", "u16", "i8", "i16"):
            v = add(l, r) if op == "Add" else mul(l, r)
            # counters of this width overflow on inputs of ordinary size
            self.oblige("overflow", lt(const((1 << int(t[1][1:]) - (t[1][0] == "i")) - 1), v), st, sp, (l, r))
            return v
        if op == "Add":
            return add(l, r)
        if op == "Sub":
            d = sub(l, r)
            if t[0] == "prim" and t[1][0] == "u":
                self.oblige("underflow", lt(l, r), st, sp, (l, r))
            return d
        if op == "Mul":
            return mul(l, r)
        if op == "Div":
            if t[0] == "prim":
                self.oblige("divzero", eq0(r), st, sp, (r,))
                return idiv(l, r)
            return mul(l, inv(r))
        if op == "Rem":
            self.oblige("divzero", eq0(r), st, sp, (r,))
            return mod(l, r)
        if op == "BitAnd":
            if t == ("prim", "bool"):
                return and_(l, r)
        if op == "BitOr":
            if t == ("prim", "bool"):
                return or_(l, r)
        if op == "BitXor" and t == ("prim", "bool"):
            return not_(eq(l, r))
        if op in ("BitAnd", "BitOr", "BitXor") and t[0] == "prim" and is_const(l) and is_const(r):
            a, b = const_val(l), const_val(r)
            return const(a & b if op == "BitAnd" else a | b if op == "BitOr" else a ^ b)
        if op == "Shl" and t[0] == "prim" and is_const(l) and is_const(r) and t[1] in WIDTH:
            return const(wrap(const_val(l) << const_val(r), t[1]))
        if op == "Shl" and t[0] == "prim":
            return mul(l, power(const(2), r))
        if op == "Shr" and t[0] == "prim":
            return idiv(l, power(const(2), r))
        return raw("bin" + op, l, r)

    def x_un(self, x, st):
        v = self.ev(x["e"], st)
        if st.dead:
            return UNDEF
        if x["op"] == "Not":
            return not_(v) if is_bool(v) or self.ety(x["e"]) == ("prim", "bool") else raw("bitnot", v)
        return neg(v)

    def x_logic(self, x, st):
        # value position
        l = self.ev(x["l"], st)
        if st.dead:
            return UNDEF
        isand = x["op"] == "And"
        c = l if isand else not_(l)
        a = st.fork(c)
        if c is FALSE:
            return l
        r = self.ev(x["r"], a)
        b = st.fork(not_(c))
        self.join(st, c, a, b)
        if a.dead:
            return l
        return and_(l, r) if isand else or_(l, r)

    def x_assign(self, x, st):
        v = self.ev(x["r"], st)
        if st.dead:
            return UNDEF
        pl = self.place(x["l"], st)
        if pl[0] == "cell":
            self.wr(st, pl[1], pl[2], v)
        return UNIT

    def x_assignop(self, x, st):
        r = self.ev(x["r"], st)
        pl = self.place(x["l"], st)
        if st.dead:
            return UNDEF
        if pl[0] == "cell":
            l = self.rd(st, pl[1], pl[2])
            op = x["op"].replace("Assign", "")
            self.wr(st, pl[1], pl[2], self.binop(op, l, r, self.ety(x["l"]), st, x["sp"]))
        return UNIT

    def x_block(self, x, st):
        f = self.frames[-1]
        b = f.body["blocks"][x["b"]]
        label = f.label if b.get("brk") else None
        if b.get("brk"):
            start = len(f.exits)
            sub_ = st.fork()
            v = self.block(b, sub_)
            mine = [z for z in f.exits[start:] if z.kind == "break" and z.label == label]
            f.exits[start:] = [z for z in f.exits[start:] if not (z.kind == "break" and z.label == label)]
            if not sub_.dead:
                mine.append(Exit("break", label, sub_.pc, sub_.store, v))
            return self.merge_exits(mine, st)
        return self.block(b, st)

    def block(self, b, st):
        f = self.frames[-1]
        for s in b["stmts"]:
            if st.dead:
                return UNDEF
            d = f.body["stmts"][s]
            if d["k"] == "expr":
                self.ev(d["e"], st)
            else:
                self.let_stmt(d, st)
        if st.dead:
            return UNDEF
        if b["expr"] is None:
            return UNIT
        return self.ev(b["expr"], st)

    def let_stmt(self, d, st):
        if d.get("init") is None:
            self.bind_undef(d["pat"], st)
            return
        k = d["pat"]["k"]
        if k == "bind" and not d["pat"].get("byref") and not d["pat"].get("sub"):
            v = self.ev(d["init"], st)
            if st.dead:
                return
            self.bindvar(d["pat"]["var"], v, st)
            return
        pl = self.place(d["init"], st)
        if st.dead:
            return
        c, bs = self.pat(d["pat"], pl, st)
        els = d.get("else")
        if els is not None:
            a = st.fork(c)
            b = st.fork(not_(c))
            if not_(c) is not FALSE:
                self.ev_block_idx(els, b)
            else:
                b.dead = True
            self.dobind(bs, a)
            self.join(st, c, a, b)
            return
        self.dobind(bs, st)

    def ev_block_idx(self, bi, st):
        return self.block(self.frames[-1].body["blocks"][bi], st)

    def bind_undef(self, p, st):
        if p["k"] == "bind":
            self.bindvar(p["var"], UNDEF, st)

    def bindvar(self, var, v, st):
        c = self.cell(st, v)
        self.frames[-1].env[var] = c

    def dobind(self, bs, st):
        for var, v in bs:
            self.bindvar(var, v, st)

    # patterns: place -> (cond, binds)
    def pval(self, pl, st):
        return pl[1] if pl[0] == "val" else self.rd(st, pl[1], pl[2])

    def psub(self, pl, step, st):
        if pl[0] == "val":
            return ("val", self.rdpath(st, pl[1], (step,)), None)
        v = self.rd(st, pl[1], pl[2])
        o = getobj(v)
        if isinstance(o, Ref):
            return ("cell", o.cell, o.path + (step,))
        return ("cell", pl[1], pl[2] + (step,))

    def pat(self, p, pl, st):
        k = p["k"]
        if k == "wild":
            return TRUE, []
        if k == "bind":
            c, bs = TRUE, []
            if p.get("sub"):
                c, bs = self.pat(p["sub"], pl, st)
            br = p.get("byref")
            if br in ("mut", True, "Mut"):
                if pl[0] == "cell":
                    v = mkref(pl[1], pl[2])
                else:
                    v = mkref(self.cell(st, pl[1]), ())
            else:
                v = self.pval(pl, st)
            return c, bs + [(p["var"], v)]
        if k == "deref":
            v = self.pval(pl, st)
            o = getobj(v)
            if isinstance(o, Ref):
                return self.pat(p["sub"], ("cell", o.cell, o.path), st)
            return self.pat(p["sub"], pl, st)
        if k == "derefpat":
            return self.pat(p["sub"], pl, st)
        if k == "leaf":
            cs, bs = [], []
            for f, q in p["subs"]:
                c, b = self.pat(q, self.psub(pl, ("f", f, "", ""), st), st)
                cs.append(c)
                bs += b
            return and_(*cs), bs
        if k == "variant":
            v = self.deref_all(st, self.pval(pl, st))
            n = short(p["adt"])
            c0 = isv(v, n, p["variant"])
            cs, bs = [c0], []
            if c0 is not FALSE:
                for f, q in p["subs"]:
                    c, b = self.pat(q, self.psub(pl, ("f", f, n, p["variant"]), st), st)
                    cs.append(c)
                    bs += b
            return and_(*cs), bs
        if k == "const":
            v = self.deref_all(st, self.pval(pl, st))
            w = p["val"]
            if isinstance(w, bool):
                return (v if w else not_(v)), []
            n = w if isinstance(w, int) else patint(str(w))
            if n is not None:
                return eq0(sub(v, const(n))), []
            if w in ("true", "false"):
                return (v if w == "true" else not_(v)), []
            w = str(w)
            if len(w) > 1 and w[0] == '"' == w[-1]:
                w = w[1:-1]
            return eq(v, raw("str", w)), []
        if k == "or":
            alts = [self.pat(q, pl, st) for q in p["pats"]]
            c = or_(*[a[0] for a in alts])
            bs = []
            names = {}
            for cc, b in reversed(alts):
                for var, v in b:
                    nm = var.split("#")[0]
                    names[nm] = (var, v if nm not in names else ite(cc, v, names[nm][1]))
            # all alternatives bind the same hir ids in THIR
            for cc, b in alts:
                for var, v in b:
                    bs.append((var, names[var.split("#")[0]][1]))
            return c, bs
        if k == "slice":
            v = self.deref_all(st, self.pval(pl, st))
            pre, mid, suf = p["prefix"], p["mid"], p["suffix"]
            n = slen(v)
            cs, bs = [], []
            tot = const(len(pre) + len(suf))
            cs.append(eq0(sub(n, tot)) if mid is None else not_(lt(n, tot)))
            for j, q in enumerate(pre):
                c, b = self.pat(q, self.psub(pl, ("i", const(j)), st), st)
                cs.append(c)
                bs += b
            for j, q in enumerate(suf):
                c, b = self.pat(q, self.psub(pl, ("i", sub(n, const(len(suf) - j))), st), st)
                cs.append(c)
                bs += b
            if mid is not None:
                c, b = self.pat(mid, self.psub(pl, ("sl", const(len(pre)), sub(n, const(len(suf)))), st), st)
                cs.append(c)
                bs += b
            return and_(*cs), bs
        if k == "range":
            v = self.deref_all(st, self.pval(pl, st))
            m = re.match(r"^(\S*?)\.\.(=?)(\S*)$", str(p["val"]))
            if m:
                lo, hi = patint(m.group(1)), patint(m.group(3))
                if (lo is not None or not m.group(1)) and (hi is not None or not m.group(3)):
                    cs = []
                    if lo is not None:
                        cs.append(not_(lt(v, const(lo))))
                    if hi is not None:
                        cs.append(lt(v, const(hi + (1 if m.group(2) else 0))))
                    return and_(*cs), []
            return raw("bool", raw("str", str(p["val"]))), []
        raise Analysis("pattern " + k)

    # conditions with let-chains
    def cond(self, i, st):
        """returns (cond, binds, pending states) evaluating in st"""
        x = self.e(i)
        if x["k"] in ("scope", "use"):
            return self.cond(x["e"], st)
        if x["k"] == "let":
            pl = self.place(x["e"], st)
            if st.dead:
                return FALSE, []
            return self.pat(x["pat"], pl, st)
        if x["k"] == "logic" and x["op"] == "And" and self.haslet(i):
            c1, b1 = self.cond(x["l"], st)
            if st.dead or c1 is FALSE:
                return c1, b1
            a = st.fork(c1)
            self.dobind(b1, a)
            c2, b2 = self.cond(x["r"], a)
            b = st.fork(not_(c1))
            self.join(st, c1, a, b)
            return and_(c1, c2), b1 + b2
        v = self.ev(i, st)
        return v, []

    def haslet(self, i):
        x = self.e(i)
        if x["k"] in ("scope", "use"):
            return self.haslet(x["e"])
        if x["k"] == "let":
            return True
        return x["k"] == "logic" and (self.haslet(x["l"]) or self.haslet(x["r"]))

    def x_let(self, x, st):
        pl = self.place(x["e"], st)
        c, bs = self.pat(x["pat"], pl, st)
        self.dobind(bs, st)
        return c

    def x_if(self, x, st):
        c, bs = self.cond(x["c"], st)
        if st.dead:
            return UNDEF
        if c is TRUE:
            self.dobind(bs, st)
            return self.ev(x["t"], st)
        if c is FALSE:
            return self.ev(x["f"], st) if x["f"] is not None else UNIT
        a, b = st.fork(c), st.fork(not_(c))
        # narrowing by the path condition
        if a.pc is FALSE:
            a.dead = True
        if b.pc is FALSE:
            b.dead = True
        self.dobind(bs, a)
        va = self.ev(x["t"], a)
        vb = self.ev(x["f"], b) if x["f"] is not None else UNIT
        r = self.pick(c, a, va, b, vb)
        self.join(st, c, a, b)
        return r

    def pick(self, c, a, va, b, vb):
        if a.dead:
            return vb
        if b.dead:
            return va
        return ite(c, va, vb)

    def x_match(self, x, st):
        f = self.frames[-1]
        arms = [f.body["arms"][j] for j in x["arms"]]
        src = x.get("src", "")
        if src == "ForLoopDesugar" and len(arms) == 1:
            return self.for_loop(x, arms[0], st)
        pl = self.place(x["e"], st)
        if st.dead:
            return UNDEF
        if pl[0] == "val":
            o = getobj(pl[1])
            if isinstance(o, Ref):
                pass
        return self.arms(arms, 0, pl, st)

    def arms(self, arms, j, pl, st):
        if j >= len(arms):
            st.dead = True
            return UNDEF
        arm = arms[j]
        c, bs = self.pat(arm["pat"], pl, st)
        if c is FALSE:
            return self.arms(arms, j + 1, pl, st)
        if arm.get("guard") is None and j == len(arms) - 1:
            c = TRUE
        if c is TRUE and arm.get("guard") is None:
            self.dobind(bs, st)
            return self.ev(arm["body"], st)
        a = st.fork(c)
        self.dobind(bs, a)
        g = c
        if arm.get("guard") is not None:
            gc, gbs = self.cond(arm["guard"], a)
            self.dobind(gbs, a)
            g = and_(c, gc)
            a = St(a.store, and_(a.pc, gc), a.dead)
        b = st.fork(not_(g))
        if a.pc is FALSE:
            a.dead = True
        if b.pc is FALSE:
            b.dead = True
        va = self.ev(arm["body"], a)
        vb = self.arms(arms, j + 1, pl, b) if not b.dead else UNDEF
        r = self.pick(g, a, va, b, vb)
        self.join(st, g, a, b)
        return r

    # ------------------------------------------------------- exits
    def x_return(self, x, st):
        v = self.ev(x["e"], st) if x["e"] is not None else UNIT
        if not st.dead:
            self.leave("return", None, st.pc, st.store, v)
            st.dead = True
        return UNDEF

    def x_break(self, x, st):
        v = self.ev(x["e"], st) if x["e"] is not None else UNIT
        if not st.dead:
            self.leave("break", x["label"], st.pc, st.store, v)
            st.dead = True
        return UNDEF

    def x_continue(self, x, st):
        self.leave("continue", x["label"], st.pc, st.store, UNIT)
        st.dead = True
        return UNDEF

    def panic(self, st, sp, args=()):
        if st.dead:
            return
        self.oblige("panic", TRUE, st, sp, args)
        st.dead = True

    def leave(self, kind, label, cond, store, val):
        """record an exit; its state is frozen, the stores it chains through are written to afterwards"""
        f = self.frames[-1]
        if not (kind == "return" and val.op == "struct" and val.a[1] == "Err"):
            store = self.freeze(store, f.base)
        f.exits.append(Exit(kind, label, cond, store, val))

    def freeze(self, store, stop):
        chain = []
        s = store
        end = stop.p if stop is not None else None
        while s is not None and s is not end:
            chain.append(s)
            s = s.p
        for q in reversed(chain):
            n = Store(s)
            n.d = dict(q.d)
            n.o = q.o or q
            s = n
        return s

    def flatten(self, store, base):
        """cells written between base (exclusive) and store"""
        out = {}
        s = store
        chain = []
        while s is not None and s is not base and s.o is not base:
            chain.append(s)
            s = s.p
        if s is None and base is not None:
            raise Analysis("store chain")
        for s in reversed(chain):
            out.update(s.d)
        return out

    def merge_exits(self, exits, st):
        """merge a list of exits (conditions relative to frame entry, disjoint) into st; returns value"""
        base = st.store
        live = exits
        if not live:
            st.dead = True
            return UNDEF
        ws = [self.flatten(z.store, base) for z in live]
        val = live[-1].val
        d = dict(ws[-1])
        pc = live[-1].cond
        for z, w in list(zip(live, ws))[-2::-1]:
            c = z.cond
            # an exit that returns Err drops its store (callers abandon the state with it)
            iserr = z.kind == "return" and z.val.op == "struct" and z.val.a[1] == "Err"
            lasterr = False
            if not iserr:
                keys = set(w) | set(d)
                for k in keys:
                    a = w.get(k)
                    b = d.get(k)
                    if a is None:
                        a = base.get(k)
                    if b is None:
                        b = base.get(k)
                    if a is b or a is UNDEF:
                        d[k] = b
                    elif b is UNDEF:
                        d[k] = a
                    else:
                        d[k] = ite(c, a, b)
            val = self.ite_c(c, z.val, val)
            pc = or_(pc, c)
        for k, v in d.items():
            base.set(k, v)
        st.pc = pc
        return val

    def ite_c(self, c, a, b):
        if b is UNDEF:
            return a
        return ite(c, a, b)

    # ------------------------------------------------------- aggregates
    def x_array(self, x, st):
        return lst(*[self.ev(y, st) for y in x["es"]])

    def x_tuple(self, x, st):
        vs = [self.ev(y, st) for y in x["es"]]
        if not vs:
            return UNIT
        return tup(*vs)

    def x_repeat(self, x, st):
        v = self.ev(x["e"], st)
        n = x.get("n")
        try:
            return lst(*([v] * int(n)))
        except (TypeError, ValueError):
            return seqlam(raw("const", str(n)), lamk(v))

    def x_adt(self, x, st):
        fs = [(f, self.ev(y, st)) for f, y in x["fs"]]
        if st.dead:
            return UNDEF
        n = short(x["adt"])
        if x.get("base") is not None:
            b = self.ev(x["base"], st)
            have = dict(fs)
            a = self.adts.get(x["adt"])
            names = [q[0] for q in a["variants"][0][1]] if a else list(have)
            fs = [(q, have[q] if q in have else proj(b, q)) for q in names]
        else:
            a = self.adts.get(x["adt"])
            if a and not a["enum"]:
                order = [q[0] for q in a["variants"][0][1]]
                have = dict(fs)
                fs = [(q, have[q]) for q in order if q in have]
        return struct(n, x["variant"] if x["isenum"] else "", fs)

    def x_closure(self, x, st):
        f = self.frames[-1]
        return mkobj(Closure(x["key"], dict(f.env), f.tsub, f))

    # ------------------------------------------------------- calls
    def x_call(self, x, st):
        fty = x.get("fty")
        if fty and fty[0] == "fndef":
            fn = fty[1]
            args = []
            for a in x["args"]:
                args.append(self.ev(a, st))
                if st.dead:
                    return UNDEF
            return self.call(fn, args, st, x, self.frames[-1].tsub)
        f = self.ev(x["fun"], st)
        args = [self.ev(a, st) for a in x["args"]]
        if st.dead:
            return UNDEF
        return self.apply(f, args, st, x["sp"])

    def argty(self, x, j):
        try:
            return self.ety(x["args"][j])
        except Exception:
            return ("unknown",)

    def apply(self, f, args, st, sp=""):
        """apply a function value"""
        if st.dead:
            return UNDEF
        f = self.deref_all(st, f)
        o = getobj(f)
        if isinstance(o, Builtin):
            return o.f(self, st, args)
        if isinstance(o, Closure):
            b = self.bodies.get(o.key)
            if b is None:
                raise Analysis("closure body " + o.key)
            return self.run_body(b, args, st, o.tsub, sp, env=o.env)
        if isinstance(o, FnItem):
            return self.call(o.fn, args, st, {"sp": sp, "args": [], "ty": None, "_item": True}, o.tsub)
        if f.op == "ite":
            a, b = st.fork(f.a[0]), st.fork(not_(f.a[0]))
            va, vb = self.apply(f.a[1], args, a, sp), self.apply(f.a[2], args, b, sp)
            r = self.pick(f.a[0], a, va, b, vb)
            self.join(st, f.a[0], a, b)
            return r
        return raw("apply", f, tuple(self.deref_all(st, y) for y in args))

    def tsub_of(self, fn, ts, args_key="args"):
        names = fn.get("gnames") or []
        args = fn.get(args_key) or []
        return names, [self.ty(a, ts) if isinstance(a, int) else ("unknown",) for a in args]

    def resolve(self, fn, ts):
        """fndef -> (body, tsub) or None"""
        if fn.get("ctor"):
            return None
        if fn.get("resolved_local") or (fn.get("resolved") in self.bodies):
            b = self.bodies.get(fn["resolved"])
            if b is not None:
                ra = [self.ty(a, ts) for a in (fn.get("resolved_args") or []) if isinstance(a, int)]
                return b, dict(zip(b.get("gnames") or [], ra))
        if not fn.get("trait"):
            b = self.bodies.get(fn["key"])
            if b is not None:
                n, a = self.tsub_of(fn, ts)
                return b, dict(zip(b.get("gnames") or n, a))
            return None
        if not fn.get("args"):
            return None
        selfty = self.ty(fn["args"][0], ts)
        return self.resolve_trait(fn, selfty, ts)

    def resolve_trait(self, fn, selfty, ts):
        t = self.strip(selfty)
        name = fn["path"].split("::")[-1]
        tk = fn.get("trait")
        if t[0] in ("adt",):
            for im in self.impls:
                if not im.get("trait") or norm(im["trait"]) != norm(tk):
                    continue
                u = self.types[im["self"]]
                if u[0] == "adt" and u[1] == t[1]:
                    if len(im.get("trait_args") or []) > 1 and fn.get("args") and len(fn["args"]) > 1:
                        w = self.types[im["trait_args"][1]]
                        g = self.ty(fn["args"][1], ts)
                        if w[0] == "adt" and not (g[0] == "adt" and g[1] == w[1]):
                            continue
                        if w[0] != "adt" and g[0] == "adt":
                            continue
                    for nm, k, _ in im["items"]:
                        if nm == name and k in self.bodies:
                            b = self.bodies[k]
                            ps = [self.types[q] for q in u[2]]
                            sub_ = {q[1]: v for q, v in zip(ps, t[2:]) if q[0] == "param"}
                            return b, sub_
                    # default method
                    b = self.default_method(tk, fn, name)
                    if b is not None:
                        return b, {"Self": t}
        return None

    def default_method(self, tk, fn, name):
        tr = self.traits.get(fn.get("trait_key"))
        if tr:
            for it in tr["items"]:
                if it[0] == name and it[1] in self.bodies:
                    return self.bodies[it[1]]
        return None

    def call(self, fn, args, st, x, ts):
        self.callcount += 1
        if st.dead:
            return UNDEF
        path = fn["path"]
        sp = x["sp"]
        if fn.get("ctor"):
            return self.ctor(fn, args)
        l2 = last2(path)
        if l2 in ("Fn::call", "FnMut::call_mut", "FnOnce::call_once"):
            fargs = self.deref_all(st, args[1])
            if fargs.op == "struct":
                al = [v for _, v in fargs.a[2]]
            else:
                al = [fargs]
            return self.apply(args[0], al, st, sp)
        np_ = norm(path)
        if self.is_leaf(np_, fn):
            return self.leafcall(fn, np_, args, st, x, ts)
        res = self.resolve(fn, ts)
        if res is not None:
            b, tsub = res
            im = self.implkey.get(b["key"])
            if im is not None and im.get("derived"):
                m = self.models.get(l2)
                if m is not None:
                    return m(self, st, args, x, fn, ts)
            if any(f.body["key"] == b["key"] for f in self.frames) and \
                    sum(1 for f in self.frames if f.body["key"] == b["key"]) >= self.maxrec(b):
                return self.leafcall(fn, norm(b["path"]), args, st, x, ts)
            if len(self.frames) > 60:
                raise Analysis("call depth")
            return self.run_body(b, args, st, tsub, sp)
        # dispatch on the value for trait methods on opaque selves
        if fn.get("trait") and args:
            r = self.dyn_dispatch(fn, args, st, x, ts)
            if r is not None:
                return r
        m = self.models.get(l2) or self.models.get("*::" + l2.split("::")[-1])
        if m is not None:
            r = m(self, st, args, x, fn, ts)
            if r is not NotImplemented:
                return r
        self.unmodelled[np_] = self.unmodelled.get(np_, 0) + 1
        return self.leafcall(fn, np_, args, st, x, ts)

    def maxrec(self, b):
        return 1

    def dyn_dispatch(self, fn, args, st, x, ts):
        """trait method on a value whose concrete type is known from its construction"""
        if not fn.get("trait_key", "").startswith("zero_over_k"):
            return None
        v = self.deref_all(st, args[0])
        if v.op == "ite" and v.a[1].op == "struct" and v.a[2].op == "struct":
            pass
        if v.op == "struct" and v.a[0] != "()":
            for p in self.adts:
                if short(p) == v.a[0]:
                    r = self.resolve_trait(fn, ("adt", p), ts)
                    if r is not None:
                        return self.run_body(r[0], args, st, r[1], x["sp"])
        # default trait method on opaque self
        b = self.default_method(fn["trait"], fn, fn["path"].split("::")[-1])
        if b is not None:
            selfty = self.ty(fn["args"][0], ts) if fn.get("args") else ("unknown",)
            return self.run_body(b, args, st, {"Self": selfty}, x["sp"])
        return None

    def is_leaf(self, p, fn):
        return p in self.leaves or "::".join(p.split("::")[-2:]) in self.leaves

    def leafcall(self, fn, name, args, st, x, ts):
        """uninterpreted function; &mut arguments are advanced"""
        sh = "::".join(name.split("::")[-2:])
        h = self.M.LEAF.get(sh)
        if h is not None:
            r = h(self, st, args, x, fn, ts)
            if r is not NotImplemented:
                return r
        vals = []
        for a in args:
            vals.append(self.canon(a, st))
        self.event("call:" + sh, st, x["sp"], *vals)
        gargs = tuple(raw("str", repr(self.ty(q, ts))) for q in (fn.get("args") or [])[:1] if isinstance(q, int)
                      and self.ty(q, ts)[0] not in ("param", "ref", "dyn")) if not args else ()
        r = raw("call", sh, tuple(vals) + gargs)
        for j, a in enumerate(args):
            o = getobj(a)
            if isinstance(o, Ref):
                self.wr(st, o.cell, o.path, raw("callmut", sh, j, tuple(vals)))
        return r

    def canon(self, v, st):
        """canonical immutable form of an argument value (closures become lambdas)"""
        v = self.deref_all(st, v)
        o = getobj(v)
        if o is None:
            return v
        if isinstance(o, (Closure, FnItem, Builtin)):
            return self.fn_lambda(v, st)
        if isinstance(o, self.M.It):
            return self.M.collect_seq(self, st.fork(), o)
        return v

    def nparams(self, f):
        o = getobj(f)
        if isinstance(o, Closure):
            b = self.bodies[o.key]
            return len(b["params"]) - (1 if b["params"] and b["params"][0].get("pat") is None else 0)
        if isinstance(o, FnItem):
            r = self.resolve(o.fn, o.tsub)
            return len(r[0]["params"]) if r else 1
        return 1

    def fn_lambda(self, f, st, names=None):
        n = self.nparams(f)
        ss = [fresh("q") for _ in range(n)]
        sub_ = st.fork()
        ob, evn = len(self.obl), len(self.events)
        body = self.apply(f, ss, sub_)
        del self.obl[ob:]
        del self.events[evn:]
        for s in reversed(ss):
            body = lam(s, body)
        return body

    def ctor(self, fn, args):
        of = fn.get("ctor_of")
        p = norm(fn["path"]).split("::")
        if of == "variant" or (isinstance(of, str) and of.lower().startswith("v")) or fn.get("ctor") == "variant":
            return struct(p[-2], p[-1], [(str(i), a) for i, a in enumerate(args)])
        return struct(p[-1], "", [(str(i), a) for i, a in enumerate(args)])

    def run_body(self, b, args, st, tsub, sp="", env=None):
        if st.dead:
            return UNDEF
        if self.contracts and self.frames:
            c = self.contracts.get(last2(b.get("path", "")))
            if c is not None:
                r = c(self, st, args)
                if r is not NotImplemented:
                    self.used_contracts.add(last2(b["path"]))
                    return r
        self.analysed.add(b["key"])
        fr = Frame(b, dict(env) if env else {}, tsub, None)
        sub_ = St(st.store.fork(), TRUE)
        fr.base = sub_.store
        params = b["params"]
        if env is not None and len(params) == len(args) + 1:
            params = params[1:]
        elif env is not None and params and params[0].get("pat") is None:
            params = params[1:]
        self.frames.append(fr)
        self.gpc.append(and_(self.gpc[-1], st.pc))
        try:
            for p, a in zip(params, args):
                if p.get("pat") is None:
                    continue
                if p["pat"]["k"] == "bind" and not p["pat"].get("sub"):
                    self.bindvar(p["pat"]["var"], a, sub_)
                else:
                    c, bs = self.pat(p["pat"], ("val", a, None), sub_)
                    self.dobind(bs, sub_)
            v = self.ev(b["root"], sub_)
            exits = [z for z in fr.exits if z.kind == "return"]
            if not sub_.dead:
                exits.append(Exit("end", None, sub_.pc, sub_.store, v))
        finally:
            self.frames.pop()
            self.gpc.pop()
        inner = St(Store(st.store), TRUE)
        # merge relative to st.store
        base = St(st.store, TRUE)
        if len(exits) == 1 and exits[0].kind == "end" and exits[0].store is fr.base:
            for k, w in fr.base.d.items():
                st.store.set(k, w)
            st.pc = and_(st.pc, exits[0].cond)
            return exits[0].val
        for z in exits:
            pass
        r = self.merge_exits(exits, base)
        if base.dead:
            st.dead = True
            return UNDEF
        st.pc = and_(st.pc, base.pc)
        return r

    # ------------------------------------------------------- loops
    def for_loop(self, x, arm, st):
        """match into_iter(e) { mut iter => loop { match next(&mut iter) {None=>break, Some(p)=>body} } }"""
        it = self.ev(x["e"], st)
        if st.dead:
            return UNDEF
        f = self.frames[-1]
        # find the inner loop
        li = arm["body"]
        label = None
        while self.e(li)["k"] in ("scope", "use"):
            if "id" in self.e(li):
                label = self.e(li)["id"]
            li = self.e(li)["e"]
        lp = self.e(li)
        if lp["k"] != "loop":
            raise Analysis("for desugar at %s" % x["sp"])
        mi = self.find_next_match(lp["e"])
        m = self.e(mi)
        arms = [f.body["arms"][j] for j in m["arms"]]
        some_arm = next(a for a in arms if a["pat"]["k"] == "variant" and a["pat"]["variant"] == "Some")
        pat = some_arm["pat"]["subs"][0][1]
        body = some_arm["body"]

        def step(item, s):
            c, bs = self.pat(pat, ("val", item, None), s)
            self.dobind(bs, s)
            self.ev(body, s)

        io = self.M.to_iter(self, st, it)
        self.consume(io, step, st, label, x["sp"])
        return UNIT

    def find_next_match(self, i):
        x = self.e(i)
        while True:
            if x["k"] in ("scope", "use"):
                i = x["e"]
            elif x["k"] == "block":
                b = self.frames[-1].body["blocks"][x["b"]]
                if b["expr"] is not None:
                    i = b["expr"]
                else:
                    i = self.frames[-1].body["stmts"][b["stmts"][0]]["e"]
            elif x["k"] == "match":
                return i
            else:
                raise Analysis("for desugar")
            x = self.e(i)

    def consume(self, it, step, st, label, sp):
        """run step(item, state) for every item of iterator it"""
        for seg in it.segments(self, st):
            if st.dead:
                return
            n, gen = seg

            def body(k, s, gen=gen):
                gen(self, s, k, lambda item, s2: step(item, s2))
            self.loop(n, body, st, label, sp)

    def run_iter(self, body, k, st, label):
        """one iteration in a fork; merges `continue`s; returns (state, break exits, other exits)"""
        f = self.frames[-1]
        start = len(f.exits)
        s = st
        base = s.store
        inner = St(s.store.fork(), s.pc)
        body(k, inner)
        ex = f.exits[start:]
        del f.exits[start:]
        cont = [z for z in ex if z.kind == "continue" and (z.label == label or label is None)]
        brk = [z for z in ex if z.kind == "break" and (z.label == label or label is None)]
        oth = [z for z in ex if z not in cont and z not in brk]
        if cont:
            if not inner.dead:
                cont.append(Exit("end", None, inner.pc, inner.store, UNIT))
            merged = St(base, TRUE)
            for z in cont:
                pass
            self.merge_exits(cont, merged)
            return merged, brk, oth
        if inner.dead:
            return St(base, FALSE, True), brk, oth
        for k2, v in inner.store.d.items():
            base.set(k2, v)
        return St(base, inner.pc), brk, oth

    def loop(self, n, body, st, label, sp):
        if st.dead or n is ZERO:
            return
        if is_const(n) and const_val(n) <= UNROLL:
            return self.unrolled(const_val(n), body, st, label)
        f = self.frames[-1]
        ob0, ev0 = len(self.obl), len(self.events)
        W = {}
        c0 = self.ncell
        for attempt in range(6):
            del self.obl[ob0:]
            del self.events[ev0:]
            k = fresh("i")
            s = St(st.store.fork(), TRUE)
            H = {}
            for c in W:
                H[c] = self.havoc(st.store.get(c), W[c])
                s.store.set(c, H[c])
            self.gpc.append(and_(self.gpc[-1], st.pc))
            self.loopctx.append((k, n))
            try:
                after, brk, oth = self.run_iter(body, k, s, label)
            finally:
                self.loopctx.pop()
                self.gpc.pop()
            new = set()
            stores = [] if after.dead else [after.store]
            stores += [z.store for z in brk + oth]
            vals = {}
            for so in stores:
                for c, v in self.flatten(so, st.store).items():
                    if c <= c0 and st.store.has(c):
                        ref = H.get(c, st.store.get(c))
                        if v is not ref:
                            vals.setdefault(c, []).append(v)
            for c, vs in vals.items():
                if c not in W:
                    new.add(c)
            if not new:
                break
            for c in new:
                W[c] = vals[c]
        else:
            raise Analysis("loop at %s does not stabilise" % sp)
        k_s = k
        # ---- solve recurrences
        outs = {c: (after.store.get(c) if not after.dead else H[c]) for c in W}
        hs = {}
        flat_out = {}
        flat_in = {}
        for c in W:
            self.flat_pair(c, H[c], outs[c], st.store.get(c), hs, flat_out, flat_in)
        closed, final = solve(k_s, n, hs, flat_out, flat_in)
        # condition for an iteration to complete normally
        def atk(t):
            return subst(t, closed) if closed else t
        # ---- exits
        conds = []
        for z in oth + brk:
            conds.append(atk(z.cond))
        anyexit = or_(*conds) if conds else FALSE
        # obligations / events inside the body
        prior = TRUE
        if conds and anyexit is not FALSE:
            j = fresh("j")
            prior = not_(exists(k_s, lam(j, subst(anyexit, {k_s: j}))))
        for o in self.obl[ob0:]:
            o.cond, o.gpc = atk(o.cond), and_(prior, atk(o.gpc))
            o.args = tuple(atk(y) if isinstance(y, T) else y for y in o.args)
            o.ctx = [(k_s, n)] + o.ctx
        for o in self.events[ev0:]:
            o.gpc = atk(o.gpc)
            o.args = tuple(atk(y) if isinstance(y, T) else y for y in o.args)
            o.ctx = [(k_s, n)] + o.ctx
        # condition that every iteration neither exits nor panics
        done_pc = atk(after.pc) if not after.dead else FALSE
        noexit = not_(exists(n, lam(k_s, not_(done_pc)))) if done_pc is not TRUE else TRUE
        if conds:
            E = lam(k_s, anyexit)
            ex = exists(n, E)
            first = firstidx(n, E)
            for z in oth:
                c = exists(n, lam(k_s, atk(z.cond)))
                if len(oth) + len(brk) > 1:
                    c = and_(c, self.atfirst(E, first, k_s, atk(z.cond), oth + brk, z, atk))
                v = subst(atk(z.val), {k_s: first})
                so = Store(st.store)
                for cc in W:
                    vv = self.flatten(z.store, st.store).get(cc, H[cc])
                    so.set(cc, subst(atk(vv), {k_s: first}))
                self.leave(z.kind, z.label, and_(st.pc, c), so, v)
            if brk:
                # after the loop: either a break happened first or the loop ran to completion
                bst = []
                for z in brk:
                    c = exists(n, lam(k_s, atk(z.cond)))
                    if len(oth) + len(brk) > 1:
                        c = and_(c, self.atfirst(E, first, k_s, atk(z.cond), oth + brk, z, atk))
                    w = self.flatten(z.store, st.store)
                    vals = {cc: subst(atk(w.get(cc, H[cc])), {k_s: first}) for cc in W}
                    bst.append((c, vals))
                for cc in W:
                    v = self.unflat(cc, H[cc], final)
                    for c, vals in bst:
                        v = ite(c, vals[cc], v)
                    st.store.set(cc, v)
                st.pc = and_(st.pc, or_(noexit, *[c for c, _ in bst]))
                return
        for c in W:
            st.store.set(c, self.unflat(c, H[c], final))
        if after.dead and not brk:
            # body never completes: only zero iterations fall through
            st.pc = and_(st.pc, eq0(n))
            if st.pc is FALSE:
                st.dead = True
            return
        st.pc = and_(st.pc, noexit)
        if st.pc is FALSE:
            st.dead = True

    def atfirst(self, E, first, k, c, allz, z, atk):
        """z is the exit taken at the first exiting iteration"""
        return subst(c, {k: first})

    def unrolled(self, n, body, st, label):
        f = self.frames[-1]
        pend = []
        top, st = st, St(st.store.fork(), st.pc)
        for j in range(n):
            if st.dead:
                break
            s = St(st.store.fork(), st.pc)
            after, brk, oth = self.run_iter(body, const(j), s, label)
            f.exits.extend(oth)
            pend.extend(brk)
            if after.dead:
                st.dead = True
                break
            for c, v in after.store.d.items():
                st.store.set(c, v)
            st.pc = after.pc
        if pend:
            if not st.dead:
                pend.append(Exit("end", None, st.pc, st.store, UNIT))
            # break exits hold the state they were taken in, relative to the one before the loop
            self.merge_exits_at(pend, top)
            return
        for c, v in st.store.d.items():
            top.store.set(c, v)
        top.pc, top.dead = st.pc, st.dead

    def merge_exits_at(self, exits, st):
        base = st.store
        out = {}
        ws = []
        for z in exits:
            w = {}
            s = z.store
            chain = []
            while s is not None and s is not base and s.o is not base:
                chain.append(s)
                s = s.p
            for s in reversed(chain):
                w.update(s.d)
            ws.append(w)
        keys = set().union(*ws)
        pc = FALSE
        for kx in keys:
            v = None
            for z, w in list(zip(exits, ws))[::-1]:
                y = w.get(kx, base.get(kx))
                v = y if v is None or v is UNDEF else (v if y is UNDEF else ite(z.cond, y, v))
            out[kx] = v
        for z in exits:
            pc = or_(pc, z.cond)
        for kx, v in out.items():
            base.set(kx, v)
        st.pc = pc

    # generic while / loop
    def x_loop(self, x, st):
        f = self.frames[-1]
        label = f.label
        body_i = x["e"]
        r = self.while_loop(body_i, label, st, x["sp"])
        return r

    def while_loop(self, bi, label, st, sp):
        """loop { body }: recognise counting loops and iterator-driven loops"""
        f = self.frames[-1]
        # unwrap block{ if c {body} else {break} }
        def peel(i):
            x = self.e(i)
            while True:
                if x["k"] in ("scope", "use"):
                    i = x["e"]
                elif x["k"] == "block":
                    b = f.body["blocks"][x["b"]]
                    if not b["stmts"] and b["expr"] is not None:
                        i = b["expr"]
                    elif len(b["stmts"]) == 1 and b["expr"] is None and f.body["stmts"][b["stmts"][0]]["k"] == "expr":
                        i = f.body["stmts"][b["stmts"][0]]["e"]
                    else:
                        return i
                else:
                    return i
                x = self.e(i)
        i = peel(bi)
        x = self.e(i)
        if x["k"] == "if" and x["f"] is not None:
            c = self.e(self.peel_scope(x["c"]))
            if c["k"] == "let":
                it = self.iter_next_target(c["e"], st)
                if it is not None:
                    ref, subpat = it, c["pat"]["subs"][0][1] if c["pat"].get("subs") else None
                    o = getobj(self.rd(st, ref.cell, ref.path))
                    if isinstance(o, self.M.It):
                        def step(item, s):
                            cc, bs = self.pat(subpat, ("val", item, None), s)
                            self.dobind(bs, s)
                            self.ev(x["t"], s)
                        self.consume(o, step, st, label, sp)
                        if not st.dead:
                            self.wr(st, ref.cell, ref.path, mkobj(self.M.Empty()))
                        return UNIT
            return self.counting(lambda s: self.cond(x["c"], s), lambda s: self.ev(x["t"], s), label, st, sp)
        return self.counting(None, lambda s: self.ev(bi, s), label, st, sp)

    def peel_scope(self, i):
        while self.e(i)["k"] in ("scope", "use"):
            i = self.e(i)["e"]
        return i

    def iter_next_target(self, i, st):
        i = self.peel_scope(i)
        x = self.e(i)
        if x["k"] == "call" and x.get("fty") and last2(x["fty"][1]["path"]) == "Iterator::next":
            v = self.ev(x["args"][0], st.fork())
            o = getobj(v)
            if isinstance(o, Ref):
                return o
        return None

    def counting(self, cond, body, label, st, sp):
        """while cond {body}: find an induction variable giving the trip count"""
        # small concrete loops
        probe = St(st.store.fork(), st.pc)
        ob0, ev0 = len(self.obl), len(self.events)
        f = self.frames[-1]
        # try concrete unrolling first
        if cond is not None:
            s = probe
            seen = 0
            okc = True
            ex0 = len(f.exits)
            while seen <= 64:
                c, bs = cond(s)
                if c is FALSE:
                    break
                if c is not TRUE:
                    okc = False
                    break
                self.dobind(bs, s)
                s2 = St(s.store.fork(), s.pc)
                after, brk, oth = self.run_iter(lambda k, ss: body(ss), ZERO, s2, label)
                if brk or oth or after.dead:
                    okc = False
                    break
                for cc, v in after.store.d.items():
                    s.store.set(cc, v)
                s.pc = after.pc
                seen += 1
            if okc and seen <= 64:
                for cc, v in s.store.d.items():
                    st.store.set(cc, v)
                st.pc = s.pc
                return UNIT
            del self.obl[ob0:]
            del self.events[ev0:]
            del f.exits[ex0:]
        # symbolic: run the body once with havocked cells to discover the counter
        c0 = self.ncell
        W = {}
        for attempt in range(6):
            s = St(st.store.fork(), TRUE)
            H = {c: self.havoc(st.store.get(c), W[c]) for c in W}
            for c in W:
                s.store.set(c, H[c])
            if cond is not None:
                cc, bs = cond(s)
                self.dobind(bs, s)
                after, brk, oth = self.run_iter(lambda k, ss: body(ss), ZERO, St(s.store.fork(), TRUE), label)
            else:
                cc = None
                after, brk, oth = self.run_iter(lambda k, ss: body(ss), ZERO, St(s.store.fork(), TRUE), label)
            vals = {}
            stores = ([] if after.dead else [after.store]) + [z.store for z in brk + oth]
            for so in stores:
                for c, v in self.flatten(so, st.store).items():
                    if c <= c0 and st.store.has(c) and v is not H.get(c, st.store.get(c)):
                        vals.setdefault(c, []).append(v)
            new = [c for c in vals if c not in W]
            if not new:
                break
            for c in new:
                W[c] = vals[c]
        del self.obl[ob0:]
        del self.events[ev0:]
        if cc is None:
            # loop { if c {break}; ... }: continuation condition = no break
            if brk:
                cc = not_(or_(*[z.cond for z in brk]))
                # only supported when the break happens before any effect
                if any(self.flatten(z.store, st.store).get(c, H[c]) is not H[c] for z in brk for c in W):
                    return self.opaque_loop(W, st, sp)
            else:
                return self.opaque_loop(W, st, sp)
        trip = None
        for c in W:
            h, o, v0 = H[c], after.store.get(c), st.store.get(c)
            if h.op != "sym":
                continue
            d = sub(o, h) if is_num(o) or o.op == "poly" else None
            if d is None and o.op in ("list", "concat") or v0.op in ("seqlam", "list", "concat"):
                # a sequence growing by a fixed number of elements per iteration
                h, o, v0 = slen(h), slen(o), slen(v0)
                d = sub(o, h)
            if d is None or not is_const(d):
                continue
            trip = self.tripcount(cc, h, const_val(d), v0, [H[q] for q in W if q != c])
            if trip is not None:
                break
        if trip is None:
            return self.opaque_loop(W, st, sp)
        if cond is not None:
            def b2(k, s):
                cx, bs = cond(s)
                self.dobind(bs, s)
                body(s)
            self.loop(trip, b2, st, label, sp)
        else:
            ex = []

            def b3(k, s):
                # the break cannot fire before the trip count
                start = len(f.exits)
                body(s)
                f.exits[start:] = [z for z in f.exits[start:] if not (z.kind == "break" and z.label == label)]
                s.pc = TRUE
            self.loop(trip, b3, st, label, sp)
        return UNIT

    def tripcount(self, c, h, d, v0, others):
        """number of iterations while c(h) holds, h starting at v0 with step d"""
        neg_ = False
        if c.op == "not":
            neg_, c = True, c.a[0]
        if c.op == "pos":
            p = coeff_split(c.a[0], h)
            if p is None or not is_const(p[0]):
                return None
            a, b = const_val(p[0]), p[1]
            if any(o.op == "sym" and o.a[0] in b.fv for o in others):
                return None
            # pos: a*h+b > 0 ; not pos: a*h+b <= 0
            if not neg_ and a * d < 0 and abs(a * d) == 1:
                n = add(mul(const(a), v0), b)
                return max_(n, ZERO)
            if neg_ and a * d > 0 and abs(a * d) == 1:
                n = sub(ONE, add(mul(const(a), v0), b))
                return max_(n, ZERO)
            return None
        if c.op == "eq0" and neg_:
            p = coeff_split(c.a[0], h)
            if p is None or not is_const(p[0]) or abs(const_val(p[0]) * d) != 1:
                return None
            if any(o.op == "sym" and o.a[0] in p[1].fv for o in others):
                return None
            n = mul(const(-1 * const_val(p[0]) * d), add(mul(p[0], v0), p[1]))
            return n
        return None

    def opaque_loop(self, W, st, sp):
        self.oblige("opaque-loop", TRUE, st, sp)
        for c in W:
            st.store.set(c, raw("loopval", raw("str", self.frames[-1].body["path"]), len(self.obl), st.store.get(c)))
        return UNIT

    def havoc(self, v0, outs):
        if v0.op == "struct" and v0.a[2] and all(o.op == "struct" and o.a[:2] == v0.a[:2] for o in outs):
            return raw("struct", v0.a[0], v0.a[1],
                       tuple((f, x if all(proj(o, f) is x for o in outs) else self.havoc(x, [proj(o, f) for o in outs]))
                             for f, x in v0.a[2]))
        if v0.op == "list" and all(o.op == "list" and len(o.a[0]) == len(v0.a[0]) for o in outs) and v0.a[0]:
            return lst(*[x if all(o.a[0][j] is x for o in outs) else self.havoc(x, [o.a[0][j] for o in outs])
                         for j, x in enumerate(v0.a[0])])
        if is_num(v0) or any(is_num(o) for o in outs):
            allnat = is_natural(v0) and all(is_natural(o) for o in outs)
            return fresh("n" if allnat else "f")
        if is_bool(v0):
            return raw("bool", fresh("b"))
        return fresh("h")

    def flat_pair(self, c, h, o, v0, hs, fo, fi):
        if h.op == "struct" and o.op == "struct" and v0.op == "struct" and len(h.a[2]) == len(o.a[2]) == len(v0.a[2]):
            for (f, x), (_, y), (_, z) in zip(h.a[2], o.a[2], v0.a[2]):
                if x is z and y is z:
                    continue
                self.flat_pair((c, f), x, y, z, hs, fo, fi)
            return
        if h.op == "struct":
            if h is o:
                return
            # output is not structural (e.g. conditional): split by projection
            for (f, x) in h.a[2]:
                z = proj(v0, f)
                y = proj(o, f)
                if x is z and y is z:
                    continue
                self.flat_pair((c, f), x, y, z, hs, fo, fi)
            return
        if h.op == "list" and v0.op == "list":
            for j, x in enumerate(h.a[0]):
                z, y = v0.a[0][j], at(o, const(j))
                if x is z and y is z:
                    continue
                self.flat_pair((c, j), x, y, z, hs, fo, fi)
            return
        s = h.a[0] if h.op == "bool" else h
        if h.op == "obj":
            return
        hs[s] = h
        fo[s] = o
        fi[s] = v0

    def unflat(self, c, h, final):
        return subst(h, final) if final else h


def is_natural(t):
    return nonneg(t)


# ---------------------------------------------------------------- recurrences
def solve(k, n, hs, out, init):
    """h(k+1) = out(k, h(k)); returns ({h: value at k}, {h: value after n})"""
    closed, final = {}, {}
    todo = set(hs)
    names = {s.a[0]: s for s in hs}
    progress = True

    def deps(t):
        return {names[x] for x in t.fv if x in names}

    def val(s, t):
        return raw("boolv", t) if False else t
    while todo and progress:
        progress = False
        for s in sorted(todo, key=lambda z: z.id):
            o = out[s]
            d = deps(o)
            if d - {s} - set(closed):
                continue
            if closed:
                o = subst(o, {q: closed[q] for q in closed if q.a[0] in o.fv})
            r = solve1(k, n, s, hs[s], o, init[s])
            if r is None:
                continue
            closed[s], final[s] = r
            todo.discard(s)
            progress = True
        if not progress and todo:
            # mutually dependent: carried value of the previous iteration
            for s in sorted(todo, key=lambda z: z.id):
                o = out[s]
                if s.a[0] not in o.fv and not (deps(o) - set(closed) - todo):
                    # h(k) = ite(k==0, init, out(k-1)); try when out depends only on others
                    pass
    if todo:
        # coupled system: canonical uninterpreted recurrence
        order = sorted(todo, key=lambda z: z.id)
        outs = []
        for s in order:
            o = out[s]
            o = subst(o, {q: closed[q] for q in closed if q.a[0] in o.fv}) if closed else o
            outs.append(o)
        sysm = tuple(outs)
        body = raw("sys", sysm)
        for s in reversed(order):
            body = lam(s, body)
        body = lam(k, body)
        inits = raw("sys", tuple(init[s] for s in order))
        for j, s in enumerate(order):
            numeric = s.a[0].startswith("$f") or s.a[0].startswith("$n")
            op = "recn" if numeric else "rec"
            v_k, v_n = raw(op, k, body, inits, j), raw(op, n, body, inits, j)
            closed[s] = v_k
            final[s] = v_n
    # boolean cells
    return closed, final


def solve1(k, n, s, h, o, v0):
    if h.op == "bool":
        return solve_bool(k, n, s, h, o, v0)
    if o is s:
        return v0, v0
    nm = s.a[0]
    if nm not in o.fv:
        prev = subst(o, {k: sub(k, ONE)})
        ck = ite(eq0(k), v0, prev)
        cn = ite(eq0(n), v0, subst(o, {k: sub(n, ONE)}))
        return ck, cn
    # numeric
    if nm.startswith("$f") or nm.startswith("$n"):
        sp = coeff_split(o, s)
        if sp is not None:
            a, b = sp
            if nm not in a.fv and nm not in b.fv:
                if a is ONE:
                    L = lam(k, b)
                    return add(v0, summ(k, L)), add(v0, summ(n, L))
                if b is ZERO:
                    L = lam(k, a)
                    return mul(v0, prodd(k, L)), mul(v0, prodd(n, L))
                if k.a[0] not in a.fv:
                    def horner(m):
                        j = fresh("i")
                        return add(mul(v0, power(a, m)),
                                   summ(m, lam(j, mul(subst(b, {k: j}), power(a, sub(sub(m, ONE), j))))))
                    return horner(k), horner(n)
        if o.op == "max" and s in o.a[:2]:
            e = o.a[1] if o.a[0] is s else o.a[0]
            if nm not in e.fv:
                L = lam(k, e)
                return maxof(v0, k, L), maxof(v0, n, L)
        r = raw("fold", lam(k, lam(s, o)), v0, k), raw("fold", lam(k, lam(s, o)), v0, n)
        return raw("recn", k, lam(k, lam(s, raw("sys", (o,)))), raw("sys", (v0,)), 0), \
            raw("recn", n, lam(k, lam(s, raw("sys", (o,)))), raw("sys", (v0,)), 0)
    # sequences
    if o.op == "concat":
        xs = o.a[0]
        if xs[0] is s and not any(nm in x.fv for x in xs[1:]):
            L = lam(k, concat(*xs[1:]))
            return concat(v0, flat(k, L)), concat(v0, flat(n, L))
        if xs[-1] is s and not any(nm in x.fv for x in xs[:-1]):
            def rv(m):
                j = fresh("i")
                return concat(flat(m, lam(j, subst(concat(*xs[:-1]), {k: sub(sub(m, ONE), j)}))), v0)
            return rv(k), rv(n)
        if xs[0] is s:
            tail = concat(*xs[1:])
            L = lam(k, lam(s, tail))
            ck, cn = raw("recseq", k, L, v0), raw("recseq", n, L, v0)
            return ck, cn
    if o.op == "ite" and v0.op in ("list", "concat", "seqlam", "flat") or (o.op == "ite" and _seqlike(o, s)):
        # conditional push
        t = tail_of(o, s)
        if t is not None and nm not in t.fv:
            L = lam(k, t)
            return concat(v0, flat(k, L)), concat(v0, flat(n, L))
    # array update at an affine / arbitrary index
    r = solve_upd(k, n, s, o, v0)
    if r is not None:
        return r
    # maps, sets
    if o.op == "mapof" and o.a[0].op == "concat" and o.a[0].a[0][0] is raw("mseq", s):
        tl = concat(*o.a[0].a[0][1:])
        if nm not in tl.fv:
            L = lam(k, tl)
            b = mseq_of(v0)
            return mapof(concat(b, flat(k, L))), mapof(concat(b, flat(n, L)))
    if o.op == "setof" and o.a[0].op == "concat" and o.a[0].a[0][0] is raw("setseq", s):
        tl = concat(*o.a[0].a[0][1:])
        if nm not in tl.fv:
            L = lam(k, tl)
            b = setseq(v0, True)
            return setof(concat(b, flat(k, L))), setof(concat(b, flat(n, L)))
    if o.op == "grppush":
        g = o
        items = []
        while g.op == "grppush":
            items.append((g.a[1], g.a[2]))
            g = g.a[0]
        if g is s and not any(nm in a.fv or nm in b.fv for a, b in items):
            items.reverse()
            L = lam(k, lst(*[tup(a, b) for a, b in items]))
            return groupmap(v0, k, L), groupmap(v0, n, L)
    if o.op == "absorb" and o.a[0] is s and not any(nm in y.fv for y in o.a[1:]):
        L = lam(k, raw("absmsg", *o.a[1:]))
        return raw("iterabsorb", v0, k, L), raw("iterabsorb", v0, n, L)
    if o.op == "adv" and o.a[0] is s and not any(nm in y.fv for y in o.a[1:]):
        L = lam(k, raw("absmsg", *o.a[1:]))
        return raw("iteradv", v0, k, L), raw("iteradv", v0, n, L)
    L = lam(k, lam(s, raw("sys", (o,))))
    return raw("rec", k, L, raw("sys", (v0,)), 0), raw("rec", n, L, raw("sys", (v0,)), 0)


def _seqlike(o, s):
    return tail_of(o, s) is not None


def tail_of(o, s):
    """o = s ++ tail, conditionally; returns tail"""
    if o is s:
        return EMPTYL
    if o.op == "concat" and o.a[0][0] is s:
        return concat(*o.a[0][1:])
    if o.op == "ite":
        a, b = tail_of(o.a[1], s), tail_of(o.a[2], s)
        if a is None or b is None:
            return None
        return ite(o.a[0], a, b)
    return None


def solve_bool(k, n, s, h, o, v0):
    if o is h:
        return v0, v0
    nm = s.a[0]
    if nm not in o.fv:
        ck = bite(eq0(k), v0, subst(o, {k: sub(k, ONE)}))
        return ck, bite(eq0(n), v0, subst(o, {k: sub(n, ONE)}))
    # h or e
    e = subst_cond(o, h, FALSE)
    t = subst_cond(o, h, TRUE)
    if t is TRUE:
        L = lam(k, e)
        return or_(v0, exists(k, L)), or_(v0, exists(n, L))
    if e is FALSE:
        L = lam(k, not_(t))
        return and_(v0, not_(exists(k, L))), and_(v0, not_(exists(n, L)))
    return None


def subst_cond(o, h, v):
    return rewrite(o, lambda x: v if x is h else None)


def solve_upd(k, n, s, o, v0):
    nm = s.a[0]
    # unchanged on a condition: ite(c, upd.., s)
    if o.op == "upd" and o.a[0] is s:
        idx, val = o.a[1], o.a[2]
        if nm in idx.fv:
            idx2 = idx
            return None
        cur = raw("at", s, idx)
        if idx is k:
            body = rewrite(val, lambda x: at(v0, k) if x is cur else None, s) if nm in val.fv else val
            if nm in body.fv:
                L = lam(k, lam(s, val))
                return raw("recupd", k, L, v0), raw("recupd", n, L, v0)
            ln = slen(v0)
            full = TM.known_eq(ln, n)

            def fin(m, whole):
                j = fresh("i")
                bj = subst(body, {k: j})
                if whole:
                    return seqlam(ln, lam(j, bj))
                return seqlam(ln, lam(j, ite(lt(j, m), bj, at(v0, j))))
            return fin(k, False), fin(n, full)
        # constant index: fold into element
        if k.a[0] not in idx.fv:
            h2 = fresh("f")
            v2 = rewrite(val, lambda x: h2 if x is cur else None, s)
            if nm not in v2.fv:
                r = solve1(k, n, h2, h2, v2, at(v0, idx))
                return upd(v0, idx, r[0]), upd(v0, idx, r[1])
        # scatter
        r = solve_scatter(k, n, s, idx, val, v0)
        if r is not None:
            return r
    return None


def solve_scatter(k, n, s, idx, val, v0):
    """h[idx(k)].f := map_insert(h[idx(k)].f, K, V)"""
    cur = raw("at", s, idx)
    ups = None
    if val.op == "withf" and val.a[0] is cur:
        ups = val.a[1]
    if ups is None:
        return None
    outs = []
    for f, x in ups:
        old = proj(cur, f)
        if x.op == "mapof" and x.a[0].op == "concat" and x.a[0].a[0][0] is raw("mseq", old):
            tl = concat(*x.a[0].a[0][1:])
            if s.a[0] in tl.fv:
                return None
            outs.append((f, "map", tl))
        elif x.op == "setof" and x.a[0].op == "concat" and x.a[0].a[0][0] is raw("setseq", old):
            tl = concat(*x.a[0].a[0][1:])
            if s.a[0] in tl.fv:
                return None
            outs.append((f, "set", tl))
        else:
            return None

    def fin(m):
        j = fresh("i")
        e = at(v0, j)
        for f, kind, tl in outs:
            q = fresh("i")
            body = ite(eq0(sub(subst(idx, {k: q}), j)), subst(tl, {k: q}), EMPTYL)
            extra = flat(m, lam(q, body))
            b = proj(at(v0, j), f)
            nv = mapof(concat(mseq_of(b), extra)) if kind == "map" else setof(concat(setseq(b, True), extra))
            e = with_field(e, f, nv)
        return seqlam(slen(v0), lam(j, e))
    return fin(k), fin(n)

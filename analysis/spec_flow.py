"""C35: results are functions of the arguments.  A flow-insensitive, interprocedural
dataflow analysis over the type-checked program: values that do not derive from the
caller's arguments (clock, environment, OS randomness, process-global mutable state,
addresses, generators seeded with constants) and the iteration order of hash
collections must not reach a result, an error or a caller-visible place."""
import re
import harness as H
from interp import Interp, short
from frame import *

# callee key -> what it reads
DENY = [
    (r"std::time::|std::sys::.*time|core::time::.*now", "the clock"),
    (r"std::env::", "the process environment"),
    (r"std::fs::|std::os::", "the file system"),
    (r"std::net::", "the network"),
    (r"std::process::(id|Command|Child|\{impl)", "another process"),
    (r"std::thread::(current|available_parallelism|id|\{impl.*\}::id)|std::thread::thread::|std::thread::functions::", "the executing thread"),
    (r"std::io::stdio::(stdin|read)|std::io::(stdin|read_to_string)", "standard input"),
    (r"(rand|ark_std::rand)::rngs::(thread|os|entropy)|(^|::)thread_rng$|(^|::)from_entropy$|(^|::)OsRng|^rand_core::os::|^getrandom::|^rand::random$", "operating-system randomness"),
    (r"ark_std::rand_helper::(test_rng|.*test_rng)|(^|::)test_rng$", "a generator the caller did not supply"),
    (r"std::hash::random::|std::collections::hash_map::RandomState|RandomState", "a per-process hashing key"),
    (r"core::fmt::rt::.*new_pointer|core::ptr::.*::(addr|expose_provenance|expose_addr)$|core::ptr::hash$", "a memory address"),
    (r"std::sync::(mpsc|mpmc)::|std::thread::", "another thread"),
    (r"alloc::vec::\{impl#\d+\}::capacity$|std::alloc::", "the allocator"),
]
DENY = [(re.compile(a), b) for a, b in DENY]
# types whose shared (static) instances carry history
CELLS = ("Mutex", "RwLock", "Cell", "RefCell", "UnsafeCell", "OnceLock", "OnceCell", "LocalKey", "Atomic", "LazyLock",
         "LazyCell", "Once", "SyncUnsafeCell", "Lazy", "Condvar")
HASHES = ("HashMap", "HashSet")
HITER = ("iter", "iter_mut", "keys", "values", "values_mut", "into_iter", "into_keys", "into_values", "drain",
         "retain", "extract_if", "union", "intersection", "difference", "symmetric_difference")
# consumers whose result does not depend on the order of what they consume
NEUTRAL = ("len", "count", "is_empty", "all", "any", "contains", "contains_key", "sum", "product", "max", "min", "size_hint")
SORTS = ("sort", "sort_unstable")
UNORDERED = ("BTreeMap", "BTreeSet", "HashMap", "HashSet", "BinaryHeap")
SINKOK = re.compile(r"std::io::(stdio::)?_e?print$|std::io::stdio::")


class Flow:
    def __init__(self, I):
        self.I = I
        self.D = H.get()
        self.types = self.D["types"]
        self.B = {b["key"]: b for b in self.D["bodies"]}
        self.impls = {}
        for b in self.D["bodies"]:
            if b.get("impl_trait"):
                self.impls.setdefault((short(b["impl_trait"]), b["name"]), []).append(b["key"])
        self.taint = {}        # variable -> {(kind, what)}
        self.ret = {}          # body -> taints
        self.sorted_vars = set()
        self.par = {}          # closure body -> parent handled through shared variable names
        self.calls = 0
        self.sources = []      # (body, what, callee)
        self.why = {}
        self.memo = {}

    # -------------------------------------------------------------- types
    def t(self, i):
        return self.types[i]

    def mentions(self, i, names, seen=None, depth=0):
        """a type, or what it refers to, is one of the named library types"""
        if i is None or depth > 6:
            return None
        t = self.t(i)
        k = t[0]
        if k == "adt":
            n = short(t[1])
            for m in names:
                if n == m or (m == "Atomic" and n.startswith("Atomic")):
                    return n
            for a in (t[2] if len(t) > 2 and isinstance(t[2], list) else []):
                if isinstance(a, int):
                    r = self.mentions(a, names, seen, depth + 1)
                    if r:
                        return r
        elif k in ("ref", "slice", "array", "tuple"):
            for a in flatten_ints(t[1:]):
                r = self.mentions(a, names, seen, depth + 1)
                if r:
                    return r
        return None

    def head(self, i):
        t = self.t(i)
        while t[0] == "ref":
            ints = flatten_ints(t[1:])
            if not ints:
                return ""
            t = self.t(ints[-1])
        return short(t[1]) if t[0] == "adt" else t[0]

    def mutref(self, i):
        t = self.t(i)
        return t[0] == "ref" and any(x is True or x == "mut" for x in t[1:])

    # -------------------------------------------------------------- places
    def root(self, b, e):
        """the variable a place expression is rooted in"""
        x = b["exprs"][e]
        k = x["k"]
        if k in ("var", "upvar"):
            return x["v"]
        if k in ("deref", "borrow", "scope", "field", "coerce", "cast"):
            return self.root(b, x["e"])
        if k == "index":
            return self.root(b, x["e"])
        if k == "block":
            bl = b["blocks"][x["b"]]
            return self.root(b, bl["expr"]) if bl["expr"] is not None else None
        if k == "call" and x["args"]:
            return self.root(b, x["args"][0])      # iter_mut(), deref_mut(), get_mut().unwrap() ...
        return None

    def binds(self, p, out):
        if isinstance(p, dict):
            if p.get("k") == "bind":
                out.append(p["var"])
            for v in p.values():
                if isinstance(v, (dict, list)):
                    self.binds(v, out)
        elif isinstance(p, list):
            for v in p:
                self.binds(v, out)
        return out

    # -------------------------------------------------------------- transfer
    def add(self, v, ts, neutral=False):
        if v is None:
            return
        ts = {t for t in ts if not (t[0] == "order" and (neutral or v in self.sorted_vars))}
        cur = self.taint.setdefault(v, set())
        if not ts <= cur:
            cur |= ts
            self.changed = True

    def addret(self, k, ts):
        cur = self.ret.setdefault(k, set())
        if not ts <= cur:
            cur |= ts
            self.changed = True

    def callee(self, x, b):
        f = x.get("fty") or (b["exprs"][x["fun"]].get("fty"))
        if not f:
            ty = b["exprs"][x["fun"]].get("ty")
            if ty is not None and self.t(ty)[0] == "fndef":
                f = self.t(ty)
        return f[1] if f and f[0] == "fndef" else None

    def targets(self, f):
        k = f.get("resolved") or f["key"]
        if k in self.B:
            return [k]
        tr = f.get("trait")
        if tr and not f.get("resolved"):
            n = f["path"].split("::")[-1]
            return self.impls.get((short(tr), n), [])
        return []

    def ev(self, b, e, pc):
        """taints of expression e; pc: taints of the conditions it runs under"""
        if e is None:
            return set()
        x = b["exprs"][e]
        k = x["k"]
        R = lambda i: self.ev(b, i, pc)
        if k in ("var", "upvar"):
            return set(self.taint.get(x["v"], ()))
        if k in ("deref", "borrow", "scope", "field", "coerce", "un"):
            return R(x["e"])
        if k == "cast":
            r = set(R(x["e"]))
            src = b["exprs"][x["e"]].get("ty")
            st, dt = self.t(src), self.t(x["ty"])
            if st[0] in ("prim", "ref", "fndef") and (str(st[1]).startswith("*") or st[0] == "fndef") and dt[0] == "prim" and not str(dt[1]).startswith("*"):
                r |= self.source(b, "a memory address", "cast of a pointer to an integer")
            return r
        if k in ("lit", "zst", "const", "constparam", "constblock", "static"):
            r = set()
            if k in ("static", "const"):
                ty = self.t(x["ty"])
                c = self.mentions(x["ty"], CELLS)
                if ty[0] == "prim" and str(ty[1]).startswith("*mut"):
                    r |= self.source(b, "process-global mutable state", "static mut " + x.get("path", "?"))
                elif c and (k == "static" or c == "LocalKey"):
                    if c in ("LazyLock", "LazyCell", "Lazy"):
                        pass            # initialised once from no arguments; the initialiser is analysed as a body
                    else:
                        r |= self.source(b, "process-global mutable state", "%s (%s)" % (x.get("path", "?"), c))
            if k == "const" and x.get("key") in self.B:
                r |= self.ret.get(x["key"], set())
            return r
        if k == "closure":
            r = set()
            for u in x["upvars"]:
                R(u)
            r |= self.ret.get(x["key"], set())
            return r
        if k in ("bin", "logic", "index"):
            l, rr = (x["l"], x["r"]) if k != "index" else (x["e"], x["i"])
            return R(l) | R(rr)
        if k in ("tuple", "array"):
            r = set()
            for i in x["es"]:
                r |= R(i)
            return r
        if k == "adt":
            r = set()
            for f in x["fs"]:
                r |= R(f[1])
            if isinstance(x.get("base"), int):
                r |= R(x["base"])
            return r
        if k == "assign" or k == "assignop":
            rs = R(x["r"]) | {t for t in pc if t[0] == "value"}
            lt = self.evplace(b, x["l"], pc)
            neutral = k == "assignop" and self.t(b["exprs"][x["r"]]["ty"])[0] == "prim" and self.t(b["exprs"][x["l"]]["ty"])[0] == "prim"
            self.add(self.root(b, x["l"]), rs | {t for t in lt}, neutral)
            return set()
        if k == "return":
            rs = R(x["e"]) | {t for t in pc if t[0] == "value"}
            self.addret(b["key"], rs)
            return set()
        if k == "break":
            if x.get("e") is not None:
                self.loops[x["label"]] = self.loops.get(x["label"], set()) | R(x["e"])
            vs = {t for t in pc if t[0] == "value"}
            if vs:
                self.loops[x["label"]] = self.loops.get(x["label"], set()) | vs
            return set()
        if k == "let":
            r = R(x["e"])
            for v in self.binds(x["pat"], []):
                self.add(v, r)
            return r
        if k == "if":
            c = R(x["c"])
            c2 = pc | c
            r = self.ev(b, x["t"], c2)
            if x["f"] is not None:
                r = r | self.ev(b, x["f"], c2)
                r |= {t for t in c if t[0] == "value"}
            return r
        if k == "match":
            c = R(x["e"])
            r = set()
            for i in x["arms"]:
                a = b["arms"][i]
                for v in self.binds(a["pat"], []):
                    self.add(v, c)
                g = self.ev(b, a["guard"], pc | c) if a["guard"] is not None else set()
                r |= self.ev(b, a["body"], pc | c | g)
                r |= {t for t in g if t[0] == "value"}
            if len(x["arms"]) > 1 and x.get("src") != "ForLoopDesugar":
                unit = self.t(x["ty"])[0] == "tuple" and not flatten_ints(self.t(x["ty"])[1:])
                if not unit:
                    r |= {t for t in c if t[0] == "value"}
            return r
        if k == "loop":
            self.ev(b, x["e"], pc)
            return set().union(*[v for v in self.loops.values()]) if self.loops else set()
        if k == "block":
            return self.block(b, x["b"], pc)
        if k == "call":
            return self.call(b, x, pc)
        # anything the driver does not render
        r = set()
        for f in ("e", "l", "r"):
            if isinstance(x.get(f), int):
                r |= R(x[f])
        if k == "unsupported":
            self.odd.append((b["key"], x.get("dbg", "?")))
        return r

    def evplace(self, b, e, pc):
        """taints of the index expressions of an assigned place"""
        x = b["exprs"][e]
        if x["k"] == "index":
            return self.ev(b, x["i"], pc) | self.evplace(b, x["e"], pc)
        if x["k"] == "call":
            r = set()
            for a in x["args"][1:]:
                r |= self.ev(b, a, pc)
            return r | (self.evplace(b, x["args"][0], pc) if x["args"] else set())
        if isinstance(x.get("e"), int):
            return self.evplace(b, x["e"], pc)
        return set()

    def block(self, b, i, pc):
        bl = b["blocks"][i]
        for s in bl["stmts"]:
            st = b["stmts"][s]
            if st["k"] == "let":
                r = self.ev(b, st["init"], pc) if st["init"] is not None else set()
                for v in self.binds(st["pat"], []):
                    self.add(v, r)
                if st.get("else") is not None:
                    self.block(b, st["else"], pc | r)
            else:
                self.ev(b, st["e"], pc)
        return self.ev(b, bl["expr"], pc) if bl["expr"] is not None else set()

    def source(self, b, what, how):
        self.sources.append((b["key"], what, how))
        return {("value", "%s (%s in %s)" % (what, how, name(b)), self.owner(b["key"]))}

    @staticmethod
    def owner(k):
        return k.split("::{closure")[0]

    def reach(self):
        """functions each function can reach, itself included"""
        g = {}
        for b in self.D["bodies"]:
            o = g.setdefault(self.owner(b["key"]), set())
            for x in b["exprs"]:
                f = x.get("fty")
                if f and f[0] == "fndef":
                    o |= {self.owner(t) for t in self.targets(f[1])}
                elif x["k"] == "const" and x.get("key") in self.B:
                    o.add(self.owner(x["key"]))
        out = {}
        for k in g:
            seen, todo = {k}, [k]
            while todo:
                for n in g.get(todo.pop(), ()):
                    if n not in seen:
                        seen.add(n)
                        todo.append(n)
            out[k] = seen
        return out

    def const_args(self, b, es, depth=0):
        """expressions built from literals alone"""
        for e in es:
            x = b["exprs"][e]
            k = x["k"]
            if k in ("lit", "zst"):
                continue
            if k in ("const",):
                continue
            if k in ("scope", "borrow", "deref", "coerce", "cast", "un"):
                if not self.const_args(b, [x["e"]]):
                    return False
            elif k in ("array", "tuple"):
                if not self.const_args(b, x["es"]):
                    return False
            elif k == "repeat":
                if not self.const_args(b, [x["e"]]):
                    return False
            else:
                return False
        return True

    def call(self, b, x, pc):
        self.calls += 1
        if x["args"]:
            f0 = self.callee(x, b)
            n0 = f0["path"].split("::")[-1] if f0 else ""
            if n0 in ("get_or_init", "get_or_try_init", "call_once", "get_mut_or_init") and not f0.get("local"):
                # initialised from nothing the caller passed: a constant
                cx = self.closure_expr(b, x["args"][-1])
                if cx is None or not cx["upvars"]:
                    return self.ret.get(cx["key"], set()) if cx is not None else self.ev(b, x["args"][-1], pc)
        args = [self.ev(b, a, pc) for a in x["args"]]
        f = self.callee(x, b)
        allt = set().union(*args) if args else set()
        if f is None:
            allt = allt | self.ev(b, x["fun"], pc)      # a closure or function value
            return allt
        key = f["key"]
        nm = f["path"].split("::")[-1]
        r = set()
        # sources ---------------------------------------------------------
        full = (f.get("resolved") or "") + " " + key + " " + f["path"]
        if not f.get("local") and not SINKOK.search(key):
            for rx, what in DENY:
                if "LocalKey" in full:
                    break                           # the thread-local itself is the source
                if any(rx.search(s) for s in full.split(" ") if s):
                    r |= self.source(b, what, f["path"])
                    break
            if nm in ("seed_from_u64", "from_seed") and x["args"] and self.const_args(b, x["args"]):
                r |= self.source(b, "a generator the caller did not supply", f["path"] + " of a constant")
            h = self.head(b["exprs"][x["args"][0]]["ty"]) if x["args"] else ""
            if h in HASHES and (nm in HITER or nm == "new_debug"):
                self.sources.append((b["key"], "hash iteration order", f["path"]))
                allt = allt | {("order", "the iteration order of a %s (%s in %s)" % (h, nm, name(b)), self.owner(b["key"]))}
                if nm == "retain":
                    allt = {t for t in allt if t[0] != "order"}
            elif h == "" and x["args"] and nm in ("into_iter", "extend", "from_iter") :
                pass
            if nm in ("extend", "from_iter", "chain", "zip") and len(x["args"]) > (0 if nm == "from_iter" else 1):
                a2 = x["args"][-1]
                h2 = self.head(b["exprs"][a2]["ty"])
                if h2 in HASHES:
                    allt = allt | {("order", "the iteration order of a %s (%s in %s)" % (h2, nm, name(b)), self.owner(b["key"]))}
        # consumers that forget the order
        if not f.get("local"):
            res = self.head(x["ty"]) if x.get("ty") is not None else ""
            if nm in NEUTRAL or (nm in ("collect", "from_iter") and res in UNORDERED):
                r |= {t for t in allt if t[0] != "order"}
            else:
                r |= allt
            if nm in SORTS and x["args"]:
                v = self.root(b, x["args"][0])
                if v is not None and v not in self.sorted_vars:
                    self.sorted_vars.add(v)
                    if v in self.taint:
                        self.taint[v] = {t for t in self.taint[v] if t[0] != "order"}
                    self.changed = True
                return set()
            # closures among the arguments receive what the other arguments hold
            for a in x["args"]:
                ck = self.closure_key(b, a)
                if ck and ck in self.B:
                    for p in self.B[ck]["params"]:
                        for v in self.binds(p["pat"], []):
                            self.add(v, allt)
            # a library call can write through its exclusive references
            into = allt | r | {t for t in pc if t[0] == "value"}
            if into and not SINKOK.search(key):
                for i, a in enumerate(x["args"]):
                    if self.mutref(b["exprs"][a]["ty"]):
                        ro = self.root(b, a)
                        others = set().union(*[s for j, s in enumerate(args) if j != i]) if len(args) > 1 else set()
                        w = others | {t for t in pc if t[0] == "value"} | {t for t in r if t[0] == "value"}
                        self.add(ro, w, self.head(b["exprs"][a]["ty"]) in UNORDERED or nm in ("add_assign", "mul_assign"))
            return r
        # local functions -------------------------------------------------
        for tk in self.targets(f):
            cb = self.B[tk]
            for p, s in zip(cb["params"], args):
                for v in self.binds(p["pat"], []):
                    self.add(v, s)
            r |= self.ret.get(tk, set())
            # what the callee writes through its exclusive references
            for p, a in zip(cb["params"], x["args"]):
                if self.mutref(p["ty"]):
                    for v in self.binds(p["pat"], []):
                        self.add(self.root(b, a), self.taint.get(v, set()))
            vpc = {t for t in pc if t[0] == "value"}
            if vpc:
                for a in x["args"]:
                    if self.mutref(b["exprs"][a]["ty"]):
                        self.add(self.root(b, a), vpc)
        return r

    def closure_expr(self, b, e):
        x = b["exprs"][e]
        while x["k"] in ("scope", "borrow", "coerce"):
            x = b["exprs"][x["e"]]
        return x if x["k"] == "closure" else None

    def closure_key(self, b, e):
        x = b["exprs"][e]
        while x["k"] in ("scope", "borrow", "coerce"):
            x = b["exprs"][x["e"]]
        if x["k"] == "closure":
            return x["key"]
        ty = x.get("ty")
        if ty is not None and self.t(ty)[0] == "closure":
            return self.t(ty)[1]
        return None

    def solve(self):
        self.changed, n = True, 0
        self.odd = []
        while self.changed and n < 30:
            self.changed = False
            n += 1
            self.sources, self.calls, self.odd = [], 0, []
            for b in self.D["bodies"]:
                self.loops = {}
                r = self.ev(b, b["root"], set())
                self.addret(b["key"], r)
        return n


def flatten_ints(x):
    out = []
    for v in x:
        if isinstance(v, bool):
            continue
        if isinstance(v, int):
            out.append(v)
        elif isinstance(v, list):
            out += flatten_ints(v)
    return out


def name(b):
    return re.sub(r"<.*?>", "", b["path"].split("::{closure")[0]).split("::")[-1] if "<" not in b["path"][:1] else b["path"].split("::")[-1]


ENTRY = ("TurboPlonk::universal_setup", "TurboPlonk::prepare_keys", "TurboPlonk::prove", "TurboPlonk::verify", "Multiopen::prove",
         "Multiopen::verify", "MockProver::verify")


def c35(ctx):
    I = Interp(H.get(), set(H.BASE_LEAVES))

    def go():
        F = Flow(I)
        n = F.solve()
        if n >= 30:
            ctx.put("results are functions of the arguments", "dataflow", UNDECIDED, "no fixpoint")
            return
        seen = 0
        found = set()
        reach = F.reach()
        for b in F.D["bodies"]:
            if b["kind"] not in ("AssocFn", "Fn"):
                continue
            pub = b.get("pub") or b.get("impl_trait")
            if not pub:
                continue
            seen += 1
            ty = b.get("impl_self")
            nm = b.get("name") or b["path"].split("::")[-1]
            anchor = (short(F.t(ty)[1]) + "::" if ty is not None and F.t(ty)[0] == "adt" else "") + nm
            found.add(anchor)
            ctx.funcs.add(b["path"]) if isinstance(ctx.funcs, set) else None
            bad = set(F.ret.get(b["key"], ()))
            for p in b["params"]:
                if F.mutref(p["ty"]):
                    for v in F.binds(p["pat"], []):
                        bad |= F.taint.get(v, set())
            # what callers pass in is theirs: keep only taints born in, or below, this function
            bad = {t for t in bad if t[2] in reach[b["key"]]}
            if bad:
                ctx.put("results are functions of the arguments", anchor, VIOLATED,
                        "depends on " + "; ".join(sorted(t[1] for t in bad))[:400])
            else:
                ctx.put("results are functions of the arguments", anchor, HOLDS, "no ambient source reaches the result or an exclusive reference")
        for e in ENTRY:
            if e not in found:
                ctx.put("anchor", e, VIOLATED, "entry point not found")
        if seen < 100 or F.calls < 2000:
            ctx.put("anchor", "crate", VIOLATED, "only %d functions and %d calls found" % (seen, F.calls))
        for k, d in F.odd[:5]:
            ctx.put("expression rendered", k, UNDECIDED, d)
        ctx.put("sources", "crate", HOLDS, "%d calls in %d bodies examined, %d sources found, fixpoint after %d rounds" % (
            F.calls, len(F.D["bodies"]), len(F.sources), n))
    ctx.guard("results are functions of the arguments", "crate", go)

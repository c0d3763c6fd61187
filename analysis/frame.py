"""Obligations, verdicts, evidence."""
import json, os, re, sys, time, traceback
from terms import *
import terms as TM
import harness as H
import ri
from interp import Analysis, short

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

EVID = os.environ.get("VERIF_EVIDENCE", os.path.join(VERIF, "evidence"))
HOLDS, AGREES, VIOLATED, UNDECIDED = "holds", "agrees", "violated", "undecided"


class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.res = []           # (name, anchor, verdict, detail)
        self.funcs = set()
        self.unmodelled = {}
        self.nmodels = 8 if tier == "quick" else 40
        self.natfields = None
        self.stats = {"models": 0, "models_skipped": 0, "normal_form_equal": 0}
        self.mk = None          # default model factory

    # ------------------------------------------------------------ recording
    def put(self, name, anchor, verdict, detail=""):
        self.res.append((name, anchor, verdict, str(detail)[:4000]))

    def see(self, I):
        self.funcs |= set(I.analysed)
        for k, v in I.unmodelled.items():
            self.unmodelled[k] = self.unmodelled.get(k, 0) + v

    def guard(self, name, anchor, f):
        """run one obligation; engine limits make it undecided, missing public anchors violate it"""
        try:
            return f()
        except Analysis as e:
            if str(e).startswith("anchor"):
                self.put(name, anchor, VIOLATED, "anchor missing: %s" % e)
            else:
                self.put(name, anchor, UNDECIDED, "analysis: %s" % e)
        except (ri.Imprecise, ri.Skip) as e:
            self.put(name, anchor, UNDECIDED, "imprecise: %s" % e)
        except RecursionError:
            self.put(name, anchor, UNDECIDED, "recursion limit")
        except Exception:
            self.put(name, anchor, UNDECIDED, "engine: " + traceback.format_exc()[-1500:])
        return None

    # ------------------------------------------------------------ models
    def nats(self):
        if self.natfields is None:
            I = H.Interp(H.get(), set())
            nf = set()
            for p, a in I.adts.items():
                for v in a["variants"]:
                    for f in v[1]:
                        t = I.ty(f[1], {})
                        if t[0] == "prim" and t[1] in ("usize", "u64", "u32"):
                            nf.add(f[0])
            nf.discard("0")
            self.natfields = nf
        return self.natfields

    def model(self, k, mk=None):
        m = ri.Model((self.seed, k), natfields=self.nats())
        mk = mk or self.mk
        if mk:
            mk(m, k)
        return m

    # ------------------------------------------------------------ decisions
    def models(self, mk, n, edge):
        """generic models, then models in which many field values are 0, 1 or -1"""
        n = n or self.nmodels
        seen = set()
        for k in range(n + (max(4, n // 2) if edge else 0)):
            m = self.model(k, mk)
            m.edge = k >= n
            m.flips = [] if edge and k < n else None
            yield k, m
            # the same model with one tested equality made true
            for p, v in (m.flips or ()):
                q = tuple(x for x in p if not isinstance(x, int))
                if q in seen or len(seen) >= 12:
                    continue
                seen.add(q)
                m2 = self.model(k, mk)
                m2.force[p] = v
                yield k, m2

    def eq(self, name, anchor, code, spec, mk=None, rule="", ok=None, n=None, edge=True):
        """the code's summary equals the specification in every model"""
        def f():
            if code is spec:
                self.stats["normal_form_equal"] += 1
                self.put(name, anchor, HOLDS, "identical normal forms")
                return
            good, why = 0, None
            for k, m in self.models(mk, n, edge):
                try:
                    if ok is not None and not m.ev(ok):
                        continue
                    r, x, y = ri.same(m, code, spec)
                except ri.Skip as e:
                    self.stats["models_skipped"] += 1
                    why = why or str(e)
                    continue
                except ri.Imprecise as e:
                    self.put(name, anchor, UNDECIDED, "value not modelled: %s" % e)
                    return
                self.stats["models"] += 1
                if not r:
                    self.put(name, anchor, VIOLATED,
                             "model %d separates them: code=%s spec=%s | code term: %s" % (
                                 k, str(x)[:300], str(y)[:300], safe_pp(code)))
                    return
                good += 1
            if good:
                self.put(name, anchor, AGREES, "%d random interpretations agree" % good)
            else:
                self.put(name, anchor, UNDECIDED, "no usable model (%s)" % why)
        self.guard(name, anchor, f)

    def true(self, name, anchor, cond, mk=None, n=None, detail="", edge=True):
        def f():
            if cond is TRUE:
                self.stats["normal_form_equal"] += 1
                self.put(name, anchor, HOLDS, "condition is valid")
                return
            good = 0
            for k, m in self.models(mk, n, edge):
                try:
                    v = m.ev(cond)
                except ri.Skip:
                    self.stats["models_skipped"] += 1
                    continue
                except ri.Imprecise as e:
                    self.put(name, anchor, UNDECIDED, "value not modelled: %s" % e)
                    return
                self.stats["models"] += 1
                if v is not True:
                    self.put(name, anchor, VIOLATED, "%s fails in model %d: %s" % (detail or "condition", k, safe_pp(cond)))
                    return
                good += 1
            self.put(name, anchor, AGREES if good else UNDECIDED, "%d random interpretations agree" % good)
        self.guard(name, anchor, f)

    def run(self, *a, **kw):
        r = H.run(*a, **kw)
        self.see(r.I)
        return r


def safe_pp(t):
    try:
        return pp(t, 25, 12)[:1500]
    except Exception:
        return "?"


def known():
    p = os.path.join(VERIF, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else []


def finish(ctx, t0, title, rule, assumptions, info):
    viol, kf = [], []
    kn = [k for k in known() if k.get("status") == "known" and k["property"] == ctx.pid]
    for r in ctx.res:
        if r[2] == VIOLATED:
            hit = [k for k in kn if k["obligation"] == r[0] and k["anchor"] == r[1]]
            (kf if hit else viol).append((r, hit))
    und = [r for r in ctx.res if r[2] == UNDECIDED]
    good = [r for r in ctx.res if r[2] in (HOLDS, AGREES)]
    ev = {
        "property": ctx.pid, "tier": ctx.tier, "seed": ctx.seed, "level": "other",
        "coverage": {
            "explanation": rule,
            "obligations": len(ctx.res), "discharged": len(good),
            "discharged_by_normal_form": sum(r[2] == HOLDS for r in ctx.res),
            "discharged_by_random_interpretation": sum(r[2] == AGREES for r in ctx.res),
            "undecided": len(und), "violated": len(viol), "known_findings": len(kf),
            "interpretations_evaluated": ctx.stats["models"], "interpretations_skipped": ctx.stats["models_skipped"],
            "functions_analysed": sorted(ctx.funcs)[:400], "functions_analysed_count": len(ctx.funcs),
            "unmodelled_callees": ctx.unmodelled,
            "samples": [{"obligation": r[0], "anchor": r[1], "verdict": r[2], "detail": r[3][:400]} for r in ctx.res],
            "dump": info,
        },
        "assumptions": assumptions, "wall_s": round(time.time() - t0, 2), "violations": len(viol),
    }
    os.makedirs(os.path.join(EVID), exist_ok=True)
    json.dump(ev, open(os.path.join(EVID, ctx.pid + ".json"), "w"), indent=1)
    for r in good:
        print("%-9s %s @ %s" % (r[2], r[0], r[1]))
    for r in und:
        print("UNDECIDED %s @ %s: %s" % (r[0], r[1], r[3][:500]))
    for r, hit in kf:
        print("KNOWN-FINDING: property=%s %s @ %s: %s" % (ctx.pid, r[0], r[1], hit[0]["what"]))
    rp = os.path.join(EVID, ctx.pid + ".violations.json")
    if viol:
        json.dump([{"obligation": r[0], "anchor": r[1], "detail": r[3]} for r, _ in viol], open(rp, "w"), indent=1)
        for r, _ in viol:
            print("violated %s @ %s: %s" % (r[0], r[1], r[3][:1500]))
        print("VIOLATION property=%s replay=%s" % (ctx.pid, rp))
        return 1
    if os.path.exists(rp):
        os.unlink(rp)
    if not ctx.res:
        print("no obligations were generated")
        print("VIOLATION property=%s replay=%s" % (ctx.pid, rp))
        return 1
    print("property=%s ok: %d obligations, %d discharged, %d undecided" % (ctx.pid, len(ctx.res), len(good), len(und)))
    return 0

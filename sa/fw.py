"""Check framework: obligations, known findings, evidence."""
import importlib
import json
import os
import re
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
VERIF = os.path.dirname(HERE)

import ir
import alg
import absint
from absint import Interp, St, Ref, Ptr, Str, Mat, OpM, View, Cond, P, C, ZERO, ONE, TRUE, FALSE


class Ctx:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.prog = ir.load()
        self.obs = []            # (key, status, where, msg)
        self.keys = set()
        self.sigs = {}           # what exactly fails, so that a different failure is not mistaken for a recorded one
        self.functions = set()
        self.counts = {}
        self.rules = []
        self.assumptions = []
        self.notes = {}

    # -- obligations
    def ob(self, key, ok, where="", msg="", sig=None):
        """ok: True holds / False violated / None undecided"""
        k, n = key, 2
        while k in self.keys:
            k = "%s#%d" % (key, n)
            n += 1
        self.keys.add(k)
        self.obs.append((k, ok, where, msg))
        self.sigs[k] = str(sig) if sig is not None else ""
        return ok

    def rule(self, text):
        if text not in self.rules:
            self.rules.append(text)

    def count(self, what, n=1):
        self.counts[what] = self.counts.get(what, 0) + n

    def need(self, what, n):
        if self.counts.get(what, 0) < n:
            raise ir.Broken("only %d %s analysed, expected at least %d: the anchors moved" % (self.counts.get(what, 0), what, n))

    def decided(self):
        return sum(1 for o in self.obs if o[1] is not None)

    # -- running functions
    def interp(self, **kw):
        return Interp(self.prog, **kw)

    def seen(self, I, *fs):
        for f in fs:
            if "floc" in f:
                self.functions.add("%s (%s)" % (self.prog.short(f["name"]), f["floc"]))
        for e in I.events:
            fl = e.get("file")
            if fl is not None and "floc" in fl:
                self.functions.add("%s (%s)" % (self.prog.short(fl["name"]), fl["floc"]))
        for k, v in I.unsupported.items():
            self.notes[k] = self.notes.get(k, 0) + v


JOBS = []


def stopped(ctx, key, e):
    """a family of obligations ended early: what is left of it is undecided, unless the analysed code itself certainly fails"""
    if isinstance(e, absint.Trap):
        ctx.ob(key, False, "%s:%s" % (e.fn, e.line), "the computation fails: %s" % e, sig=e.what)
    else:
        ctx.ob(key, None, "", "analysis stopped: %s %s" % (type(e).__name__, e))


def run_job(i):
    """one group of obligations in a process of its own"""
    ctx, f, a = JOBS[i]
    ctx.obs, ctx.keys, ctx.sigs, ctx.functions, ctx.counts, ctx.rules, ctx.assumptions, ctx.notes = [], set(), {}, set(), {}, [], [], {}
    absint.ENTERED.clear()
    err = None
    try:
        f(ctx, *a)
    except Exception as e:
        if os.environ.get("SA_DEV"):
            err = ("error", traceback.format_exc())
        else:
            stopped(ctx, "rest-of-%s-%s" % (f.__name__, "-".join(str(x) for x in a)), e)
    ent = set("%s (%s)" % (ctx.prog.short(g["name"]), floc) for floc, g in absint.ENTERED.items())
    return err, ctx.obs, ctx.sigs, ctx.functions | ent, ctx.counts, ctx.rules, ctx.assumptions, ctx.notes


def parallel(ctx, jobs):
    """jobs: (function, arguments after ctx); results are merged in the order of the list"""
    import multiprocessing
    JOBS[:] = [(ctx, f, a) for f, a in jobs]
    n = min(len(jobs), os.cpu_count() or 1, 8)
    saved = (ctx.obs, ctx.keys, ctx.sigs, ctx.functions, ctx.counts, ctx.rules, ctx.assumptions, ctx.notes)
    if n > 1:
        with multiprocessing.get_context("fork").Pool(n, maxtasksperchild=1) as pool:
            res = pool.map(run_job, range(len(jobs)), chunksize=1)
    else:
        res = [run_job(i) for i in range(len(jobs))]
    ctx.obs, ctx.keys, ctx.sigs, ctx.functions, ctx.counts, ctx.rules, ctx.assumptions, ctx.notes = saved
    for err, obs, sigs, fns, counts, rules, assm, notes in res:
        if err and err[0] == "broken":
            raise ir.Broken(err[1])
        if err:
            raise RuntimeError(err[1])
        for k, ok, where, msg in obs:
            ctx.ob(k, ok, where, msg, sigs.get(k) or None)
        ctx.functions |= fns
        for k, v in counts.items():
            ctx.count(k, v)
        for r in rules:
            ctx.rule(r)
        ctx.assumptions += [a for a in assm if a not in ctx.assumptions]
        for k, v in notes.items():
            ctx.notes[k] = ctx.notes.get(k, 0) + v


def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f)["findings"]


def main(pid):
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    ev = os.path.join(VERIF, "evidence")
    os.makedirs(ev, exist_ok=True)
    try:
        mod = importlib.import_module("checks." + pid.lower())
        ctx = Ctx(pid, tier)
        try:
            mod.check(ctx)
        except Exception as e:
            if os.environ.get("SA_DEV"):
                raise
            stopped(ctx, "rest-of-" + pid, e)
        if not any(o[1] is False for o in ctx.obs) and ctx.decided() < getattr(mod, "MIN", 1):
            raise ir.Broken("only %d obligations decided, expected at least %d" % (ctx.decided(), getattr(mod, "MIN", 1)))
    except ir.Broken as e:
        if "ctx" in dir():
            for o in ctx.obs[:400]:
                if o[1] is not True:
                    print("  ", o[1], o[0], o[2], o[3][:300])
        print("analysis-broken: property=%s %s" % (pid, e))
        return 3
    except Exception:
        traceback.print_exc()
        print("analysis-broken: property=%s internal error" % pid)
        return 3
    known = {k["key"]: k for k in load_known() if k["property"] == pid}
    viol = []
    for key, ok, where, msg in ctx.obs:
        if ok is False:
            if key in known and known[key].get("sig", "") == ctx.sigs.get(key, ""):
                print("KNOWN-FINDING: property=%s %s" % (pid, known[key]["what"]))
            else:
                viol.append((key, where, msg))
    for floc, f in absint.ENTERED.items():
        ctx.functions.add("%s (%s)" % (ctx.prog.short(f["name"]), floc))
    ok = sum(1 for o in ctx.obs if o[1] is True)
    und = [o for o in ctx.obs if o[1] is None]
    vp = os.path.join(ev, pid + "-violations.json")
    with open(vp, "w") as f:
        json.dump([{"obligation": k, "where": w, "what": m, "sig": ctx.sigs.get(k, "")} for k, w, m in viol], f, indent=1)
    evidence = {
        "property": pid, "tier": tier, "seed": seed, "level": "other",
        "coverage": {
            "explanation": getattr(mod, "EXPLANATION", mod.__doc__ or "").strip(),
            "obligations": len(ctx.obs), "discharged": ok, "undecided": len(und), "violated": len(viol),
            "known_findings": sum(1 for o in ctx.obs if o[1] is False) - len(viol),
            "counts": ctx.counts,
            "functions_analysed": len(ctx.functions), "functions": sorted(ctx.functions)[:1500],
            "rules": ctx.rules,
            "undecided_obligations": [o[0] for o in und][:100],
            "samples": [{"obligation": o[0], "where": o[2], "status": {True: "holds", False: "violated", None: "undecided"}[o[1]]} for o in ctx.obs][:60],
            "unmodelled": ctx.notes,
        },
        "assumptions": ["analysis instantiates every template with Real=double and judges scalar formulas over the reals",
                        "the extractor and the abstract interpreter in /verif are trusted"] + ctx.assumptions,
        "wall_s": round(time.time() - t0, 2),
        "violations": len(viol),
    }
    with open(os.path.join(ev, pid + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)
    print("property=%s obligations=%d discharged=%d undecided=%d violated=%d functions=%d counts=%s" % (
        pid, len(ctx.obs), ok, len(und), len(viol), len(ctx.functions), ctx.counts))
    for k, ok_, w, m in und[:12]:
        print("  undecided %s at %s: %s" % (k, w, m[:200]))
    for k, w, m in viol[:40]:
        print("  %s at %s: %s" % (k, w, m[:400]))
    if viol:
        print("VIOLATION property=%s replay=%s" % (pid, vp))
        return 1
    return 0


if __name__ == "__main__":
    sys.exit(main(sys.argv[1]))

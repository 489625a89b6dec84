"""Check runtime: reports, floors, known findings, evidence, exit codes."""
import json, os, sys, time, traceback
from . import facts as F

VERIF = F.VERIF
EVID = os.path.join(VERIF, "evidence")
KNOWN = os.path.join(VERIF, "known_findings.txt")


def load_known():
    """Lines: `known: property=C07 key=<key> -- text` / `fixed: property=C01 <commit> <text>` (suppresses nothing)."""
    out = {}
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            l = l.strip()
            if l.startswith("known:"):
                b, _, text = l[6:].partition(" -- ")
                parts = b.split(None, 1)
                pid = parts[0].split("=", 1)[1]
                key = parts[1].split("=", 1)[1].strip()
                out.setdefault(pid, {})[key] = text.strip()
    return out


class Ctx:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.reports = {}     # key -> (msg, where)
        self.counts = {}
        self.samples = {}
        self.rules = {}
        self.notes = []
        self.assume = []
        self.oblig = 0
        self.disch = 0
        self._prog = None
        self.t0 = time.time()

    @property
    def thorough(self):
        return self.tier == "thorough"

    @property
    def prog(self):
        if self._prog is None:
            self._prog = F.load()
        return self._prog

    # -- rule bookkeeping
    def rule(self, rid, text):
        self.rules[rid] = text

    def ok(self, rid, what=None):
        """one obligation of rule rid discharged"""
        self.oblig += 1
        self.disch += 1
        self.counts[rid] = self.counts.get(rid, 0) + 1
        if what is not None:
            s = self.samples.setdefault(rid, [])
            if len(s) < 40:
                s.append(str(what))

    def bad(self, rid, key, msg, where=""):
        """obligation violated; key must not contain line numbers"""
        self.oblig += 1
        self.counts[rid] = self.counts.get(rid, 0) + 1
        k = "%s:%s" % (rid, key)
        if k not in self.reports:
            self.reports[k] = (msg, where)

    def check(self, cond, rid, key, msg, where="", what=None):
        if cond:
            self.ok(rid, what if what is not None else key)
        else:
            self.bad(rid, key, msg, where)
        return cond

    def floor(self, rid, n):
        c = self.counts.get(rid, 0)
        if c < n:
            self.bad(rid, "floor", "rule %s matched %d instances, fewer than the %d confirmed by hand (an anchor moved out of the rule's sight)" % (rid, c, n))

    def anchor(self, name, rid="anchor"):
        """function by pretty name; a missing anchor is a report (fail closed)"""
        f = self.prog.fn(name)
        if f is None:
            c = self.prog.find(name)
            f = c[0] if len(c) >= 1 else None
        if f is None:
            self.bad(rid, name, "anchored function `%s` not found in the analysed program" % name)
        return f


def run_check(pid, mod, tier):
    ctx = Ctx(pid, tier)
    level = getattr(mod, "LEVEL", "other")
    os.makedirs(EVID, exist_ok=True)
    try:
        mod.run(ctx)
    except F.BuildError as e:
        ctx.bad("analysis", "build", "the analysis build of the current tree failed: %s" % str(e)[-3000:])
    except Exception:
        ctx.bad("analysis", "crash", "the analysis could not interpret the current tree:\n" + traceback.format_exc()[-3000:])
    known = load_known().get(pid, {})
    viol = []
    for k, (msg, where) in sorted(ctx.reports.items()):
        if k in known:
            print("KNOWN-FINDING: property=%s %s [%s] %s" % (pid, known[k], k, where))
        else:
            viol.append((k, msg, where))
    replay = os.path.join(EVID, "replay-%s.txt" % pid)
    if viol:
        with open(replay, "w") as fh:
            for k, msg, where in viol:
                fh.write("%s\n  rule: %s\n  at:   %s\n  %s\n\n" % (k, ctx.rules.get(k.split(":")[0], "(framework)"), where, msg))
            fh.write("re-run: python3 %s/check.py %s%s\n" % (VERIF, pid, " --thorough" if tier == "thorough" else ""))
    cov = {
        "obligations": ctx.oblig, "discharged": ctx.disch,
        "rule_instances": ctx.counts, "rules": ctx.rules,
        "sample_sites": ctx.samples,
        "known_findings": [k for k in ctx.reports if k in known],
        "explanation": getattr(mod, "EXPLAIN", "") or (mod.__doc__ or "").strip(),
        "checker_cmd": "python3 /verif/check.py %s" % pid,
        "trusted_base": ["rustc nightly MIR construction", "/verif/driver", "/verif/spf"],
    }
    if ctx._prog is not None:
        cov["analysed_functions"] = len(ctx._prog.fns)
    ev = {"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": level, "coverage": cov,
          "assumptions": getattr(mod, "ASSUMES", []) + ctx.assume, "wall_s": round(time.time() - ctx.t0, 2),
          "violations": [{"key": k, "message": m[:2000], "where": w} for k, m, w in viol]}
    with open(os.path.join(EVID, pid + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1, default=str)
        fh.write("\n")
    print("%s [%s] obligations=%d discharged=%d rules=%s wall=%.1fs" % (pid, tier, ctx.oblig, ctx.disch, json.dumps(ctx.counts), ev["wall_s"]))
    for n in ctx.notes:
        print("note:", n)
    if viol:
        for k, msg, where in viol[:40]:
            print("  %s @ %s\n    %s" % (k, where, msg.replace("\n", "\n    ")[:1500]))
        print("VIOLATION property=%s replay=%s" % (pid, replay))
        return 1
    return 0

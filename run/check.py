#!/usr/bin/env python3
"""check.py PROPERTY quick|thorough

Exit 0: the property held on everything explored. Exit 1: a VIOLATION line was printed.
Exit 2: the machinery could not give an answer."""
import json, os, shutil, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import lib
from lib import log


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.thorough = tier == "thorough"
        self.states = self.transitions = self.traces = self.steps = self.obs = 0
        self.samples, self.violations, self.assumptions, self.stages = [], [], [], []
        self.counts = {}
        self.seen = set()
        self.exhaustive = False
        self.t0 = time.time()
        self.budget = float(os.environ.get("VERIF_BUDGET", "2400" if self.thorough else "600"))

    def left(self):
        return self.budget - (time.time() - self.t0)

    def add_model(self, name, st):
        self.transitions += st[0]
        self.states += st[1]
        self.stages.append({"stage": "model", "name": name, "transitions": st[0], "states": st[1]})

    def fail(self, name, summary, payload):
        d = os.path.join(lib.VERIF, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, "%s-%s-%d.json" % (self.prop, name, len(self.violations)))
        with open(p, "w") as f:
            json.dump(payload, f, indent=1)
        self.violations.append({"stage": name, "summary": summary, "replay": p})
        print("VIOLATION property=%s replay=%s" % (self.prop, p), flush=True)
        print("  " + summary[:600], flush=True)

    def add_result(self, name, res, kind):
        """Fold a harness result {behaviours, steps, observations, failures, ...} in."""
        self.traces += res.get("behaviours", 0)
        self.steps += res.get("steps", 0)
        self.obs += res.get("observations", 0)
        self.stages.append({"stage": kind, "name": name,
                            **{k: v for k, v in res.items() if not isinstance(v, list)}})
        for k, v in (res.get("counts") or {}).items():
            self.counts[k] = self.counts.get(k, 0) + v
        for f in res.get("failures", [])[:3]:
            ops = [s.get("op") for s in f.get("steps", []) if isinstance(s, dict)]
            self.fail(name, "%s: %s%s" % (kind, f.get("failure"),
                                         (" after " + " ".join(map(str, ops))) if ops else ""), f)

    @property
    def failed(self):
        return bool(self.violations)


def known_findings(ctx):
    p = os.path.join(lib.VERIF, "known-findings.json")
    with open(p) as f:
        entries = json.load(f)["findings"]
    for e in entries:
        if e.get("status") != "known" or e["property"] != ctx.prop:
            continue
        if "repro" in e:
            res = lib.vh("known", id=e["repro"])
            if not res.get("reproduced"):
                log("known finding %s no longer reproduces" % e["id"])
                continue
        if "seen" in e and e["seen"] not in ctx.seen:
            log("known finding %s did not show in this run" % e["id"])
            continue
        print("KNOWN-FINDING: property=%s %s: %s" % (ctx.prop, e["id"], e["what"]), flush=True)


def evidence(ctx, level, err=None):
    d = os.path.join(lib.VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    ev = {
        "property": ctx.prop, "tier": ctx.tier, "seed": ctx.seed, "level": level,
        "coverage": {
            "states": ctx.states, "transitions": ctx.transitions,
            "traces_validated_against_impl": ctx.traces,
            "samples": ctx.samples[:5] or ["(none)"],
            "stages": ctx.stages, "steps_replayed": ctx.steps, "observations_compared": ctx.obs,
            "step_counts": ctx.counts, "violation_details": ctx.violations,
        },
        "assumptions": ctx.assumptions,
        "wall_s": round(time.time() - ctx.t0, 1),
        "violations": len(ctx.violations),
    }
    if err:
        ev["coverage"]["error"] = err
    with open(os.path.join(d, ctx.prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)


def main():
    prop, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    import props
    if prop not in props.PROPS:
        print("unknown property", prop)
        return 2
    lib.load_env()
    ctx = Ctx(prop, tier, seed)
    level, fn = props.PROPS[prop]
    try:
        lib.build()
        fn(ctx)
        if not ctx.failed:
            known_findings(ctx)
        evidence(ctx, level)
    except lib.EngineDied as e:
        ctx.fail("died", "the engine ended the process: %s" % e, {"what": str(e)})
        evidence(ctx, level)
    except lib.ToolError as e:
        print("TOOL ERROR:", e, flush=True)
        evidence(ctx, level, str(e))
        return 1 if ctx.failed else 2
    finally:
        shutil.rmtree(lib.SCRATCH, ignore_errors=True)
    log("%s %s: %s in %.1fs" % (prop, tier, "violated" if ctx.failed else "held", time.time() - ctx.t0))
    return 1 if ctx.failed else 0


if __name__ == "__main__":
    sys.exit(main())

import argparse
import importlib
import json
import os
import sys
import time
import warnings

warnings.simplefilter("ignore")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def findings_for(prop):
    with open(os.path.join(HERE, "known_findings.json")) as f:
        data = json.load(f)
    return {e["key"]: e for e in data["findings"] if e["property"] == prop}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=None)
    ap.add_argument("--replay")
    a = ap.parse_args()
    tier = a.tier or os.environ.get("VERIF_TIER") or "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()

    from . import engine
    try:
        import attitude
        assert attitude.__file__.startswith("/repo/"), attitude.__file__
        mod = importlib.import_module("mc.props." + a.prop.lower())
    except Exception:
        # the code under test can no longer be imported
        import traceback
        import types
        tb = traceback.format_exc()

        def broken(ctx):
            ctx.fail(tb[-1500:])
        mod = types.SimpleNamespace(TASKS=dict(load=broken), shards=lambda tier: [("load", {})])

    if a.replay:
        with open(a.replay) as f:
            rec = json.load(f)
        for v in rec["violations"]:
            if v["task"] == "finding":
                print(json.dumps(v))
                continue
            res = engine.run_shards(mod, [(v["task"], v["kwargs"])], replay=v["case"])
            if not any(r["violations"] or r["error"] for r in res):
                # the case is not separable: run the whole shard again
                res = engine.run_shards(mod, [(v["task"], v["kwargs"])])
            for r in res:
                if r["error"]:
                    print(r["error"])
                for w in r["violations"]:
                    print("REPRODUCED", json.dumps(w))
                if not r["violations"]:
                    print("not reproduced in isolation:", json.dumps(v["case"]))
        return 0

    shards = mod.shards(tier)
    results = engine.run_shards(mod, shards)

    states, trans, traces, depth = set(), 0, 0, 0
    outcomes, notes = {}, {}
    viol, found, samples = [], {}, []
    tasks = {}
    for r in results:
        states |= r["states"]
        trans += r["transitions"]
        traces += r["traces"]
        depth = max(depth, r["maxdepth"])
        for k, v in r["outcomes"].items():
            outcomes[k] = outcomes.get(k, 0) + v
        for k, v in r["notes"].items():
            notes[k] = notes.get(k, 0) + v
        t = tasks.setdefault(r["task"], dict(states=0, transitions=0, cases=0))
        t["states"] += len(r["states"])
        t["transitions"] += r["transitions"]
        t["cases"] += r["traces"]
        for v in r["violations"]:
            viol.append(dict(v, task=r["task"], kwargs=r["kwargs"]))
        for v in r["findings"]:
            found.setdefault(v["key"], v)
        if len(samples) < 4 and r["samples"]:
            samples.append(dict(task=r["task"], case=r["samples"][0]))
        if r["error"]:
            # An exception outside of any case: the code no longer does what the
            # exploration needs in order to proceed
            viol.append(dict(case=r["current"], message="exploration aborted: " + r["error"][-1500:],
                             task=r["task"], kwargs=r["kwargs"]))

    listed = findings_for(a.prop)
    knownlines = []
    for k, v in sorted(found.items()):
        if k in listed and listed[k]["status"] == "known":
            knownlines.append("KNOWN-FINDING: property={} {}".format(a.prop, listed[k]["what"]))
        else:
            viol.append(dict(case=v["case"], message=v["message"], task="finding", kwargs={}))

    wall = time.time() - t0
    bounds = getattr(mod, "BOUNDS", {})
    cov = dict(
        states=len(states), transitions=trans, traces_validated_against_impl=traces,
        max_depth=depth, exhaustive=not viol,
        bounds=bounds.get(tier, bounds) if isinstance(bounds, dict) else bounds,
        tasks=tasks, distinct_outcomes=len(outcomes),
        outcomes=dict(sorted(outcomes.items(), key=lambda x: -x[1])[:20]),
        notes=notes, samples=samples,
        known_findings=sorted(found))
    ev = dict(property=a.prop, tier=tier, seed=seed, level="model_checking",
              coverage=cov, assumptions=getattr(mod, "ASSUMPTIONS", []),
              wall_s=round(wall, 3), violations=len(viol))
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", a.prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, sort_keys=True, default=str)

    print("{} [{}] states={} transitions={} traces={} outcomes={} depth={} shards={} {:.1f}s".format(
        a.prop, tier, len(states), trans, traces, len(outcomes), depth, len(shards), wall))
    for t, v in sorted(tasks.items()):
        print("   {}: {}".format(t, v))
    for k in knownlines:
        print(k)
    if viol:
        d = os.path.join(HERE, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        fn = os.path.join(d, a.prop + ".json")
        with open(fn, "w") as f:
            json.dump(dict(property=a.prop, tier=tier, violations=viol[:40]), f, indent=1, default=str)
        for v in viol[:8]:
            print("  {} {}: {}".format(v["task"], json.dumps(v["case"], default=str)[:400], v["message"][:600]))
        print("VIOLATION property={} replay={}".format(a.prop, fn))
        return 1
    return 0


if __name__ == "__main__":
    sys.exit(main())

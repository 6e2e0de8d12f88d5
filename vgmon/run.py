import argparse
import importlib
import json
import os
import sys
import time

from . import core


def write_json(path, obj):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        json.dump(obj, f, indent=1, sort_keys=True)
        f.write("\n")


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--only", help="only this workload")
    ap.add_argument("--procs", type=int, default=min(8, os.cpu_count() or 1))
    a = ap.parse_args()
    t0 = time.monotonic()
    sys.path.insert(0, core.REPO)
    try:
        mod = importlib.import_module("vgmon.props." + a.prop.lower())
    except Exception as e:
        print(f"INCONCLUSIVE property={a.prop}: cannot load the code or the monitors: {e!r}")
        return 2
    if a.replay:
        r = json.load(open(a.replay))
        T = core.Tracker(a.prop, r["tier"], r["seed"])
        w = next(w for w in mod.WORKLOADS if w.name == r["workload"])
        real, sys.stdout = sys.stdout, open(os.devnull, "w")
        core.run_case(T, w, r["case"])
        sys.stdout = real
        print(json.dumps(T.dump()["violations"], indent=1))
        if T.violations:
            print(f"VIOLATION property={a.prop} replay={a.replay}")
            return 1
        print("replayed: no violation")
        return 0

    workloads = [w for w in mod.WORKLOADS if not a.only or w.name == a.only]
    if hasattr(mod, "warmup"):
        real, sys.stdout = sys.stdout, open(os.devnull, "w")
        try:
            mod.warmup()
        except Exception:
            pass  # any defect shows in the cases themselves
        sys.stdout = real
    limit = 780 if a.tier == "quick" else 6 * 3600
    res = core.run_parallel(a.prop, a.tier, a.seed, workloads, a.procs, limit)

    # Monitors that must have observed something.
    for w in workloads:
        if w.count[a.tier] and not res["violations"]:
            for name in w.must:
                if not (res["monitors"].get(name) or res["events"].get(name)):
                    res["inconclusive"].append(f"monitor/event '{name}' of {w.name} never fired")
    # Cases the watchdog cut off, or that there was no time for, decide nothing: too many of them, and the run decides nothing.
    for w in workloads:
        cut = [c for c in res["cut"] if c[0] == w.name]
        if len(cut) > max(1, .2 * w.count[a.tier]) and not res["violations"]:
            res["inconclusive"].append(f"watchdog: {len(cut)} cases of {w.name} ran longer than {cut[0][2]}s")
    if not sum(res["monitors"].values()) and not res["violations"]:
        res["inconclusive"].append("no monitor fired")

    ev = {"property": a.prop, "tier": a.tier, "seed": a.seed, "level": "exploration",
          "coverage": {"evaluations": int(sum(res["monitors"].values())),
                       "distinct_nontrivial": len(res["cases"]),
                       "rule": mod.RULE,
                       "samples": res["samples"][:8] or [{"note": "no case completed"}],
                       "monitor_decisions": dict(sorted(res["monitors"].items())),
                       "observed_events": dict(sorted(res["events"].items())),
                       "cases_scheduled": {w.name: w.count[a.tier] for w in workloads},
                       "cases_cut_off_by_the_watchdog": [list(c) for c in res["cut"]],
                       "cases_not_started_for_lack_of_time": dict(res["late"]),
                       "known_findings_seen": res["known"],
                       "inconclusive": res["inconclusive"]},
          "assumptions": getattr(mod, "ASSUMPTIONS", []),
          "wall_s": round(time.monotonic() - t0, 2),
          "violations": len(res["violations"])}
    write_json(os.path.join(core.VERIF, "evidence", f"{a.prop}.json"), ev)

    for key, text in sorted(res["known"].items()):
        print(f"KNOWN-FINDING: property={a.prop} [{key}] {text}")
    if res["violations"]:
        for k, v in enumerate(res["violations"][:5]):
            path = os.path.join(core.VERIF, "evidence", "replay", f"{a.prop}-{k}.json")
            write_json(path, v)
            print(f"VIOLATION property={a.prop} replay={os.path.relpath(path, core.VERIF)}")
            print(f"  {v['workload']}[{v['case']}] monitor={v['monitor']} detail={json.dumps(v['detail'])[:600]}")
        return 1
    if res["inconclusive"]:
        for line in res["inconclusive"]:
            print(f"INCONCLUSIVE property={a.prop}: {line}")
        return 2
    for name, i, limit in res["cut"]:
        print(f"NOTE property={a.prop}: {name}[{i}] was cut off after {limit}s and decides nothing")
    for name, n in sorted(res["late"].items()):
        print(f"NOTE property={a.prop}: no time for {n} cases of {name}")
    print(f"HELD property={a.prop} tier={a.tier} seed={a.seed}: {ev['coverage']['evaluations']} oracle decisions over "
          f"{len(res['cases'])} distinct cases, {ev['wall_s']}s")
    return 0


if __name__ == "__main__":
    code = main()
    sys.stdout.flush()
    os._exit(code)

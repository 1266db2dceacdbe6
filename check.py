#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: runs one static check against /repo's current tree.
exit 0 held / 1 violation (VIOLATION line) / 2 the analysis itself is broken."""
import importlib, json, os, sys, time, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "rules"))
sys.setrecursionlimit(20000)
import qa


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    t0 = time.time()
    mod = importlib.import_module(pid.lower())
    R = qa.Report(pid, getattr(mod, "__doc__", ""))
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    ev = os.path.join(HERE, "evidence", pid + ".json")
    rp = os.path.join(HERE, "evidence", pid + ".replay.json")
    try:
        mod.run(R, tier)
    except qa.Broken as e:
        if R.viol:
            pass  # a violation was established before the anchor problem: report it
        else:
            print("ANALYSIS-BROKEN %s: %s" % (pid, e), file=sys.stderr)
            sys.exit(2)
    except Exception:
        if not R.viol:
            traceback.print_exc()
            print("ANALYSIS-BROKEN %s" % pid, file=sys.stderr)
            sys.exit(2)
    known = qa.known_findings(pid)
    new, old = [], []
    for v in R.viol:
        k = "%s | %s" % (v["rule"], v["instance"])
        (old if any(x and x in k for x in known) else new).append(v)
    out = {
        "property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "other",
        "coverage": {"explanation": (mod.__doc__ or "").strip(), "rule": R.rule.strip(), **R.cov, "instances": R.insts[:400]},
        "wall_s": round(time.time() - t0, 2),
        "assumptions": R.assume or getattr(mod, "ASSUME", []) or ["clang 18's AST/CFG of the sources with the project's own flags is the program that is built"],
        "violations": len(new),
    }
    if R.notes:
        out["coverage"]["notes"] = R.notes
    with open(ev, "w") as f:
        json.dump(out, f, indent=1, default=str)
    print("%s %s: %s" % (pid, tier, ", ".join("%s=%s" % kv for kv in R.cov.items())))
    for v in old:
        print("KNOWN-FINDING: property=%s %s: %s" % (pid, v["where"], v["instance"]))
    if new:
        with open(rp, "w") as f:
            json.dump(new, f, indent=1, default=str)
        for v in new[:20]:
            print("  %s: %s\n    instance: %s\n    %s" % (v["where"], v["rule"], v["instance"], v["detail"]))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        sys.exit(1)
    if os.path.exists(rp):
        os.remove(rp)
    sys.exit(0)


if __name__ == "__main__":
    main()

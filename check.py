#!/usr/bin/env python3
"""check.py <property id>   decides one property on the current tree of /repo (see DESIGN.md)

exit 0: holds on everything analysed;  exit 1: `VIOLATION property=<id> replay=<path>`;  exit 2: no answer."""
import json
import os
import sys
import time

if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "engine"))
sys.setrecursionlimit(20000)

import pipeline          # noqa: E402
import props             # noqa: E402


def known(pid):
    out = {}
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("finding: property=%s " % pid):
                rest = line.split("key=", 1)[1]
                key, _, why = rest.partition(" :: ")
                out[key.strip()] = why.strip()
    return out


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t = time.time()
    ctx = props.Context(tier)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    ev = os.path.join(HERE, "evidence", pid + ".json")
    try:
        res = props.REGISTRY[pid](ctx)
    except pipeline.AnalysisBroken as e:
        print("ANALYSIS-BROKEN property=%s %s" % (pid, e))
        res = props.Result.last
        if not res or not res.violations:
            return 2
        ctx.incomplete.append(str(e))        # what was reported before stands
    finally:
        ctx.close()
    kn = known(pid)
    new, old = [], []
    for v in res.violations:
        (old if v["key"] in kn else new).append(v)
    cov = dict(res.coverage)
    cov["explanation"] = res.explanation
    if old:
        cov["known_findings_seen"] = [v["key"] for v in old]
    json.dump(dict(property=pid, tier=tier, seed=seed, level=res.level, coverage=cov, assumptions=res.assumptions,
                   wall_s=round(time.time() - t, 2), violations=len(new)), open(ev, "w"), indent=1, default=str)
    for v in old:
        print("KNOWN-FINDING: property=%s %s [%s]" % (pid, kn[v["key"]], v["key"]))
    if new:
        rp = os.path.join(HERE, "evidence", pid + ".violations.txt")
        with open(rp, "w") as f:
            for v in new:
                f.write("rule: %s\nkey: %s\nwhere: %s\nwhat: %s\n" % (v["rule"], v["key"], v["where"], v["what"]))
                for k in ("entry", "chain", "path"):
                    if v.get(k):
                        f.write("%s: %s\n" % (k, v[k]))
                f.write("\n")
        for v in new[:20]:
            print("%s: %s: %s" % (v["where"], v["rule"], v["what"]))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    if ctx.incomplete:
        print("ANALYSIS-BROKEN property=%s out of time in %s" % (pid, ", ".join(ctx.incomplete)))
        return 2
    print("OK property=%s: %s" % (pid, json.dumps({k: v for k, v in cov.items() if isinstance(v, int)})))
    return 0


if __name__ == "__main__":
    sys.exit(main())

#!/usr/bin/env python3
"""check.py PROPERTY: decide one property on /repo's current source."""
import json, os, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import rtlib
from props import P

VERIF = rtlib.VERIF


def known():
    r = {}
    p = os.path.join(VERIF, "known_findings.txt")
    for line in open(p):
        line = line.rstrip("\n")
        if line.startswith("finding: property="):
            # finding: property=ID key=<rule key> what fails
            head, _, what = line[len("finding: "):].partition(" what=")
            d = dict(x.split("=", 1) for x in head.split(" ", 1))
            r.setdefault(d["property"], {})[d["key"]] = what
    return r


def main():
    pid = sys.argv[1]
    t0 = time.time()
    p = next(x for x in P if x["id"] == pid)
    tier = os.environ.get("VERIF_TIER", "quick")
    d = rtlib.run_rules(p["rules"])
    if d["broken"]:
        print("BROKEN %s: %s" % (pid, "; ".join(d["broken"])))
        return 2
    c = d["counts"]
    low = ["%s=%d (expected at least %d)" % (k, c.get(k, 0), v) for k, v in p["floor"].items() if c.get(k, 0) < v]
    # a rule without its instances decides nothing
    kn = known().get(pid, {})
    fs = [f for f in d["findings"] if f["rule"] in p["rules"]]
    # a listed finding stays the same finding when its code moves into a helper of the function it is listed for
    new = [f for f in fs if f["key"] not in kn and not (f.get("callers") and all(c in kn for c in f["callers"]))]
    old = sorted({f["key"] for f in fs if f["key"] in kn})
    ev = os.path.join(VERIF, "evidence")
    os.makedirs(ev, exist_ok=True)
    cov = {"explanation": p["explain"], "rules": p["rules"], "translation_units": d["translation_units"],
           "counts": c, "samples": ["%s: %s" % (k, x[:160]) for k, v in sorted(d["notes"].items()) for x in v[:20]],
           "note_totals": {k: len(v) for k, v in d["notes"].items()}}
    rep = {"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": p.get("level", "other"), "coverage": cov,
           "assumptions": [p["note"]], "wall_s": round(time.time() - t0, 2), "violations": len(new)}
    json.dump(rep, open(os.path.join(ev, pid + ".json"), "w"), indent=1)
    for k in old:
        print("KNOWN-FINDING: property=%s %s: %s" % (pid, k, kn[k]))
    if new:
        path = os.path.join(ev, pid + ".report.txt")
        with open(path, "w") as f:
            for x in new:
                f.write("%s:%s: [%s] %s\n    in %s\n    key %s\n" % (x["file"], x["line"], x["rule"], x["msg"], x["func"], x["key"]))
        for x in new[:40]:
            print("%s:%s: [%s] %s" % (x["file"], x["line"], x["rule"], x["msg"]))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    if low:
        print("BROKEN %s: too few instances: %s" % (pid, ", ".join(low)))
        return 2
    print("OK %s: %s (%.1fs)" % (pid, ", ".join("%s=%d" % (k, c.get(k, 0)) for k in p["floor"]), time.time() - t0))
    return 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except rtlib.Broken as e:
        print("BROKEN: %s" % e)
        sys.exit(2)
    except Exception:
        traceback.print_exc()
        sys.exit(2)

"""python -m mc.run <PROPERTY> [quick|thorough]      run one check
   python -m mc.run --replay <file>                  replay one recorded violation"""
import importlib
import json
import os
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import core  # noqa: E402
from mc.registry import REGISTRY  # noqa: E402


def main():
    args = sys.argv[1:]
    if args[0] == "--replay":
        return replay(args[1])
    pid = args[0]
    tier = args[1] if len(args) > 1 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    mod = importlib.import_module(REGISTRY[pid]["module"])
    t0 = time.time()
    tally, cov = mod.check(pid, tier)
    wall = time.time() - t0

    if tally.errors:
        sys.stderr.write("check %s: harness error in %d task(s)\n" % (pid, len(tally.errors)))
        sys.stderr.write(tally.errors[0] + "\n")
        tally.viol.append(("harness", "the check could not interpret what the code did: "
                           + tally.errors[0].strip().splitlines()[-2][:300], {"traceback": tally.errors[0]}))

    kf = core.known_findings(pid)
    unlisted, hit = [], {}
    for key, msg, rep in tally.viol:
        for f in kf:
            if f["key"] == key:
                hit.setdefault(f["key"], f)
                break
        else:
            unlisted.append((key, msg, rep))
    for k, f in hit.items():
        print("KNOWN-FINDING: property=%s %s" % (pid, f["what"]))

    coverage = dict(cov)
    coverage["counters"] = {k: v for k, v in sorted(tally.n.items())}
    coverage["samples"] = coverage.get("samples") or pick(tally.samples, seed)
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": REGISTRY[pid]["level"],
        "coverage": coverage,
        "assumptions": REGISTRY[pid].get("assumptions", []),
        "wall_s": round(wall, 2), "violations": len(unlisted),
    }
    os.makedirs(os.path.join(core.VERIF, "evidence", "replay"), exist_ok=True)
    with open(os.path.join(core.VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)

    if not unlisted:
        print("OK property=%s tier=%s %s" % (pid, tier, json.dumps(
            {k: v for k, v in coverage.items() if isinstance(v, (int, bool))})))
        return 0
    seen = set()
    for i, (key, msg, rep) in enumerate(unlisted):
        if key in seen:
            continue
        seen.add(key)
        path = os.path.join(core.VERIF, "evidence", "replay", "%s-%d.json" % (pid, len(seen)))
        with open(path, "w") as f:
            json.dump({"property": pid, "key": key, "message": msg, "case": rep}, f, indent=1, default=str)
        print("VIOLATION property=%s replay=%s" % (pid, path))
        print("   [%s] %s" % (key, msg[:600]))
        if len(seen) >= 8:
            break
    return 1


def pick(samples, seed):
    if not samples:
        return []
    samples = sorted(samples, key=repr)
    k = seed % len(samples)
    return (samples[k:] + samples[:k])[:3]


def replay(path):
    d = json.load(open(path))
    mod = importlib.import_module(REGISTRY[d["property"]]["module"])
    t = core.Tally()
    with core.quiet():
        mod.replay(d["property"], d["case"], t)
    for key, msg, _ in t.viol:
        print("VIOLATION property=%s replay=%s" % (d["property"], path))
        print("   [%s] %s" % (key, msg))
    return 1 if t.viol else 0


if __name__ == "__main__":
    sys.stdout.flush()
    rc = main()
    sys.stdout.flush()
    os._exit(rc)

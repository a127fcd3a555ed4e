"""writes DESIGN.md from the text below, properties.jsonl, MANIFEST.json, known_findings.json, the evidence of the last
run and tools/catches.json (which check catches which planted change):  python3 tools/design.py"""
import json, os, re
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.chdir(HERE)

HEAD = open("tools/design_head.md").read()
TAIL = open("tools/design_tail.md").read()
ORACLE = json.load(open("tools/design_oracles.json"))

props = [json.loads(l) for l in open("properties.jsonl")]
man = {c["property"]: c for c in json.load(open("MANIFEST.json"))["checks"]}
kf = json.load(open("known_findings.json"))
kf = kf if isinstance(kf, list) else kf.get("findings", kf)
tests = {}


def bounds(p):
    f = "evidence/%s.json" % p
    if not os.path.exists(f):
        return "", ""
    d = json.load(open(f))
    c = d["coverage"]
    b = c.get("bounds")
    if isinstance(b, list):
        mm = {}
        for x in b:
            mm.setdefault((x["alphabet"], x["depth"]), {}).setdefault(x["mm"], []).append(x["book"])
        out = []
        for (al, dep), m in sorted(mm.items(), key=lambda kv: (kv[0][1], kv[0][0])):
            books = sorted(set(sum(m.values(), [])))
            out.append("`%s` to depth %d on books %s (%s)" % (al, dep, ", ".join(books), "/".join(sorted(m))))
        b = "operation alphabets " + "; ".join(out)
    elif b is None:
        b = "see `scenarios`/`sc` of the module"
    n = "%s: %s states, %s transitions/comparisons" % (d.get("tier"), c.get("states"), c.get("transitions"))
    return b, n


out = [HEAD, "\n## Properties\n\nFor each: what decides it, the oracle, the bounds of the last recorded run, and why this reaches what tests cannot.\n"]
for p in props:
    i = p["id"]
    b, n = bounds(i)
    m = man[i]
    why = next((p[k] for k in ("why_tests_cant",) if k in p), "")
    if not why:
        why = " ".join(str(v) for k, v in p.items() if "why" in k)
    if not why and isinstance(p.get("quantification"), dict):
        why = " ".join(str(v) for k, v in p["quantification"].items() if "why" in k)
    out.append("### %s %s\n" % (i, p["title"]))
    out.append("* *Decided by*: %s." % m["technique"].rstrip("."))
    out.append("* *Oracle*: %s" % ORACLE[i])
    if b:
        out.append("* *Bounds*: %s. (%s)" % (b.rstrip("."), n))
    if why:
        out.append("* *Beyond the tests*: %s" % why)
    fx = [k for k in kf if k.get("property") == i]
    if fx:
        k = [x for x in fx if x["status"] == "known"]
        f = [x for x in fx if x["status"] == "fixed"]
        if f:
            out.append("* *Defects found and repaired*: " + "; ".join(
                re.sub(r"^fixed: property=\S+ ", "", x["what"]) for x in f) + ".")
        if k:
            out.append("* *Known findings*: " + "; ".join(x["what"] for x in k) + ".")
    out.append("")
out.append(TAIL)
if os.path.exists("tools/catches.json"):
    c = json.load(open("tools/catches.json"))
    out.append("## Planted changes and what catches them\n\n| change | property | needs | caught by |\n|---|---|---|---|")
    for s in sorted(os.listdir("seeded")):
        meta = json.load(open("seeded/%s/meta.json" % s))
        out.append("| %s | %s | %s | %s |" % (s, meta["property"], meta["needs"].replace("|", "/"), ", ".join(c.get(s, [])) or "**not caught**"))
open("DESIGN.md", "w").write("\n".join(out) + "\n")

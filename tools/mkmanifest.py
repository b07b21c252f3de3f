#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.txt and the harnesses present."""
import json, glob, os, re, sys


def harnesses(pid):
    """its own harnesses and those of other properties which name it (// @also)"""
    return [h for h in sorted(glob.glob(V + "/harness/*.cc")) if os.path.basename(h).startswith(pid + "_") or re.search(r"^// @also.*\b%s\b" % pid, open(h).read(), re.M)]


V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = []
cur = None
for l in open(V + "/tools/props.txt"):
    l = l.rstrip("\n")
    if not l or l.startswith("#"):
        continue
    m = re.match(r"^\[(\w+)\] (.*)$", l)
    if m:
        cur = {"id": m.group(1), "title": m.group(2)}
        props.append(cur)
        continue
    k, v = l.split(":", 1)
    cur[k.strip()] = v.strip()
out, checks, na = [], [], []
for p in props:
    assert len(p["title"]) <= 80, p["id"]
    mech = []
    for x in p["where"].split(";"):
        n, w = x.rsplit("@", 1)
        mech.append({"name": n.strip(), "where": w.strip()})
    for f in p["files"].split():
        assert os.path.exists("/repo/src/sst/core/" + f), (p["id"], f)
    out.append({"id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"].split(), "text": p["quant"]}, "why_tests_cant": p["why"],
                "anchors": {"files": ["src/sst/core/" + f for f in p["files"].split()], "mechanism": mech}})
    if "na" in p:
        na.append({"property": p["id"], "reason": p["na"]})
        continue
    hs = harnesses(p["id"])
    if not hs:
        na.append({"property": p["id"], "reason": "no harness has been built for it yet"})
        continue
    dirs = [re.match(r"//\s*@(bounds|outside|assume)\s+(.*)", l) for h in sorted(hs) for l in open(h)]
    t = lambda k: "; ".join(m.group(2).strip() for m in dirs if m and m.group(1) == k)
    note = "Symbolic execution of the real code, every assertion and memory access on every path decided by a solver within these bounds: " + t("bounds") + "."
    if t("assume"): note += " Assumes: " + t("assume") + "."
    if t("outside"): note += " Outside: " + t("outside") + "."
    note += " Trusts clang's IR at -O1, the engine (selftest, z3 cross-checks, native replay of sampled paths) and the library models in models/."
    checks.append({"property": p["id"], "quick_cmd": "python3 tools/check.py %s --tier quick" % p["id"], "thorough_cmd": "python3 tools/check.py %s --tier thorough" % p["id"],
                   "technique": "symbolic execution of LLVM IR of the real sources with SAT/SMT (bit-blasting, z3, cvc5) verdicts; native replay of counterexamples", "level": "model_checking", "level_note": note})
g = []
for p in props:
    g.append("### %s %s\n" % (p["id"], p["title"]))
    if "na" in p: g.append("Not applicable: " + p["na"] + "\n"); continue
    for h in harnesses(p["id"]):
        ls = open(h).read().split("\n")
        d = lambda k: " ".join(m.group(2).strip() for m in (re.match(r"//\s*@(\w+)\s*(.*)", l) for l in ls) if m and m.group(1) == k)
        g.append("* `%s`: %s" % (os.path.basename(h), ls[0].lstrip("/ ")))
        g.append("  * real code: harness headers and " + (d("sources") or "header-only code") + (" (threads)" if "// @threads" in ls else ""))
        for k, n in (("bounds", "bounds"), ("assume", "assumes"), ("outside", "outside")):
            if d(k): g.append("  * %s: %s" % (n, d(k)))
    g.append("")
D = open(V + "/DESIGN.md").read()
a, b = D.split("<!-- BEGIN GENERATED -->")[0], D.split("<!-- END GENERATED -->")[1]
open(V + "/DESIGN.md", "w").write(a + "<!-- BEGIN GENERATED -->\n" + "\n".join(g) + "<!-- END GENERATED -->" + b)
with open(V + "/properties.jsonl", "w") as f:
    for o in out:
        f.write(json.dumps(o) + "\n")
json.dump({"version": 1, "setup_cmd": "bash tools/setup.sh", "checks": checks, "not_applicable": na,
           "notes": "Each check compiles the real sources of /repo it names to LLVM IR, executes the harness symbolically and replays results natively; see DESIGN.md."},
          open(V + "/MANIFEST.json", "w"), indent=1)
try:
    import jsonschema
    jsonschema.validate(json.load(open(V + "/MANIFEST.json")), json.load(open("/root/.vp/MANIFEST.schema.json")))
    s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for o in out: jsonschema.validate(o, s)
    print("schemas ok")
except ImportError:
    pass
print(len(out), "properties,", len(checks), "checks,", len(na), "n/a")

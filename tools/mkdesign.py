#!/usr/bin/env python3
"""Writes /verif/DESIGN.md from tools/design_head.md, tools/design_props.py, the spec table, the harness comments, the known-findings table and the planted bugs."""
import json, os, re, glob
ROOT = os.path.abspath(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
T = lambda *p: os.path.join(ROOT, *p)
P = {}
def how(id, oracle, why): P[id] = (oracle, why)
exec(open(T("tools", "design_props.py")).read())
props = [json.loads(l) for l in open(T("properties.jsonl"))]
jobs = json.load(open(T("jobs.json")))
man = json.load(open(T("MANIFEST.json")))
na = {x["property"]: x["reason"] for x in man["not_applicable"]}
doc = {}
for f in glob.glob(T("harness/h/*.go")):
    s = open(f).read()
    for m in re.finditer(r"((?://[^\n]*\n)+)func (H\w+)\(\)", s):
        t = " ".join(l[2:].strip() for l in m.group(1).strip().split("\n"))
        doc[m.group(2)] = re.sub(r"^H\w+:\s*", "", t)
seeds = {}
res = json.load(open(T("tools", "seed_results.json")))
for d in sorted(glob.glob(T("seeded/*"))):
    m = json.load(open(os.path.join(d, "meta.json")))
    seeds.setdefault(m["property"], []).append((os.path.basename(d), m))
out = [open(T("tools", "design_head.md")).read().rstrip(), "", "## Properties", ""]
for p in props:
    i = p["id"]
    out += ["### %s %s" % (i, p["title"]), ""]
    if i in na:
        out += ["Not applicable: %s." % na[i], ""]
        continue
    j = jobs[i]
    out += ["Oracle: " + P[i][0], "", "Beyond the tests: " + P[i][1], "", "Harnesses (quick tier):"]
    seen = {}
    for x in j["quick"]:
        seen.setdefault(x["h"], []).append(x)
    for x in j["thorough"]:
        seen.setdefault(x["h"], [])
    for h, xs in seen.items():
        def par(x):
            s = ", ".join("%s=%s" % kv for kv in x.get("p", {}).items()) or "no parameters"
            o = x.get("o", {})
            if o.get("sched"): s += "; schedules: %d preemptions, %d free switches" % (o.get("preempt", 0), o.get("switches", 0)) + (", timers race" if o.get("timer_race") else "")
            return s
        out.append("- `%s`: %s %s" % (h, doc.get(h, ""), " / ".join("(%s)" % par(x) for x in xs) or "(thorough only)"))
    out += ["", "Bounds: " + "; ".join(j["bounds"]) + "."]
    if j["outside"]: out += ["Outside: " + "; ".join(j["outside"]) + "."]
    out += [""]
out += ["## Planted bugs and the checks that catch them", "", "`caught` is the property's own quick check (a VIOLATION line and exit 1); every one passes the stable tests and fails its demo.", "",
        "| planted bug | property | needs | result |", "|---|---|---|---|"]
for i in sorted(seeds):
    for n, m in seeds[i]:
        out.append("| %s | %s | %s | %s |" % (n, i, m["needs"].replace("|", "/").replace("\n", " "), res.get(n, "not run")))
out += [""]
known = json.load(open(T("known-findings.json")))
out += ["## Genuine defects found on the pinned tree", "", "All were repaired by `fix:` commits in /repo (listed in known-findings.json as fixed, which suppresses nothing); there is no open finding." if all(k["status"] == "fixed" for k in known) else "", ""]
for k in known:
    out.append("- %s%s: %s" % (k["property"], (" (" + k["commit"][:7] + ")") if k.get("commit") else " (open)", k["text"]))
open(T("DESIGN.md"), "w").write("\n".join(out) + "\n")
missing = [i for i in jobs if i not in P]
print("DESIGN.md", len(out), "lines; missing:", missing)

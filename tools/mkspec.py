#!/usr/bin/env python3
"""Writes /verif/jobs.json (what each check explores) and /verif/MANIFEST.json from the table below."""
import json, os
ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
JOBS, NOTES, NA = {}, {}, {}

def job(h, t=60, cover=(), bounds="", o=None, **p):
    extra = {k[1:]: p.pop(k) for k in list(p) if k.startswith("_")}
    d = dict(h=h, t=t)
    if p: d["p"] = p
    if o: d["o"] = o
    if cover: d["cover"] = list(cover)
    if bounds: d["bounds"] = bounds
    d.update(extra)
    return d

def prop(id, quick, thorough=None, bounds=(), outside=(), assumptions=(), note=""):
    JOBS[id] = dict(quick=quick, thorough=thorough or quick, bounds=list(bounds), outside=list(outside), assumptions=list(assumptions))
    NOTES[id] = note

def na(id, reason):
    NA[id] = reason

exec(open(os.path.join(ROOT, "tools", "spec_table.py")).read())

ids = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
for i in ids:
    if i not in JOBS and i not in NA:
        NA[i] = "no check has been built for this property yet"
assert set(JOBS) | set(NA) == set(ids) and not set(JOBS) & set(NA), (set(JOBS) & set(NA), set(ids) ^ (set(JOBS) | set(NA)))
with open(os.path.join(ROOT, "jobs.json"), "w") as f:
    f.write("{\n" + ",\n".join(' %s: {\n  "quick": [\n   %s],\n  "thorough": [\n   %s],\n  "bounds": %s,\n  "outside": %s,\n  "assumptions": %s}' % (
        json.dumps(i), ",\n   ".join(json.dumps(j) for j in JOBS[i]["quick"]), ",\n   ".join(json.dumps(j) for j in JOBS[i]["thorough"]),
        json.dumps(JOBS[i]["bounds"]), json.dumps(JOBS[i]["outside"]), json.dumps(JOBS[i]["assumptions"])) for i in ids if i in JOBS) + "\n}\n")
M = dict(version=1, setup_cmd="bash build.sh", hooks=dict(guard="verif", enable="go build -tags=verif (the loader and the replay build pass it)", source_commits=["6542bcd"]), checks=[], not_applicable=[dict(property=i, reason=NA[i]) for i in ids if i in NA])
for i in ids:
    if i not in JOBS: continue
    M["checks"].append(dict(property=i, quick_cmd="./check.sh %s quick" % i, thorough_cmd="./check.sh %s thorough" % i, evidence_file="evidence/%s.json" % i,
        technique="symbolic execution of the Go SSA of /repo with z3 (QF_BV) deciding every branch and assertion; counterexamples replayed against the compiled code",
        level="model_checking",
        level_note=("Bounded: holds for every input, choice and schedule within the bounds, nothing is said outside them. " + NOTES[i] + " Trusted: the SSA executor and its models of standard-library packages (checked by replaying sampled paths natively on every run), go/ssa, z3.").replace("  ", " ")))
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(M, f, indent=1); f.write("\n")
print(len(M["checks"]), "checks,", len(M["not_applicable"]), "not applicable")

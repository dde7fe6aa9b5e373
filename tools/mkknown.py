#!/usr/bin/env python3
"""Writes known-findings.json: repaired defects ("fixed", they suppress nothing) and open ones."""
import json, os, subprocess
K = []
def fixed(prop, commit, text):
    K.append(dict(property=prop, status="fixed", commit=commit, text="fixed: property=%s %s %s" % (prop, commit, text)))
def open_(prop, text, **sel):
    K.append(dict(property=prop, status="open", text=text, **sel))
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "known_table.py")).read())
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "known-findings.json"), "w") as f:
    json.dump(K, f, indent=1); f.write("\n")
print(len(K))

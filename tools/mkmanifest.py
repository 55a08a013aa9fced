#!/usr/bin/env python3
"""Generates MANIFEST.json from the harness modules that exist."""
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.dont_write_bytecode = True
NA = {}
na = os.path.join(V, "tools", "not_applicable.json")
if os.path.exists(na):
    NA = json.load(open(na))
checks, napp = [], []
for line in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(line)
    i = p["id"]
    f = os.path.join(V, "harness", i.lower() + ".py")
    if i in NA or not os.path.exists(f):
        napp.append(dict(property=i, reason=NA.get(i, "check under construction")))
        continue
    m = importlib.import_module("harness." + i.lower())
    checks.append(dict(property=i, quick_cmd="python3-vt -m sym.run %s --tier quick" % i,
                       thorough_cmd="python3-vt -m sym.run %s --tier thorough" % i,
                       evidence_file="evidence/%s.json" % i,
                       technique="symbolic execution of the real Python source, obligations decided by z3 (LRA/NRA), counterexamples replayed on real torch",
                       level="model_checking",
                       level_note="Bounds: %s. Assumes: real arithmetic instead of floating point; symbolic models of torch/numpy (validated against the real build each run); %s" % (
                           m.BOUNDS, "; ".join(m.ASSUMPTIONS) or "nothing further")))
json.dump(dict(version=1, setup_cmd="python3-vt -c 'import z3, numpy' && /opt/venv/bin/python -c 'import torch'", checks=checks, not_applicable=napp,
               notes="No hooks in /repo: the checks read /repo/src on every run and execute it symbolically; fixes are listed in known_findings.txt."),
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
print(len(checks), "checks", len(napp), "not applicable")

#!/usr/bin/env python3
"""Writes MANIFEST.json from specs.py."""
import json, os, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import specs
NOTE = ("bounded: every input, schedule and crash point within the bounds stated in the evidence; the solver decides each branch "
        "and assertion over the bitcode compiled from the current sources; index and log stores are stand-ins")
checks = []
for pid in sorted(specs.PROPS):
    checks.append(dict(property=pid, quick_cmd="python3 check.py %s --tier quick" % pid,
                       thorough_cmd="python3 check.py %s --tier thorough" % pid,
                       evidence_file="evidence/%s.json" % pid,
                       technique="symbolic execution of the compiler's intermediate representation of the real sources with an SMT solver (z3), native replay of counterexamples",
                       level="model_checking", level_note=NOTE))
m = dict(version=1, setup_cmd="python3 check.py --setup",
         hooks=dict(guard="none", enable="no hooks: the sources are compiled unchanged", source_commits=[]),
         checks=checks, not_applicable=getattr(specs, "NOT_APPLICABLE", []),
         notes="See DESIGN.md. Set VERIF_REPO to check another source tree.")
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)

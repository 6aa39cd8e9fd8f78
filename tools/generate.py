#!/usr/bin/env python3
"""Writes properties.jsonl, MANIFEST.json and the generated table of DESIGN.md from spec.py."""
import json
import os
import re
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.dont_write_bytecode = True
from spec import NA, PROPS  # noqa: E402


def files(mech):
    out = []
    for _, w in mech:
        for f in re.findall(r"(?:src|generator|scripts)/[\w/.*-]+", w):
            if f not in out:
                out.append(f)
    return out


with open(V + "/properties.jsonl", "w") as f:
    for p in PROPS + NA:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
                                anchors=dict(files=files(p["mech"]), mechanism=[dict(name=a, where=b) for a, b in p["mech"]], observe_at=p.get("entry", []), hook_needed=None))) + "\n")
checks = []
for p in PROPS:
    quick = [c for c in p["cases"] if not c.get("thorough")]
    tech = p["opts"].get("technique", "symbolic execution of the compiled LLVM IR of the real sources; every branch and assertion decided by z3/cvc5 over exact reals; models replayed on the unmodified build")
    checks.append(dict(property=p["id"], quick_cmd="python3 run.py " + p["id"], thorough_cmd="VERIF_TIER=thorough python3 run.py " + p["id"], technique=tech, level="model_checking",
                       level_note="Bounded: " + "; ".join(c["name"] + ": " + c["bounds"] for c in quick) + ". Doubles are exact reals (no rounding); trusts clang lowering, the IR rewriter/runtime (validated by native replay each run) and the SMT solvers."
                       + (" Assumes: " + "; ".join(p["assume"]) + "." if p["assume"] else "")))
json.dump(dict(version=1, setup_cmd="python3 run.py setup", checks=checks, not_applicable=[dict(property=p["id"], reason=p["reason"]) for p in NA],
               notes="No hooks in /repo: the checks compile the unmodified sources to LLVM IR and instrument that. spec.py is the source of this file, properties.jsonl and the table of DESIGN.md (tools/generate.py)."),
          open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
t = "| id | property | cases and bounds |\n|---|---|---|\n"
for p in PROPS:
    t += "| %s | %s | %s |\n" % (p["id"], p["title"], "<br>".join("`%s` %s%s" % (c["name"], c["bounds"], " (thorough tier)" if c.get("thorough") else "") for c in p["cases"]))
t += "\nNot applicable:\n\n" + "".join("- **%s %s**: %s.\n" % (p["id"], p["title"], p["reason"]) for p in NA)
d = V + "/DESIGN.md"
if os.path.exists(d):
    s = open(d).read()
    s = re.sub(r"(?s)(<!-- table -->\n).*?(<!-- /table -->)", lambda m: m.group(1) + t + m.group(2), s)
    open(d, "w").write(s)

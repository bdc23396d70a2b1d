#!/usr/bin/env python3
"""Writes DESIGN.md: design_head.md, one section a property out of mon/spec.py,
the table of planted bugs out of seeded/*/meta.json, design_tail.md."""
import importlib.util
import json
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
spec = importlib.util.spec_from_file_location("spec", os.path.join(VERIF, "mon", "spec.py"))
mod = importlib.util.module_from_spec(spec)
spec.loader.exec_module(mod)
here = os.path.join(VERIF, "tools")
out = [open(os.path.join(here, "design_head.md"), encoding="utf-8").read()]
out.append("## The properties, one by one\n")
for pid, p in mod.SPEC.items():
    out.append(f"### {pid}: {p['title']}\n")
    out.append(f"*Specified.* {p['statement']}\n")
    out.append(f"*Quantified over.* {p['text']}\n")
    out.append(f"*Decided by.* {p['technique'].capitalize()}. {p['rule']}\n")
    out.append(f"*Why tests can't.* {p['why']}\n")
    out.append(f"*Strength.* {p['note']}" + (" Assumes: " + " ".join(p["assumptions"])
                                               if p["assumptions"] else "") + "\n")
rows = []
seeded = os.path.join(VERIF, "seeded")
for name in sorted(os.listdir(seeded)):
    m = os.path.join(seeded, name, "meta.json")
    if os.path.exists(m):
        d = json.load(open(m))
        caught = d.get("caught_by")
        rows.append(f"| {name} | {d['property']} | {d['what_it_breaks']} | "
                    f"{', '.join(caught) if caught else '**missed**' if caught == [] else '?'} |")
out.append("## Planted bugs and the checks that catch them\n")
out.append("The last column is measured by `tools/matrix.py` (seed 1, quick tier, all checks run "
           "against every bug).\n")
out.append("| bug | property | what it breaks | caught by |\n|---|---|---|---|\n" + "\n".join(rows)
           + "\n")
out.append(open(os.path.join(here, "design_tail.md"), encoding="utf-8").read())
text = "\n".join(out)
if "-" in sys.argv:
    print(text)
else:
    open(os.path.join(VERIF, "DESIGN.md"), "w", encoding="utf-8").write(text)

#!/usr/bin/env python3
"""Writes DESIGN.md from design_head.md, design_tail.md and the table of planted bugs."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["Each is caught by the check of the property it is listed under.", "", "| property | planted bug | needs |", "|---|---|---|"]
ms = [(json.load(open(d + "/meta.json")), os.path.basename(d)) for d in glob.glob(V + "/seeded/*")]
rows += [f"| {m['property']} | `{n}` | {m['needs']} |" for m, n in sorted(ms, key=lambda x: (x[0]["property"], x[1]))]
head, tail = (open(f"{V}/tools/design_{p}.md").read() for p in ("head", "tail"))
open(V + "/DESIGN.md", "w").write(head.rstrip() + "\n" + tail.replace("@TABLE@", "\n".join(rows)))

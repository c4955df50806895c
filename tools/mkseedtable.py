#!/usr/bin/env python3
"""Writes the table of seeded bugs (DESIGN.md, section 6) from seeded/*/meta.json.
`tools/seedtable.json` holds what happened when each was planted; absent = caught at first."""
import json, os, re
here = os.path.dirname(os.path.abspath(__file__)); root = os.path.dirname(here)
notes = json.load(open(os.path.join(here, "seedtable.json")))
rows = []
for d in sorted(os.listdir(os.path.join(root, "seeded"))):
    m = json.load(open(os.path.join(root, "seeded", d, "meta.json")))
    rows.append("| %s | %s | %s | %s |" % (d, m["property"], m["what_it_breaks"].replace("|", "/").split(". ")[0].rstrip("."),
                                            notes.get(d, "at first")))
text = open(os.path.join(root, "DESIGN.md")).read()
head, _, rest = text.partition("<!-- seeds -->")
_, _, tail = rest.partition("<!-- /seeds -->")
table = "\n| bug | property (= check) | what it breaks | caught |\n|---|---|---|---|\n" + "\n".join(rows) + "\n"
open(os.path.join(root, "DESIGN.md"), "w").write(head + "<!-- seeds -->" + table + "<!-- /seeds -->" + tail)

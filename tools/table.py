"""Rewrites the table of planted bugs at the end of DESIGN.md from a log of tools/try_seeds.py: python3 tools/table.py LOG..."""
import json
import os
import re
import sys

got = {}
for f in sys.argv[1:]:
    id = None
    for l in open(f):
        m = re.match(r"(c\d\d-\S+)\s+C\d\d ", l)
        if m:
            id = m.group(1)
        m = re.match(r"    (C\d\d) rc=\d+ (CAUGHT|MISSED) .*?(?:run (\d+)\))?", l)
        if m and id:
            r = re.search(r"\(run (\d+)\)", l)
            got.setdefault(id, []).append((m.group(1), m.group(2), r and int(r.group(1))))
s = open("DESIGN.md").read()
h = "## Planted bugs and the checks that catch them"
s = s[:s.index(h)] if h in s else s.rstrip() + "\n\n"
out = [h, "", "Each in `seeded/<id>/`; `tools/try_seeds.py` validates one (clean demo, build, 15 tests, failing demo) and runs its",
       "property's quick check on a scratch copy. \"Caught at\" lists the run indexes at which recent tries (several master seeds) caught it;",
       "\"missed at first\" and a dash mean it was caught when planted (the former after strengthening, see below) and not tried again in these logs.", "",
       "| planted bug | needs | caught by | caught at |", "|---|---|---|---|"]
for id in sorted(os.listdir("seeded")):
    m = json.load(open("seeded/%s/meta.json" % id))
    g = got.get(id, [])
    out.append("| %s | %s | %s | %s |" % (id, m["needs"].replace("|", "/"), ", ".join(sorted({p for p, c, _ in g if c == "CAUGHT"})) or m["property"],
                                          ", ".join(str(r) if c == "CAUGHT" else "missed at first" for _, c, r in g) or "-"))
note = "tools/seed_notes.md"
if os.path.exists(note):
    out += ["", open(note).read().strip()]
open("DESIGN.md", "w").write(s + "\n".join(out) + "\n")

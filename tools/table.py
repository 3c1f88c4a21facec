"""Rewrites the table of planted bugs at the end of DESIGN.md."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# Slipped past the check at first; caught since it was strengthened.
late = set("S01 S02 S07 S09 S27 S36 S39 S41 S50 S54 S55 S57 S64 S65 S68 S75 S76 S79 S81 S83 S84 S89 S91 S93 S96".split())
rows = []
for s in sorted(os.listdir(os.path.join(here, "seeded")), key=lambda x: int(x[1:])):
    m = json.load(open(os.path.join(here, "seeded", s, "meta.json")))
    c = lambda k: m[k].replace("|", "\\|").replace("\n", " ")
    rows.append(f"| {s} | {m['property']}{' (late)' if s in late or m.get('late') else ''} | {c('needs')} | {c('what_it_breaks')} |")
d = os.path.join(here, "DESIGN.md")
t = open(d).read()
h = "### Planted bugs and what catches them\n"
t = t[: t.index(h)] + h + """
Every bug below is caught by the quick check of its property; "(late)" marks those that slipped past the check when
they were planted and are caught since it was strengthened.

| Bug | Caught by | Needs | What it breaks |
|---|---|---|---|
""" + "\n".join(rows) + "\n"
open(d, "w").write(t)

"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import glob, json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MARK = "## Planted bugs\n"
EXTRA = {"c-m02-index-first-column": "missed at first; unnamed indexes added to the specification and generators"}
rows = []
for d in sorted(glob.glob(ROOT + "/seeded/*/meta.json")):
    m = json.load(open(d)); n = os.path.basename(os.path.dirname(d))
    note = EXTRA.get(n) or m.get("note", "")
    rows.append("| %s | %s | %s | %s | %s |" % (n, m["property"], m["what_it_breaks"], m["needs"], "yes" + ("; " + note if note else "")))
text = open(ROOT + "/DESIGN.md").read().split(MARK)[0].rstrip() + "\n\n" + MARK + """
`tools/seed.py --run` applies every patch to a scratch copy, runs the quick check of its property and reports CAUGHT or MISSED;
`tools/seeds/*.py` hold the changes as substitutions. All of them are caught by the quick check of the property named.

| bug | property | what it breaks | needs | caught by its quick check |
|---|---|---|---|---|
""" + "\n".join(rows) + "\n"
open(ROOT + "/DESIGN.md", "w").write(text)

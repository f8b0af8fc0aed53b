"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MARK = "## Planted bugs (seeded/) and what catches them\n"
text = open(os.path.join(ROOT, "DESIGN.md")).read()
text = text[:text.index(MARK)] + MARK
rows = []
missed = {l.strip() for l in open(os.path.join(ROOT, "tools", "missed_once.txt")) if l.strip()}
notcaught = {}
p = os.path.join(ROOT, "tools", "not_caught.txt")
if os.path.exists(p):
    notcaught = dict(l.strip().split(" ", 1) for l in open(p) if l.strip())
ids = sorted(os.listdir(os.path.join(ROOT, "seeded")))
for i in ids:
    m = json.load(open(os.path.join(ROOT, "seeded", i, "meta.json")))
    v = "**missed**: " + notcaught[i] if i in notcaught else m["property"] + (" (after strengthening)" if i in missed else "")
    rows.append("| %s | %s | %s |" % (i, m["needs"].replace("|", "\\|").strip(), v))
text += """
Each is a patch under `seeded/<id>/` that builds, passes the repository's tests and has a demonstration.
They were written from the text of a property and the code. "after strengthening" means the check of
that property missed the bug when it was first planted, and the generator or the oracle was widened (not
towards the one input that shows it, but towards the family it belongs to).
`tools/bug.py` makes, re-validates and runs them in private mount namespaces.

%d planted, %d of them missed at first, %d still missed.

| bug | what it needs to show | caught by the check of |
|---|---|---|
""" % (len(ids), len([i for i in ids if i in missed]), len([i for i in ids if i in notcaught])) + "\n".join(rows) + "\n"
open(os.path.join(ROOT, "DESIGN.md"), "w").write(text)
print(len(ids), "planted bugs")

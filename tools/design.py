"""Fill the tables of DESIGN.md (run: python3 tools/design.py).

tools/design/*.md hold the prose; this script joins it with the findings and
the planted bugs so that the document stays in step with the repository."""
import glob
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
text = open(os.path.join(ROOT, "tools", "design", "main.md")).read()
props = []
for line in open(os.path.join(ROOT, "properties.jsonl")):
    p = json.loads(line)
    path = os.path.join(ROOT, "tools", "design", p["id"] + ".md")
    body = open(path).read().strip() if os.path.exists(path) else "(not described)"
    props.append("### %s %s\n\n%s\n" % (p["id"], p["title"], body))
fixed = []
for line in open(os.path.join(ROOT, "known-findings.txt")):
    if line.startswith("fixed: property="):
        pid, commit, what = line[len("fixed: property="):].strip().split(" ", 2)
        fixed.append("* %s `%s` %s" % (pid, commit, what))
known = []
for line in open(os.path.join(ROOT, "known-findings.txt")):
    if line.startswith("known: property="):
        known.append("* " + line[len("known: property="):].strip())
caught = {}
path = os.path.join(ROOT, "tools", "design", "caught.json")
if os.path.exists(path):
    caught = json.load(open(path))
rows = ["| id | property | what it breaks | needs | caught by |", "|---|---|---|---|---|"]
for d in sorted(glob.glob(os.path.join(ROOT, "seeded", "*"))):
    m = json.load(open(os.path.join(d, "meta.json")))
    i = os.path.basename(d)
    rows.append("| %s | %s | %s | %s | %s |" % (i, m["property"], m["what_it_breaks"], m["needs"], caught.get(i, "?")))
text = (text.replace("@PROPS@", "\n".join(props)).replace("@FIXED@", "\n".join(fixed))
        .replace("@KNOWN@", "\n".join(known) or "None.").replace("@SEEDED@", "\n".join(rows)))
open(os.path.join(ROOT, "DESIGN.md"), "w").write(text)

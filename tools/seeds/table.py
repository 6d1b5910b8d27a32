"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json and tools/seeds/caught.json."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
caught = json.load(open(V + "/tools/seeds/caught.json"))
rows = ["| planted bug | property | what it needs | what it breaks | caught by |", "|---|---|---|---|---|"]
ms = [(json.load(open(f))["property"], os.path.basename(os.path.dirname(f)), json.load(open(f))) for f in glob.glob(V + "/seeded/*/meta.json")]
for p, i, m in sorted(ms):
    rows.append("| %s | %s | %s | %s | %s |" % (i, p, m["needs"], m["what_it_breaks"], caught.get(i, "not run")))
d = open(V + "/DESIGN.md").read()
new = "<!-- seeds -->\n" + "\n".join(rows) + "\n<!-- /seeds -->"
d = d.replace("SEEDTABLE", new) if "SEEDTABLE" in d else re.sub(r"<!-- seeds -->.*<!-- /seeds -->", lambda m: new, d, flags=re.S)
open(V + "/DESIGN.md", "w").write(d)

"""rewrite the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json"""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(f))
    rows.append("| %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(f)), m.get("caught_by", m["property"]), m["what_it_breaks"].strip(), m["needs"].strip()))
p = V + "/DESIGN.md"
s = open(p).read()
s = s[:s.index("## Planted bugs")] + """## Planted bugs

`seeded/` holds changes written from the properties' text and the code, not from the checks. The check in the second column reports
the bug (each run against a patched copy). Those a check missed at first (B26, and more than ten earlier ones) led to a wider specification, not to a different bug.

| bug | reported by | what it breaks | needs |
|---|---|---|---|
""" + "\n".join(rows) + "\n"
open(p, "w").write(s)

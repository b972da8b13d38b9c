"""writes the table of seeded changes into DESIGN.md (between the markers) from seeded/*/meta.json and catch.json"""
import json, os, re
HERE = os.path.dirname(os.path.abspath(__file__))
c = json.load(open(os.path.join(HERE, "catch.json")))
rows = ["| change | property | needs | caught by |", "|---|---|---|---|"]
for i in sorted(os.listdir(os.path.join(HERE, "seeded"))):
    m = json.load(open(os.path.join(HERE, "seeded", i, "meta.json")))
    r = c.get(i)
    rows.append("| %s | %s | %s | %s |" % (i, m["property"], m["needs"].replace("|", "/"), "not run yet" if r is None else "%s quick" % m["property"] if r["caught"] else "MISSED"))
p = os.path.join(HERE, "DESIGN.md")
s = open(p).read()
s = re.sub(r"(<!-- catch -->\n).*?(<!-- /catch -->)", lambda m: m.group(1) + "\n".join(rows) + "\n" + m.group(2), s, flags=re.S)
open(p, "w").write(s)

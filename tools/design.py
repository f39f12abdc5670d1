"""Rewrites the table of planted bugs at the end of DESIGN.md."""
import glob, json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| planted bug | what it needs | caught by |", "|---|---|---|"]
for d in sorted(glob.glob(H + "/seeded/*")):
    m = json.load(open(d + "/meta.json"))
    rows.append("| %s | %s | %s |" % (os.path.basename(d), m["needs"].replace("|", "/"), m.get("caught_by", m["property"])))
p = H + "/DESIGN.md"
s = open(p).read()
k = "<!-- planted bugs -->\n"
open(p, "w").write(s.split(k)[0] + k + "\n" + "\n".join(rows) + "\n")

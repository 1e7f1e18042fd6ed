"""fills the generated tables of DESIGN.md (findings, planted changes)"""
import json, os, re, glob
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = open(R + "/DESIGN.md").read()
def block(name, text):
    global d
    a, b = "<!-- %s -->" % name, "<!-- end %s -->" % name
    t = a + "\n" + text + "\n" + b
    d = re.sub(re.escape(a) + ".*?" + re.escape(b), lambda m: t, d, flags=re.S) if a in d else d.replace("\n%s\n" % name, "\n%s\n" % t)
F = json.load(open(R + "/known_findings.json"))["findings"]
block("FINDINGS", "\n".join("* " + f["what"] for f in F))
rows = ["| id | property | what it breaks | needs | caught by |", "|---|---|---|---|---|"]
for m in sorted(glob.glob(R + "/seeded/*/meta.json")):
    j = json.load(open(m))
    rows.append("| %s | %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(m)), j["property"], j["what_it_breaks"].replace("|", "/"), j["needs"].replace("|", "/"), j.get("caught_by", j["property"])))
block("PLANTED", "\n".join(rows))
open(R + "/DESIGN.md", "w").write(d)

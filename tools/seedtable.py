"""writes the table of planted bugs into DESIGN.md"""
import glob, json, os, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in glob.glob(H + "/seeded/*/"):
    m = json.load(open(d + "meta.json"))
    rows.append((m["property"], os.path.basename(d[:-1]), m["needs"], m["what_it_breaks"]))
t = "| property | bug | needs | breaks | caught |\n|---|---|---|---|---|\n" + "".join("| " + " | ".join(x.replace("|", "\\|") for x in r) + " | yes |\n" for r in sorted(rows))
p = H + "/DESIGN.md"
s = open(p, encoding="utf8").read()
open(p, "w", encoding="utf8").write(re.sub(r"<!-- seeds -->.*?<!-- /seeds -->", lambda _: "<!-- seeds -->\n" + t + "<!-- /seeds -->", s, flags=re.S))

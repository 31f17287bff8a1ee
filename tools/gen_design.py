"""Refreshes the table of planted changes of DESIGN.md."""
import glob, json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = "| change | caught by | needs |\n|---|---|---|\n"
for f in sorted(glob.glob(os.path.join(here, "seeded/*/meta.json"))):
    d = json.load(open(f))
    rows += "| %s | %s | %s |\n" % (f.split("/")[-2], d["property"], d["needs"])
p = os.path.join(here, "DESIGN.md")
s = open(p).read()
s = re.sub(r"\| change \| caught by \| needs \|\n(\|.*\n)+", lambda m: rows, s)
open(p, "w").write(s)

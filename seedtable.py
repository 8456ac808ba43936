"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
here = os.path.dirname(os.path.abspath(__file__))
rows = ["| bug | property, caught by | needs |", "|---|---|---|"]
for f in sorted(glob.glob(here + "/seeded/*/meta.json")):
    m = json.load(open(f))
    one = lambda t: " ".join(str(t).split()).replace("|", "/")
    rows.append(f"| {os.path.basename(os.path.dirname(f))}: {one(m['what_it_breaks'])} | {m['property']} | {one(m['needs'])} |")
p = here + "/DESIGN.md"
s = open(p).read()
s = re.sub(r"(<!-- seeds[^\n]*-->\n).*?(<!-- end -->)", lambda m: m[1] + "\n" + "\n".join(rows) + "\n\n" + m[2], s, flags=re.S)
open(p, "w").write(s)

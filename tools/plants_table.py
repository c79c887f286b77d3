"""Rewrite the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
rows = ["| planted bug | property | needs | caught by |", "|---|---|---|---|"]
for d in sorted(glob.glob("seeded/*/meta.json")):
    m = json.load(open(d))
    rows.append(f"| {os.path.basename(os.path.dirname(d))} | {m['property']} | {m['needs']} | {m['property']} quick |")
s = open("DESIGN.md").read()
t = "\n".join(rows)
if "@@PLANTS@@" in s:
    s = s.replace("@@PLANTS@@", "<!-- plants -->\n" + t + "\n<!-- end -->")
else:
    s = re.sub(r"<!-- plants -->.*?<!-- end -->", lambda _: "<!-- plants -->\n" + t + "\n<!-- end -->", s, flags=re.S)
open("DESIGN.md", "w").write(s)

"""Puts DESIGN.md together from its parts, the planted bugs and the record of what caught them."""
import glob, json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = os.path.join(HERE, "tools")
rd = lambda n: open(os.path.join(T, n)).read()
caught = json.loads(rd("caught.json"))
k = json.load(open(os.path.join(HERE, "known_findings.json")))
out = [rd("design_head.md"), "| property | commit | what failed |\n|---|---|---|\n"]
for f in k["fixed"]:
    a = f.split(" ", 3)
    out.append(f"| {a[1].split('=')[1]} | {a[2]} | {a[3]} |\n")
out.append(rd("design_tail.md"))
out.append("## Planted bugs\n\nWritten from a property and the code, each passing the repository's tests; "
           "`seeded/<id>/` holds patch and demonstration.\n\n| bug | needs | caught by |\n|---|---|---|\n")
for d in sorted(glob.glob(os.path.join(HERE, "seeded", "*", "meta.json"))):
    m = json.load(open(d))
    i = os.path.basename(os.path.dirname(d))
    out.append(f"| {i} | {m['needs']} | {caught.get(i, m['property'])} |\n")
open(os.path.join(HERE, "DESIGN.md"), "w").write("".join(out))

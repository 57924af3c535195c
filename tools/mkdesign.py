"""Refreshes the generated part of DESIGN.md (after the marker line): repairs, findings, seeded bugs, not applicable."""
import json, os, glob
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MARK = "<!-- generated by tools/mkdesign.py -->\n"
d = open(os.path.join(H, "DESIGN.md")).read().split(MARK)[0]
o = [MARK, "\n## 6. Defects found by the checks\n\nRepaired (`fix:` commits in /repo; the check of the property reports the defect again if it returns):\n\n| property | commit | what failed |\n|---|---|---|\n"]
find = []
for l in open(os.path.join(H, "known_findings.txt")):
    if l.startswith("fixed:"):
        _, p, c, w = l.strip().split(" ", 3)
        o.append("| %s | %s | %s |\n" % (p.split("=")[1], c, w))
    elif l.startswith("finding:"):
        find.append("* " + l.strip()[len("finding: property="):] + "\n")
o += ["\nRecorded, not repaired:\n\n"] + find
o.append("\n## 7. Planted bugs\n\nEach is in `seeded/<id>` and is reported by the check of its property.\n\n| seed | caught by | needs |\n|---|---|---|\n")
missed = {l.split()[0]: l.strip() for l in open(os.path.join(H, "tools", "missed.txt"))} if os.path.exists(os.path.join(H, "tools", "missed.txt")) else {}
for f in sorted(glob.glob(os.path.join(H, "seeded", "*", "meta.json"))):
    m = json.load(open(f)); s = f.split("/")[-2]
    o.append("| %s | %s | %s |\n" % (s, "**missed**" if s in missed else m["property"], m["needs"].replace("|", "/")))
o.append("\n## 8. Not applicable\n\n")
for x in json.load(open(os.path.join(H, "MANIFEST.json")))["not_applicable"]:
    o.append("* **%s**: %s\n" % (x["property"], x["reason"]))
open(os.path.join(H, "DESIGN.md"), "w").write(d + "".join(o))

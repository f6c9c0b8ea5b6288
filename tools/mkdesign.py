"""Fill the generated tables of DESIGN.md (between markers)."""
import json, os, re, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
levels = json.load(open(os.path.join(V, "tools", "levels.json")))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
design = json.load(open(os.path.join(V, "tools", "design.json")))
table = []
for p in props:
    i = p["id"]
    table.append("### %s %s\n\n*Level: %s.* %s\n\n%s\n" % (i, p["title"], levels[i][0], levels[i][2], design.get(i, "")))
find = []
for f in json.load(open(os.path.join(V, "known-findings.json"))):
    find.append("* " + f["text"] if f["status"] == "fixed" else "* KNOWN " + f["what"])
caught = json.load(open(os.path.join(V, "tools", "caught.json"))) if os.path.exists(os.path.join(V, "tools", "caught.json")) else {}
seeded = ["| planted bug | property | needs | check |", "|---|---|---|---|"]
for d in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    n = os.path.basename(os.path.dirname(d)); m = json.load(open(d))
    seeded.append("| %s | %s | %s | %s |" % (n, m["property"], m["needs"], caught.get(n, "?")))
path = os.path.join(V, "DESIGN.md")
s = open(path).read()
for key, lines in (("TABLE", table), ("FINDINGS", find), ("SEEDED", seeded)):
    block = "<!-- %s -->\n%s\n<!-- /%s -->" % (key, "\n".join(lines), key)
    if "@%s@" % key in s:
        s = s.replace("@%s@" % key, block)
    else:
        s = re.sub(r"<!-- %s -->.*?<!-- /%s -->" % (key, key), lambda _: block, s, flags=re.S)
open(path, "w").write(s)

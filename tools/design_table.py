"""python3 tools/design_table.py LOG...: rewrites the table of planted bugs in DESIGN.md from logs of tools/try_bugs.sh"""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = {}
for f in sys.argv[1:]:
    for l in open(f):
        m = re.match(r"(\S+) (C\d\d) rc=(\d+) (?:suite ([\w-]+): )?", l)
        if m:
            res[m[1]] = (m[3], m[4])
rows = ["| bug | property | needs | caught by |", "|---|---|---|---|"]
for d in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(f"{V}/seeded/{d}/meta.json"))
    rc, su = res.get(d, ("?", None))
    c = f"{m['property']} / {su}" if rc == "1" else ("missed" if rc == "0" else "?")
    rows.append(f"| `{d}` | {m['property']} | {m['needs']} | {c} |")
p = V + "/DESIGN.md"
s = open(p).read()
if "@@TABLE@@" in s:
    s = s.replace("@@TABLE@@", "<!--T-->\n<!--/T-->")
s = re.sub(r"<!--T-->.*<!--/T-->", lambda _: "<!--T-->\n" + "\n".join(rows) + "\n<!--/T-->", s, flags=re.S)
open(p, "w").write(s)
print([d for d in os.listdir(V + "/seeded") if res.get(d, ("?",))[0] != "1"])

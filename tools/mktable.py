"""tools/mktable.py FILE: the catch table at the end of DESIGN.md from the output of seedcheck.py"""
import json, os, re, sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D = V + "/DESIGN.md"
s = open(D).read()
i = s.index("| planted bug | needs | reported by |\n|---|---|---|\n") + len("| planted bug | needs | reported by |\n|---|---|---|\n")
rows = {}
for f in sys.argv[1:]:
    for l in open(f):
        w = l.split()
        if w and os.path.isdir(V + "/seeded/" + w[0]):
            rows[w[0]] = " ".join(re.findall(r"(C\d\d)=caught", l)) or "-"
txt = ""
for k in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(V + "/seeded/%s/meta.json" % k))
    txt += "| %s | %s | %s |\n" % (k, m["needs"], rows.get(k, "not run"))
open(D, "w").write(s[:i] + txt)

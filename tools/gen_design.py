"""DESIGN.md from tools/DESIGN.in.md, props.py, properties.jsonl, known_findings.jsonl and seeded/*/meta.json"""
import json, os, re, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, R)
from props import PROPS
titles = {}
for l in open(R + "/properties.jsonl"):
    d = json.loads(l)
    titles[d["id"]] = (d["title"], d)
FN = json.load(open(R + "/tools/design_functions.json"))
t = []
for p in sorted(PROPS):
    s = PROPS[p]
    f = FN.get(p, {})
    t.append("### %s %s" % (p, titles[p][0]))
    t.append("")
    t.append("Level `%s`. Contract files: %s." % (s.get("level", "proof"), ", ".join("`contracts/%s`" % x for x in s["files"])))
    for k, n in (("proved", "Under contract and proved"), ("bounded", "Bounded"), ("oracle", "Oracle"), ("assumed", "Assumed"), ("why", "Beyond the tests")):
        if f.get(k):
            t.append("*%s:* %s" % (n, f[k]))
    t.append("*Scope:* " + s.get("level_note", ""))
    t.append("")
fs = []
for l in open(R + "/known_findings.jsonl"):
    d = json.loads(l)
    fs.append("| %s | %s | %s |" % (d["property"], d["commit"][:7], re.sub(r"^fixed: property=\S+ \S+ ", "", d["what"])))
sd = []
for n in sorted(os.listdir(R + "/seeded")):
    m = json.load(open(R + "/seeded/%s/meta.json" % n))
    sd.append("| %s | %s | %s; needs %s | %s |" % (n, m["property"], m["what_it_breaks"], m["needs"], FN.get("caught", {}).get(n, "check " + m["property"])))
s = open(R + "/tools/DESIGN.in.md").read()
s = s.replace("@@TABLE@@", "\n".join(t)).replace("@@FINDINGS@@", "\n".join(fs)).replace("@@SEEDS@@", "\n".join(sd))
open(R + "/DESIGN.md", "w").write(s)

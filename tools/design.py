#!/usr/bin/env python3
"""writes DESIGN.md from tools/DESIGN.tmpl.md, properties.jsonl, tools/claims.py, specs/90_properties.spec and seeded/ (run by hand)."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P, NA = {}, []
def prop(id, proved, bounded, level="proof", proof=True, note="", assumptions=()):
    P[id] = dict(proved=proved, bounded=bounded, note=note, assumptions=list(assumptions))
exec(open(V + "/tools/claims.py").read())
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
roots, pkg = {}, ""
for l in open(V + "/specs/90_properties.spec"):
    if l.startswith("package "): pkg = l.split()[1]
    m = re.match(r"property (\w+): (.*)", l)
    if m: roots.setdefault(m.group(1), []).append((pkg, [x.strip() for x in m.group(2).split(",")]))
for f in sorted(glob.glob(V + "/specs/*.spec")):
    if f.endswith("90_properties.spec"): continue
    pkg = ""
    for l in open(f):
        if l.startswith("package "): pkg = l.split()[1]
        m = re.match(r"property (\w+): (.*)", l)
        if m: roots.setdefault(m.group(1), []).append((pkg, [x.strip() for x in m.group(2).split(",")]))
na = {x["property"]: x["reason"] for x in NA}
out = []
for d in props:
    i = d["id"]
    out.append("### %s %s\n" % (i, d["title"]))
    if i in na:
        out.append("Not applicable: %s.\n" % na[i])
        continue
    c = P[i]
    out.append("* **Contracts (for all inputs, no bound):** %s" % c["proved"])
    r = []
    for pk, fs in roots.get(i, []):
        r.append("%s: %s" % (pk, ", ".join("`%s`" % x for x in fs) if len(fs) <= 40 else "%d functions, `%s` ... `%s`" % (len(fs), fs[0], fs[-1])))
    if r: out.append("* **Roots** (with every contract they use): " + "; ".join(r) + ".")
    out.append("* **Bounded only, labelled so** (harness on the real code, 25 s / 180 s): %s" % c["bounded"])
    if c["assumptions"]: out.append("* **Assumed:** " + "; ".join(c["assumptions"]) + ".")
    if c["note"]: out.append("* " + c["note"])
    out.append("* **Beyond the tests:** " + d["why_tests_cant"])
    out.append("")
sd = ["| planted bug | property | needs | caught by |", "|---|---|---|---|"]
caught = json.load(open(V + "/tools/caught.json")) if os.path.exists(V + "/tools/caught.json") else {}
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(f)); n = os.path.basename(os.path.dirname(f))
    sd.append("| %s: %s | %s | %s | %s |" % (n, m["what_it_breaks"].replace("|", "/"), m["property"], m["needs"].replace("|", "/"), caught.get(n, "`./check %s`" % m["property"])))
t = open(V + "/tools/DESIGN.tmpl.md").read()
open(V + "/DESIGN.md", "w").write(t.replace("@@PROPS@@", "\n".join(out)).replace("@@SEEDS@@", "\n".join(sd)))

#!/usr/bin/env python3
"""DESIGN.md from DESIGN.in.md: the rules, findings and planted changes are read where they are kept."""
import ast, glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
man = json.load(open(f"{V}/MANIFEST.json"))
titles = {}
for l in open(f"{V}/properties.jsonl"):
    p = json.loads(l)
    titles[p["id"]] = p["title"]
rules = []
for f in sorted(glob.glob(f"{V}/checks/c*.py")):
    c = {}
    for n in ast.parse(open(f).read()).body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in ("TECHNIQUE", "RULE", "TRUSTED"):
            c[n.targets[0].id] = ast.literal_eval(n.value)
    i = os.path.basename(f)[:-3].upper()
    rules.append(f"* **{i} {titles[i]}.** *Method:* {c['TECHNIQUE']}. *Rule:* {c['RULE']}." + (" *Trusted:* " + "; ".join(c["TRUSTED"]) + "." if c.get("TRUSTED") else ""))
na = [f"* **{n['property']} {titles[n['property']]}** – {n['reason']}." for n in man["not_applicable"]]
fx = []
for l in open(f"{V}/known_findings.txt"):
    m = re.match(r"fixed: property=(\w+) (\w+) (.*)", l)
    if m:
        fx.append(f"* {m[1]} `{m[2]}` – {m[3]}")
sd = ["| seed | caught by | what it breaks | needs |", "|---|---|---|---|"]
for d in sorted(glob.glob(f"{V}/seeded/*/meta.json")):
    m = json.load(open(d))
    sd.append(f"| {d.split('/')[-2]} | {m['property']} | {m['what_it_breaks']} | {m['needs']} |")
t = open(f"{V}/tools/DESIGN.in.md").read()
for k, v in (("RULES", rules), ("NA", na), ("FIXES", fx), ("SEEDS", sd)):
    t = t.replace(f"@@{k}@@", "\n".join(v))
open(f"{V}/DESIGN.md", "w").write(t)

"""assemble DESIGN.md from tools/design/*.md, the harness metadata and known_findings.txt"""
import importlib, json, os, re, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, R)
D = os.path.join(R, "tools", "design")
rd = lambda n: open(os.path.join(D, n)).read()
props = [json.loads(l) for l in open(os.path.join(R, "properties.jsonl"))]
notes = json.loads(rd("notes.json"))
out = [rd("head.md"), "\n## 2. The properties\n\nFor each: statement (short), how it is decided and against what oracle, bounds, assumptions beyond the common ones.\n"]
for p in props:
    try:
        m = importlib.import_module("harness." + p["id"].lower())
    except ImportError:
        out.append("\n### %s %s\n\nNot claimed.\n" % (p["id"], p["title"]))
        continue
    out.append("\n### %s %s\n\n%s\n" % (p["id"], p["title"], p["statement"]))
    n = notes.get(p["id"], {})
    if n.get("how"):
        out.append("\n*Decided by:* %s\n" % n["how"])
    out.append("\n*Why tests cannot:* %s\n" % p["why_tests_cant"])
    out.append("\n*Bounds:* %s.\n" % m.BOUNDS)
    if m.ASSUMPTIONS:
        out.append("\n*Assumes:* %s.\n" % "; ".join(m.ASSUMPTIONS))
    out.append("\n*Cases:* %d quick, %d thorough.%s\n" % (len(m.cases("quick")), len(m.cases("thorough")), " *Cost:* quick about %s s." % n["cost"] if n.get("cost") else ""))
t = rd("tail.md")
fx = []
for l in open(os.path.join(R, "known_findings.txt")):
    g = re.match(r"fixed: property=(\S+) (\S+) (.*)", l)
    if g:
        fx.append("* %s `%s` %s" % g.groups())
t = t.replace("@@FIXED@@", "\n".join(fx))
rows = ["| id | property | needs | breaks | caught |", "|---|---|---|---|---|"]
S = os.path.join(R, "seeded")
res = json.loads(rd("seeds.json"))
for i in sorted(os.listdir(S)) if os.path.isdir(S) else []:
    if os.path.exists(os.path.join(S, i, "meta.json")):
        m = json.load(open(os.path.join(S, i, "meta.json")))
        rows.append("| %s | %s | %s | %s | %s |" % (i, m["property"], m["needs"], m["what_it_breaks"], res.get(i, "?")))
t = t.replace("@@SEEDS@@", "\n".join(rows)).replace("@@SEEDNOTES@@", rd("seednotes.md").strip()).replace("@@MUT@@", rd("mut.md").strip())
out.append("\n" + t)
open(os.path.join(R, "DESIGN.md"), "w").write("".join(out))

"""Fills in the tables of DESIGN.md: costs from evidence/*.json, results of the planted bugs from tools/seed_results.txt."""
import glob, json, os, re
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = R + "/DESIGN.md"
s = open(p).read()
rows = ["| | level | executions or transitions | distinct | s |", "|---|---|---|---|---|"]
for l in open(R + "/properties.jsonl"):
    i = json.loads(l)["id"]
    f = R + "/evidence/%s.json" % i
    if not os.path.exists(f): continue
    e = json.load(open(f))
    c = e["coverage"]
    rows.append("| %s | %s | %s | %s | %d |" % (i, e["level"], format(c.get("evaluations", c.get("transitions", 0)), ","), format(c.get("distinct_nontrivial", c.get("states", 0)), ","), round(e["wall_s"])))
s = re.sub(r"(<!-- table -->\n).*?(<!-- /table -->)", lambda m: m.group(1) + "\n".join(rows) + "\n" + m.group(2), s, flags=re.S)
seeds = ["| planted bug | property | needs | caught |", "|---|---|---|---|"]
res = dict(l.split(None, 1) for l in open(R + "/tools/seed_results.txt")) if os.path.exists(R + "/tools/seed_results.txt") else {}
for f in sorted(glob.glob("/verif/seeded/*/meta.json")):
    i = f.split("/")[-2]
    m = json.load(open(f))
    seeds.append("| %s | %s | %s | %s |" % (i, m["property"], m["needs"], res.get(i, "").strip() or "not run"))
s = re.sub(r"(<!-- seeds -->\n).*?(<!-- /seeds -->)", lambda m: m.group(1) + "\n".join(seeds) + "\n" + m.group(2), s, flags=re.S)
open(p, "w").write(s)

#!/usr/bin/env python3
"""Rewrites the sections of DESIGN.md which follow from other files: the checks (from MANIFEST.json,
properties.jsonl and the oracles already there), the measured costs (from evidence/*.json, if complete)
and the table of planted bugs (seeded/*/meta.json and tools/caught.txt)."""
import json, os, re, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = open(here + "/DESIGN.md").read()
ORACLES = dict(re.findall(r"^### (C\d\d) .*?^(Oracle: .*?)(?=^Method:)", d, flags=re.M | re.S))
ORACLES.setdefault("C28", "Oracle: agreement of all configurations on one record per case (bytes, position, verdict, error, values). All are linked into one program, so every case runs in every configuration in one execution; or_throw is run with and without exceptions.\n")
ORACLES.setdefault("C29", "Oracle: a model of the archive which applies the options in the order given to a plain state (bytes, position, byte order, prefix, limit, growth).\n")
ORACLES.setdefault("C30", "Oracle: a model of the server (id, arguments decoded by the reference decoder, planned outcome of the handler, response written by the reference encoder), and the same program without co_await.\n")
props = [json.loads(l) for l in open(here + "/properties.jsonl")]
man = {c["property"]: c for c in json.load(open(here + "/MANIFEST.json"))["checks"]}
out = ["## The checks\n\nBounds are written \"quick (thorough)\".\n"]
for p in props:
    i = p["id"]
    c = man[i]
    out.append("### %s %s\n\n%s\n%sMethod: %s. Why tests cannot: %s\n" % (
        i, p["title"], c["level_note"], ORACLES[i], c["technique"].split(":")[0], p.get("why_tests_cant") or
        re.search(r"### %s .*?Why tests cannot: (.*?)\n" % i, d, flags=re.S).group(1)))
d = d[:d.index("## The checks")] + "\n".join(out) + "\n" + d[d.index("## Findings on the original tree"):]

caught = {}
if os.path.exists(here + "/tools/caught.txt"):
    for l in open(here + "/tools/caught.txt"):
        w = l.split()
        caught[w[0]] = w[1:]
t = ["<!-- planted -->\n| planted bug | property | needs | caught by |\n|---|---|---|---|\n"]
for n in sorted(os.listdir(here + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (here, n)))
    t.append("| %s | %s | %s | %s |\n" % (n, m["property"], m["needs"], ", ".join(caught.get(n, [])) or "not run yet"))
t.append("<!-- /planted -->\n")
if "@@TABLE@@" in d:
    d = d.replace("@@TABLE@@", "".join(t).rstrip("\n"))
else:
    d = re.sub(r"<!-- planted -->.*?<!-- /planted -->\n", lambda m: "".join(t), d, flags=re.S)
costs = []
for p in props:
    f = "%s/evidence/%s.json" % (here, p["id"])
    if os.path.exists(f):
        e = json.load(open(f))
        if e["tier"] == "quick":
            c = e["coverage"]
            costs.append("| %s | %s | %s | %s | %s | %.0f s |\n" % (p["id"], c.get("executions", ""), c.get("transitions", ""), c.get("states", ""), c.get("distinct_outcomes", ""), e["wall_s"]))
if len(costs) == len(props) and "--costs" in sys.argv:
    s = "<!-- costs -->\n| check | executions | transitions | states | distinct outcomes | run |\n|---|---|---|---|---|---|\n" + "".join(costs) + "<!-- /costs -->\n"
    if "<!-- costs -->" in d:
        d = re.sub(r"<!-- costs -->.*?<!-- /costs -->\n", lambda m: s, d, flags=re.S)
    else:
        d = d.replace("## Findings on the original tree", "## Measured\n\nQuick tier, 8 cores, building not included (10 to 60 s; C14 and C28 up to 100 s).\n\n" + s + "\n## Findings on the original tree", 1)
open(here + "/DESIGN.md", "w").write(d)

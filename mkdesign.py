#!/usr/bin/env python3
"""Writes DESIGN.md from design-head.md, the properties, the evidence of the last quick
run and design-tail.md."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
def rd(f): return open(os.path.join(here, f)).read()
notes = json.loads(rd("design-notes.json"))
tech = json.loads(rd("techniques.json"))
out = [rd("design-head.md"), "## Properties\n"]
out.append("""Every entry says how cases are generated and when one counts as non-trivial, the oracle,
the bounds, the cost of the quick tier (8 cores; the thorough tier runs 15 times as many
cases at sizes up to 1.6 times as large, for at most 400 s) and why the existing tests do not
reach it.
""")
for l in rd("properties.jsonl").splitlines():
    p = json.loads(l)
    i = p["id"]
    out.append("### %s %s\n" % (i, p["title"]))
    try:
        e = json.loads(rd("evidence/%s.json" % i))
        c = e["coverage"]
        cost = "%d cases in about %d s, %d of them distinct and non-trivial (seed %s)" % (
            c["evaluations"], max(1, round(e["wall_s"])), c["distinct_nontrivial"], e["seed"])
        rule = c["rule"]
    except FileNotFoundError:
        cost, rule = "not measured", ""
    n = notes[i]
    out.append("* Decided by: %s." % tech[i])
    out.append("* Generated: " + rule)
    out.append("* Oracle: " + n["oracle"])
    out.append("* Bounds: " + n["bounds"])
    if "large" in n:
        out.append("* Large cases: " + n["large"])
    out.append("* Cost: " + cost + ".")
    out.append("* Beyond the tests: " + p["why_tests_cant"] + "\n")
rows = ["| bug | caught by | also | what it breaks |", "|---|---|---|---|"]
also = json.loads(rd("design-caught.json"))
for d in sorted(os.listdir(os.path.join(here, "seeded"))):
    m = json.loads(rd("seeded/%s/meta.json" % d))
    more = [c for c in also.get(d, []) if c != m["property"]]
    rows.append("| %s | %s | %s | %s |" % (d, m["property"], " ".join(more) or "-", m["what_it_breaks"]))
out.append(rd("design-tail.md").replace("@SEEDED@", "\n".join(rows)))
open(os.path.join(here, "DESIGN.md"), "w").write("\n".join(out))

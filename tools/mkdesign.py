#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design_head.md, the notes, the drivers, the
findings and the planted bugs (tools/caught.json: result of the last trial)."""
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/harness")
sys.dont_write_bytecode = True
P = [json.loads(l) for l in open(V + "/properties.jsonl")]
N = json.load(open(V + "/tools/notes.json"))
D = json.load(open(V + "/tools/design.json"))
K = json.load(open(V + "/known_findings.json"))
C = json.load(open(V + "/tools/caught.json"))
MF = V + "/tools/measured.json"
M = json.load(open(MF)) if os.path.exists(MF) else {}
for p in P:
    f = V + "/evidence/%s.json" % p["id"]
    if os.path.exists(f):
        e = json.load(open(f))
        if e["tier"] == "quick" and e["seed"] == 1 and not e["violations"]:
            c = e["coverage"]
            M[p["id"]] = [c["traces_validated_against_impl"], c["states"], round(e["wall_s"]), c["corrupted_records"]["refused"],
                          c["corrupted_records"]["refused"] + c["corrupted_records"]["accepted"]]
json.dump(M, open(MF, "w"), indent=0, sort_keys=True)
o = [open(V + "/tools/design_head.md").read().rstrip(), "", "## The properties, one by one", ""]
for p in P:
    m = importlib.import_module(p["id"].lower())
    d = D.get(p["id"], {})
    o += ["### %s %s" % (p["id"], p["title"]), "", N[p["id"]], ""]
    o += ["- Specified: " + d["spec"], "- Bound to the code: " + d["bind"], "- Bounds (thorough in brackets): " + d["bounds"],
          "- Beyond the tests: " + d["why"]]
    if p["id"] in M:
        o.append("- Last measured quick run: %d behaviours of the code judged, %d states of the specification, %d s; %d of %d corrupted records refused" % tuple(M[p["id"]]))
    if getattr(m, "DESIGN", None):
        o.append("- Model checked: " + ", ".join("%s with %s%s" % (x["module"], x["cfg"], " (thorough)" if x.get("thorough") else "") for x in m.DESIGN))
    a = getattr(m, "ASSUMPTIONS", [])
    if a:
        o.append("- Assumed or left out: " + "; ".join(a))
    s = sorted(b for b in C if C[b]["property"] == p["id"])
    if s:
        o.append("- Planted bugs: " + ", ".join("%s (%s)" % (b, C[b]["result"]) for b in s))
    o.append("")
o += ["## Genuine defects", "", "Recorded and not repaired (known_findings.json):", ""]
o += ["- %s: %s" % (f["property"], f["what"]) for f in K["findings"]]
o += ["", "Repaired in /repo (one commit each; the check of the property failed before it and passes now):", ""]
o += ["- " + f[len("fixed: "):] for f in K["fixed"]]
o += ["", "## Planted bugs and what catches them", "",
      "Each was written from the property and the code, builds, passes the stable tests and has a demonstration. "
      "'caught' means that the quick check of its property, seed 1, exits 1 with its VIOLATION line. 'first missed' in the last column: the check was strengthened afterwards.", "",
      "| bug | property | what it breaks | needs | quick check |", "|---|---|---|---|---|"]
for b in sorted(C):
    mt = json.load(open(V + "/seeded/%s/meta.json" % b))
    o.append("| %s | %s | %s | %s | %s%s |" % (b, mt["property"], mt["what_it_breaks"], mt["needs"], C[b]["result"], "; first missed" if C[b].get("missed") else ""))
open(V + "/DESIGN.md", "w").write("\n".join(o) + "\n")

#!/usr/bin/env python3
"""Writes properties.jsonl, MANIFEST.json and harness/checks.json from spec/c*.py."""
import glob, json, os
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
props = []
for f in sorted(glob.glob(here + "/c*.py")):
    ns = {}
    exec(open(f).read(), ns)
    props += ns["P"]
props.sort(key=lambda p: p["id"])
TECH = "solver-based: symbolic execution of the Go SSA of /repo, path conditions and assertions decided by z3 within bounds, counterexamples replayed natively"
with open(root + "/properties.jsonl", "w") as o:
    for p in props:
        assert len(p["title"]) <= 80, p["title"]
        o.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["all"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                        "observe_at": p.get("observe", ["standard output, standard error and exit code of the command"]), "hook_needed": None}}) + "\n")
checks, na, eng = [], [], []
for p in props:
    if "na" in p:
        na.append({"property": p["id"], "reason": p["na"]})
        continue
    checks.append({"property": p["id"], "quick_cmd": f"bash check.sh {p['id']} quick", "thorough_cmd": f"bash check.sh {p['id']} thorough",
                   "technique": TECH, "level": "model_checking",
                   "level_note": p["bounds"]})
    if "near" in p["harness_files"]:
        for x in ["common","lock","c01","c05","c07","c08","c11"]:
            if x not in p["harness_files"]: p["harness_files"].append(x)
    eng.append({"property": p["id"], "files": p["harness_files"], "level": "model_checking", "assumptions": p.get("assume", []),
                "outside": p["outside"],
                "harnesses": [{"fn": h[0], "quick": h[2] if len(h) > 2 else 120, "thorough": h[3] if len(h) > 3 else 900, "bounds": h[1]} for h in p["harnesses"]]})
json.dump({"version": 1, "setup_cmd": "bash build.sh", "checks": checks, "not_applicable": na}, open(root + "/MANIFEST.json", "w"), indent=1)
open(root + "/MANIFEST.json", "a").write("\n")
json.dump(eng, open(root + "/harness/checks.json", "w"), indent=1)
open(root + "/harness/checks.json", "a").write("\n")
MISSED = {}  # planted bug: why its check does not catch it
# ---- DESIGN.md ----
kf = json.load(open(root + "/known_findings.json"))
seeds = []
for d in sorted(os.listdir(root + "/seeded")) if os.path.isdir(root + "/seeded") else []:
    seeds.append((d, json.load(open(f"{root}/seeded/{d}/meta.json"))))
with open(root + "/DESIGN.md", "w") as o:
    o.write(open(here + "/design_head.md").read())
    o.write("\n## The properties\n\nMethod for each: as above (symbolic execution of the real code, verdicts by z3). Costs are in the evidence; quick checks take 5-60 s each on 8 cores, thorough ones up to 15 minutes per harness.\n")
    for p in props:
        o.write(f"\n### {p['id']} {p['title']}\n{p['statement']}\n\n")
        if "na" in p:
            o.write(f"*Not applicable*: {p['na']}\n")
            continue
        o.write(f"- **Why tests do not settle it**: {p['why']}.\n- **Code**: " + "; ".join(f"{n} ({w})" for n, w in p["mech"]) + ".\n")
        o.write("- **Harnesses** (" + ", ".join(f"harness/{x}.go" for x in p["harness_files"]) + "):\n")
        for h in p["harnesses"]:
            o.write(f"  - `{h[0]}`: {h[1]}\n")
        if p.get("oracle"):
            o.write(f"- **Oracle**: {p['oracle']}.\n")
        o.write(f"- **Bounds**: {p['bounds']}.\n- **Outside**: {p['outside']}.\n")
        for a in p.get("assume", []):
            o.write(f"- **Assumes**: {a}.\n")
        for k in kf:
            if k["property"] == p["id"]:
                o.write(f"- **Defect found, {k['status']}**: {k['what']}\n")
        ss = [d for d, m in seeds if m["property"] == p["id"]]
        if ss:
            o.write(f"- **Planted bugs caught by this check**: {', '.join(x for x in ss if x not in MISSED)}.\n")
            if any(x in MISSED for x in ss):
                o.write(f"- **Planted bugs missed**: {', '.join(x + ' (' + MISSED[x] + ')' for x in ss if x in MISSED)}.\n")
    o.write("\n## Planted bugs\n\nEach lies in seeded/ID with its patch, demonstration and meta.json; each builds, passes the stable tests, and fails its demonstration.\n\n| bug | property | needs | breaks | caught by the quick check |\n|---|---|---|---|---|\n")
    for d, m in seeds:
        o.write(f"| {d} | {m['property']} | {m['needs']} | {m['what_it_breaks']} | {'no: ' + MISSED[d] if d in MISSED else 'yes'} |\n")
    o.write(open(here + "/design_tail.md").read())
print(len(props), "properties", len(checks), "checks")

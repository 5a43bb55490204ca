"""Writes properties.jsonl, MANIFEST.json and DESIGN.md from tools/props.py."""
import json
import os
import sys

HOME = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HOME, "tools"))
import props  # noqa

na_ids = {n["property"] for n in props.NA}
with open(os.path.join(HOME, "properties.jsonl"), "w") as f:
    for p in props.P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        d = dict(id=p["id"], title=p["title"], statement=p["statement"],
                 quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
                 anchors=dict(files=p["files"], mechanism=p["mech"], hook_needed=None))
        if p["observe"]:
            d["anchors"]["observe_at"] = p["observe"]
        for x in p["files"]:
            assert os.path.exists(os.path.join("/repo", x)), (p["id"], x)
        f.write(json.dumps(d) + "\n")
checks, missing = [], []
for p in props.P:
    if p["id"] in na_ids:
        continue
    if not os.path.exists(os.path.join(HOME, "checks", p["id"] + ".py")):
        missing.append(p["id"])
        continue
    checks.append(dict(
        property=p["id"], quick_cmd=f"./run.sh {p['id']} quick",
        thorough_cmd=f"./run.sh {p['id']} thorough",
        evidence_file=f"evidence/{p['id']}.json", technique=p["technique"], level="exploration",
        level_note=("Searches generated cases with a fixed seed; it can show a violation, not absence. "
                    + p["note"]).strip()))
na = list(props.NA) + [dict(property=i, reason="check under construction") for i in missing]
with open(os.path.join(HOME, "MANIFEST.json"), "w") as f:
    json.dump(dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
                   notes="One runner (run.sh) over checks/<id>.py; properties and this file are generated by tools/gen.py."),
              f, indent=1)
import subprocess  # noqa: E402

from findings import FINDINGS  # noqa: E402
from fixes import FIXES  # noqa: E402

subj = {}
for line in subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines():
    h, s = line.split(" ", 1)
    subj.setdefault(s, h)
kf = [dict(id=i, property=p, status="known", what=w) for i, p, w in FINDINGS]
fixed = []
for k, (p, s, w) in enumerate(FIXES):
    h = subj["fix: " + s]
    fixed.append((p, h, s, w))
    kf.append(dict(id=f"fixed-{k + 1}", property=p, status="fixed", what=f"fixed: property={p} {h} {w}"))
listed = {"fix: " + s for _, s, _ in FIXES}
for s in subj:
    if s.startswith("fix:") and s not in listed:
        print("fix commit not listed:", s)
with open(os.path.join(HOME, "known_findings.json"), "w") as f:
    json.dump(dict(findings=kf), f, indent=1)
head = open(os.path.join(HOME, "tools", "design_head.md")).read()
tail = open(os.path.join(HOME, "tools", "design_tail.md")).read()
body = []
for p in props.P:
    body.append(f"### {p['id']} — {p['title']}\n")
    if p["id"] in na_ids:
        body.append("Not applicable: " + [n for n in props.NA if n["property"] == p["id"]][0]["reason"] + "\n")
        continue
    body.append(f"*Over:* {p['text']}.\n")
    body.append(f"*Decided by:* {p['design']}\n")
    if p["note"]:
        body.append(f"*Bounds and trust:* {p['note']}\n")
with open(os.path.join(HOME, "DESIGN.md"), "w") as f:
    f.write(head + "\n" + "\n".join(body) + "\n## Repairs of genuine defects (`fix:` commits)\n\n")
    for p, h, s, w in fixed:
        f.write(f"* {p}, `{h}` {s}: {w}.\n")
    f.write("\n## Known findings (recorded, not repaired)\n\n" + ("" if FINDINGS else "None.\n"))
    for i, p, w in FINDINGS:
        f.write(f"* `{i}` ({p}): {w}\n")
    seeded = os.path.join(HOME, "seeded")
    if os.path.isdir(seeded):
        f.write("\n## Planted bugs\n\nEach applies to /repo's HEAD, passes the test suite and has a demonstration. "
                "`caught by` lists the checks that were run against it and reported it.\n\n| bug | property | needs | caught by |\n|---|---|---|---|\n")
        for d in sorted(os.listdir(seeded)):
            m = json.load(open(os.path.join(seeded, d, "meta.json")))
            f.write(f"| {d} | {m['property']} | {m['needs']} | {m.get('caught_by', '?')} |\n")
    f.write("\n" + tail)
print(f"{len(checks)} checks, {len(na)} not claimed: {[n['property'] for n in na]}")

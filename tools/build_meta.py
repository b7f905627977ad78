"""Regenerates properties.jsonl and MANIFEST.json from the table below."""

import json
from pathlib import Path

HERE = Path(__file__).resolve().parent.parent
A = "dattri/algorithm/"
B = A + "block_projected_if/"
M = "dattri/model_util/"
P = []


def prop(pid, title, statement, over, qtext, why, files, mech, state=None,
         observe=None, level="exploration", technique="", note=""):
    P.append(dict(pid=pid, title=title, statement=statement, over=over, qtext=qtext,
                  why=why, files=files, mech=mech, state=state or [],
                  observe=observe or [], level=level, technique=technique, note=note))


exec((HERE / "tools" / "props.py").read_text())

with (HERE / "properties.jsonl").open("w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        anchors = {"files": p["files"],
                   "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                   "hook_needed": None}
        if p["state"]:
            anchors["state"] = [{"name": a, "meaning": b, "where": c}
                                for a, b, c in p["state"]]
        if p["observe"]:
            anchors["observe_at"] = p["observe"]
        f.write(json.dumps({
            "id": p["pid"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["qtext"]},
            "why_tests_cant": p["why"], "anchors": anchors}) + "\n")

checks, na = [], []
for p in P:
    mod = HERE / "checks" / f"{p['pid'].lower()}.py"
    if not mod.exists():
        na.append({"property": p["pid"],
                   "reason": "check not built yet (see DESIGN.md)"})
        continue
    cmd = f"/opt/venv/bin/python /verif/run.py {p['pid']}"
    checks.append({
        "property": p["pid"], "quick_cmd": f"{cmd} --tier quick",
        "thorough_cmd": f"{cmd} --tier thorough",
        "evidence_file": f"evidence/{p['pid']}.json",
        "technique": p["technique"], "level": p["level"], "level_note": p["note"]})
man = {"version": 1,
       "setup_cmd": "/opt/venv/bin/python /verif/tools/setup_check.py",
       "checks": checks, "not_applicable": na + [
           {"property": k, "reason": r} for k, r in NOT_APPLICABLE],
       "notes": "No hooks in /repo: every seam is reached by running the real code "
                "under a controlled environment (patched clock, threads, queue, RNG, "
                "file operations) set up by /verif/mc."}
(HERE / "MANIFEST.json").write_text(json.dumps(man, indent=1) + "\n")
print(len(P), "properties,", len(checks), "checks,", len(na), "pending")

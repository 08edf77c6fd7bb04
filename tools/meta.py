"""Writes properties.jsonl, MANIFEST.json and known_findings.jsonl (data in props.py)."""

import json
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from props import FIXED, KNOWN, NOT_APPLICABLE, PROPERTIES  # noqa: E402

PY = "/opt/venv/bin/python run.py"


def write_design():
    """DESIGN.md from its text and the registers of defects and planted bugs."""
    with open(os.path.join(HERE, "DESIGN.in.md")) as f:
        text = f.read()
    rows = ["| commit | property | what failed |", "|---|---|---|"] + [f"| {c} | {p} | {w} |" for c, p, w in FIXED]
    text = text.replace("FIXTABLE", "\n".join(rows))
    with open(os.path.join(HERE, "catches.json")) as f:
        catches = json.load(f)
    rows = ["| planted bug | property | needs | caught by (first violation of the quick check) |", "|---|---|---|---|"]
    seeded = os.path.join(VERIF, "seeded")
    for name in sorted(os.listdir(seeded)):
        with open(os.path.join(seeded, name, "meta.json")) as f:
            m = json.load(f)
        c = catches.get(name, {})
        rows.append(f"| {name} | {m['property']} | {m['needs']} | {c.get('text', 'not run')} |")
    text = text.replace("CATCHTABLE", "\n".join(rows))
    with open(os.path.join(VERIF, "DESIGN.md"), "w") as f:
        f.write(text)


def main():
    have = [p for p in PROPERTIES if os.path.exists(os.path.join(VERIF, "checks", p["id"].lower() + ".py"))]
    with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
        for p in have + [x["property"] for x in NOT_APPLICABLE]:
            rec = {k: v for k, v in p.items() if k not in ("technique", "level_note")}
            assert len(rec["title"]) <= 80, rec["title"]
            f.write(json.dumps(rec) + "\n")
    manifest = {
        "version": 1,
        "setup_cmd": f"{PY} --build",
        "hooks": {
            "guard": "none",
            "enable": "no hook in /repo is needed: the seams are the system calls (LD_PRELOAD shim), the trace "
            "function of CPython and the random source and clock of the process",
            "source_commits": [],
        },
        "checks": [
            {
                "property": p["id"],
                "quick_cmd": f"{PY} --property {p['id']} --tier quick",
                "thorough_cmd": f"{PY} --property {p['id']} --tier thorough",
                "technique": p["technique"],
                "level": "exploration",
                "level_note": p["level_note"],
            }
            for p in have
        ],
        "not_applicable": [{"property": x["property"]["id"], "reason": x["reason"]} for x in NOT_APPLICABLE],
        "notes": "One seed is one exactly repeatable execution; see DESIGN.md. Replay: "
        "/opt/venv/bin/python run.py --replay replays/<file>.json",
    }
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
        json.dump(manifest, f, indent=1)
        f.write("\n")
    log = subprocess.run(
        ["git", "-C", "/repo", "log", "--format=%h %s", "b28981c..HEAD"], capture_output=True, text=True
    ).stdout.splitlines()
    subjects = dict(line.split(" ", 1) for line in log)
    missing = [h for h, s in subjects.items() if s.startswith("fix:") and not any(h == x[0] for x in FIXED)]
    assert not missing, f"fix commits without an entry: {missing}"
    with open(os.path.join(VERIF, "known_findings.jsonl"), "w") as f:
        for r in KNOWN:
            f.write(json.dumps(dict(r, status="known", entry=f"known: property={r['property']} {r['what']}")) + "\n")
        for commit, prop, what in FIXED:
            f.write(json.dumps({
                "status": "fixed", "property": prop, "commit": commit, "what": what,
                "entry": f"fixed: property={prop} {commit} {what}",
            }) + "\n")
    write_design()
    print(len(have), "checks,", len(NOT_APPLICABLE), "not applicable,", len(FIXED), "fixed,", len(KNOWN), "known")


main()

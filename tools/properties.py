#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from the table below."""

import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "neutrinomass/tensormethod/"
CP = "neutrinomass/completions/"
DB = "neutrinomass/database/"

TECH = "contract-based deductive verification of the real functions (symbolic execution of /repo's instrumented source, obligations decided by z3)"
TECHB = TECH + "; bounded contract checks where stated"

TECHR = "contract-based: the contract of the real functions checked at run time on every shipped input (bounded, complete over the data)"

PROPS = []
NA = []


def prop(id, title, statement, text, why, files, mech, note, level="proof", over=("inputs",), tech=TECHB, state=()):
    assert len(title) <= 80, (id, len(title))
    PROPS.append(dict(id=id, title=title, statement=statement, over=list(over), text=text, why=why, files=files,
                      mech=mech, note=note, level=level, tech=tech))


def not_applicable(id, title, statement, text, why, files, mech, reason, over=("inputs",)):
    prop(id, title, statement, text, why, files, mech, None, over=over)
    NA.append((id, reason))


exec(open(os.path.join(HERE, "tools", "table.py"), encoding="utf-8").read())


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w", encoding="utf-8") as f:
        for p in PROPS:
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]},
            }, ensure_ascii=False) + "\n")
    na = dict(NA)
    have = {f.split("_")[0] for f in os.listdir(os.path.join(HERE, "contracts"))}
    m = {
        "version": 1,
        "setup_cmd": "bin/setup",
        "hooks": {"guard": "NM_VERIF_NONE", "enable": "no hooks: /repo's source is instrumented in memory when a check loads it", "source_commits": []},
        "checks": [],
        "not_applicable": [],
        "notes": "Every check re-reads /repo's current source. Levels: see DESIGN.md. Fixes of genuine defects: known_findings.jsonl.",
    }
    for p in PROPS:
        if p["id"] in na:
            m["not_applicable"].append({"property": p["id"], "reason": na[p["id"]]})
            continue
        if p["id"] not in have:
            m["not_applicable"].append({"property": p["id"], "reason": "no check yet"})
            continue
        m["checks"].append({
            "property": p["id"],
            "quick_cmd": f"bin/check {p['id']} --tier quick",
            "thorough_cmd": f"bin/check {p['id']} --tier thorough",
            "evidence_file": f"evidence/{p['id']}.json",
            "technique": p["tech"], "level": p["level"], "level_note": p["note"],
        })
    with open(os.path.join(HERE, "MANIFEST.json"), "w", encoding="utf-8") as f:
        json.dump(m, f, indent=1, ensure_ascii=False)
        f.write("\n")


main()

#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json (run after editing)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS, CHECKS, NA = [], {}, []


def prop(id, title, statement, over, qtext, why, files, mechanism, technique=None, note=None,
         state=None, observe=None, na=None):
    anchors = {"files": files,
               "mechanism": [{"name": n, "where": w} for n, w in mechanism]}
    if state:
        anchors["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        anchors["observe_at"] = observe
    PROPS.append({"id": id, "title": title, "statement": statement,
                  "quantifier": {"over": over, "text": qtext},
                  "why_tests_cant": why, "anchors": anchors})
    if na:
        NA.append({"property": id, "reason": na})
    else:
        CHECKS[id] = {
            "property": id,
            "quick_cmd": "python3 check.py %s" % id,
            "thorough_cmd": "VERIF_TIER=thorough python3 check.py %s" % id,
            "technique": technique,
            "level": "other",
            "level_note": note}


exec(open(os.path.join(HERE, "tools", "properties_src.py"), encoding="utf-8").read())

PROPS.sort(key=lambda p: p["id"])
with open(os.path.join(HERE, "properties.jsonl"), "w", encoding="utf-8") as fp:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["title"]
        fp.write(json.dumps(p, ensure_ascii=False) + "\n")
with open(os.path.join(HERE, "MANIFEST.json"), "w", encoding="utf-8") as fp:
    json.dump({"version": 1, "setup_cmd": "python3 -c 'import ast'",
               "checks": [CHECKS[k] for k in sorted(CHECKS)],
               "not_applicable": sorted(NA, key=lambda d: d["property"]),
               "notes": "Every check parses /repo's current working tree (ast) and never imports or "
                        "runs hachoir. Shared engine: /verif/sa. See DESIGN.md."},
              fp, indent=1, ensure_ascii=False)
    fp.write("\n")
print(len(PROPS), "properties,", len(CHECKS), "claimed,", len(NA), "not applicable")

"""Source of properties.jsonl and MANIFEST.json: python3 dev/props.py"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS, CHECKS, NA = [], [], []
S = "trunk/src/"


def prop(id, title, statement, over, text, why, files, mech, technique=None, note=None, na=None):
    assert len(title) <= 80, title
    PROPS.append({"id": id, "title": title, "statement": statement,
                  "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
                  "anchors": {"files": [S + f for f in files], "mechanism": [{"name": n, "where": S + w} for n, w in mech]}})
    if na:
        NA.append({"property": id, "reason": na})
    else:
        CHECKS.append({"property": id, "quick_cmd": "./run.sh " + id, "thorough_cmd": "./run.sh " + id + " --thorough",
                       "technique": technique, "level": "other", "level_note": note})


exec(open(os.path.join(V, "dev", "proplist.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in PROPS:
        f.write(json.dumps(p) + "\n")
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump({"version": 1, "setup_cmd": "bash setup.sh", "checks": CHECKS, "not_applicable": NA,
               "notes": "Every check is a static analysis of /repo's current sources; nothing from /repo is compiled to code or run."}, f, indent=1)
    f.write("\n")
print(len(PROPS), "properties", len(CHECKS), "checks", len(NA), "n/a")

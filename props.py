#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json (run this after editing it)."""
import json, os, glob
HERE = os.path.dirname(os.path.abspath(__file__))
A = "geometrix/algorithm/"
P = []


def prop(id, title, statement, over, text, why, files, mech, note):
    P.append(dict(id=id, title=title, statement=statement, over=over.split(), text=text, why=why,
                  files=files, mech=mech, note=note))


exec(open(os.path.join(HERE, "props_text.py")).read())

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in sorted(P, key=lambda p: p["id"]):
        assert len(p["title"]) <= 80, p["id"]
        for x in p["files"]:
            assert os.path.exists("/repo/" + x), x
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                            "quantifier": {"over": p["over"], "text": p["text"]},
                            "why_tests_cant": p["why"],
                            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                                        "hook_needed": None}}) + "\n")
checks, na = [], []
for p in sorted(P, key=lambda p: p["id"]):
    if glob.glob(os.path.join(HERE, "harness", p["id"].lower() + "_*.cpp")):
        checks.append({"property": p["id"], "quick_cmd": "python3 check.py %s --tier quick" % p["id"],
                       "thorough_cmd": "python3 check.py %s --tier thorough" % p["id"],
                       "technique": "exhaustive bounded enumeration of executions of the real code (stateless explorer), each compared with an exact reference model",
                       "level": "model_checking", "level_note": p["note"]})
    else:
        na.append({"property": p["id"], "reason": "harness not built yet"})
json.dump({"version": 1,
           "setup_cmd": "python3 -c \"import subprocess;subprocess.check_call(['g++','--version'])\"",
           "checks": checks, "not_applicable": na,
           "notes": "No hooks: the library is header-only and is driven through its public API. Every check compiles its harness against /repo's working tree, executes every case of finite spaces and compares each observable result with a reference model (exact integer/rational arithmetic or a naive container)."},
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")

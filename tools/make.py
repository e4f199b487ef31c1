"""
Writes properties.jsonl and MANIFEST.json from the table below (run by
hand, the results are committed).
"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ROWS = []


def prop(id, title, statement, over, text, why, files, mechanism,
         technique, note, observe=(), na=None):
    ROWS.append(dict(id=id, title=title, statement=statement, over=over,
                     text=text, why=why, files=files, mechanism=mechanism,
                     technique=technique, note=note, observe=observe))


exec(open(os.path.join(HERE, "tools", "table.py")).read())

with open(os.path.join(HERE, "properties.jsonl"), "w") as fd:
    for r in ROWS:
        assert len(r["title"]) <= 80, r["title"]
        s = r["statement"]
        d = {"id": r["id"], "title": r["title"],
             "statement": " ".join(s.split()),
             "quantifier": {"over": r["over"],
                            "text": " ".join(r["text"].split())},
             "why_tests_cant": " ".join(r["why"].split()),
             "anchors": {"files": r["files"],
                         "mechanism": [{"name": n, "where": w}
                                       for n, w in r["mechanism"]],
                         "observe_at": list(r["observe"]),
                         "hook_needed": None}}
        fd.write(json.dumps(d, ensure_ascii=True) + "\n")

man = {"version": 1,
       "setup_cmd": "bash ./setup.sh",
       "checks": [{"property": r["id"],
                   "quick_cmd": "./run.sh " + r["id"],
                   "thorough_cmd": "VERIF_TIER=thorough ./run.sh " + r["id"],
                   "technique": r["technique"],
                   "level": "exploration",
                   "level_note": " ".join(r["note"].split())}
                  for r in ROWS],
       "not_applicable": [],
       "notes": "All checks are generated-input searches (Hypothesis "
                "strategies, sharded over processes, shrinking) against "
                "oracles of our own; run.sh ID --replay FILE repeats a "
                "failure. No hooks in /repo are needed."}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as fd:
    json.dump(man, fd, indent=1)
    fd.write("\n")

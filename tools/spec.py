#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json (run to regenerate both)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []

TESTS = ("The existing 15 tests only call a few methods of Range and List on "
         "hand-picked values; ")


def prop(id, title, statement, over, text, why, files, mech, technique, note):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over,
                      text=text, why=TESTS + why, files=files, mech=mech,
                      technique=technique, note=note))


exec(open(os.path.join(HERE, "tools", "props_data.py")).read())

NOTE = (" Assurance: no counterexample among the generated cases; trusts the "
        "reference interpreter/predicates in /verif/vf and that stdout, stderr "
        "and exit status are all a user sees.")


def main():
    for p in PROPS:
        assert len(p["title"]) <= 80, p["title"]
    with open(os.path.join(HERE, "properties.jsonl"), "w") as fh:
        for p in PROPS:
            fh.write(json.dumps({
                "id": p["id"], "title": p["title"],
                "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]},
                "why_tests_cant": p["why"],
                "anchors": {
                    "files": p["files"],
                    "mechanism": [dict(zip(("name", "where"), m))
                                  for m in p["mech"]],
                    "observe_at": ["standard output, standard error and exit "
                                   "status of a program run"],
                    "hook_needed": None},
            }, ensure_ascii=False) + "\n")
    man = {
        "version": 1,
        "setup_cmd": "python3 -c \"import sys; sys.path.insert(0, '.'); "
                     "import vf.engine, vf.model, vf.prog\"",
        "checks": [{
            "property": p["id"],
            "quick_cmd": f"python3 check.py {p['id']} --tier quick",
            "thorough_cmd": f"python3 check.py {p['id']} --tier thorough",
            "technique": p["technique"],
            "level": "exploration",
            "level_note": p["note"] + NOTE,
        } for p in PROPS],
        "not_applicable": [],
        "notes": "No hooks in /repo are needed: every check drives the public "
                 "entry points. Findings and fixes: known-findings.txt.",
    }
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as fh:
        json.dump(man, fh, indent=1)
        fh.write("\n")


main()

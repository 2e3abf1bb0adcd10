"""Generates properties.jsonl and MANIFEST.json (python3 mkmeta.py); the texts live here."""

import json
from pathlib import Path

V = Path(__file__).resolve().parent
Q = "quantifier"
P = []


def prop(id, title, statement, over, qtext, why, files, mechanism, level_note, state=None, claim=True, technique=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mechanism=mechanism, note=level_note, claim=claim, technique=technique))


exec((V / "meta_props.py").read_text())

with open(V / "properties.jsonl", "w") as f:
    for p in P:
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["qtext"]}, "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": p["mechanism"], "where": ", ".join(p["files"])}]},
        }) + "\n")
man = {
    "version": 1,
    "setup_cmd": "/opt/venv/bin/python -c \"import sys; sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages'); import z3, numpy, mpmath\"",
    "checks": [
        {
            "property": p["id"],
            "quick_cmd": f"/opt/venv/bin/python -m pyvc.run {p['id']} --tier quick",
            "thorough_cmd": f"/opt/venv/bin/python -m pyvc.run {p['id']} --tier thorough",
            "technique": p["technique"] or "contract-based deductive verification: weakest-precondition-style symbolic execution of the real functions against sidecar contracts, VCs discharged by canonical forms and z3",
            "level": "proof" if p["claim"] is True else p["claim"],
            "level_note": p["note"],
        }
        for p in P if p["claim"]
    ],
    "not_applicable": NA,
}
(V / "MANIFEST.json").write_text(json.dumps(man, indent=1) + "\n")

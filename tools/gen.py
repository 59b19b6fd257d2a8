#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []
def prop(id, title, statement, over, text, why, files, mech, note, observe=(), state=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=list(over), text=text), why_tests_cant=why,
        anchors=dict(files=["xcsf/" + f for f in files], state=list(state), mechanism=[dict(name=n, where="xcsf/" + w) for n, w in mech],
                     observe_at=list(observe), hook_needed=None)))
    P[-1]["_note"] = note
exec(open(os.path.join(H, "tools", "table.py")).read())
TRUST = ("Holds for all symbolic values within the bounds listed per case in the evidence (sizes, list lengths, loop unrollings checked by unwinding assertions); "
         "nothing is claimed outside them. Trusted: CBMC 6.11 and its solver, the environment models in env/ (libm, stdio, dSFMT, cJSON), sequential execution of OpenMP regions, "
         "and where a case says so a narrower IEEE-754 format standing for double. A violation is reported only after the solver's counterexample fails natively (gcc, ASan, UBSan).")
def main():
    with open(H + "/properties.jsonl", "w") as f:
        for p in P:
            f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}) + "\n")
    na = {i for i, _ in NA}
    man = dict(version=1, setup_cmd="python3 check.py setup",
        checks=[dict(property=p["id"], quick_cmd="python3 check.py run %s --tier quick" % p["id"], thorough_cmd="python3 check.py run %s --tier thorough" % p["id"],
            evidence_file="evidence/%s.json" % p["id"], technique="bounded symbolic execution of the C code with CBMC (SAT/SMT)", level="other", level_note=(p["_note"] + " " + TRUST).strip())
            for p in P if p["id"] not in na],
        not_applicable=[dict(property=i, reason=r) for i, r in NA],
        notes="No hooks in /repo. Every run regenerates the encoding from /repo's current sources. Known findings and fixed defects: KNOWN_FINDINGS.")
    json.dump(man, open(H + "/MANIFEST.json", "w"), indent=1)
    open(H + "/MANIFEST.json", "a").write("\n")
    try:
        import jsonschema
    except ImportError:
        return
    s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for p in open(H + "/properties.jsonl"):
        jsonschema.validate(json.loads(p), s)
    jsonschema.validate(man, json.load(open("/root/.vp/MANIFEST.schema.json")))
    print(len(P), "properties,", len(man["checks"]), "checks")
main()

#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the one list below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []

def prop(id, title, statement, over, qtext, why, files, mech, observe=None, note="", claimed=True, state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech,
                  observe=observe or [], note=note, claimed=claimed, state=state))

GET = "jom/jom.go"
PARSE = "jom/json_map/json_path_parse.go"
exec(open(os.path.join(V, "tools", "props.py")).read())

na = [dict(property=p["id"], reason=p["note"]) for p in P if not p["claimed"]]
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        a = dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]], observe_at=p["observe"], hook_needed=None)
        if p["state"]:
            a["state"] = p["state"]
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
                quantifier=dict(over=p["over"], text=p["qtext"]), why_tests_cant=p["why"], anchors=a)) + "\n")
m = dict(version=1, setup_cmd="./run.sh setup", checks=[dict(
        property=p["id"], quick_cmd="./run.sh %s quick" % p["id"], thorough_cmd="./run.sh %s thorough" % p["id"],
        evidence_file="evidence/%s.json" % p["id"],
        technique="symbolic execution of the compiled code's go/ssa form (regenerated from /repo on every run), each branch and assertion decided by Z3 over all inputs within the bounds, counterexamples replayed natively",
        level="model_checking", level_note=p["note"]) for p in P if p["claimed"]],
    not_applicable=na,
    notes="One engine (engine/) executes the repository's code symbolically; harness/ holds the harnesses. See DESIGN.md.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")

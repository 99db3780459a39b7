#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the descriptions below (run after editing)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, level_note, na=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=None),
                  level_note=level_note, na=na))


SDK = " The device SDK (cryptography, transport, screens) is a model whose outputs are arbitrary within its contract."
APDU = "response APDU (status word, data)"
exec(open(os.path.join(HERE, "tools", "proplist.py")).read())

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({k: v for k, v in p.items() if k not in ("level_note", "na")}) + "\n")
man = dict(version=1, setup_cmd="mkdir -p build && sh engine/build.sh build/symex",
           checks=[dict(property=p["id"], quick_cmd="python3 tools/check.py %s --tier quick" % p["id"],
                        thorough_cmd="python3 tools/check.py %s --tier thorough" % p["id"], evidence_file="evidence/%s.json" % p["id"],
                        technique="symbolic execution of the LLVM IR of the real code, all paths within bounds decided by Z3, counterexamples replayed natively",
                        level="model_checking", level_note=p["level_note"]) for p in P if not p["na"]],
           not_applicable=[dict(property=p["id"], reason=p["na"]) for p in P if p["na"]],
           notes="No hooks: the checks compile /repo/src as it is, against the SDK model in /verif/sdk.")
json.dump(man, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)

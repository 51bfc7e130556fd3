"""Writes properties.jsonl and MANIFEST.json.  One P(...) per property."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS, NA = [], []


def P(id, title, statement, over, quant, why, files, mech, level="proof", note="", technique="", state=None, observe=None):
    PROPS.append(({
        "id": id, "title": title, "statement": three(statement),
        "quantifier": {"over": over, "text": quant}, "why_tests_cant": why,
        "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "state": state or [], "observe_at": observe or [],
                    "hook_needed": None}}, level, note,
        technique or "contract-based deductive verification (pyvc: symbolic execution of the real source, loop invariants, z3/cvc5)"))


def three(text):
    """At most three sentences: the last ones are joined by semicolons."""
    import re
    parts = re.split(r"(?<=[a-z0-9\)])\. (?=[A-Z])", text)
    out = parts[:2]
    for k, x in enumerate(parts[2:]):
        first = x.split(" ")[0]
        plain = first[1:] == first[1:].lower() and first not in ("Edk2DB",)
        out.append(x if k == 0 else (x[0].lower() + x[1:] if plain else x))
    return ". ".join(out[:2] + ["; ".join(out[2:])] if out[2:] else out)


def not_applicable(id, title, statement, over, quant, why, files, mech, reason):
    P(id, title, statement, over, quant, why, files, mech)
    NA.append({"property": id, "reason": reason})


DED = ("Every obligation generated from the current source is discharged by z3 (cvc5 as a second solver) for all inputs meeting the stated "
       "preconditions; trusted: the pyvc engine and its models of struct/io/uuid/hashlib/int/bytes. ")

exec(open(os.path.join(V, "tools", "props_text.py")).read())


def main():
    na = {x["property"] for x in NA}
    with open(V + "/properties.jsonl", "w") as f:
        for p, _, _, _ in PROPS:
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps(p) + "\n")
    m = {"version": 1, "setup_cmd": "python3 check.py --selftest",
         "checks": [{"property": p["id"], "quick_cmd": "python3 check.py %s --tier quick" % p["id"],
                     "thorough_cmd": "python3 check.py %s --tier thorough" % p["id"],
                     "technique": t, "level": lv, "level_note": note} for p, lv, note, t in PROPS if p["id"] not in na],
         "not_applicable": NA,
         "notes": "Engine: /verif/pyvc. Contracts: /verif/contracts. See DESIGN.md. A recorded violation is replayed with "
                  "python3 check.py --replay FILE."}
    with open(V + "/MANIFEST.json", "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()

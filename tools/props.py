#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from one table."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, os.path.join(VERIF, "absint"))

C1 = "src/compact1/"
FS = C1 + "font_set/"
T2 = "src/type2/"
TAPE = "every byte sequence, of any length and from any starting position, and every read, seek or position failure of the stream"

# id, title, statement, quantified over, text, why tests cannot, files, mechanism, level, note
P = []


def p(pid, title, statement, over, text, why, files, mechanism, level, note):
    assert len(title) <= 80, title
    P.append(dict(id=pid, title=title, statement=statement, over=over, text=text, why=why, files=files, mechanism=mechanism, level=level, note=note))


exec(open(os.path.join(HERE, "table.py")).read())

NOT_APPLICABLE = [
    ("P90", "Memory taken while parsing is bounded by the size of the input",
     "Parsing a font never allocates more than a small multiple of the size of the stream, whatever counts and offsets the stream declares.",
     "How many bytes an allocation takes is a relation between declared counts, element sizes and the data that actually follows; the crate pre-allocates from declared counts (at most 65536 entries) and the stream is unbounded, so no bound in terms of the input size is stated by the code, and a syntactic rule on allocation calls would be a proxy that fires on harmless edits."),
    ("P91", "Charstring arithmetic has the precision of the format",
     "The results of arithmetic in a charstring agree with exact 16.16 fixed-point arithmetic to the precision the format requires.",
     "The crate computes with binary floating point by design; how far rounded results are from the fixed-point ones is a numerical question about runtime values and not visible in the structure of the code. Which operation is applied to which operands is decided under the arithmetic property."),
]

COMMON = "Static: the current tree is compiled to MIR by a rustc driver and interpreted abstractly over symbolic bytes (partitioned paths, difference and congruence constraints, loop summaries, library models); each path summary is compared with the transfer function the format prescribes. No solver, nothing executed. Trusted: rustc's MIR, the interpreter, the models of the standard library and of the typeface crate. "
TECH = "abstract interpretation of the MIR against a specification (static)"


def main():
    import checks
    import type2
    import robust

    built = set(checks.CHECKS)
    with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
        for x in P:
            if x["id"] not in built:
                print("not built:", x["id"])
                continue
            f.write(json.dumps(dict(
                id=x["id"], title=x["title"], statement=x["statement"],
                quantifier=dict(over=x["over"], text=x["text"]),
                why_tests_cant=x["why"],
                anchors=dict(files=x["files"], mechanism=[dict(name=n, where=w) for n, w in x["mechanism"]]),
            )) + "\n")
        for pid, title, st, why in NOT_APPLICABLE:
            f.write(json.dumps(dict(
                id=pid, title=title, statement=st, quantifier=dict(over=["inputs"], text="every input"),
                why_tests_cant="The tests look at a few well-formed fonts and measure neither.",
                anchors=dict(files=[C1 + "index/mod.rs", T2 + "program.rs"], mechanism=[]))) + "\n")
    ids = [x["id"] for x in P]
    assert len(set(ids)) == len(ids)
    missing = built - set(ids)
    if missing:
        print("checks without a property:", missing)
    man = {
        "version": 1,
        "setup_cmd": "bash setup.sh",
        "checks": [
            {
                "property": x["id"],
                "quick_cmd": "python3 check.py %s quick" % x["id"],
                "thorough_cmd": "python3 check.py %s thorough" % x["id"],
                "evidence_file": "evidence/%s.json" % x["id"],
                "technique": x.get("tech") or TECH,
                "level": x["level"],
                "level_note": x["note"] if x["note"].startswith("Static") else COMMON + x["note"],
            }
            for x in P
            if x["id"] in built
        ],
        "not_applicable": [{"property": pid, "reason": why} for pid, _, _, why in NOT_APPLICABLE],
        "notes": "No hooks: the checks analyse the unmodified sources through a harness crate in /verif that is only compiled, never run.",
    }
    json.dump(man, open(os.path.join(VERIF, "MANIFEST.json"), "w"), indent=1)
    print(len(man["checks"]), "checks")


main()

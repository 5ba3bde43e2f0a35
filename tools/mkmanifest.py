#!/usr/bin/env python3
"""Writes MANIFEST.json: a check per module in checks/ that names its TECHNIQUE, the rest not applicable."""
import ast, json, os, re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOT_YET = "No static rule has been built for it yet."
NA = {
    "C26": "Which files are ancestors of the kept ones is arithmetic over control numbers and order vectors parsed from "
           "file names; no dataflow fact short of executing that arithmetic separates a right from a wrong remover.",
    "C27": "The round trip of name formatting and parsing is an equation over string contents and digits; deciding it "
           "needs evaluation of the parser, not a property of its control or data flow.",
    "C28": "Saves write in place without a temporary file, so the property rests on states of the disk between "
           "system calls, which are not visible in the source.",
    "C29": "Panic freedom for arbitrary bytes needs value ranges of decoded numbers and string indices across the "
           "whole decoder; a reachability analysis reports almost every index and unwrap and would alarm on correct code.",
    "C31": "The meaning of a JSON5 text is defined by the grammar file and by number and escape evaluation: an input/output "
           "relation over strings.",
    "C32": "Equality after export and parse is a relation between two string-valued computations (export formatting and "
           "the parser).",
    "C33": "The bound is a numeric invariant over sizes of differences known only at run time.",
}


def consts(path):
    out = {}
    tree = ast.parse(open(path).read())
    for n in tree.body:
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
            try:
                out[n.targets[0].id] = ast.literal_eval(n.value)
            except ValueError:
                pass
    return out


def main():
    ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl")) if l.strip()]
    checks, na = [], []
    for i in ids:
        p = os.path.join(HERE, "checks", i.lower() + ".py")
        c = consts(p) if os.path.exists(p) else {}
        if "TECHNIQUE" in c:
            checks.append({"property": i, "quick_cmd": "python3 check.py " + i, "thorough_cmd": "python3 check.py " + i,
                           "evidence_file": "evidence/%s.json" % i, "technique": c["TECHNIQUE"], "level": "other",
                           "level_note": c.get("LEVEL_NOTE", "Static analysis of the compiler's IR of the current tree; "
                                               "decides the stated rule for all executions under the listed assumptions.")})
        else:
            na.append({"property": i, "reason": NA.get(i, NOT_YET)})
    m = {"version": 1, "setup_cmd": "python3 lib/facts.py", "checks": checks, "not_applicable": na,
         "notes": "Static analysis only. setup_cmd builds the fact extractor (a rustc driver) and the facts of the current "
                  "tree; every check refreshes the facts from /repo before deciding."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    print(len(checks), "claimed", len(na), "not applicable")


main()

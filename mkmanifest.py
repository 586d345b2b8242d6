#!/usr/bin/env python3
"""Write MANIFEST.json from the registry and the properties."""

import json
import os

from sa.registry import PROPERTIES, WHAT

HERE = os.path.dirname(os.path.abspath(__file__))

TECH = "static analysis: abstract interpretation of the source to gated symbolic values (value numbering), compared with the prescribed value"
NOTE = (
    "Decides, for all inputs of the listed argument types, that what the current source computes and which effects it has equal the "
    "specification; sequences of any length are summarised in closed form. Trusts the documented behaviour of lab, matrix, mlkernels, "
    "plum and algebra, and exact arithmetic. Code the analysis cannot follow is counted as undecided and not reported. "
)
EXTRA = {
    "P17": ("; call rule over all analysed scenarios", ""),
    "P20": ("; syntax-tree rule on uses of id()", ""),
    "P22": ("; rule on identity keys over all analysed scenarios", ""),
    "P25": ("static analysis: value-dependence (taint) analysis of branches, conversions and foreign calls; import rule on the resolved module graph",
            "The rule is a necessary condition of being compilable and differentiable, not a proof that every backend supports every operation. "),
    "P27": ("static analysis: effect and aliasing analysis (writes to anything handed in, in every analysed scenario)", ""),
    "P29": ("static analysis: resolution of the import and export graph; name, alias and promised-type rules", ""),
    "P31": ("; syntax-tree rule on error handlers", ""),
    "P34": ("static analysis: may-call analysis of kernel evaluations along every query history", ""),
}
NA = {
    "P36": "Positive semi-definiteness up to rounding is a statement about floating-point values at run time; the shape of the code does not bound rounding errors or a user's kernel.",
    "P37": "An inequality between floating-point numbers that depends on data and conditioning; only the formulas can be decided statically, which P05 does.",
    "P38": "A statement about the distribution of random draws; static analysis sees which distribution is drawn from (P09, P17), not empirical moments.",
    "P39": "Evaluation of composite kernels is implemented in mlkernels, outside this repository; the part inside it is decided by P23, P24 and P32.",
}


def main():
    checks = []
    for p in PROPERTIES:
        t, n = EXTRA.get(p, ("", ""))
        tech = t if t.startswith("static") else TECH + t
        checks.append(
            {
                "property": p,
                "quick_cmd": f"python3 check.py {p} --tier quick",
                "thorough_cmd": f"python3 check.py {p} --tier thorough",
                "evidence_file": f"evidence/{p}.json",
                "technique": tech,
                "level": "other",
                "level_note": WHAT[p] + " " + NOTE + n,
            }
        )
    m = {
        "version": 1,
        "setup_cmd": "python3 -m compileall -q sa check.py",
        "checks": checks,
        "not_applicable": [{"property": p, "reason": r} for p, r in NA.items()],
        "notes": "No hooks: the checks read /repo's source and never run it. Known findings and repairs: known_findings.txt.",
    }
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()

#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KANI = ("Assurance: every clause is a pre/postcondition on the code the macros of /repo generate in this run, discharged by Kani/CBMC for all "
        "states and arguments with no bound (loops are unwound completely, checked by unwinding assertions); the definitions themselves are a "
        "finite corpus (hand-written limits plus a seeded covering sample), so the quantifier over programs is sampled. ")
TRUST = "Trusted: Kani, CBMC, CaDiCaL, rustc's macro expansion, the specification functions in spec/spec.rs and the layout oracle in vf/model.py."
BND = " Byte arrays longer than 9 bytes are a bounded stand-in at the quick tier (native pseudo-random runs of the same contracts), proved at the thorough tier."
T = "contracts on the generated functions, discharged by Kani/CBMC (deductive, full domain, no bound)"
N = {
 "C22": ("contracts of the macro's validation functions (Kani) where in reach, and compile-time acceptance of generated definitions against the rules (bounded)", "exploration",
         "Exploration: about 730 definitions that must be rejected and 440 that must be accepted are compiled with the real macro crate; the definitions are generated at the limits of each rule. "),
 "C23": ("existence contracts probed by the type checker on the generated items (bounded corpus of definitions)", "exploration",
         "Exploration over definitions: for each generated item name the compiler's name resolution decides whether it exists and is visible; complete per definition, sampled over definitions. "),
 "C24": ("existence contracts probed by the type checker on the generated items (bounded corpus of argument sets)", "exploration",
         "Exploration over argument sets: name resolution and trait selection decide which items exist; complete per definition, sampled over argument sets. "),
 "C25": ("output contract of the generated Debug implementation evaluated natively (bounded)", "exploration",
         "Bounded: core::fmt is outside the verifier's reach, so the contract is evaluated natively, exhaustively for definitions of at most 16 bits and on pseudo-random states otherwise. "),
}
checks = []
for i in range(1, 26):
    p = "C%02d" % i
    t, l, n = N.get(p, (T, "proof", KANI + (BND if p == "C12" else "")))
    checks.append(dict(property=p, quick_cmd="python3 check.py " + p, thorough_cmd="VERIF_TIER=thorough python3 check.py " + p,
                       technique=t, level=l, level_note=(n + TRUST if p not in N else n.strip())))
m = dict(version=1, setup_cmd="true", checks=checks, not_applicable=[],
         notes="No hooks in /repo. Everything is rebuilt from /repo's working tree by every check; see DESIGN.md.")
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)

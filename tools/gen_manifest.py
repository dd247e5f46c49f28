#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of properties and the checks that exist."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l)["id"] for l in open(H + "/properties.jsonl")]
STEP = ("explicit exhaustive exploration of the implementation (bounded input grids, bounded deviations, all bounded event histories) "
        "against an executable reference model")
TECH = {
 "F01": STEP, "F02": STEP, "F03": STEP, "F04": STEP, "F05": STEP, "F06": STEP,
 "F07": "explicit-state exploration of operation histories on the implementation with an invariant checked in every state",
 "F08": "exhaustive enumeration of operation histories: live object against a fresh copy after every event, temporaries poisoned",
 "F09": "exhaustive enumeration of documented sharing patterns x operation histories, differential against separate buffers",
 "F10": "exhaustive enumeration of unusable innovation covariances within histories, frame condition checked in every state",
 "F11": "exhaustive differential exploration of all routes over all bounded operation histories",
 "F12": "exhaustive enumeration of fusion orders and batch splits on the implementation against each other and the reference model",
 "F13": "exhaustive enumeration of single-cell writes and operation histories with a whole-memory frame monitor",
 "F14": "exhaustive enumeration of operation histories under an allocation and panic monitor",
 "M01": STEP, "M02": STEP, "M03": STEP, "M04": STEP, "M05": STEP, "M06": STEP,
 "B01": "exhaustive enumeration of storage kinds x operations with canary-monitored memory, differential across kinds",
 "B02": "exhaustive enumeration of buffer kinds x lengths x dimensions with and without assertions",
 "B03": "exhaustive enumeration of builder and macro instantiations with a memory monitor",
 "N01": "exhaustive enumeration of number representations against an exact integer oracle",
 "N02": "exhaustive enumeration of shapes and view operations, differential against native nalgebra matrices",
 "N03": "exhaustive enumeration of operation histories, fixed point against double precision with running error bounds",
 "N04": "exhaustive enumeration of feature-flag combinations, each built and its behaviour digest compared",
}
NOTE = {
 "F": "Every execution within the stated bounds (evidence lists states, transitions and histories per job) is run on the real code in two builds (assertions on / compiled out) and compared with a reference model written from the textbook equations; exact in finite-field arithmetic, within a running rounding-error bound in f32, f64 and fixed point. Trusts the reference model, rustc and the harness' finite-field number type; says nothing beyond the dimensions, deviation depths and value alphabets enumerated.",
}
NOTE["M"] = NOTE["F"]
NOTE["B"] = "Every storage kind, dimension and length within the stated bounds is built and driven on the real code, with canaries around the memory; trusts the harness' monitors. Says nothing beyond the enumerated dimensions and lengths."
NOTE["N"] = "Enumerates the stated space on the real code (quick: a structured exhaustive subset; thorough: all of it where finite) and compares with an independent exact or double-precision oracle. Trusts the oracle and the host's f64 arithmetic."
SPECIAL = {
 "N04": "Builds the crate and a probe program in feature combinations (quick: a covering subset; thorough: all 256) and compares digests of exhaustive operation histories; a combination that does not compile is a violation. Trusts cargo and rustc.",
}
def have(p):
    return os.path.exists(f"{H}/mc/src/bin/{p.lower()}.rs") or (p == "N04" and os.path.exists(f"{H}/tools/n04.py"))
m = {
 "version": 1,
 "setup_cmd": "./setup",
 "checks": [dict(property=p, quick_cmd=f"./check {p} --tier quick", thorough_cmd=f"./check {p} --tier thorough", evidence_file=f"evidence/{p}.json",
                 technique=TECH[p], level="model_checking", level_note=SPECIAL.get(p, NOTE[p[0]])) for p in props if have(p)],
 "not_applicable": [dict(property=p, reason="check under construction") for p in props if not have(p)],
 "notes": "No hooks: the harness crate /verif/mc drives the public API of /repo/crates/minikalman through a path dependency. See DESIGN.md.",
}
json.dump(m, open(H + "/MANIFEST.json", "w"), indent=1)
open(H + "/MANIFEST.json", "a").write("\n")
print(len(m["checks"]), "checks;", [x["property"] for x in m["not_applicable"]])

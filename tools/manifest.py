"""writes MANIFEST.json"""
import json
RT = {f"C{i:02}": None for i in range(1, 15)}
TECH = "contract-based deductive verification (Verus/Z3) of the functions extracted from the macro-expanded sources, failing inputs replayed on the real crate"
NOTE = ("Every obligation of the contracts on the functions listed in the evidence is discharged for all inputs, with no bound. Trusted: macro expansion, the mechanical extraction (vx; "
        "what it rewrites is listed in the evidence and DESIGN.md), Verus, vstd, Z3, the assumed contracts on std (evidence: trusted_base), and serde's data model as restated in specs/. "
        "If an edit takes the code out of the verifier's reach, the run says so, reports level other and rests on the bounded replay alone.")
checks = []
for p in RT:
    checks.append({"property": p, "quick_cmd": f"python3 tools/check_rt.py {p}", "thorough_cmd": f"python3 tools/check_rt.py {p}", "evidence_file": f"evidence/{p}.json",
                   "technique": TECH, "level": "proof", "level_note": NOTE})
DT = "contract-based deductive verification (Verus/Z3) of the macros' real output, against contracts derived independently from each enum's declaration (translation validation of a generated family); failing inputs replayed on the compiled output"
DN = ("For each enum of the family (fixed core plus seeded members) every obligation on the generated Serialize/Deserialize is discharged for all values and all inputs, with no bound; "
      "the quantification over enum definitions is by the family. Trusted: as for C01-C14.")
for p in ("C15", "C16"):
    checks.append({"property": p, "quick_cmd": f"python3 tools/check_der.py {p}", "thorough_cmd": f"VERIF_TIER=thorough python3 tools/check_der.py {p}", "evidence_file": f"evidence/{p}.json",
                   "technique": DT, "level": "translation_validation", "level_note": DN})
GT = "contract-based deductive verification (Verus/Z3) of the generator's real output and of the runtime it calls, against contracts derived independently from each XDR definition (translation validation of a generated family under all nine option combinations); failing inputs replayed on the compiled output"
GN = ("For each definition of the family (fixed core plus seeded members) under every enum and union option, every obligation on the generated types, their serde implementations and the serde_xdr functions they call is discharged for all values "
      "and all inputs, with no bound; the quantification over XDR definitions is by the family. Trusted: as for C01-C14. Recursive definitions are replayed only (bounded).")
for p in ("C21", "C22", "C23"):
    checks.append({"property": p, "quick_cmd": f"python3 tools/check_gen.py {p}", "thorough_cmd": f"VERIF_TIER=thorough python3 tools/check_gen.py {p}", "evidence_file": f"evidence/{p}.json",
                   "technique": GT, "level": "translation_validation", "level_note": GN})
PT = "contract-based deductive verification (Verus/Z3) of the parser's functions extracted from rpcgen/src/*.rs against a grammar written as specification functions; failing inputs found by replaying generated and mutated texts on the real crate"
PN = ("Every obligation of the contracts on the functions listed in the evidence (all of parser.rs, keyword.rs and Value's conversions) is discharged for all texts, with no bound; the properties' statements are lemmas over the grammar the contracts refer to. "
      "Trusted: the mechanical extraction (vx; it writes nom's combinators out and is described in DESIGN.md), the contracts of nom's primitives and of std in specs/rpc_base.vspec (evidence: trusted_base), Verus, vstd, Z3. "
      "If an edit takes the code out of the verifier's reach, the run says so, reports level other and rests on the bounded replay alone.")
for p in ("C17", "C18", "C19"):
    checks.append({"property": p, "quick_cmd": f"python3 tools/check_rpc.py {p}", "thorough_cmd": f"VERIF_TIER=thorough python3 tools/check_rpc.py {p}", "evidence_file": f"evidence/{p}.json",
                   "technique": PT, "level": "proof", "level_note": PN})
ET = "contract-based deductive verification (Verus/Z3) of the code generator's functions extracted from rpcgen/src/gen_code.rs; failing inputs found by replaying names and definitions on the real crate"
EN = {"C20": "Every obligation of the contracts on name resolution is discharged for all sets of definitions and all names, with no bound; they refer to a specification of what a name stands for that does not follow the code.",
      "C24": "Every obligation (no panic, no overflow, bounds, identifiers that are accepted by format_ident, a decreasing measure for every loop and recursion) on gen_code and everything it calls is discharged for all definitions the parser can give and all options, with no bound. The memory and stack a run needs are not bounded; quote! is taken to yield some tokens.",
      "C25": "Every obligation of the contracts on the name conversions is discharged for all names, with no bound."}
for p in ("C20", "C24", "C25"):
    checks.append({"property": p, "quick_cmd": f"python3 tools/check_rpc.py {p}", "thorough_cmd": f"VERIF_TIER=thorough python3 tools/check_rpc.py {p}", "evidence_file": f"evidence/{p}.json",
                   "technique": ET, "level": "proof", "level_note": EN[p] + " Trusted: the mechanical extraction (vx, described in DESIGN.md), the contracts of std in specs/rpc_base.vspec and specs/rpc_seq.vspec (evidence: trusted_base), Verus, vstd, Z3. "
                   "If an edit takes the code out of the verifier's reach, the run says so, reports level other and rests on the bounded replay alone."})
NA = {}
m = {"version": 1, "setup_cmd": "bash tools/setup.sh", "checks": checks, "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
     "notes": "VERIF_TIER=thorough deepens the replay; the proof is the same in both tiers. Findings: KNOWN-FINDINGS.txt."}
open("/verif/MANIFEST.json", "w").write(json.dumps(m, indent=1) + "\n")

"""Regenerate MANIFEST.json from properties.jsonl and the rule registry."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "analysis"))
import registry
AI = "static analysis: trace-partitioned abstract interpretation of MIR; obligations on every abstract success path"
TECH = {
 "C17": "static analysis: abstract interpretation of the lookup loops (MIR) plus constant tables of the type-checked program",
 "C22": "static analysis: table agreement over type-checked constants, MIR of builders and decoders, and the published IDL",
 "C23": "static analysis: table agreement over error enums (type layout, conversion MIR) and the published IDL",
 "C24": "static analysis: type-layout agreement (compiler layouts) and conversion-function tabulation from MIR",
 "C25": "static analysis: abstract interpretation of the constraint evaluators (MIR)",
 "C26": "static analysis: write/read layout extraction by abstract interpretation of builders and readers",
 "C27": "static analysis: abstract interpretation of MIR; cross-program call effects on every abstract success path",
 "C28": "static analysis: abstract interpretation of MIR; cross-program call effects on every abstract success path",
 "C29": "static analysis: abstract interpretation of MIR; cross-program call effects on every abstract success path",
 "C31": "static analysis: abstract interpretation of MIR; obligations on the instructions of every abstract result",
 "C32": "static analysis: ranking obligations on every loop found by abstract interpretation of MIR; call-graph cycles",
 "C35": "static analysis: abstract interpretation of the compiler-expanded macros (type-checked witness crate, MIR); cross-program call effects",
 "C36": "static analysis: write/read layout agreement by abstract interpretation of encoders and readers (MIR)",
 "C30": "static analysis: layout and constant agreement over MIR of writer macro and parser",
}
NA = {
 "C33": "depends on the algorithmic correctness of third-party compression crates (flate2/zstd ...), not on this codebase's source",
 "C34": "quantifies over the cluster's runtime rent parameters and lamport balances chosen by callers; the lamport flow itself is decided in C20",
}
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in registry.PER or i in registry.ONCE:
        checks.append({"property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i,
                       "technique": TECH.get(i, AI), "level": "other",
                       "level_note": "Static analysis of the current MIR: every obligation must be entailed on all abstract success paths (over-approximation); sound up to the library models and the assumptions listed in the evidence."})
    else:
        na.append({"property": i, "reason": NA.get(i, "no static rule built yet")})
m = {"version": 1, "setup_cmd": "python3 analysis/extract.py", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")

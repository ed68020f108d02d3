#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the table of deciding methods below."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "C01": "generated dates against a reference calendar, plus full enumeration",
 "C02": "round trip over generated dates, styles and orders",
 "C03": "round trip over generated timestamps, styles and orders",
 "C04": "round trip over generated times, plus enumeration",
 "C05": "round trip over generated intervals and styles",
 "C06": "generated values against a reference formatter",
 "C07": "generated intervals against a reference formatter",
 "C08": "texts generated from a known moment in random notation; parsed value compared with it",
 "C09": "texts generated from a known time in random notation; parsed value compared with it",
 "C10": "texts generated from known unit amounts; parsed value compared with their exact sum",
 "C11": "ISO 8601 texts generated from known fields; parsed value compared with their exact sum",
 "C12": "texts generated to be invalid in a known way; any accepted value is a violation",
 "C13": "fuzzing with random, structured and mutated text; range and re-parse invariants; a coverage-guided stage (libFuzzer) in the thorough tier",
 "C14": "differential fuzzing against a reference parser; a coverage-guided stage (libFuzzer) in the thorough tier",
 "C15": "metamorphic: call histories, threads and poisoned memory against a fresh run",
 "C16": "metamorphic and model check of precision and range limits on generated text",
 "C17": "generated operands against exact wide-integer calendar arithmetic",
 "C18": "generated operands against exact day arithmetic",
 "C19": "generated pairs against exact differences, and inverse law",
 "C20": "generated pairs against a reference age, with algebraic laws",
 "C21": "generated operands against exact modular arithmetic",
 "C22": "generated operands against exact per-field arithmetic, with algebraic laws",
 "C23": "generated intervals against invariants of justification",
 "C24": "generated intervals and factors against a reference and a total-length law",
 "C25": "generated pairs and triples against exact totals, with order laws",
 "C26": "generated values against a reference calendar",
 "C27": "generated values against a reference breakdown",
 "C28": "generated values against a reference calendar, with unit-start laws",
 "C29": "generated values against a reference breakdown, with idempotence",
 "C30": "generated values against exact conversion, with round trips",
 "C31": "generated operation mixes with infinities against invariants",
 "C32": "round trip and exact form over generated values; malformed input fuzzing",
 "C33": "generated fields against exact construction",
 "C34": "generated operation sequences in AddressSanitizer, MemorySanitizer and ThreadSanitizer builds (and Miri in the thorough tier) with the checker as oracle",
}
NOTE34 = "Generated-input search; the sanitizer run time (or the interpreter) decides each case. A failing case is shrunk to a replayable choice tape by running the driver again. No claim beyond the cases explored. Uses the nightly compiler and builds the standard library from its sources; trusts the sanitizers."
NA = {}
na_file = os.path.join(here, "tools", "not_applicable.json")
if os.path.exists(na_file):
    NA = json.load(open(na_file))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
checks = []
for p in props:
    i = p["id"]
    if i in NA:
        continue
    checks.append({
        "property": i,
        "quick_cmd": f"./check.sh {i} quick",
        "thorough_cmd": f"./check.sh {i} thorough",
        "technique": "property-based testing: " + T[i] if i not in ("C13", "C14", "C34") else "fuzzing: " + T[i],
        "level": "exploration",
        "level_note": NOTE34 if i == "C34" else "Generated-input search through the public API against an oracle written from the PostgreSQL / ISO 8601 definitions, not from this code; failures are shrunk to a replayable choice tape. No claim beyond the cases explored (counts in the evidence file; parts marked exhaustive are complete). Trusts the reference model in harness/src/model and rustc.",
    })
m = {
 "version": 1,
 "setup_cmd": "./check.sh --build",
 "checks": checks,
 "not_applicable": [{"property": k, "reason": v} for k, v in sorted(NA.items())],
 "notes": "No hooks: every check uses only the crate's public API. check.sh rebuilds the harness (path dependency on /repo) before each run. See DESIGN.md.",
}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")

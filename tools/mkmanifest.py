#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the checks that exist."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f"{V}/properties.jsonl")]
tech = {
 "C17": "property-based testing (proptest generators): statistical frequency test with exponential tail bounds, adversarial generators",
 "C04": "stateful property-based testing (proptest operation sequences), invariant after every step",
 "C18": "stateful model-based property testing (proptest), f64 reference of the feedback loop",
 "C19": "stateful model-based property testing (proptest), f64 reference of the estimator and feedback loop",
 "C20": "differential property-based testing (proptest): chain against by-hand execution",
 "C21": "model-based property testing (proptest) with recording samplers and generated wrapper trees",
 "C22": "stateful property-based testing (proptest) with injected failures",
 "C23": "property-based testing (proptest) with instrumented resources and a model of the provider",
 "C24": "differential property-based testing (proptest): twins, clones, threads",
 "C26": "model-based property testing (proptest) of the option interface",
 "C27": "model-based grammar fuzzing (proptest) of configuration strings",
 "C28": "grammar and byte-level fuzzing (proptest) against an independent parser",
 "C29": "stateful model-based property testing (proptest) of the builder",
 "C30": "structured fuzzing (proptest) with wild values, panic and overflow detection",
 "C31": "metamorphic property-based testing (proptest): renaming and permutation",
 "C32": "model-based property testing (proptest) with samplers that record and steer their hooks",
 "C33": "differential property-based testing (proptest): used against never-used instances",
 "C34": "differential property-based testing (proptest): defaults against the same values written out",
 "C36": "metamorphic property-based testing (proptest): shifted logits",
 "C37": "metamorphic property-based testing (proptest): banned tokens added",
 "C38": "fault-injecting property-based testing (proptest): refusing resources, repetition of the failed call",
 "C39": "differential property-based testing (proptest) over generations of up to 70,000 steps",
 "C35": "model-based property testing (proptest): kind, name and text of every refusal",
}
checks, na = [], []
for p in props:
    i = p["id"]
    if not os.path.exists(f"{V}/harness/src/bin/{i.lower()}.rs"):
        na.append({"property": i, "reason": "check not built yet"})
        continue
    checks.append({
        "property": i,
        "quick_cmd": f"./check.sh {i}",
        "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {i}",
        "evidence_file": f"evidence/{i}.json",
        "technique": tech.get(i, "property-based testing (proptest generators, shrinking) against a reference model"),
        "level": "exploration",
        "level_note": "Generated-input search with an explicit oracle on the code compiled from /repo; deterministic in VERIF_SEED. Shows presence of violations, absence only for the cases run; floating point results are compared with an f64 model within stated rounding tolerances (exactly where f32 arithmetic is exact). Trusts rustc, proptest, rand 0.8 and the model in /verif/harness.",
    })
json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
           "notes": "No hooks: everything needed is observable through the public API. Defects found are repaired by fix: commits in /repo, listed in known_findings.txt."},
          open(f"{V}/MANIFEST.json", "w"), indent=1)

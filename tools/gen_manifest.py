#!/usr/bin/env python3
"""Writes MANIFEST.json. Run after adding a check."""
import json, subprocess, pathlib
root = pathlib.Path(__file__).resolve().parent.parent
props = [json.loads(l) for l in (root / "properties.jsonl").read_text().splitlines()]
T = {
 "C01": "property-based testing (plus complete enumeration of the small domains): round trips and independent reference decoders",
 "C02": "property-based testing: round trips, injectivity and an independent name table",
 "C03": "structure-aware generation: chunk sequences with known contents against the decoder",
 "C04": "structure-aware generation: synthesised files with known schema, differential against the generated model",
 "C05": "structure-aware generation: synthesised files with known scripts, differential against the generated model",
 "C06": "structure-aware generation: calculation bytecode with known text",
 "C07": "grammar-based program generation: compiled model against the generated declarations",
 "C08": "grammar-based program generation: compiled scripts against the generated tree",
 "C09": "grammar-based program generation: evaluator against a reference interpreter",
 "C10": "grammar-based program generation: script runner against a reference interpreter",
 "C11": "grammar-based program generation: script runner against a reference interpreter, over call graphs",
 "C12": "stateful generation: test runs against each test run alone (metamorphic) and a reference interpreter",
 "C13": "stateful model-based testing: histories of steps against a reference database",
 "C14": "property-based testing: relationship graphs and records against an independent reference",
 "C15": "grammar-based program generation: written file against an independent reader and its decompilation (round trip)",
 "C16": "metamorphic testing: repeated processing, in one process and in separate processes",
 "C17": "property-based testing of the program: generated inputs and arguments, files and output compared with the library",
 "C19": "mutation of grammar-generated programs: flaws injected at known places have to be refused or reported",
 "C20": "property-based testing: round trip of generated models through the inspection output, and end to end through the program",
 "C21": "structure-aware generation: databases with stored programs run end to end by generated tests, against a reference interpreter",
 "C22": "fault injection: generated calls of the program under a preloaded library that splits or fails its file operations, compared with the undisturbed run (metamorphic)",
 "C23": "fault injection and schedule exploration: generated calls killed at generated file operations and repeated, or run at the same time with generated delays, compared with the undisturbed run (metamorphic)",
 "C24": "property-based testing: the helper scripts on generated encoded values, against the format's own encoding (differential)",
 "C18": "fault injection by generation: damaged files, and damage confined to unlinked sectors (metamorphic)",
}
FOUND = "Generated-input search against an explicit oracle: no violation among the cases generated, which evidence counts and samples. src/testing cannot be repaired here (it counts as test files), so the constructs of the known findings (known_findings.txt) are left out of the generated cases and each is checked and reported by its own input. Trusts the oracle in harness/check/src and the assumptions listed in the evidence."
N = {f"C{i:02}": FOUND for i in [*range(9, 15), 21]}
import re
have = re.findall(r"::(c\d\d)\(\)", (root / "harness/check/src/main.rs").read_text())
have = {h.upper() for h in have}
hook = subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s"], capture_output=True, text=True).stdout
hooks = [l.split()[0] for l in hook.splitlines() if l.split(" ", 1)[1].startswith("hook:")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in have:
        checks.append({
            "property": i,
            "quick_cmd": f"./run.sh check {i}",
            "thorough_cmd": f"./run.sh check {i} --thorough",
            "evidence_file": f"evidence/{i}.json",
            "technique": T[i],
            "level": "exploration",
            "level_note": N.get(i, "Generated-input search against an explicit oracle: no violation among the cases generated, which evidence counts and samples. Trusts the oracle in harness/check/src and the assumptions listed in the evidence."),
        })
    else:
        na.append({"property": i, "reason": "check not built yet"})
m = {
    "version": 1,
    "setup_cmd": "./run.sh build",
    "hooks": {
        "guard": "cargo feature `verif` of the wrapper package harness/lib: src/main.rs guards its one re-exporting module with #[cfg(feature = \"verif\")]",
        "enable": "harness/lib compiles /repo/src/main.rs as a library with feature verif on by default (./run.sh build); harness/cli builds the same source as the program, feature off",
        "source_commits": hooks,
    },
    "checks": checks,
    "not_applicable": na,
    "notes": "./run.sh replay FILE replays a violation. See DESIGN.md.",
}
(root / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
print(len(checks), "checks,", len(na), "not claimed")

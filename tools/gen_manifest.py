#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REF = "reference-model monitor: an independent parser and model judge the real parse of generated, mutated and fixture texts"
SEM = "reference-model monitor: an independent rule checker judges the verdict of the real check on generated valid schemas and single- and multi-fault edits"
META = "metamorphic monitor: pairs of texts that must agree are run through the real code and compared"
T = {
 "P01": ("runtime monitoring in a child process: panic hook, signal and abort detection, CPU watchdog under hostile and growing workloads",
         "Every text runs on a 1 MiB stack in a supervised child with debug assertions and overflow checks on."),
 "P02": ("resource monitor: counting allocator, the parsing library's own step limit, growth measurements",
         "Step and memory bounds are deterministic; CPU growth is measured repeatedly and only gross growth counts."),
 "P27": ("determinism monitor over recorded histories: repeated, interleaved, concurrent and cross-process parses of the same text are compared",
         "Every result is compared by its complete rendering."),
 "P28": ("reference-model monitor on hooked queries: the relations reported for each table are compared with those computed independently", "Needs the cfg dbml_verif hook; the reference resolves names on its own tree."),
 "P29": ("reference-model monitor on hooked state: every query of the name index is compared with the answer computed independently", "Needs the cfg dbml_verif hook; the reference resolves names on its own tree."),
 "P30": ("table-driven monitor of the public conversions with exhaustive near-miss texts", "The table is written from the documentation."),
 "P31": ("AddressSanitizer, LeakSanitizer, ThreadSanitizer, Miri (and MemorySanitizer in the thorough tier) on a multi-threaded workload", "Sanitizers decide; Miri runs small texts only."),
}
for i in (3,4,5,6,7,8,9,10,13,14): T[f"P{i:02d}"] = (REF, "The reference parser and model are written from the documentation, independently of the code; texts are generated with their expected result, and both must agree with the real one.")
for i in (17,18,19,20,21,22,23,24): T[f"P{i:02d}"] = (SEM, "The rules are written independently from the documentation; where they leave a case open the monitor does not judge it.")
for i in (11,12,15,25,26): T[f"P{i:02d}"] = (META, "No reference result is needed; the real code is compared with itself.")
T["P16"] = ("consistency monitor: both public entry points run on the same text and are compared", "The real code is compared with itself; the class of an error is known from its variant.")
checks = []
for l in open(f"{root}/properties.jsonl"):
    p = json.loads(l)["id"]
    t, n = T[p]
    checks.append({"property": p, "quick_cmd": f"./check.sh {p}", "thorough_cmd": f"./check.sh {p}", "technique": t, "level": "exploration", "level_note": n})
json.dump({
 "version": 1,
 "setup_cmd": "./setup.sh",
 "hooks": {"guard": "dbml_verif", "enable": "RUSTFLAGS=\"--cfg dbml_verif\" (P28, P29, P31; the other checks use the public interface of an unmodified build)", "source_commits": ["f509259"]},
 "checks": checks,
 "not_applicable": [],
 "notes": "VERIF_TIER selects the tier, VERIF_SEED the seed, VMON_SECS overrides the time limit. `target/plain/release/vmon replay FILE` repeats a recorded violation.",
}, open(f"{root}/MANIFEST.json", "w"), indent=1)

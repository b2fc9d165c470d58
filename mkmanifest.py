#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
T = {
 "C01": "lock-step set-model monitor over mutation histories",
 "C02": "symmetry and model monitor over composed constructions",
 "C03": "lock-step cell-map monitor over all element types",
 "C04": "exact block-count oracle on executions, overflow-check build",
 "C05": "exact threshold oracle on executions",
 "C06": "block-census oracle on executions",
 "C07": "census-filtered model and metamorphic oracles",
 "C08": "round-trip oracle over save/load generations",
 "C09": "independent codec as format oracle, shipped samples",
 "C10": "independent validator as verdict oracle under structured corruption",
 "C11": "counting allocator, overflow checks and CPU watchdog on hostile input",
 "C12": "independent renderer as text oracle",
 "C13": "checking allocator, AddressSanitizer/UBSan and Miri on C histories",
 "C14": "transcript monitor on a C program built from gphrx.h, against the Rust library",
 "C15": "Python reference model monitor on the built bindings",
 "C16": "allocator event monitor under Python object histories",
 "C17": "snapshot monitor over families of related values",
 "C18": "ThreadSanitizer, Miri race detection, per-thread answer monitor",
 "C19": "counting allocator, overflow checks and model on extreme ids",
 "C20": "cross-view equality monitor against a block model",
 "C21": "fault injection in the allocator under result, leak and state monitors, in Rust, C and Python",
}
N = {
 "C11": "Memory is judged by allocator events against 64 KiB + 1024 x input length; time by a CPU-time watchdog. ",
 "C13": "Allocator events are checked in every history; AddressSanitizer, UBSan and Miri see a subset of them. ",
 "C16": "Trusts the counting allocator linked into the instrumented shared library; CPython's own allocations are not judged. ",
 "C18": "Race detectors see the schedules that occurred, varied by Miri's seeds and preemption rates. ",
 "C19": "Memory is judged by peak allocation against 8 KiB + 1024 x stored items. ",
}
d = {
 "version": 1,
 "setup_cmd": "python3 check.py --setup",
 "checks": [{
    "property": p,
    "quick_cmd": f"VERIF_TIER=quick python3 check.py {p}",
    "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {p}",
    "evidence_file": f"evidence/{p}.json",
    "technique": "runtime monitoring: " + T[p],
    "level": "exploration",
    "level_note": N.get(p, "") + "Held on the executions produced and counted in the evidence; not a proof. Trusts the independent model/oracle in /verif/harness or /verif/pydriver.",
 } for p in sorted(T)],
 "not_applicable": [],
 "notes": "No hooks in /repo: every property is observed at public boundaries. Defects repaired in /repo are listed in known-findings.json. Every check rebuilds /repo's working tree.",
}
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "MANIFEST.json"), "w") as f:
    json.dump(d, f, indent=1)
    f.write("\n")

#!/usr/bin/env python3
"""Writes MANIFEST.json. CLAIMED lists the worlds that have a check."""
import json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl")) if l.strip()]
CLAIMED = open(os.path.join(here, "tools", "claimed.txt")).read().split()
NA = {
    "T01": "Generated TypeScript client text: no concurrency, time, I/O, fault or multi-party behaviour for the property to depend on, so there is nothing for a simulator to schedule or inject. A static comparison of schema and client would decide it, which is another technique.",
}
TECH = {
    "R": "deterministic simulation with fault injection: seeded search over client schedules, block times, halts, failing collections, out-of-gas and sub-message faults, judged step by step against a reference model of the reserve auction",
    "M": "deterministic simulation with fault injection: seeded search over client schedules, block times, failing/re-entrant hooks and collections, out-of-gas and sub-message faults, judged step by step against a reference model of marketplace v1",
    "V": "deterministic simulation with fault injection: seeded search over client schedules, block times, failing/re-entrant collections, out-of-gas and sub-message faults, judged step by step against a reference model of marketplace v2",
    "D": "deterministic simulation with fault injection: the same block sequence executed on simulated replicas that crash, restart, replay and simulate at seeded points; events, results and storage compared",
}
checks = []
for p in props:
    i = p["id"]
    if i not in CLAIMED:
        continue
    checks.append({
        "property": i,
        "quick_cmd": f"./check.sh {i} quick",
        "thorough_cmd": f"./check.sh {i} thorough",
        "evidence_file": f"evidence/{i}.json",
        "technique": TECH[i[0]],
        "level": "exploration",
        "level_note": "Seeded random search over simulated runs of the real contract code; a clean batch is evidence, not a proof. Trusts the simulated chain (bank, message dispatch, rollback, replies), the sg721 stub and the reference model in sim/src.",
    })
m = {
    "version": 1,
    "setup_cmd": "./check.sh build",
    "checks": checks,
    "not_applicable": [{"property": p["id"], "reason": NA[p["id"]]} for p in props if p["id"] in NA],
    "notes": "No hooks were needed in /repo: the contracts already take storage, querier, block time and messages from their caller. See DESIGN.md and known-findings.txt.",
}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")

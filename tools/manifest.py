#!/usr/bin/env python3
"""Rewrites MANIFEST.json from the list of claimed properties and their notes."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
cov = json.load(open(os.path.join(H, "coverage.json")))
claimed = [l["id"] for l in map(json.loads, open(os.path.join(H, "properties.jsonl"))) if l["id"] in cov]
na = {
    "C20": "pure predicates of one string: no schedule, fault, time, I/O or history for a simulator to control (their use on every route into typed strings is covered by C03, C10 and C19)",
    "C21": "a pure function of one borrowed string: nothing varies between executions (getters after edits, chains and conversions are covered by C01, C06 and C18)",
    "C23": "layout and auto traits are fixed at compile time; there is no execution to simulate",
}
json.dump({
    "version": 1, "setup_cmd": "./check --build",
    "checks": [{
        "property": p, "quick_cmd": "./check %s" % p, "thorough_cmd": "./check %s --thorough" % p,
        "technique": "deterministic simulation with fault injection: seeded search over " + cov[p]["search"],
        "level": "exploration", "level_note": cov[p]["note"],
    } for p in claimed],
    "not_applicable": [{"property": p, "reason": r} for p, r in na.items()] + [
        {"property": l["id"], "reason": "check not built yet"}
        for l in map(json.loads, open(os.path.join(H, "properties.jsonl"))) if l["id"] not in cov and l["id"] not in na],
    "notes": "No hooks in /repo were needed: sinks, values, contexts, (de)serializers and the allocator are already seams.",
}, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)

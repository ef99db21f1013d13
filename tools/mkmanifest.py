#!/usr/bin/env python3
"""Writes MANIFEST.json from props.py, properties.jsonl and the reasons below."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from props import PROPS
PURE = ("Pure function of its arguments: no schedule, fault, delay or earlier event can change the outcome, so a simulator has nothing to decide; "
        "deciding it would be input generation against a numeric oracle, which is another technique. ")
NA = {
    "C20": PURE + "That these routines stay pure under concurrency, interrupts and any history is C01, C02 and C15.",
    "C21": PURE + "Purity itself is covered by C01, C02 and C15.",
    "C22": PURE + "Purity itself is covered by C01, C02 and C15.",
    "C23": PURE + "Purity itself is covered by C01 and C02.",
    "C24": "Compares two builds on equal inputs; nothing in it depends on interleaving, time or faults, so simulation adds nothing to input generation.",
    "C25": "A statement about the symbol tables of build products, decided by static inspection; there is no execution to schedule.",
    "C26": PURE + "Parsing and formatting have no state, no environment and no concurrency.",
}
def main():
    ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
    m = {"version": 1, "setup_cmd": "./check --setup", "checks": [], "not_applicable": []}
    for i in ids:
        if i in PROPS:
            p = PROPS[i]
            m["checks"].append({
                "property": i, "quick_cmd": f"./check {i}", "thorough_cmd": f"./check {i}",
                "evidence_file": f"evidence/{i}.json",
                "technique": "deterministic simulation with fault injection: " + p["technique"],
                "level": p["level"], "level_note": p["level_note"]})
        else:
            m["not_applicable"].append({"property": i, "reason": NA.get(i, "Planned for the simulator, not built yet.")})
    m["notes"] = "Replay a violation with ./check <property> --replay <file>. Findings repaired in /repo are listed in known-findings.txt."
    json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
    open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")
main()

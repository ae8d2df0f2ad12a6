#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of claimed properties below."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
claimed = {
    "P01": ("deterministic simulation of the program with failing calls", "seeded search over worlds, commands and failing calls; compared with the undisturbed run"),
    "P05": ("deterministic simulation with split and interrupted transfers", "seeded search over worlds, commands, splits and interruptions; compared with the undisturbed run"),
}
extra = os.path.join(here, "tools", "claims.json")
if os.path.exists(extra):
    claimed.update({k: tuple(v) for k, v in json.load(open(extra)).items()})
reasons = {
    "P20": "A pure function of the document: no schedule, fault or history is involved, so simulation adds nothing over ordinary input generation.",
    "P21": "A pure function of the document; deciding it needs an independent AsciiDoc implementation as oracle, not a simulator.",
    "P22": "A pure function of the document; source ranges do not depend on timing, faults or history.",
    "P23": "A pure function of the document; identifier uniqueness does not depend on timing, faults or history.",
    "P24": "A pure function of the document; the count does not depend on timing, faults or history.",
    "P25": "A pure function of the document and the included file; line selection does not depend on timing, faults or history.",
    "P26": "A pure function of the document; block structure does not depend on timing, faults or history.",
}
ids = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl")) if l.strip()]
checks, na = [], []
for i in ids:
    if i in claimed:
        t, n = claimed[i]
        checks.append({
            "property": i,
            "quick_cmd": f"bash sim/check.sh check {i}",
            "thorough_cmd": f"bash sim/check.sh check {i}",
            "technique": t,
            "level": "exploration",
            "level_note": n,
            "evidence_file": f"evidence/{i}.json",
        })
    else:
        na.append({"property": i, "reason": reasons.get(i, "The check is still being built.")})
doc = {
    "version": 1,
    "setup_cmd": "bash sim/build.sh",
    "checks": checks,
    "not_applicable": na,
    "notes": "No hooks in /repo: the checks take over the process at the libc boundary and instrument /repo's crate with a compiler pass while building it into /verif/target. Replay a violation with: bash sim/check.sh replay FILE.",
}
json.dump(doc, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")

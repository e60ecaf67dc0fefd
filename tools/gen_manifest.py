#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {}
NOTE = ("Seeded search over simulated histories: a clean run is evidence, not proof. Real code: the delegation program "
        "(natively compiled from /repo, default features off, i.e. the production admin lookup), the Agave 2.2 invoke context, transaction "
        "context and system program. Modelled: bank (fees, atomicity, rent and balance rules, purge, forks), network, clock, "
        "participants, owner programs. Not modelled: compute and size limits, account locks, the SBF loader. Trusts the reference model "
        "in dsim/src/model.rs and the network's signature verification.")
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
m = {
    "version": 1,
    "setup_cmd": "./build.sh",
    "checks": [{
        "property": p["id"],
        "quick_cmd": f"./check.sh {p['id']}",
        "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {p['id']}",
        "evidence_file": f"evidence/{p['id']}.json",
        "technique": "deterministic simulation with fault injection (seeded search, reference model, minimised replay)",
        "level": "exploration",
        "level_note": NOTE,
    } for p in props if p["id"] not in NA],
    "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
    "notes": "No hooks in /repo: the program's seams (accounts, sysvars, syscalls, invoke context) are all owned by the simulator. Known findings: KNOWN_FINDINGS.txt.",
}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)

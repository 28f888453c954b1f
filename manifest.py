#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the list of checks the harness has."""
import json, re
ids = re.findall(r'"(C\d\d)"', re.search(r'IDS: &\[&str\] = &\[(.*?)\];', open('/verif/harness/src/checks/mod.rs').read(), re.S).group(1))
props = [json.loads(l) for l in open('/verif/properties.jsonl')]
TECH = {
 'C07': 'explicit-state breadth-first model checking of all step histories on the real code, each transition compared with a token-level reference model',
 'C13': 'exhaustive exploration of all operation histories up to a depth on the real code, each state compared with a reference set',
}
D = 'stateless model checking: exhaustive enumeration of every bounded document and operation, executed on the real code and compared with a token-level reference model'
NOTE = ('Exhaustive within the bounds written in DESIGN.md and counted in the evidence file (every document of each alphabet up to a size, every position pair, every slice up to a size), '
        'plus families of larger documents. The real code itself is executed; the reference model shares no code with it and every explored case is a conformance check of the model against the implementation. '
        'Says nothing about effects that only appear beyond those bounds; trusts the reference model and rustc.')
m = {
 "version": 1,
 "setup_cmd": "./check.sh build",
 "checks": [],
 "not_applicable": [],
 "notes": "No hooks: the checks use the public API only. known-findings.jsonl lists repaired (and any open) defects.",
}
for p in props:
    i = p['id']
    if i in ids:
        m['checks'].append({"property": i, "quick_cmd": f"./check.sh {i} quick", "thorough_cmd": f"./check.sh {i} thorough",
            "technique": TECH.get(i, D), "level": "model_checking", "level_note": NOTE})
    else:
        m['not_applicable'].append({"property": i, "reason": "check still being built"})
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)
open('/verif/MANIFEST.json', 'a').write('\n')

#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the list of built checks."""
import json, os, re
D = '/verif'
props = [json.loads(l) for l in open(D + '/properties.jsonl')]
main = open(D + '/mc/src/main.rs').read()
built = set(re.findall(r'"(C\d\d)" =>', main))
TECH = json.load(open(D + '/tools/technique.json'))
checks, na = [], []
for p in props:
    i = p['id']
    if i in built:
        t = TECH.get(i, {})
        checks.append({
            "property": i,
            "quick_cmd": f"bash tools/check.sh {i}",
            "thorough_cmd": f"VERIF_TIER=thorough bash tools/check.sh {i}",
            "evidence_file": f"evidence/{i}.json",
            "technique": t.get("technique", "explicit-state bounded model checking of the implementation: every operation sequence / configuration within the stated bounds is executed on the real library and compared with a reference model"),
            "level": "model_checking",
            "level_note": t.get("note", "exhaustive within the bounds stated in the evidence file; every enumerated behaviour is executed on the library built from /repo, so model and implementation are compared on each trace"),
        })
    else:
        na.append({"property": i, "reason": TECH.get(i, {}).get("na", "check not built")})
m = {"version": 1, "setup_cmd": "bash tools/setup.sh", "checks": checks, "not_applicable": na,
     "notes": "One checker binary (mc) is built from /verif/mc against /repo's working tree; no hooks are used. tools/check.sh <id> rebuilds when /repo or the checker changed and runs one property; tools/check.sh <id> --replay <phase> <case> replays a violation."}
json.dump(m, open(D + '/MANIFEST.json', 'w'), indent=1)
open(D + '/MANIFEST.json', 'a').write('\n')
print(len(checks), 'checks', len(na), 'not applicable')

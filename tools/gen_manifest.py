#!/usr/bin/env python3
"""Writes MANIFEST.json: one check per property registered in mc/src/checks/mod.rs."""
import json, re, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = re.findall(r'\("(C\d\d)", ', open(root + '/mc/src/checks/mod.rs').read())
props = {json.loads(l)['id']: json.loads(l) for l in open(root + '/properties.jsonl')}
notes = json.load(open(root + '/tools/levels.json'))
checks = []
for i in ids:
    t, n = notes[i]
    checks.append({
        "property": i,
        "quick_cmd": "./check.sh %s --tier quick" % i,
        "thorough_cmd": "./check.sh %s --tier thorough" % i,
        "technique": t,
        "level": "model_checking",
        "level_note": n,
    })
m = {
    "version": 1,
    "setup_cmd": "./check.sh --build",
    "checks": checks,
    "not_applicable": [{"property": i, "reason": "model checking applies; the check is not built yet"} for i in props if i not in ids],
    "notes": "No hooks in /repo: the random generator and the thread pool of the dependencies are replaced, by [patch] in /verif/mc, with copies that the checker controls. See DESIGN.md.",
}
json.dump(m, open(root + '/MANIFEST.json', 'w'), indent=1)
open(root + '/MANIFEST.json', 'a').write('\n')
print(len(checks), "checks", len(m["not_applicable"]), "not applicable")

#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props/*.py."""
import json, os, sys, glob
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mechanism, observe=(), tech=None, note=None, na=None, state=None):
    assert len(title) <= 80, (id, len(title))
    for f in files:
        assert os.path.exists('/repo/' + f), f
    a = {"files": list(files), "mechanism": [{"name": n, "where": w} for n, w in mechanism]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = list(observe)
    P.append(dict(p={"id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a},
        tech=tech, note=note, na=na))
for f in sorted(glob.glob(root + '/tools/props/*.py')):
    exec(compile(open(f).read(), f, 'exec'))
P.sort(key=lambda x: x["p"]["id"])
with open(root + '/properties.jsonl', 'w') as o:
    for x in P: o.write(json.dumps(x["p"], ensure_ascii=False) + '\n')
m = {"version": 1, "setup_cmd": "./run.sh setup",
 "checks": [{"property": x["p"]["id"], "quick_cmd": f"./run.sh {x['p']['id']} quick", "thorough_cmd": f"./run.sh {x['p']['id']} thorough",
   "evidence_file": f"evidence/{x['p']['id']}.json", "technique": x["tech"], "level": "exploration", "level_note": x["note"]} for x in P if not x["na"]],
 "not_applicable": [{"property": x["p"]["id"], "reason": x["na"]} for x in P if x["na"]],
 "hooks": {"guard": "cfg(tlsn_verif)", "enable": "rustflags = --cfg tlsn_verif in /verif/core/.cargo/config.toml; only C74 and C75 use the hook", "source_commits": ["9ae64ea"]},
 "notes": "See DESIGN.md; known-findings.jsonl lists repaired and recorded defects."}
json.dump(m, open(root + '/MANIFEST.json', 'w'), indent=1, ensure_ascii=False); open(root + '/MANIFEST.json', 'a').write('\n')
print(len(P), 'properties', sum(1 for x in P if not x['na']), 'claimed')

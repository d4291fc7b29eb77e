#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py (one source for both)."""
import json, sys
sys.path.insert(0, '/verif/tools')
from props import PROPS, NOT_APPLICABLE, HOOK_COMMITS
with open('/verif/properties.jsonl', 'w') as f:
    for p in PROPS:
        rec = {k: p[k] for k in ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')}
        assert len(rec['title']) <= 80, rec['title']
        f.write(json.dumps(rec, ensure_ascii=False) + '\n')
checks = []
for p in PROPS:
    if p.get('check'):
        c = p['check']
        checks.append({
            'property': p['id'],
            'quick_cmd': f"./check.sh {p['id']}",
            'thorough_cmd': f"VERIF_TIER=thorough ./check.sh {p['id']}",
            'technique': c['technique'], 'level': c['level'], 'level_note': c['note'],
        })
m = {'version': 1, 'setup_cmd': './build.sh',
     'hooks': {'guard': 'cfg(vmc)', 'enable': 'RUSTFLAGS="--cfg vmc --check-cfg=cfg(vmc)" (set by /verif/build.sh)', 'source_commits': HOOK_COMMITS},
     'checks': checks, 'not_applicable': NOT_APPLICABLE}
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1, ensure_ascii=False)
print(len(PROPS), 'properties', len(checks), 'checks')

#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from checks.py and properties.jsonl."""
import json, os, subprocess, sys
ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
sys.path.insert(0, ROOT)
import checks
props = [json.loads(l)['id'] for l in open(os.path.join(ROOT, 'properties.jsonl'))]
out = {'version': 1, 'setup_cmd': checks.SETUP,
       'hooks': {'guard': 'cfg(musli_verif)',
                 'enable': 'RUSTFLAGS="--cfg musli_verif" (set by run_check.py for the crate /verif/kani-int); contract attributes additionally need cfg(kani), which cargo kani sets',
                 'source_commits': checks.HOOK_COMMITS},
       'checks': [], 'not_applicable': [], 'notes': checks.NOTES}
for p in props:
    if p in checks.CHECKS:
        c = checks.CHECKS[p]
        out['checks'].append({'property': p, 'quick_cmd': 'python3 run_check.py ' + p,
                              'thorough_cmd': 'VERIF_TIER=thorough python3 run_check.py ' + p,
                              'technique': c['technique'], 'level': c['level'], 'level_note': c['note']})
    else:
        out['not_applicable'].append({'property': p, 'reason': checks.NOT_APPLICABLE[p]})
json.dump(out, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)

#!/usr/bin/env python3
"""Writes MANIFEST.json. Properties without an entry in NOTES are listed as not applicable (yet)."""
import json, subprocess
TECH = "stateless model checking of the implementation: exhaustive deviation-bounded enumeration of executions under a virtual clock, random source and network"
NOTES = json.load(open('tools/notes.json'))
ids = [json.loads(l)['id'] for l in open('properties.jsonl')]
hooks = subprocess.run(['git', '-C', '/repo', 'log', '--format=%h', '--grep=^verif:'], capture_output=True, text=True).stdout.split()
m = {
    'version': 1,
    'setup_cmd': './check.sh setup',
    'hooks': {'guard': 'cfg(uflow_verif)', 'enable': 'RUSTFLAGS="--cfg uflow_verif"', 'source_commits': hooks},
    'checks': [{
        'property': i, 'quick_cmd': f'./check.sh {i} quick', 'thorough_cmd': f'./check.sh {i} thorough',
        'technique': NOTES[i].get('technique', TECH), 'level': 'model_checking', 'level_note': NOTES[i]['note'],
    } for i in ids if i in NOTES],
    'not_applicable': [{'property': i, 'reason': 'check under construction'} for i in ids if i not in NOTES],
}
json.dump(m, open('MANIFEST.json', 'w'), indent=1)
open('MANIFEST.json', 'a').write('\n')

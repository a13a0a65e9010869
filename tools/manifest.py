#!/usr/bin/env python3
"""Regenerate MANIFEST.json from properties.jsonl and the check modules (development aid)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LEVEL_NOTE = (
    'Bounded, seeded generated-input search: shows the property on every generated case '
    '(see the evidence file for counts and classes), never its absence elsewhere. Trusts the '
    'oracle in /verif/checks and /verif/vlib, CPython and the installed third party packages. '
)
with open(os.path.join(HERE, 'tools', 'notes.json')) as fp:
    NOTES = json.load(fp)
props = [json.loads(line) for line in open(os.path.join(HERE, 'properties.jsonl')) if line.strip()]
na = {entry['property']: entry['reason'] for entry in NOTES['not_applicable']}
checks = []
for prop in props:
    pid = prop['id']
    if pid in na or not os.path.exists(os.path.join(HERE, 'checks', pid.lower() + '.py')):
        continue
    note = NOTES['checks'].get(pid, {})
    checks.append({
        'property': pid,
        'quick_cmd': f'python3 run.py {pid}',
        'thorough_cmd': f'python3 run.py {pid} --thorough',
        'technique': note.get('technique', 'property-based testing (Hypothesis) against an independent oracle'),
        'level': 'exploration',
        'level_note': LEVEL_NOTE + note.get('note', ''),
    })
manifest = {
    'version': 1,
    'setup_cmd': 'python3 tools/sanity.py',
    'checks': checks,
    'not_applicable': NOTES['not_applicable'],
    'notes': 'See DESIGN.md. No hooks: every check observes the public API of the working tree in /repo.',
}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as fp:
    json.dump(manifest, fp, indent=1)
    fp.write('\n')
print(len(checks), 'checks')

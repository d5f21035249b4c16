#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the registry and properties.jsonl"""
from pathlib import Path
import json
import sys

root = Path(__file__).resolve().parent.parent
sys.path.insert(0, str(root / 'lib'))

from hv import registry  # noqa

props = [json.loads(i) for i in
         (root / 'properties.jsonl').read_text().splitlines()]
not_yet = 'no check has been built yet'
data = {
    'version': 1,
    'setup_cmd': './setup.sh',
    'checks': [{
        'property': i['id'],
        'quick_cmd': f'./check {i["id"]}',
        'thorough_cmd': f'./check {i["id"]} --tier thorough',
        'technique': 'TLA+ specification model checked with TLC; traces of '
                     'the real code validated against it with TLC',
        'level': 'model_checking',
        'level_note': registry.checks[i['id']].note}
        for i in props if i['id'] in registry.checks],
    'not_applicable': [{'property': i['id'],
                        'reason': not_yet}
                       for i in props if i['id'] not in registry.checks],
    'notes': 'No hooks are needed in /repo. All specifications are in TLA+ '
             '(see DESIGN.md).'}
(root / 'MANIFEST.json').write_text(json.dumps(data, indent=1) + '\n')

#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of claimed properties."""
import json
import pathlib
import re

ROOT = pathlib.Path(__file__).resolve().parent.parent
CLAIMED = (ROOT / 'tools/claimed.txt').read_text().split()
NOTE = ('Every path of the harnesses over the real functions of /repo (rewritten from source at '
        'each run) is explored with symbolic inputs and z3 decides each branch and assertion; '
        'exhaustive within the bounds given in the evidence, nothing claimed beyond. Trusts the '
        'engine\'s models of Python operations (replayed on the real code each run), z3, and '
        'idealised cryptography on symbolic data.')
ids = [json.loads(l)['id'] for l in (ROOT / 'properties.jsonl').open()]
have = set()
for f in (ROOT / 'harness').glob('*.py'):
    for m in re.finditer(r"@case\(\s*(\[[^\]]*\]|'[^']*')", f.read_text()):
        have |= set(re.findall(r"'(\w+)'", m[1]))
checks, na = [], []
for i in ids:
    if i in CLAIMED:
        assert i in have, i
        checks.append({
            'property': i,
            'quick_cmd': f'python3-vt check.py --property {i} --tier quick',
            'thorough_cmd': f'python3-vt check.py --property {i} --tier thorough',
            'technique': 'bounded symbolic execution of the real code, z3 deciding branches and '
                         'assertions',
            'level': 'model_checking',
            'level_note': NOTE,
        })
    else:
        na.append({'property': i, 'reason': 'no check built yet'})
doc = {'version': 1, 'setup_cmd': 'python3-vt -c "import z3"', 'checks': checks,
       'not_applicable': na}
(ROOT / 'MANIFEST.json').write_text(json.dumps(doc, indent=1) + '\n')
print(len(checks), 'claimed,', len(na), 'not')

#!/usr/bin/env python3
"""Writes CASES.md: the cases of every property, with the code they enter and their bounds."""
import ast
import json
import pathlib

ROOT = pathlib.Path(__file__).resolve().parent.parent
titles = {}
for line in (ROOT / 'properties.jsonl').open():
    d = json.loads(line)
    titles[d['id']] = d['title']
cases = {p: [] for p in titles}
for path in sorted((ROOT / 'harness').glob('*.py')):
    for node in ast.parse(path.read_text()).body:
        if not isinstance(node, ast.FunctionDef):
            continue
        for d in node.decorator_list:
            if not (isinstance(d, ast.Call) and getattr(d.func, 'id', '') == 'case'):
                continue
            props = ast.literal_eval(d.args[0])
            kw = {k.arg: k.value for k in d.keywords}
            try:
                bounds = ast.literal_eval(kw['bounds'])
            except (KeyError, ValueError):
                bounds = ast.unparse(kw['bounds']) if 'bounds' in kw else ''
            doc = (ast.get_docstring(node) or '').split('\n')[0]
            for p in [props] if isinstance(props, str) else props:
                cases[p].append((path.stem, node.name, doc, bounds))
out = ['# Cases', '', 'Written by `tools/gen_cases.py` from the harnesses. Every case explores all its paths '
       'within these bounds on both tiers, unless the evidence file says otherwise; the functions '
       'encoded are listed in the evidence.', '']
for p, rows in cases.items():
    out += [f'## {p} - {titles[p]}', '', '| case | within |', '|---|---|']
    for mod, name, doc, bounds in rows:
        out.append(f'| `{mod}.{name}` {doc} | {bounds} |')
    out.append('')
(ROOT / 'CASES.md').write_text('\n'.join(out))

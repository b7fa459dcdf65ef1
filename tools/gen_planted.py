"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import json
import pathlib

ROOT = pathlib.Path(__file__).resolve().parent.parent
HEAD = '| planted bug | what it needs | caught by |\n|---|---|---|\n'

rows = []
for meta in sorted(ROOT.glob('seeded/*/meta.json')):
    m = json.loads(meta.read_text())
    rows.append(f"| {meta.parent.name} | {m['needs']} | {m['property']} |\n")
design = ROOT / 'DESIGN.md'
text = design.read_text()
design.write_text(text[:text.index(HEAD)] + HEAD + ''.join(rows))

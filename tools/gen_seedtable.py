"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json (documentation only; no check uses it)."""
import json
import pathlib
import re

ROOT = pathlib.Path(__file__).resolve().parent.parent
HARDENED = json.loads((ROOT / 'tools' / 'seed_results.json').read_text())
rows = ['<!-- seeds -->', '| planted bug | what it breaks | caught by | at first |', '|---|---|---|---|']
for meta in sorted((ROOT / 'seeded').glob('*/meta.json')):
    sid, m = meta.parent.name, json.loads(meta.read_text())
    res = HARDENED.get(sid, {})
    first = 'missed, check strengthened' if res.get('first') == 'missed' else 'caught'
    rows.append(f"| {sid} | {m['what_it_breaks'].replace('|', '/')} | {res.get('caught', m['property'])} | {first} |")
rows.append('<!-- /seeds -->')
d = ROOT / 'DESIGN.md'
s = d.read_text()
table = '\n'.join(rows)
s = s.replace('SEEDTABLE', table) if 'SEEDTABLE' in s else re.sub(r'<!-- seeds -->.*<!-- /seeds -->', lambda _: table, s, flags=re.S)
d.write_text(s)

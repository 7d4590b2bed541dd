"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob
import json
import os
import re

rows = {}
for path in sorted(glob.glob('/verif/seeded/*/meta.json')):
    rows.setdefault(json.load(open(path))['property'], []).append(
        os.path.basename(os.path.dirname(path)))
table = '| check | catches |\n|---|---|\n' + ''.join(
    f'| {pid} | {", ".join(names)} |\n' for pid, names in sorted(rows.items()))
text = open('/verif/DESIGN.md').read()
text = re.sub(r'\| check \| catches \|\n(\|.*\n)+', lambda _: table, text)
text = re.sub(r'holds \d+ changes', f'holds {sum(map(len, rows.values()))} changes', text)
open('/verif/DESIGN.md', 'w').write(text)

"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json (python3 tools/plants_table.py)"""
import collections, json, pathlib

ROOT = pathlib.Path(__file__).resolve().parent.parent
MARK = '<!-- plants -->'
by = collections.defaultdict(list)
for f in sorted((ROOT / 'seeded').glob('*/meta.json')):
    by[json.loads(f.read_text())['property']].append(f.parent.name)
rows = ['| caught by | planted bugs |', '|---|---|']
rows += [f'| {p} ({len(v)}) | {", ".join(v)} |' for p, v in sorted(by.items())]
p = ROOT / 'DESIGN.md'
head = p.read_text().split(MARK)[0]
p.write_text(head + MARK + '\n' + '\n'.join(rows) + '\n')
print(sum(map(len, by.values())), 'bugs')

"""Writes the table of planted bugs at the end of DESIGN.md (all of them are caught by the check of their property, see plant.py)."""
import json, pathlib
R = pathlib.Path(__file__).resolve().parents[1]
p = R / 'DESIGN.md'
text = p.read_text()
head = text[:text.index('| planted bug |')] if '| planted bug |' in text else text.replace('(table below)', '').rstrip() + '\n\n'
rows = ['| planted bug | caught by | what it breaks | what it needs |', '|---|---|---|---|']
for d in sorted((R / 'seeded').iterdir()):
    m = json.load(open(d / 'meta.json'))
    rows.append(f"| {d.name} | {m['property']} | {m['what_it_breaks']} | {m['needs']} |")
p.write_text(head + '\n'.join(rows) + '\n')

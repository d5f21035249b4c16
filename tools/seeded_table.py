"""Rewrite the table of planted bugs in DESIGN.md (run by hand)

(`missed` lists the ones which the checks did not catch at first, with what
was strengthened)

"""
import json
import pathlib
import re

root = pathlib.Path(__file__).resolve().parent.parent

missed = json.loads((root / 'tools/seeded_missed.json').read_text())

rows = ['| planted bug | property (check which catches it) | breaks | needs |',
        '|---|---|---|---|']
for path in sorted((root / 'seeded').glob('*/meta.json')):
    meta = json.loads(path.read_text())
    name = path.parent.name
    rows.append('| {} | {} | {} | {} |'.format(
        name, meta['property'],
        meta['what_it_breaks'].replace('|', '/').replace('\n', ' '),
        meta['needs'].replace('|', '/').replace('\n', ' ')))
    if name in missed:
        rows[-1] = rows[-1].replace(
            f"| {meta['property']} |",
            f"| {meta['property']} (missed at first: {missed[name]}) |", 1)

begin, end = '<!-- seeded -->', '<!-- /seeded -->'
design = root / 'DESIGN.md'
text = design.read_text()
text = text.replace('SEEDED_TABLE', f'{begin}\n{end}')
text = re.sub(f'{begin}.*{end}',
              lambda _: '\n'.join([begin, *rows, end]), text, flags=re.S)
design.write_text(text)

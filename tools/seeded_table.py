"""Rewrite the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, pathlib, re
root = pathlib.Path(__file__).resolve().parent.parent
rows = ['| id | property | file | needs | what it breaks |', '|---|---|---|---|---|']
for d in sorted((root / 'seeded').iterdir()):
    m = json.loads((d / 'meta.json').read_text())
    files = sorted(set(re.findall(r'^\+\+\+ b/(\S+)', (d / 'patch.diff').read_text(), re.M)))
    c = lambda s: ' '.join(str(s).split()).replace('|', '\\|')
    rows.append('| %s | %s | %s | %s | %s |' % (d.name, m['property'], ', '.join(f.replace('soynlp/', '') for f in files), c(m['needs']), c(m['what_it_breaks'])))
p = root / 'DESIGN.md'
t = p.read_text()
b, e = '<!-- seeded table -->', '<!-- end -->'
if b not in t:
    t = t.replace('SEEDED_TABLE', b + '\n' + e)
i, j = t.index(b), t.index(e)
p.write_text(t[:i] + b + '\n' + '\n'.join(rows) + '\n' + t[j:])

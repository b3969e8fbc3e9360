"""Write the table of seeded changes into DESIGN.md."""
import json, os, re, subprocess
V = '/verif'
first = json.load(open(f'{V}/tools/missed.json'))
rows = ['<!-- seeds -->', '| change | needs | breaks | caught by |', '|---|---|---|---|']
for i in sorted(os.listdir(f'{V}/seeded')):
    m = json.load(open(f'{V}/seeded/{i}/meta.json'))
    note = {'': m['property']}.get(first.get(i, ''), f"{m['property']} ({first.get(i)})")
    rows.append(f"| {i} | {m['needs']} | {m['what_it_breaks']} | {note} |")
rows.append('<!-- /seeds -->')
s = open(f'{V}/DESIGN.md').read()
t = '\n'.join(rows)
s = s.replace('SEEDTABLE', t) if 'SEEDTABLE' in s else re.sub(r'<!-- seeds -->.*<!-- /seeds -->', lambda m: t, s, flags=re.S)
k = json.load(open(f'{V}/known_findings.json'))
s = s.replace('FIXCOUNT', str(len([x for x in k if x['status'] == 'fixed'])))
open(f'{V}/DESIGN.md', 'w').write(s)

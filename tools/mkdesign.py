"""Writes the table of planted bugs of DESIGN.md between its markers (developer tool)."""
import glob, json, os, re
rows = ['| planted bug | property | needs | breaks |', '|---|---|---|---|']
for f in sorted(glob.glob('/verif/seeded/*/meta.json')):
    d = json.load(open(f))
    rows.append('| %s | %s | %s | %s |' % (os.path.basename(os.path.dirname(f)), d['property'], d['needs'].replace('|', '\\|'), d['what_it_breaks'].replace('|', '\\|')))
s = open('/verif/DESIGN.md').read()
s = re.sub(r'(<!-- seeds -->\n).*?(<!-- /seeds -->)', lambda m: m.group(1) + '\n'.join(rows) + '\n' + m.group(2), s, flags=re.S)
open('/verif/DESIGN.md', 'w').write(s)

"""Writes the table of planted bugs into DESIGN.md (this file is not used by any check)."""
import glob, json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| change | caught by | what it needs | what it breaks |', '|---|---|---|---|']
for f in sorted(glob.glob(H + '/seeded/*/meta.json')):
    d = json.load(open(f))
    rows.append('| %s | %s | %s | %s |' % (os.path.basename(os.path.dirname(f)), d['property'] + ''.join(', ' + x for x in d.get('also', [])),
                                         d['needs'].replace('|', '/'), d['what_it_breaks'].replace('|', '/')))
s = open(H + '/DESIGN.md').read()
a, b = s.index('<!-- table -->'), s.index('<!-- /table -->')
open(H + '/DESIGN.md', 'w').write(s[:a] + '<!-- table -->\n' + '\n'.join(rows) + '\n' + s[b:])

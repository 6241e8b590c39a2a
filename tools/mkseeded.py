# rewrites the table of planted bugs in DESIGN.md
import json, glob, re
d = '/verif/'
rows = []
for f in sorted(glob.glob(d + 'seeded/*/meta.json')):
    m = json.load(open(f))
    rows.append('| %s | %s |' % (f.split('/')[-2], ' '.join(m['needs'].split())))
s = open(d + 'DESIGN.md').read()
i = s.index('| planted bug | needs |')
j = s.index('\n\n', i)
s = s[:i] + '| planted bug | needs |\n|---|---|\n' + '\n'.join(rows) + s[j:]
open(d + 'DESIGN.md', 'w').write(s)
print(len(rows))

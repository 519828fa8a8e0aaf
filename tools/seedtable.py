"""Rewrite the table of planted bugs in DESIGN.md from tools/seeds and seeded/*/meta.json."""
import glob, json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = open(root + '/DESIGN.md').read()
head, rest = d.split('| planted bug | needs |\n|---|---|\n', 1)
after = rest[rest.index('\n\n'):] if '\n\n' in rest else '\n'
rows = []
for m in sorted(glob.glob(root + '/seeded/*/meta.json')):
    j = json.load(open(m))
    rows.append('| %s | %s |' % (os.path.basename(os.path.dirname(m)), j['needs'].replace('|', '\\|').strip()))
open(root + '/DESIGN.md', 'w').write(head + '| planted bug | needs |\n|---|---|\n' + '\n'.join(rows) + after)
print(len(rows), 'planted bugs')

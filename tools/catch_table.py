"""Rewrites the table of planted bugs at the end of DESIGN.md from a result file of tools/catch.sh."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
path = os.path.join(HERE, 'tools', 'catches.tsv')
results = {}
for name in [path] + sys.argv[1:]:
    if os.path.exists(name):
        for line in open(name, errors='replace'):
            parts = line.rstrip('\n').split('\t')
            if len(parts) >= 3:
                results[parts[0]] = parts[2]
seeded = sorted(os.listdir(os.path.join(HERE, 'seeded')))
with open(path, 'w') as f:
    for name in seeded:
        if name in results:
            f.write('%s\t-\t%s\n' % (name, results[name]))
rows = ['| planted bug | property | breaks | caught |', '|---|---|---|---|']
for name in seeded:
    meta = json.load(open(os.path.join(HERE, 'seeded', name, 'meta.json')))
    rows.append('| %s | %s | %s | %s |' % (name, meta['property'], meta['what_it_breaks'].replace('|', '/'),
        {'rc=1': 'yes', 'rc=0': 'no', None: 'not run'}.get(results.get(name), results.get(name))))
design = os.path.join(HERE, 'DESIGN.md')
text = open(design).read()
head = text.split('## 6. Planted bugs')[0]
intro = text.split('## 6. Planted bugs')[1].split('\n|')[0].rstrip()
open(design, 'w').write(head + '## 6. Planted bugs' + intro + '\n\n' + '\n'.join(rows) + '\n')
print(sum(1 for n in seeded if results.get(n) == 'rc=1'), 'of', len(seeded))

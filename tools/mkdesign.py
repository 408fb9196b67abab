# Rewrites the tables of defects and planted bugs in DESIGN.md (between their markers).
import json, os, re, collections
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s = open(H + '/DESIGN.md').read()
def put(name, body):
    global s
    a, b = '<!-- %s -->' % name, '<!-- /%s -->' % name
    i, j = s.index(a) + len(a), s.index(b)
    s = s[:i] + '\n' + body + '\n' + s[j:]
g = collections.OrderedDict()
for l in sorted(open(H + '/tools/fixmap.tsv')):
    p, t = l.rstrip('\n').split('\t'); g.setdefault(p, []).append(t)
put('defects', '\n'.join('* **%s** — %s.' % (p, '; '.join(t)) for p, t in g.items()))
rows = ['| planted bug | needs | caught by |', '|---|---|---|']
late = json.load(open(H + '/tools/late.json'))
for d in sorted(os.listdir(H + '/seeded')):
    m = json.load(open(H + '/seeded/%s/meta.json' % d))
    rows.append('| %s | %s | %s%s |' % (d, m['needs'].replace('|', '/'), m['property'], ' ¹ ' + late[d] if d in late else ''))
put('planted', '\n'.join(rows))
open(H + '/DESIGN.md', 'w').write(s)

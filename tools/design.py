"""expand @TABLE@ and @SEEDS@ of DESIGN.tmpl.md -> DESIGN.md"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t = open(V + '/tools/DESIGN.tmpl.md').read()
m = json.load(open(V + '/MANIFEST.json'))
props = {}
for l in open(V + '/properties.jsonl'):
    d = json.loads(l)
    props[d['id']] = d
ch = {c['property']: c for c in m['checks']}
na = {c['property']: c for c in m['not_applicable']}
out = []
for i, d in sorted(props.items()):
    if i in ch:
        out.append('* **%s %s.** %s. %s' % (i, d['title'], ch[i]['technique'][0].upper() + ch[i]['technique'][1:], ch[i]['level_note']))
    else:
        out.append('* **%s %s.** Not claimed: %s.' % (i, d['title'], na[i]['reason']))
t = t.replace('@TABLE@', '\n'.join(out))
rows = ['| planted bug | property | needs | caught by |', '|---|---|---|---|']
res = {}
try:
    res = json.load(open(V + '/tools/seed_results.json'))
except Exception:
    pass
if os.path.isdir(V + '/seeded'):
    for s in sorted(os.listdir(V + '/seeded')):
        j = json.load(open(V + '/seeded/%s/meta.json' % s))
        rows.append('| %s | %s | %s | %s |' % (s, j['property'], j['needs'], res.get(s, '?')))
t = t.replace('@SEEDS@', '\n'.join(rows))
open(V + '/DESIGN.md', 'w').write(t)

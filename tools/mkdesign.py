"""fills the tables of DESIGN.md from tools/design.in, tools/techniques.py, MANIFEST.json and seeded/results.json"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
exec(open(V + '/tools/techniques.py').read())
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
t = []
for p in props:
    i = p['id']
    has = os.path.exists(V + '/checks/%s.py' % i.lower())
    t.append('### %s %s%s\n\n%s\n' % (i, p['title'], '' if has else ' (not claimed)', HOW.get(i, 'No check yet.') if has else NA.get(i, 'No check yet.')))
res = {}
try: res = json.load(open(V + '/tools/seed-results.json'))
except OSError: pass
s = ['| change | property | needs | caught by |', '|---|---|---|---|']
for d in sorted(os.listdir(V + '/seeded')):
    m = json.load(open(V + '/seeded/%s/meta.json' % d))
    s.append('| %s | %s | %s | %s |' % (d, m['property'], m['needs'], res.get(d, '?')))
x = open(V + '/tools/design.in').read().replace('@@TABLE@@', '\n'.join(t)).replace('@@SEEDS@@', '\n'.join(s)).replace('@@FINDINGS@@', FINDINGS)
open(V + '/DESIGN.md', 'w').write(x)

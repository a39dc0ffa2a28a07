"""writes /verif/MANIFEST.json from the checks that exist and properties.jsonl"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
 'default': ('model-based runtime monitoring under ASan+UBSan', 'Held on the executions explored (counts in the evidence). Trusts the Python model of the documented behaviour and the sanitizers; sources are built with clang -fwrapv.'),
}
T = {}; NA = {}
try:
    exec(open(os.path.join(V, 'tools', 'techniques.py')).read())
except FileNotFoundError:
    pass
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
checks, na = [], []
for p in props:
    i = p['id']
    f = 'checks/%s.py' % i.lower()
    if os.path.exists(os.path.join(V, f)):
        t, n = T.get(i, TECH['default'])
        checks.append(dict(property=i, quick_cmd='VERIF_TIER=quick python3 ' + f, thorough_cmd='VERIF_TIER=thorough python3 ' + f, technique=t, level='exploration', level_note=n, evidence_file='evidence/%s.json' % i))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'no check is registered for it yet') if 'NA' in globals() else 'no check is registered for it yet'))
m = dict(version=1, setup_cmd='python3 tools/setup.py', checks=checks, not_applicable=na,
         notes='Every check builds the core, the native standard classes and /verif/drv/driver.c from /repo\'s working tree with sanitizers; no hooks are compiled into /repo.')
open(V + '/MANIFEST.json', 'w').write(json.dumps(m, indent=1) + '\n')
print(len(checks), 'checks', len(na), 'unclaimed')

#!/usr/bin/env python3
"""mkseed.py ID PROPERTY < spec: helper that writes /verif/seeded/ID from a python spec file:
spec defines EDITS=[(file, old, new)], NEEDS, BREAKS, CLASSES={name: src}, PERL=perl code (exit 0 = right), or DEMO=script text."""
import sys, os, subprocess, json, shutil
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def main(spec):
    g = {}
    exec(open(spec).read(), g)
    sid = g['ID']; sd = VERIF + '/seeded/' + sid
    shutil.rmtree(sd, ignore_errors=True); os.makedirs(sd)
    w = '/tmp/mkseed_%s' % sid
    shutil.rmtree(w, ignore_errors=True)
    subprocess.check_call(['git', 'clone', '-q', '/repo', w])
    for f, old, new in g['EDITS']:
        p = w + '/' + f; s = open(p).read()
        assert s.count(old) == 1, (f, s.count(old), old[:80])
        open(p, 'w').write(s.replace(old, new))
    d = subprocess.run(['git', '-C', w, 'diff'], stdout=subprocess.PIPE).stdout
    open(sd + '/patch.diff', 'wb').write(d)
    shutil.rmtree(w)
    if 'CLASSES' in g:
        for n, s in g['CLASSES'].items():
            p = sd + '/lib/SPVM/' + n.replace('::', '/') + '.spvm'; os.makedirs(os.path.dirname(p), exist_ok=True); open(p, 'w').write(s)
    for n, s in g.get('FILES', {}).items():
        p = sd + '/' + n; os.makedirs(os.path.dirname(p), exist_ok=True); open(p, 'w').write(s)
    if 'DEMO' in g: demo = g['DEMO']
    else:
        open(sd + '/demo.pl', 'w').write(g.get('PERL') or ('use strict; use warnings;\nuse SPVM "%s";\nmy $r = SPVM::%s->test;\nprint "$r\\n";\nexit($r eq "ok" ? 0 : 1);\n' % (g['MAIN'], g['MAIN'])))
        demo = '#!/bin/bash\nD=$(cd "$(dirname "$0")" && pwd)\ntimeout 250 perl -Mblib -I"$D/lib" "$D/demo.pl"\n'
    open(sd + '/demo.sh', 'w').write(demo)
    json.dump({'property': g['PROPERTY'], 'needs': g['NEEDS'], 'what_it_breaks': g['BREAKS']}, open(sd + '/meta.json', 'w'), indent=1)
for a in sys.argv[1:]: main(a)

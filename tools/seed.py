#!/usr/bin/env python3
"""Verifies planted bugs: seed.py [--tests] [--check[=PROP,..]] ID...
Works on a copy of /repo that is bound onto /repo inside a private mount namespace; /repo itself is not touched."""
import sys, os, subprocess, json, shutil, re
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def sh(root, cmd, timeout=1200, env=None):
    inner = 'mount --bind %s/repo /repo && mount --bind %s/verif /verif && cd /repo && %s' % (root, root, cmd)
    try:
        p = subprocess.run(['unshare', '-m', 'bash', '-c', inner], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=dict(os.environ, **(env or {})))
        return p.returncode, p.stdout.decode('latin1')
    except subprocess.TimeoutExpired as e:
        return 124, (e.stdout or b'').decode('latin1')

def one(sid, tests, check):
    sd = os.path.join(VERIF, 'seeded', sid)
    meta = json.load(open(sd + '/meta.json'))
    root = '/tmp/sw_%s' % sid
    shutil.rmtree(root, ignore_errors=True); os.makedirs(root)
    subprocess.check_call(['cp', '-a', '/repo', root + '/repo'])
    subprocess.check_call(['rsync', '-a', '--exclude', '.git', '--exclude', 'evidence', VERIF + '/', root + '/verif'] if shutil.which('rsync') else ['cp', '-a', VERIF, root + '/verif'])
    subprocess.check_call(['git', '-C', root + '/repo', 'checkout', '-q', '--', '.'])
    shutil.copytree(sd, root + '/demo'); 
    for f in os.listdir(root + '/demo'):
        if f.endswith('.diff') or f.endswith('.patch') or f == 'meta.json': os.unlink(root + '/demo/' + f)
    res = {}
    for k in range(3):
        rc, o = sh(root, 'bash /opt/vp/build.sh'); res['build0'] = rc
        if rc == 0: break
    if rc: print(o[-1500:])
    rc, o = sh(root, 'bash %s/demo/demo.sh' % root, 300); res['demo_clean'] = rc
    if rc: print('DEMO CLEAN', o[-1500:])
    rc, o = sh(root, 'git apply %s/patch.diff' % sd); res['apply'] = rc
    if rc: print(o)
    for k in range(2):
        rc, o = sh(root, 'bash /opt/vp/build.sh'); res['build'] = rc
        if rc == 0: break
    if rc: print(o[-1500:])
    rc, o = sh(root, 'bash %s/demo/demo.sh' % root, 300); res['demo_bug'] = rc
    print('%s demo with bug: %s' % (sid, o[-300:].strip()))
    if tests:
        rc, o = sh(root, 'bash /opt/vp/test.sh %s/out.json' % root)
        r = json.load(open(root + '/out.json')); b = json.load(open('/opt/vp/BASELINE.json'))
        miss = sorted(set(b['stable']) - set(r['passed'])); res['tests_missing'] = len(miss)
        if miss: print('MISSING', miss[:10])
    if check is not None:
        for p in check or [meta['property']]:
            rc, o = sh(root, 'python3 /verif/checks/%s.py' % p.lower(), 900, {'VERIF_SEED': '1', 'VERIF_TIER': 'quick'})
            res['check_' + p] = rc
            open('/tmp/seed_%s_%s.log' % (sid, p), 'w').write(o)
            print('%s %s: %s' % (sid, p, o.strip().split('\n')[-1][:200]))
    shutil.rmtree(root, ignore_errors=True)
    ok = res['demo_clean'] == 0 and res['demo_bug'] != 0 and res['build'] == 0 and not res.get('tests_missing')
    print('%s %s %s' % (sid, 'OK' if ok else 'BAD', res), flush=True)

if __name__ == '__main__':
    tests = '--tests' in sys.argv; check = None; ids = []
    for a in sys.argv[1:]:
        if a == '--check': check = []
        elif a.startswith('--check='): check = a[8:].split(',')
        elif not a.startswith('--'): ids.append(a)
    import concurrent.futures
    with concurrent.futures.ThreadPoolExecutor(int(os.environ.get('J', '1'))) as ex: list(ex.map(lambda i: one(i, tests, check), ids or sorted(os.listdir(VERIF + '/seeded'))))

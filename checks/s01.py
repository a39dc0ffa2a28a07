import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import re, random
from concurrent.futures import ThreadPoolExecutor
import vp

NOPS = 12
def reports(err):
    """(kind, frames of the runtime) of every sanitizer report"""
    out = []
    for m in re.finditer(rb'WARNING: ThreadSanitizer: ([^\n(]*)(.*?)\n==================', err, re.S):
        fr = []
        for st in re.findall(rb'\n  (?:\w[^\n]*):\n((?:    #[^\n]*\n)+)', m.group(2) + b'\n')[:2]:
            f = [x.decode() for x in re.findall(rb'#\d+ (\w+) [^\n]*?(?:spvm_\w+|/lib/SPVM/[^ ]*)\.[ch]', st)]
            fr.append('<'.join(f[:2]) or '?')
        out.append('tsan %s %s' % (m.group(1).decode().strip(), ' vs '.join(sorted(fr))))
    if not out:
        r = vp.san_report(err)
        if r: out.append('%s %s' % r)
    return out

PROBE = 'class T0 { use TProbe; use Thr; static method t_0 : void () { Thr->perturb(0, 7); TProbe->probe; } }'
def main(ck):
    incs = [vp.VERIF + '/drv/thr', vp.VERIF + '/drv/lib']; drv = {f: vp.build_driver(f, extra_sources=[vp.VERIF + '/drv/thr/thr.c'], tag='thr', ldextra=['-Wl,--wrap=SPVM_MUTEX_%s' % x for x in ('lock', 'unlock', 'reader_lock', 'reader_unlock')]) for f in ('asan', 'tsan')}
    n = 36 if ck.tier == 'quick' else 240
    jobs = []
    for i in range(n):
        rng = random.Random('%d/%d' % (ck.seed, i)); fl = 'tsan' if i % 2 else 'asan'; b = ['TMain->rdv(%d);' % rng.randrange(2, 9)]
        for r in range(rng.randrange(2, 5)):
            nt = rng.choice([2, 2, 3, 4, 6, 8]); its = (500 if fl == 'asan' else 250) // nt * 2
            ops = list(range(NOPS)) if rng.random() < .4 else rng.sample(range(NOPS), rng.randrange(1, 5)) 
            if rng.random() < .5: ops += [9] * rng.randrange(1, 3)
            b.append('Thr->perturb(%d, %d); TMain->round(%d, %d, %d, [%s], %d);' % (rng.choice([0, 1, 4, 16, 40]), rng.randrange(1, 1 << 30), nt, rng.randrange(1, 1 << 28), its, ', '.join(map(str, ops)), rng.choice([0, 20, 100, 300])))
        jobs.append((i, fl, 'class T0 { use TMain; use Thr; static method t_0 : void () { %s } }' % '\n  '.join(b)))
    jobs.append(('probe', 'asan', PROBE))
    def one(j):
        d = ck.sub('j%s' % j[0]); open(d + '/T0.spvm', 'w').write(j[2])
        return j, vp.run2([drv[j[1]]] + vp.inc_args([d] + incs) + ['T0'], timeout=120, env={'TSAN_OPTIONS': 'halt_on_error=0:color=never:exitcode=66:history_size=4'})
    with ThreadPoolExecutor(5) as ex: res = list(ex.map(one, jobs))
    for (i, fl, src), r in res:
        files = {'T0.spvm': src, 'stdout.txt': r.out[-20000:], 'stderr.txt': r.err[:40000]}
        out = r.out.decode('latin1'); bads = re.findall(r'@BAD (\D+) (-?\d+) (-?\d+)', out); rep = reports(r.err)
        if i == 'probe':
            ck.seen('probe'); ck.count('events')
            if rep or bads or r.rc or r.timeout or '@PROBE' not in out:
                ck.violation('an object is returned while another thread drops the last other reference: %s' % ('heap-use-after-free' if rep and 'heap-use-after-free' in rep[0] or any('destroyed' in b[0] for b in bads) else rep[:1] or bads[:1] or 'rc %s' % r.rc), r.err[:3000].decode('latin1'), files)
            continue
        ck.count('runs ' + fl)
        for m in re.finditer(r'@ROUND threads (\d+) locks (\d+) readers (\d+) objects (\d+) order (-?\d+)', out):
            ck.seen('%s %s' % (m.group(1), m.group(5))); ck.count('rounds'); ck.count('write locks', int(m.group(2))); ck.count('threads', int(m.group(1))); ck.count('rounds with readers together', int(m.group(3)) > 1)
        o = re.findall(r' objects (\d+) ', out); ck.count('objects', int(o[-1]) if o else 0); ck.count('events', int(o[-1]) if o else 0)
        for x in sorted(set(rep)): ck.violation(x, '%s in run %s (%s)\n%s' % (x, i, fl, r.err[:3500].decode('latin1')), files)
        for b in sorted(set(x[0] for x in bads)): ck.violation('monitor: ' + b, 'run %s (%s): %r' % (i, fl, [x for x in bads if x[0] == b][:5]), files)
        if r.timeout: ck.violation('hang', 'run %s (%s) did not end in 240 s: %s' % (i, fl, out[-500:]), files)
        elif not rep and not bads and (r.rc or '@E ' in out or '@CE' in out or out.count('@ROUND') != src.count('->round(') or '@RDV' not in out): ck.violation('failed', 'run %s (%s) rc %s: %s %s' % (i, fl, r.rc, out[-1500:], r.err[:1000].decode('latin1')), files)
vp.main('S01', main)

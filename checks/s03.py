#!/usr/bin/env python3
"""S03: values crossing between Perl and SPVM. Random histories over SPVM::ExchangeAPI run in the real perl with
SPVM.xs and the core under sanitizers; a model on the Perl side knows every value, reachability and block count."""
import os, sys, re, subprocess, tempfile
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import vp, perlbuild as pb
from concurrent.futures import ThreadPoolExecutor

XS = vp.VERIF + '/drv/xs'

def main(ck):
    d = pb.build()
    pb.build_asan(d)
    rng = ck.rng
    jobs = [(rng.randrange(1 << 30), ck.n(50, 700), True) for _ in range(ck.n(10, 40))]
    jobs += [(rng.randrange(1 << 30), ck.n(50, 700), False) for _ in range(ck.n(4, 16))]
    td = ck.sub('run')
    def one(j):
        seed, rounds, asan = j
        tr = '%s/t%d' % (td, seed)
        cmd = pb.perl_cmd(d, asan) + ['-I' + XS + '/lib', XS + '/run.pl', str(seed), str(rounds), tr]
        for attempt in (0, 1):
            r = vp.run(cmd, timeout=ck.n(120, 600), env=pb.perl_env(asan, {'SPVM_BUILD_DIR': td}), cwd=td)
            if not r.timeout:
                break
        return j, r, tr
    seen = {}
    with ThreadPoolExecutor(vp.NCPU) as ex:
        for (seed, rounds, asan), r, tr in ex.map(one, jobs):
            out = r.out if isinstance(r.out, str) else r.out.decode('utf-8', 'replace')
            err = r.err if isinstance(r.err, str) else r.err.decode('utf-8', 'replace')
            head = 'run.pl %d %d under %s\n' % (seed, rounds, 'sanitizers' if asan else 'the plain build')
            n = 0
            for l in out.split('\n'):
                f = l.split('\t')
                if f[0] == 'BAD':
                    k = re.sub(r'\d+', 'N', f[1])
                    if seen.get(k, 0) < 2 and n < 6:
                        seen[k] = seen.get(k, 0) + 1
                        n += 1
                        ck.violation('exchange:' + k, head + '\n'.join(f[1:]), {})
                elif f[0] == 'SIG':
                    ck.seen(f[1], int(f[2]))
                elif f[0] == 'CNT':
                    for kv in f[1].split():
                        k, v = kv.split('=')
                        ck.count(k, int(v))
            if 'DONE' not in out.split('\n')[-3:]:
                last = ''
                try:
                    last = '\n'.join(open(tr, errors='replace').read().split('\n')[-8:])
                except OSError:
                    pass
                m = re.search(r'ERROR: AddressSanitizer: ([\w-]+)|(runtime error: [^\n]{0,80})', err)
                kind = (m.group(1) or re.sub(r'\d+|0x\w+', 'N', m.group(2))) if m else 'timeout' if r.timeout else 'exit'
                fr = re.findall(r'#\d+ 0x\w+ in (\w+) ', err)
                fr = next((x for x in fr if re.match(r'SPVM|XS_', x)), '')
                ck.violation('exchange-crash:%s:%s' % (kind, fr), head + 'status %s\nlast calls:\n%s\n%s' % (r.rc, last, err[-4000:]), {})
            ck.count('histories')
            ck.count('histories_' + ('asan' if asan else 'plain'))

vp.main('S03', main)

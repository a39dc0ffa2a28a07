#!/usr/bin/env python3
"""S08: distributions made by the real spvmdist with random names and options. Oracles: a model of the set of files and of
who may overwrite what; the distribution, given methods by a 'developer', is made, tested, installed, and run from the
place it was installed in, by a process that has no compiler; then edited and made again."""
import os, sys, re, shutil, time, random, stat
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import vp, perlbuild as pb, ccwrap
import subprocess
from concurrent.futures import ThreadPoolExecutor

def run(cmd, cwd, env, timeout=240):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        return p.returncode, p.stdout.decode('utf-8', 'replace')
    except subprocess.TimeoutExpired:
        return None, 'timeout'

def tree(d):
    out = {}
    for dp, ds, fs in os.walk(d):
        for f in fs:
            with open(dp + '/' + f, 'rb') as h:
                out[os.path.relpath(dp + '/' + f, d)] = h.read()
    return out

def part(r):
    return 'Zq' + ''.join(r.choice('abcXYZ019') for _ in range(r.randrange(0, 5))) + r.choice(['', '', '_a', '_B1', '7'])

class World:
    def __init__(s, d, root, seed):
        s.d, s.root, s.seed = d, root, seed
        s.r = r = random.Random(seed)
        s.bad, s.cnt, s.trace, s.sig = [], {}, [], set()
        s.name = '::'.join(part(r) for _ in range(r.choice([1, 1, 2, 3])))
        s.rel = s.name.replace('::', '/')
        s.o = o = {}
        o['resource'] = r.random() < .2
        o['native'] = r.choice([None, None, 'c', 'c', 'c++'])
        o['precompile'] = r.random() < .5
        o['interface'] = not o['resource'] and r.random() < .2
        o['only'] = r.random() < .25
        o['nopm'] = r.random() < .25
        o['genlib'] = r.random() < .12
        o['name'] = r.choice([None, 'Some One', "O'Neil", 'A B. C-D', 'a\\b', 'Yuki "Y" K', '50% $x @y'])
        o['email'] = r.choice([None, 'some.one@example.com', "o'neil@example.com", 'x+y@z'])
        o['out'] = r.choice([None, None, 'My-Out', 'My-Out/', 'a/b/c', 'ABS'])
        s.cwd = root + '/cwd'
        os.makedirs(s.cwd)
        s.env = ccwrap.env(d, root + '/cc.log', {'PERL5LIB': '%s/blib/lib:%s/blib/arch' % (d, d)})
    def count(s, k, n=1):
        s.cnt[k] = s.cnt.get(k, 0) + n
    def report(s, kind, detail):
        if len(s.bad) < 4:
            s.bad.append((kind, 'world %d, class %s, options %r\n%s\n%s' % (s.seed, s.name, s.o, '\n'.join(s.trace[-8:]), detail[-3000:])))
    def args(s, extra=()):
        o, a = s.o, []
        if o['native']: a += ['--native', o['native']]
        for k, f in (('precompile', '--precompile'), ('resource', '--resource'), ('interface', '--interface'), ('only', '--only-lib-files'), ('nopm', '--no-pm-file'), ('genlib', '--genlib')):
            if o[k]: a.append(f)
        if o['name'] is not None: a += ['--user-name', o['name']]
        if o['email'] is not None: a += ['--user-email', o['email']]
        a += list(extra)
        s.r.shuffle(a) if False else None
        a.append(s.name)
        if o['out']: a.append(s.outdir() + '/' if o['out'].endswith('/') else s.outdir())
        return a
    def outdir(s):
        o = s.o['out']
        if o is None:
            return 'SPVM-' + s.name.replace('::', '-')
        if o == 'ABS':
            return s.root + '/abs out'
        return o.rstrip('/')
    def dist(s):
        o = s.outdir()
        return o if o.startswith('/') else s.cwd + '/' + o
    def gen(s, extra=()):
        cmd = pb.perl_cmd(s.d) + [s.d + '/blib/script/spvmdist'] + s.args(extra)
        s.trace.append('spvmdist ' + ' '.join(repr(x) for x in s.args(extra)))
        s.count('runs')
        return run(cmd, s.cwd, s.env)
    def expected(s):
        o = s.o
        only, nopm = o['only'] or o['genlib'], o['nopm'] or o['genlib']
        nat = o['native'] or ('c' if o['resource'] else None)
        ext = {'c': 'c', 'c++': 'cpp', None: None}[nat]
        pre = '' if only else 'lib/'
        f = {pre + 'SPVM/%s.spvm' % s.rel}
        if not nopm: f.add(pre + 'SPVM/%s.pm' % s.rel)
        if nat:
            f.add(pre + 'SPVM/%s.config' % s.rel)
            if not o['resource']: f.add(pre + 'SPVM/%s.%s' % (s.rel, ext))
            f |= {pre + 'SPVM/%s.native/include/.gitkeep' % s.rel, pre + 'SPVM/%s.native/src/.gitkeep' % s.rel}
        if not only:
            f |= {'.gitignore', '.gitattributes', 'MANIFEST.SKIP', 'Changes', 'README.md', 'Makefile.PL', 't/basic.t', 't/lib/SPVM/TestCase/%s.spvm' % s.rel, 'LICENSE'}
            if o['resource']: f |= {'t/lib/SPVM/TestCase/%s.%s' % (s.rel, ext), 't/lib/SPVM/TestCase/%s.config' % s.rel}
        return f
    def generate(s):
        years = {time.gmtime().tm_year}
        rc, out = s.gen()
        years.add(time.gmtime().tm_year)
        if rc is None: return s.count('timeouts') or False
        if rc != 0:
            s.report('spvmdist fails', 'exit %s\n%s' % (rc, out)); return False
        D = s.dist()
        f0 = tree(D)
        want = s.expected()
        s.count('files_checked', len(want))
        if set(f0) != want:
            s.report('set of files', 'missing %s\nunexpected %s' % (sorted(want - set(f0)), sorted(set(f0) - want))); return False
        other = {p for p in tree(s.cwd)} - {os.path.relpath(D + '/' + p, s.cwd) for p in f0}
        if other:
            s.report('files outside the output folder', repr(sorted(other)[:5])); return False
        for p in want:
            w = '  [write]%s/%s' % (s.outdir(), p)
            if w not in out.split('\n'):
                s.report('report of a written file', '%r not in\n%s' % (w, out)); return False
        t = {p: b.decode('utf-8', 'replace') for p, b in f0.items()}
        nm = s.o['name'] if s.o['name'] is not None else '[--user-name]'
        em = s.o['email'] if s.o['email'] is not None else '[--user-email]'
        for p, x in t.items():
            if 'Copyright (c)' in x:
                if not any('Copyright (c) %d %s\n' % (y, nm) in x for y in years):
                    s.report('copyright line', '%s: %s' % (p, re.findall('.*Copyright .*', x)))
            if nm != '[--user-name]' and '[--user-name]' in x or em != '[--user-email]' and '[--user-email]' in x:
                s.report('placeholder left although the option is given', p)
        for p in want:
            if p.endswith('.pm') and '%s C<%s>\n' % (nm, em) not in t[p]:
                s.report('author in the documentation', p)
            if p.endswith('.pm') and not ('package SPVM::%s;' % s.name in t[p] and '=head1 Name\n\nSPVM::%s - ' % s.name in t[p]):
                s.report('names in the Perl module', p)
            if os.path.basename(p) == os.path.basename(s.rel) + '.spvm' and 'TestCase' not in p:
                if not re.search(r'(?m)^class %s %s\{$' % (re.escape(s.name), ': interface_t ' if s.o['interface'] else ''), t[p]):
                    s.report('class declaration', t[p])
                if ('version "0.001";' in t[p]) != (not (s.o['only'] or s.o['genlib'])):
                    s.report('version in the class', t[p])
            if p.endswith(('.c', '.cpp')) and 'TestCase' not in p and 'FILE_NAME = "%s.%s";' % (s.rel, p.rsplit('.')[-1]) not in t[p]:
                s.report('file name in the native class', p)
            if p == 'LICENSE' and not t[p].startswith('MIT License'):
                s.report('license', p)
            if p == 'Changes' and not re.match(r'0\.001 \d{4}-\d\d-\d\d\n', t[p]):
                s.report('changes', t[p])
            if p == 'README.md' and 'SPVM::' + s.name not in t[p]:
                s.report('readme', t[p])
        s.f0 = f0
        s.sig.add('gen:' + ','.join(sorted(k for k in s.o if s.o[k] and k not in ('name', 'email'))) + ':%s' % s.name.count('::'))
        return not s.bad
    def overwrite(s):
        """a second and third run over files a user has changed"""
        r, D, f0 = s.r, s.dist(), s.f0
        keep = set(r.sample(sorted(f0), r.randrange(0, len(f0) + 1)))
        gone = set(r.sample(sorted(f0), r.randrange(0, len(f0) + 1))) - keep
        mine = {}
        for p in f0:
            if p in keep:
                b = r.choice([b'', b'mine ' + os.urandom(6).hex().encode(), f0[p] + b'# more\n', f0[p][:len(f0[p]) // 2]])
                with open(D + '/' + p, 'wb') as h: h.write(b)
                mine[p] = b
            elif p in gone:
                os.unlink(D + '/' + p)
            else:
                mine[p] = f0[p]
        extra = {'own.txt': b'own', 'lib/SPVM/Own.spvm': b'class Own {}', 't/own.t': b'1;'}
        for p, b in extra.items():
            os.makedirs(os.path.dirname(D + '/' + p), exist_ok=True)
            with open(D + '/' + p, 'wb') as h: h.write(b)
        st = {p: os.stat(D + '/' + p).st_mtime_ns for p in mine}
        rc, out = s.gen()
        if rc is None: return s.count('timeouts') or False
        if rc != 0: s.report('spvmdist fails over files that are there', out); return False
        now = tree(D)
        for p, b in list(mine.items()) + list(extra.items()):
            s.count('existing_files_checked')
            if now.get(p) != b:
                s.report('an existing file was overwritten without --force', '%s\nbefore %r\nafter %r' % (p, b[:200], (now.get(p) or b'-')[:200])); return False
            if p in st and '  [exists]%s/%s' % (s.outdir(), p) not in out.split('\n'):
                s.report('report of an existing file', p + '\n' + out); return False
        for p in gone:
            s.count('missing_files_checked')
            if now.get(p) != f0[p]: s.report('a missing file was not made again', p); return False
        if set(now) != set(f0) | set(extra): s.report('set of files after a second run', repr(set(now) ^ (set(f0) | set(extra)))); return False
        rc, out = s.gen([r.choice(['--force', '-f'])])
        if rc is None: return s.count('timeouts') or False
        now = tree(D)
        for p in f0:
            s.count('forced_files_checked')
            if now.get(p) != f0[p]: s.report('--force does not write a file again', '%s\n%s' % (p, out)); return False
        for p, b in extra.items():
            if now.get(p) != b: s.report('--force touches a file that is not generated', p); return False
        for p in extra: os.unlink(D + '/' + p)
        rc, out = s.gen([r.choice(['--quiet', '-q'])])
        if rc is not None and out: s.report('output although --quiet is given', out)
        return True
    # the developer
    def code(s):
        v, o = s.v, s.o
        L = 'lib/SPVM/' + s.rel
        f = {}
        body = ''
        if not o['interface']:
            body += '  static method plain : int ($x : int) { return $x * %d; }\n' % v['plain']
            body += '  static method text : string () { return "%s" . %d; }\n' % (s.name, v['plain'])
            if v['pre'] is not None:
                body += '  precompile static method pre : int ($x : int) { my $f = method : int ($y : int) { return $y - %d; }; my $g = precompile method : int ($y : int) { return $y * 2; }; my $s = 0; for (my $i = 0; $i < $x; $i++) { $s += %d; } return $f->($g->($s)); }\n' % (v['anon'], v['pre'])
            if v['nat'] is not None:
                body += '  native static method nat : int ($x : int);\n'
        else:
            body += '  required method req : int ($x : int);\n'
        f[L + '.spvm'] = s.f0[L + '.spvm'].decode().replace('version "0.001";', 'version "0.001";\n' + body)
        nat = o['native'] or ('c' if o['resource'] else None)
        if nat and not (v['nat'] is None and not o['resource']):
            cfg = s.f0[L + '.config'].decode().replace('$config;\n', '$config->add_source_file("%s");\n$config->add_ccflag("-DCFG=%d");\n\n$config;\n' % (v['src'], v['cfg']))
            f[L + '.config'] = cfg
            g = 'zx_' + s.rel.replace('/', '_').lower()
            H = '%s.h' % g
            f[L + '.native/include/' + H] = '#define ZXH %d\n#ifdef __cplusplus\nextern "C" {\n#endif\nint %s(void);\n#ifdef __cplusplus\n}\n#endif\n' % (v['hdr'], g)
            f[L + '.native/src/' + v['src']] = '#include "%s"\n#ifdef __cplusplus\nextern "C"\n#endif\nint %s(void) { return %d * 1000 + CFG; }\n' % (H, g, v['srcv'])
            if o['resource']:
                T = 't/lib/SPVM/TestCase/%s.%s' % (s.rel, 'c' if nat == 'c' else 'cpp')
                f[T] = s.f0[T].decode().replace('#include "spvm_native.h"', '#include "spvm_native.h"\n#include "%s"' % H).replace('stack[0].ival = 1;', 'stack[0].ival = %s() == %d && ZXH == %d;' % (g, v['srcv'] * 1000 + v['cfg'], v['hdr']))
            else:
                C = L + ('.c' if nat == 'c' else '.cpp')
                fn = 'SPVM__%s__' % s.name.replace('::', '__')
                f[C] = s.f0[C].decode().replace('#include "spvm_native.h"', '#include "spvm_native.h"\n#include "%s"' % H).replace(fn + 'foo(', fn + 'nat(').replace('return 0;', 'stack[0].ival = stack[0].ival * %d + ZXH + %s();\n  return 0;' % (v['nat'], g))
        if v['plain'] is not None and not o['interface']:
            T = 't/lib/SPVM/TestCase/%s.spvm' % s.rel
            if not o['resource']:
                f[T] = s.f0[T].decode().replace('return 1;', 'return %s->plain(3) == %d%s%s;' % (s.name, 3 * v['plain'],
                    ' && %s->pre(4) == %d' % (s.name, v['pre'] * 8 - v['anon']) if v['pre'] is not None else '', ' && %s->nat(2) == %d' % (s.name, s.natv(2)) if v['nat'] is not None else ''))
        for p, x in f.items():
            q = s.dist() + '/' + p
            old = open(q).read() if os.path.exists(q) else None
            if old != x:
                os.makedirs(os.path.dirname(q), exist_ok=True)
                with open(q, 'w') as h: h.write(x)
    def natv(s, x):
        v = s.v
        return x * v['nat'] + v['hdr'] + v['srcv'] * 1000 + v['cfg']
    def want(s):
        v = s.v
        w = ['version=0.001']
        if s.o['interface']: return w
        w.append('text=%s%d' % (s.name, v['plain']))
        w.append('plain=%d' % (7 * v['plain']))
        if v['pre'] is not None: w.append('pre=%d' % (v['pre'] * 10 - v['anon']))
        if v['nat'] is not None: w.append('nat=%d' % s.natv(9))
        return w
    def make(s, *targets):
        s.trace.append('make ' + ' '.join(targets))
        s.count('makes')
        return run(['make'] + list(targets), s.dist(), s.env, 400)
    def step(s, kind, res):
        rc, out = res
        if rc is None: s.count('timeouts'); return False
        if rc != 0: s.report(kind, 'exit %d\n%s' % (rc, out)); return False
        return True
    def settle(s):
        """MakeMaker copies files into blib with times cut to seconds: an edit is only seen in a later second"""
        m = max(os.stat(dp + '/' + f).st_mtime_ns for dp, ds, fs in os.walk(s.dist()) for f in fs)
        p = s.root + '/stamp'
        while True:
            with open(p, 'w') as f: f.write('x')
            if os.stat(p).st_mtime_ns // 10**9 > m // 10**9: return
            time.sleep(.02)
    def installed(s, what):
        """runs the installed module from elsewhere, without sources, build folder or compiler"""
        v = s.v
        code = 'use strict; use warnings; use SPVM "%s"; use SPVM::%s; use SPVM "Fn"; print "version=", SPVM::Fn->get_version_string("%s"), "\\n"; die "Perl version" unless $SPVM::%s::VERSION eq "0.001";' % (s.name, s.name, s.name, s.name)
        for w in s.want()[1:]:
            k = w.split('=')[0]
            a = {'text': '', 'plain': '7', 'pre': '5', 'nat': '9'}[k]
            code += ' my $%s = SPVM::%s->%s(%s); print "%s=$%s\\n";' % (k, s.name, k, a, k, k)
        hid = s.dist() + '.hidden'
        os.rename(s.dist(), hid)
        try:
            e = dict(s.env)
            log = s.root + '/nocc.log'
            if os.path.exists(log): os.unlink(log)
            e.update({'PERL5LIB': s.root + '/inst/lib/perl5:' + e['PERL5LIB'], 'PATH': s.root + '/nocc:' + e['PATH'], 'NOCC_LOG': log})
            e.pop('SPVM_BUILD_DIR', None)
            os.makedirs(s.root + '/else', exist_ok=True)
            s.trace.append('run the installed module')
            rc, out = run(['perl', '-e', code], s.root + '/else', e)
        finally:
            os.rename(hid, s.dist())
        if rc is None: return s.count('timeouts') or False
        s.count('installed_runs'); s.count('installed_values', len(s.want()))
        if os.path.exists(log):
            s.report('the installed module needs a compiler', what + '\n' + open(log).read()[:600] + '\n' + out); return False
        if rc != 0 or out.split('\n')[:-1] != s.want():
            s.report('the installed module gives other values ' + what, 'expected %s\nexit %s\n%s' % (s.want(), rc, out)); return False
        if os.listdir(s.root + '/else'):
            s.report('the installed module writes into the current folder', repr(os.listdir(s.root + '/else'))); return False
        return True
    def develop(s):
        r, o, D = s.r, s.o, s.dist()
        nocc = s.root + '/nocc'
        os.makedirs(nocc)
        for n in set(os.listdir(s.d + '/ccbin')) | {'cc', 'gcc', 'g++', 'c++', 'clang', 'clang++', 'x86_64-linux-gnu-gcc', 'x86_64-linux-gnu-g++', 'ld'}:
            with open(nocc + '/' + n, 'w') as f: f.write('#!/bin/sh\necho "$0 $*" >> "$NOCC_LOG"\nexit 1\n')
            os.chmod(nocc + '/' + n, 0o755)
        k = lambda: r.randrange(1, 90)
        nat = o['native'] is not None and not o['resource'] and not o['interface'] and r.random() < .85
        pre = o['precompile'] and not o['interface'] and not o['resource'] and r.random() < .85
        isc = (o['native'] or 'c') == 'c'
        s.v = {'plain': k(), 'pre': k() if pre else None, 'anon': k(), 'nat': k() if nat else None, 'hdr': k(), 'srcv': k(), 'cfg': k(), 'src': r.choice(['zs.c', 'sub/zs.c'] if isc else ['zs.cpp', 'sub/zs.cpp'])}
        s.code()
        if not s.step('Makefile.PL of a new distribution fails', run(['perl', 'Makefile.PL', 'INSTALL_BASE=' + s.root + '/inst'], D, s.env)): return
        if not s.step('make of a new distribution fails', s.make()): return
        if not s.step('tests of a new distribution fail', s.make('test')): return
        if not s.step('installation of a new distribution fails', s.make('install')): return
        if not s.installed('after the first build'): return
        s.sig.add('dev:%s' % ','.join([x for x in ('nat', 'pre') if s.v[x] is not None] + [str(o['native']), 'r' if o['resource'] else '', 'i' if o['interface'] else '', 'p' if o['precompile'] else '']))
        for _ in range(2):
            if o['interface']: break
            ks = [x for x in ('plain', 'pre', 'anon', 'nat', 'hdr', 'srcv', 'cfg') if s.v[x] is not None and (x not in ('hdr', 'srcv', 'cfg') or nat or o['resource']) and (x != 'anon' or pre)]
            what = r.choice(ks)
            s.settle()
            s.v[what] = s.v[what] + r.randrange(1, 9)
            s.code()
            s.trace.append('edit ' + what)
            if not s.step('make after an edit fails', s.make()): return
            if not s.step('tests after an edit fail', s.make('test')): return
            if not s.step('installation after an edit fails', s.make('install')): return
            if not s.installed('after an edit of ' + what): return
            s.count('rebuilds')
        if r.random() < .4:
            if not s.step('make clean fails', s.make('clean')): return
            left = [p for p in tree(D) if re.search(r'(^|/)(blib|\.spvm_build)/', p) or p.endswith(('.so', '.o'))]
            if left: s.report('make clean leaves build products', repr(left[:5])); return
            if not s.step('Makefile.PL after make clean fails', run(['perl', 'Makefile.PL', 'INSTALL_BASE=' + s.root + '/inst2'], D, s.env)): return
            if not s.step('make after make clean fails', s.make()): return
            s.count('clean_rebuilds')
    def illegal(s):
        r = s.r
        base = s.name
        for a in ([base + '-Foo'], ['--native', r.choice(['java', 'C', 'cpp', 'c+']), base], ['--interface', '--resource', base], [], ['']):
            c = s.root + '/ill'
            os.makedirs(c)
            rc, out = run(pb.perl_cmd(s.d) + [s.d + '/blib/script/spvmdist'] + a, c, s.env)
            if rc is None: s.count('timeouts')
            elif rc == 0: s.report('illegal arguments accepted', repr(a))
            elif os.listdir(c): s.report('illegal arguments leave files', '%r %r' % (a, os.listdir(c)))
            else: s.count('illegal_arguments')
            shutil.rmtree(c)
    def go(s, dev):
        try:
            if dev:
                s.o.update(only=False, nopm=False, genlib=False)
            if s.generate() and s.overwrite() and dev:
                s.develop()
            if not dev and s.r.random() < .3:
                s.illegal()
        finally:
            shutil.rmtree(s.root, ignore_errors=True)
        return s

def main(ck):
    d = pb.build()
    ccwrap.setup(d)
    td = ck.sub('run')
    jobs = [(ck.rng.randrange(1 << 30), True) for _ in range(ck.n(44, 300))] + [(ck.rng.randrange(1 << 30), False) for _ in range(ck.n(100, 1200))]
    seen = {}
    def one(j):
        root = '%s/w%d' % (td, j[0])
        os.makedirs(root)
        return World(d, root, j[0]).go(j[1])
    with ThreadPoolExecutor(vp.NCPU) as ex:
        for w in ex.map(one, jobs):
            for k, n in w.cnt.items():
                ck.count(k, n)
                if k in ('installed_values', 'files_checked', 'existing_files_checked', 'forced_files_checked'):
                    ck.seen('w%d' % w.seed, n)
            for k in w.sig:
                ck.seen(k, 1)
            ck.count('distributions')
            for kind, detail in w.bad:
                if seen.get(kind, 0) < 1:
                    seen[kind] = 1
                    ck.violation('dist:' + re.sub(r'\d+', 'N', kind), detail, {})

if __name__ == '__main__':
    vp.main('S08', main)

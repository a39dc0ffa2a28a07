#!/usr/bin/env python3
"""S07: histories of edits, failures and builds of a small project, run by the real spvm (just-in-time build) and spvmcc.
After every build the values the program prints tell which version of each input it was made from."""
import os, sys, re, shutil, signal, time, random, resource
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import vp, perlbuild as pb, ccwrap
import subprocess
from concurrent.futures import ThreadPoolExecutor

# value -> what it is (for the report)
KEYS = {
    'K1': 'native class source', 'K2': 'native header', 'K3': 'native source file', 'K4': 'flag in the config file', 'K5': 'optimize in the config file',
    'K6': 'header in a sub folder of the include folder', 'K7': 'file loaded by the config file', 'C1': 'native method renamed in class and source',
    'R0': 'resource header used by the class', 'R1': 'resource source', 'R2': 'resource header used by the resource', 'R3': 'flag in the resource config',
    'R4': 'argument given to the resource config', 'R5': 'flag in the base config of a resource mode',
    'P1': 'precompiled method', 'P2': 'enumeration of another class', 'P3': 'method of another class', 'P4': 'field layout of another class', 'S1': 'script',
    'P5': 'constant of an anonymous method', 'D1': 'source file added or removed',
}
EXE = {'G1': 'flag set by the config of the executable for all compilations', 'G2': 'argument of the config of the executable', 'G3': 'flag in the mode config',
       'G4': 'flag in the base config of the mode config', 'MODE': 'mode', 'OPT': 'option --optimize'}

def render(v, exe, broken):
    f = {}
    mode = '.m' if v['R5M'] else ''
    f['lib/SPVM/My/Dep.spvm'] = '''class My::Dep {
  enum { %s EV = %d }
  %s
  static method new : My::Dep () { return new My::Dep; }
  static method k : int () { return %d; }
}
''' % ('E0, E1,' if v['P4'] & 1 else '', v['P2'],
       ['has a : public int; has b : public long;', 'has b : public long; has a : public int;', 'has x : public object; has a : public int; has y : public string; has b : public long;',
        'has p : public byte; has b : public long; has q : public double; has a : public int;'][v['P4'] % 4], v['P3'])
    f['lib/SPVM/My/Pre.spvm'] = '''class My::Pre {
  use My::Dep;
  precompile static method v : string () {
    my $d = My::Dep->new;
    $d->{a} = 3; $d->{b} = 50000000000L;
    my $e = $d->{b} == 50000000000L && $d->{a} == 3;
    my $f = precompile method : int () { return %d; };
    my $r = (int)My::Dep->EV;
    return "P1=%d P2=$r P3=" . My::Dep->k . " P4=$e P5=" . $f->();
  }
}
''' % (v['P5'], v['P1'])
    g = 'f%d' % v['C1']
    f['lib/SPVM/My/Nat.spvm'] = 'class My::Nat {\n  native static method %s : string ();\n}\n' % g
    f['lib/SPVM/My/Nat.c'] = '''#include "spvm_native.h"
#include "nat.h"
#include "sub/deep.h"
#include "res.h"
#include <stdio.h>
#ifdef __OPTIMIZE__
#define OPTV 1
#else
#define OPTV 0
#endif
#ifndef GV
#define GV 0
#endif
#ifndef AV
#define AV 0
#endif
#ifndef MV
#define MV 0
#endif
#ifndef BV
#define BV 0
#endif
int extra(void);
%s
int32_t SPVM__My__Nat__%s(SPVM_ENV* env, SPVM_VALUE* stack) {
  char b[400];
  snprintf(b, sizeof b, "K1=%d K2=%%d K3=%%d K4=%%d K5=%%d K6=%%d K7=%%d C1=%d R0=%%d R1=%%d R2=%%d R3=%%d R4=%%d R5=%%d D1=%%d G1=%%d G2=%%d G3=%%d G4=%%d",
    NAT_H, extra(), CFG, OPTV, DEEP_H, LOADED, RES_H, res_src(), res_hdr(), res_flag(), res_arg(), res_mode(), %s, GV, AV, MV, BV);
  stack[0].oval = env->new_string_nolen(env, stack, b);
  return 0;
}
''' % ('int more(void);' if v['D1'] else '', g, v['K1'], v['C1'], 'more()' if v['D1'] else '0')
    f['lib/SPVM/My/Nat.native/include/nat.h'] = '#define NAT_H %d\n' % v['K2']
    f['lib/SPVM/My/Nat.native/include/sub/deep.h'] = '#define DEEP_H %d\n' % v['K6']
    f['lib/SPVM/My/Nat.native/src/extra.c'] = 'int extra(void) { return %d; }\n' % v['K3']
    f['lib/SPVM/My/Nat.native/src/sub/more.c'] = 'int more(void) { return %d; }\n' % v['D1']
    f['lib/SPVM/My/loaded.pl'] = '$main::loaded = %d;\n1;\n' % v['K7']
    use_res = "$config->use_resource('My::Res', %sargv => ['%d']);\n" % ("mode => 'm', " if v['R5M'] else '', v['R4'])
    f['lib/SPVM/My/Nat.config'] = '''use strict; use warnings; use File::Basename 'dirname';
use SPVM::Builder::Config;
my $config = SPVM::Builder::Config->new_gnu99(file => __FILE__);
$config->add_ccflag('-DCFG=%d');
$config->add_ccflag('-DLOADED=%d');
$config->optimize('%s');
$config->add_source_file('extra.c'%s);
%s$config;
''' % (v['K4'], v['K7'], ['-O0', '-O1'][v['K5']], ", 'sub/more.c'" if v['D1'] else '', use_res)
    del f['lib/SPVM/My/loaded.pl']
    f['lib/SPVM/My/Res.spvm'] = 'class My::Res {\n}\n'
    f['lib/SPVM/My/Res.config'] = '''use strict; use warnings;
my @argv = @ARGV;
use SPVM::Builder::Config;
my $config = SPVM::Builder::Config->new_gnu99(file => __FILE__);
$config->add_ccflag('-DRFLAG=%d');
$config->add_ccflag("-DRARG=$argv[0]");
$config->add_ccflag("-DRBASE=%d");
$config->add_source_file('res.c');
$config;
''' % (v['R3'], v['R5'])
    f['lib/SPVM/My/Res.m.config'] = '''use strict; use warnings;
my @argv = @ARGV;
use SPVM::Builder::Config;
my $config = SPVM::Builder::Config->load_base_config(__FILE__, \\@argv);
$config->add_ccflag('-DRMODE=1');
$config;
'''
    f['lib/SPVM/My/Res.native/include/res.h'] = 'int res_src(void); int res_hdr(void); int res_flag(void); int res_arg(void); int res_mode(void);\n#define RES_H %d\n#define RES_V %d\n' % (v['R0'], v['R2'])
    f['lib/SPVM/My/Res.native/src/res.c'] = '''#include "res.h"
#ifndef RMODE
#define RMODE 0
#endif
int res_src(void) { return %d; } int res_hdr(void) { return RES_V; } int res_flag(void) { return RFLAG; } int res_arg(void) { return RARG; } int res_mode(void) { return RBASE * 10 + RMODE; }
''' % v['R1']
    f['main.spvm'] = '''class {
  use My::Nat; use My::Pre;
  static method main : void () {
    say "S1=%d " . My::Nat->%s . " " . My::Pre->v;
  }
}
''' % (v['S1'], g)
    if exe:
        f['main.config'] = '''use strict; use warnings;
use SPVM::Builder::Config::Exe;
my $a = @ARGV ? join('', map { length } @ARGV) : 0;
my $config = SPVM::Builder::Config::Exe->new_gnu99(file => __FILE__);
$config->add_global_after_create_compile_info_cb(sub { my ($c, $i) = @_; push @{$c->ccflags}, '-DGV=%d', "-DAV=$a", '-DBV=%d'; });
%s$config;
''' % (v['G1'], v['G4'], use_res)
        f['main.d.config'] = '''use strict; use warnings;
use SPVM::Builder::Config::Exe;
my $config = SPVM::Builder::Config::Exe->load_base_config(__FILE__, \\@ARGV);
$config->add_global_after_create_compile_info_cb(sub { my ($c, $i) = @_; push @{$c->ccflags}, '-DMV=%d'; });
$config;
''' % v['G3']
    for old, new in v['HN'].items():
        f = {p.replace(old, new): t.replace('"%s"' % old, '"%s"' % new) for p, t in f.items()}
    broken = {HNAME(p, v): how for p, how in broken.items()}
    for p, how in broken.items():
        if p in f:
            f[p] = f[p] + how
    return f

def HNAME(p, v):
    for old, new in v['HN'].items():
        p = p.replace(old, new)
    return p

def expect(v, exe):
    w = dict(v)
    w['P4'] = 1
    w['R5'] = v['R5'] * 10 + (1 if v['R5M'] else 0)
    if exe:
        w['G2'] = int(''.join(str(len(a)) for a in v['ARGV']) or 0)
        if not v['MODE']:
            w['G3'] = 0
        if v['OPT'] is not None:
            w['K5'] = 0 if v['OPT'] == '-O0' else 1
    else:
        w['G1'] = w['G2'] = w['G3'] = w['G4'] = 0
    return w

BREAK = [('lib/SPVM/My/Nat.c', '\nint broken( {\n'), ('lib/SPVM/My/Nat.native/src/extra.c', '\n#error broken\n'), ('lib/SPVM/My/Nat.native/include/nat.h', '\n#error broken\n'),
         ('lib/SPVM/My/Res.native/src/res.c', '\n#error broken\n'), ('lib/SPVM/My/Nat.config', '\ndie "broken";\n'), ('lib/SPVM/My/Res.config', '\ndie "broken";\n'),
         ('lib/SPVM/My/Pre.spvm', '\nbroken\n'), ('lib/SPVM/My/Dep.spvm', '\n}\n'), ('main.spvm', '\n}\n'), ('main.config', '\ndie "broken";\n')]

def run(*a, **k):
    r = vp.run(*a, **k)
    r.out, r.err = (x.decode('utf-8', 'replace') if isinstance(x, bytes) else x or '' for x in (r.out, r.err))
    return r

class History:
    def __init__(s, d, root, seed, exe, steps, ck):
        s.d, s.root, s.exe, s.seed = d, root, exe, seed
        s.r = random.Random(seed)
        s.steps = steps
        s.log = root + '/cc.log'
        s.trace = []
        s.bad = []
        s.cnt = {}
        s.sig = set()
        r = s.r
        s.v = {k: r.randrange(1, 100) for k in list(KEYS) + list(EXE)}
        s.v.update(K5=r.randrange(2), P4=r.randrange(4), R5M=r.random() < .4, D1=r.choice([0, 7]), MODE=r.random() < .4, OPT=None, ARGV=[])
        s.v['HN'] = {'nat.h': r.choice(['nat.h', 'nat.h', 'nat.inc', 'nat.hpp', 'Nat']), 'sub/deep.h': r.choice(['sub/deep.h', 'sub/a/deep.inc', 'deep', 'sub/deep.def', 'sub.d/deep.c']),
                     'res.h': r.choice(['res.h', 'res.h', 'res.hh', 'res.inc', 'resource'])}
        s.broken = {}
        s.files = {}
        os.makedirs(root + '/p', exist_ok=True)
        os.makedirs(root + '/cwd', exist_ok=True)
    def count(s, k):
        s.cnt[k] = s.cnt.get(k, 0) + 1
    def write(s):
        new = render(s.v, s.exe, s.broken)
        ch = []
        for p, t in new.items():
            if s.files.get(p) != t:
                q = s.root + '/p/' + p
                os.makedirs(os.path.dirname(q), exist_ok=True)
                with open(q, 'w') as f:
                    f.write(t)
                ch.append(p)
        s.files = new
        return ch
    def settle(s):
        """waits until a file written now is newer, by the resolution of the file system, than all there is"""
        m = 0
        for dp, ds, fs in os.walk(s.root):
            for f in fs:
                try:
                    m = max(m, os.stat(dp + '/' + f).st_mtime_ns)
                except OSError:
                    pass
        p = s.root + '/stamp'
        while True:
            with open(p, 'w') as f:
                f.write('x')
            if os.stat(p).st_mtime_ns > m:
                os.unlink(p)
                return
            time.sleep(0.002)
    def age(s, sec):
        for dp, ds, fs in os.walk(s.root):
            for f in fs:
                q = dp + '/' + f
                try:
                    st = os.stat(q)
                    os.utime(q, ns=(st.st_atime_ns - sec * 10**9, st.st_mtime_ns - sec * 10**9))
                except OSError:
                    pass
    def cmd(s):
        if s.exe:
            c = ccwrap.spvmcc(s.d) + ['-I', s.root + '/p/lib/SPVM', '-B', s.root + '/b', '-o', s.root + '/main.exe', '-q']
            if s.v['MODE']:
                c += ['-m', 'd']
            if s.v['OPT'] is not None:
                c += ['--optimize', s.v['OPT']]
            for a in s.v['ARGV']:
                c += ['--config-argv', a]
            return c + [s.root + '/p/main.spvm']
        return ccwrap.spvm(s.d) + ['-I', s.root + '/p/lib/SPVM', '-B', s.root + '/b', s.root + '/p/main.spvm']
    def env(s, extra=None):
        e = {'SPVM_BUILD_DIR': s.root + '/b'}
        e.update(extra or {})
        return ccwrap.env(s.d, s.log, e)
    def build(s, extra=None):
        open(s.log, 'w').close()
        r = run(s.cmd(), timeout=200, env=s.env(extra), cwd=s.root + '/cwd')
        calls = [l.split('\t') for l in open(s.log).read().split('\n') if l]
        return r, calls
    def report(s, kind, detail):
        if len(s.bad) < 3:
            s.bad.append((kind, 'history %d (%s)\nsteps:\n%s\n%s' % (s.seed, 'spvmcc' if s.exe else 'spvm', '\n'.join(s.trace[-12:]), detail)))
    def judge(s, what, r):
        """after a build that has to succeed"""
        w = expect(s.v, s.exe)
        if r.timeout:
            return s.count('timeouts') or False
        if r.rc != 0:
            s.report('build fails after ' + what, 'status %s\n%s' % (r.rc, (r.err or '')[-1500:]))
            return False
        if s.exe:
            q = run([s.root + '/main.exe'], timeout=60, env=s.env(), cwd=s.root + '/cwd')
        else:
            q = r
        got = dict(x.split('=') for x in q.out.split() if '=' in x)
        s.count('values_checked')
        bad = [k for k in w if k in KEYS or k in ('G1', 'G2', 'G3', 'G4') if got.get(k) != str(w[k])]
        if q.rc != 0 or bad:
            names = '; '.join('%s (%s)' % (k, KEYS.get(k) or EXE.get(k)) for k in bad[:4])
            s.report('stale after %s: %s' % (what, ','.join(bad[:3])), 'wrong: %s\nexpected %s\ngot %s status %s\n%s' % (
                names, ' '.join('%s=%s' % (k, w[k]) for k in bad), ' '.join('%s=%s' % (k, got.get(k)) for k in bad), q.rc, (q.err or '')[-800:]))
            return False
        return True
    def edit(s):
        r = s.r
        ks = [k for k in KEYS if k != 'K7'] + ['R5M', 'K7']
        if s.exe:
            ks += list(EXE) + ['G2', 'G1', 'G3', 'OPT']
        out = []
        for _ in range(1 if r.random() < .75 else r.randrange(2, 5)):
            k = r.choice(ks)
            v = s.v
            if k == 'K5': v[k] ^= 1
            elif k == 'P4': v[k] = r.randrange(4)
            elif k in ('R5M', 'MODE'): v[k] = not v[k]
            elif k == 'D1': v[k] = 0 if v[k] else r.randrange(1, 100)
            elif k == 'OPT': v[k] = r.choice([x for x in (None, '-O0', '-O1', '-O1 -DUNUSED') if x != v[k]])
            elif k == 'G2': v['ARGV'] = r.choice([[], ['a'], ['ab'], ['a', 'b'], ['a b'], ['abc', 'd']])
            else: v[k] = r.choice([x for x in range(1, 100) if x != v[k]])
            out.append(k)
            s.sig.add(('exe:' if s.exe else 'jit:') + k)
        return out
    def run(s):
        r = s.r
        try:
            s.write()
            s.trace.append('first build')
            b, calls = s.build()
            if not s.judge('the first build', b):
                return s
            clean = True
            last = ''
            for i in range(s.steps):
                if r.random() < .35:
                    s.age(r.choice([3, 60, 4000]))
                s.settle()
                x = r.random()
                if x < .12:
                    if not clean:
                        s.build()
                    s.trace.append('build again, nothing changed')
                    b, calls = s.build()
                    s.count('builds_unchanged')
                    if not s.judge('no change', b):
                        return s
                    if calls:
                        s.report('rebuild although nothing changed (before: %s)' % re.sub(r'\d+', 'N', last), repr(calls[:6]))
                        return s
                elif x < .17:
                    fs = [dp + '/' + f for dp, ds, ff in os.walk(s.root + '/b') for f in ff if '/My/' in dp + '/' + f or 'boot' in f]
                    if r.random() < .2 or not fs:
                        shutil.rmtree(s.root + '/b', ignore_errors=True)
                        what = 'removing the build folder'
                    else:
                        p = r.choice(sorted(fs))
                        os.unlink(p)
                        what = 'removing ' + os.path.basename(p)
                    s.trace.append(what)
                    b, calls = s.build()
                    s.count('builds_after_removal')
                    if not s.judge(what, b):
                        return s
                elif x < .42:
                    y = r.random()
                    ed = s.edit()
                    if y < .45:
                        p, how = r.choice([z for z in BREAK if z[0] in s.files])
                        s.broken = {p: how}
                        s.write()
                        what = 'a broken ' + os.path.basename(p)
                        s.trace.append('edit %s; break %s' % (ed, p))
                        b, calls = s.build()
                        s.count('builds_broken')
                        if b.rc == 0:
                            s.report('error not reported: ' + what, 'status 0\n' + (b.out or '')[:500] + (b.err or '')[-500:])
                            return s
                        if not (b.err or '').strip():
                            s.report('failure without message: ' + what, '')
                            return s
                        s.broken = {}
                    elif y < .75:
                        s.write()
                        pat = r.choice([r'Nat\.c$', r'extra\.c$', r'res\.c$', r'Pre\.precompile\.c$', r'link:.*Nat', r'link:.*Pre', 'link:', r'boot\.c$', r'spvm_api\.c$'])
                        what = 'a failing compiler call for ' + pat
                        s.trace.append('edit %s; %s' % (ed, what))
                        b, calls = s.build({'CCW_FAIL': pat})
                        if any(c[0] == 'f' for c in calls):
                            s.count('builds_injected')
                            if b.rc == 0:
                                s.report('error not reported: ' + what, (b.out or '')[:500])
                                return s
                    elif y < .9:
                        s.write()
                        sg = r.choice([signal.SIGINT, signal.SIGTERM])
                        t = r.choice([.05, .15, .3, .5, .8, 1.5]) * (2 if s.exe else 1)
                        what = 'an interrupted build'
                        s.trace.append('edit %s; signal %s after %s s' % (ed, int(sg), t))
                        open(s.log, 'w').close()
                        p = subprocess.Popen(s.cmd(), env=s.env(), cwd=s.root + '/cwd', stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, start_new_session=True)
                        try:
                            p.wait(t)
                        except subprocess.TimeoutExpired:
                            os.killpg(p.pid, sg)
                            s.count('builds_interrupted')
                            try:
                                p.wait(30)
                            except subprocess.TimeoutExpired:
                                os.killpg(p.pid, signal.SIGKILL)
                                p.wait()
                    else:
                        s.write()
                        what = 'a build with a full disk'
                        kb = r.choice([1, 2, 4, 8, 16, 40])
                        s.trace.append('edit %s; no file over %d kB' % (ed, kb))
                        open(s.log, 'w').close()
                        def lim():
                            signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
                            resource.setrlimit(resource.RLIMIT_FSIZE, (kb * 1024, kb * 1024))
                        try:
                            subprocess.run(s.cmd(), env=s.env({'CCW_LOG': ''}), cwd=s.root + '/cwd', stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, preexec_fn=lim, timeout=120)
                        except subprocess.TimeoutExpired:
                            pass
                        s.count('builds_disk_full')
                    if r.random() < .5:
                        s.settle()
                        ed = s.edit()
                        s.trace.append('edit %s' % ed)
                    s.settle()
                    s.write()
                    s.trace.append('build again')
                    b, calls = s.build()
                    if not s.judge(re.sub(r'\d+', 'N', what), b):
                        return s
                else:
                    ed = s.edit()
                    ch = s.write()
                    s.trace.append('edit %s -> %s' % (ed, [os.path.basename(p) for p in ch]))
                    b, calls = s.build()
                    s.count('builds_edited')
                    if not s.judge('an edit of ' + ','.join(sorted(set(ed))), b):
                        return s
                    core = [c for c in calls if c[0] == 'c' and '/My/' not in c[1] and 'boot.c' not in c[1]]
                    if core and not s.exe:
                        s.report('other classes compiled again', repr(core[:3]))
                last = s.trace[-1]
                clean = True
        finally:
            shutil.rmtree(s.root, ignore_errors=True)
        return s

def main(ck):
    d = pb.build()
    ccwrap.setup(d)
    td = ck.sub('run')
    jobs = [(ck.rng.randrange(1 << 30), i % 3 == 2, ck.n(14 if i % 3 == 2 else 30, 120 if i % 3 == 2 else 250)) for i in range(ck.n(15, 64))]
    jobs.sort(key=lambda j: not j[1])
    seen = {}
    def one(j):
        seed, exe, steps = j
        return History(d, '%s/h%d' % (td, seed), seed, exe, steps, ck).run()
    with ThreadPoolExecutor(vp.NCPU) as ex:
        for h in ex.map(one, jobs):
            for k, n in h.cnt.items():
                ck.count(('exe_' if h.exe else 'jit_') + k, n)
                if k == 'values_checked':
                    ck.seen('h%d' % h.seed, n)
            for k in h.sig:
                ck.seen(k, 1)
            ck.count('histories_' + ('exe' if h.exe else 'jit'))
            for kind, detail in h.bad:
                if seen.get(kind, 0) < 1:
                    seen[kind] = 1
                    ck.violation('builder:' + ('exe:' if h.exe else 'jit:') + kind, detail, {})

if __name__ == '__main__':
    vp.main('S07', main)

"""The Perl side built from the working tree in scratch folders under /verif/build: blib as 'make' makes it,
and a second SPVM.so (SPVM.xs and the core) compiled with AddressSanitizer and UBSan."""
import os, re, shutil, subprocess, glob, fcntl
import vp
from concurrent.futures import ThreadPoolExecutor

CLEAN = ('PERL5LIB', 'PERL5OPT', 'PERL_MM_OPT', 'PERL_MB_OPT', 'MAKEFLAGS', 'MFLAGS', 'MAKELEVEL', 'SPVM_BUILD_DIR', 'SPVM_CC_FORCE',
         'SPVM_CC_QUIET', 'SPVM_CC_DEBUG')

def env(extra=None):
    e = {k: v for k, v in os.environ.items() if k not in CLEAN}
    e.update({'LC_ALL': 'C.UTF-8', 'LANG': 'C.UTF-8', 'PERL_MM_USE_DEFAULT': '1', 'TZ': 'UTC', 'PERL_HASH_SEED': '0'})
    if extra:
        e.update(extra)
    return e

def inputs():
    out = ['SPVM.xs', 'Makefile.PL', 'ppport.h', 'MANIFEST', 'README.md', 't/test_files/os_support/cpp11.cpp']
    for d in ('lib', 'script'):
        for r, ds, fs in os.walk(os.path.join(vp.REPO, d)):
            ds[:] = [x for x in ds if x not in ('.spvm_build',)]
            for f in fs:
                if not f.endswith(('.o', '.so')):
                    out.append(os.path.relpath(os.path.join(r, f), vp.REPO))
    out = [f for f in out if os.path.exists(os.path.join(vp.REPO, f))]
    if os.path.exists(os.path.join(vp.REPO, 'typemap')):
        out.append('typemap')
    return sorted(out)

def key(files):
    parts = []
    for f in files:
        if f.endswith('.pod'):
            continue
        parts += [f, vp.file_bytes(os.path.join(vp.REPO, f))]
    return vp.sh256(*parts)[:24]

def use_dir(d):
    """Keeps a shared lock on a build folder so that no other check prunes it."""
    f = open(d + '.use', 'w')
    fcntl.flock(f, fcntl.LOCK_SH)
    _held.append(f)
_held = []

def prune_xs(keep):
    ds = sorted((d for d in glob.glob(os.path.join(vp.BUILD, 'xs', '*')) if os.path.isdir(d)), key=os.path.getmtime, reverse=True)
    for d in ds[keep:]:
        try:
            with open(d + '.use', 'w') as f:
                fcntl.flock(f, fcntl.LOCK_EX | fcntl.LOCK_NB)
                shutil.rmtree(d, ignore_errors=True)
        except OSError:
            pass

def build():
    """-> folder holding blib, built as 'perl Makefile.PL && make' builds it (without the tests)."""
    files = inputs()
    k = key(files)
    d = os.path.join(vp.BUILD, 'xs', k)
    os.makedirs(os.path.dirname(d), exist_ok=True)
    with vp.Lock('build-xs'):
        use_dir(d)
        if not os.path.exists(d + '/ok'):
            shutil.rmtree(d, ignore_errors=True)
            for f in files:
                os.makedirs(os.path.dirname(os.path.join(d, f)), exist_ok=True)
                shutil.copy2(os.path.join(vp.REPO, f), os.path.join(d, f))
            for cmd in (['perl', 'Makefile.PL', '--no-precompile-tests'], ['make', '-j%d' % vp.NCPU]):
                r = subprocess.run(cmd, cwd=d, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
                if r.returncode:
                    raise vp.HarnessError('build of the Perl module failed: ' + r.stdout[-3000:])
            for o in glob.glob(d + '/lib/SPVM/Builder/src/*.o'):
                os.unlink(o)
            open(d + '/ok', 'w').close()
        os.utime(d)
        prune_xs(3)
    return d

ASAN_RT = '/usr/lib/llvm-18/lib/clang/18/lib/linux/libclang_rt.asan-x86_64.so'

def build_asan(d):
    """-> arch folder (for perl -I) holding auto/SPVM/SPVM.so with sanitizers."""
    a = d + '/asan'
    if os.path.exists(a + '/auto/SPVM/SPVM.so'):
        return a
    with vp.Lock('build-xs'):
        if os.path.exists(a + '/auto/SPVM/SPVM.so'):
            return a
        cfg = subprocess.run(['perl', '-MConfig', '-MExtUtils::ParseXS', '-MExtUtils::Typemaps', '-e',
                              'print "$Config{ccflags}\\n$Config{archlibexp}/CORE\\n$Config{version}\\n$Config{privlibexp}/ExtUtils"'],
                             capture_output=True, text=True, env=env()).stdout.split('\n')
        ver = re.search(r'VERSION\s*=\s*["\x27]([0-9._]+)', open(d + '/lib/SPVM.pm').read())
        cflags = cfg[0].split() + ['-std=gnu99', '-g', '-O1', '-fwrapv', '-fno-strict-aliasing', '-fno-omit-frame-pointer', '-w', '-pthread', '-fPIC',
                                   '-fsanitize=address,undefined', '-fno-sanitize=function,shift-base,float-cast-overflow,alignment', '-fno-sanitize-recover=undefined',
                                   '-shared-libsan', '-I' + cfg[1], '-I' + d + '/lib/SPVM/Builder/include',
                                   '-DVERSION="%s"' % ver.group(1), '-DXS_VERSION="%s"' % ver.group(1)]
        od = d + '/asanobj'
        os.makedirs(od, exist_ok=True)
        srcs = [d + '/SPVM.c'] + sorted(glob.glob(d + '/lib/SPVM/Builder/src/*.c'))
        def one(s):
            o = od + '/' + os.path.basename(s)[:-2] + '.o'
            slow = ['-O0'] if os.path.basename(s) in vp.SLOW + ('SPVM.c',) else []
            r = subprocess.run(['clang'] + cflags + slow + ['-c', s, '-o', o], capture_output=True, text=True)
            return (o, r.stderr[-2000:] if r.returncode else None)
        srcs.sort(key=lambda s: -os.path.getsize(s))
        with ThreadPoolExecutor(vp.NCPU) as ex:
            res = list(ex.map(one, srcs))
        bad = [e for o, e in res if e]
        if bad:
            raise vp.HarnessError('sanitized build of SPVM.xs failed: ' + bad[0])
        os.makedirs(a + '/auto/SPVM', exist_ok=True)
        r = subprocess.run(['clang', '-shared', '-fsanitize=address,undefined', '-shared-libsan', '-pthread', '-o', a + '/auto/SPVM/SPVM.so.tmp'] + [o for o, e in res] + ['-lm', '-ldl'],
                           capture_output=True, text=True)
        if r.returncode:
            raise vp.HarnessError('link of the sanitized SPVM.so failed: ' + r.stderr[-2000:])
        os.rename(a + '/auto/SPVM/SPVM.so.tmp', a + '/auto/SPVM/SPVM.so')
        shutil.rmtree(od, ignore_errors=True)
    return a

def perl_cmd(d, asan=False):
    cmd = ['perl']
    if asan:
        cmd += ['-I' + build_asan(d)]
    return cmd + ['-I' + d + '/blib/arch', '-I' + d + '/blib/lib']

def perl_env(asan=False, extra=None):
    e = env({k: v for k, v in vp.SAN_ENV.items() if k not in ('LC_ALL',)})
    if asan:
        e['LD_PRELOAD'] = ASAN_RT
        e['ASAN_OPTIONS'] = e['ASAN_OPTIONS'] + ':verify_asan_link_order=0'
    if extra:
        e.update(extra)
    return e

"""Common machinery: builds of /repo's working tree, running SPVM programs under the
instrumented driver, verdicts, known findings, replays and evidence."""
import os, sys, json, time, hashlib, subprocess, shutil, random, fcntl, tempfile, re, signal, glob, tarfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VP_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
SRC = REPO + '/lib/SPVM/Builder/src'
INC = REPO + '/lib/SPVM/Builder/include'
NCPU = min(8, os.cpu_count() or 4)

class HarnessError(Exception):
    pass

# ------------------------------------------------------------------ building
BASE = ['-std=gnu99', '-fno-omit-frame-pointer', '-fno-strict-aliasing', '-w', '-pthread',
        '-I' + INC, '-I' + REPO + '/lib/SPVM/Fn.native/include',
        '-I' + REPO + '/lib/SPVM/Fn/Resource.native/include']
FLAVORS = {
    'asan': dict(cc='clang', cflags=['-g', '-O1', '-fwrapv', '-fsanitize=address,undefined',
                                     '-fno-sanitize=function,shift-base,float-cast-overflow', '-fno-sanitize-recover=undefined'],
                 slow=['-O0'], ldflags=['-fsanitize=address,undefined']),
    'tsan': dict(cc='clang', cflags=['-g', '-O1', '-fwrapv', '-fsanitize=thread'], slow=['-O0'],
                 ldflags=['-fsanitize=thread']),
    'plain': dict(cc='clang', cflags=['-g', '-O1', '-fwrapv'], slow=['-O1'], ldflags=[]),
}
SLOW = ('spvm_vm.c', 'spvm_opcode_builder.c')

def sh256(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b'\0')
    return h.hexdigest()

def file_bytes(p):
    with open(p, 'rb') as f:
        return f.read()

def core_sources():
    s = sorted(glob.glob(SRC + '/*.c'))
    n = sorted(glob.glob(REPO + '/lib/SPVM/*.c') + glob.glob(REPO + '/lib/SPVM/Native/*.c')
               + glob.glob(REPO + '/lib/SPVM/Sync/*.c') + glob.glob(REPO + '/lib/SPVM/Fn.native/src/*.c')
               + glob.glob(REPO + '/lib/SPVM/Fn/Resource.native/src/*.c'))
    return s, n

def headers_hash():
    hs = sorted(glob.glob(INC + '/*.h') + glob.glob(REPO + '/lib/SPVM/*.native/include/*.h')
                + glob.glob(REPO + '/lib/SPVM/Fn/*.native/include/*.h') + glob.glob(VERIF + '/drv/*.h'))
    return sh256(*[x for h in hs for x in (h, file_bytes(h))])

class Lock:
    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True)
        self.p = os.path.join(BUILD, name + '.lock')
    def __enter__(self):
        self.f = open(self.p, 'w')
        fcntl.flock(self.f, fcntl.LOCK_EX)
    def __exit__(self, *a):
        self.f.close()

def prune(d, keep):
    try:
        ents = sorted((os.path.join(d, e) for e in os.listdir(d)), key=os.path.getmtime, reverse=True)
    except OSError:
        return
    for e in ents[keep:]:
        if os.path.isdir(e):
            shutil.rmtree(e, ignore_errors=True)
        else:
            try: os.unlink(e)
            except OSError: pass

def build_driver(flavor='asan', extra_sources=(), extra_flags=(), tag='drv', ldextra=()):
    """Compiles the core, the native standard classes and the driver from the working tree."""
    fl = FLAVORS[flavor]
    hh = headers_hash()
    core, nat = core_sources()
    jobs = []
    for src in core + nat + [VERIF + '/drv/driver.c'] + list(extra_sources):
        b = os.path.basename(src)
        flags = BASE + fl['cflags'] + (fl['slow'] if b in SLOW else [])
        if src.startswith(VERIF):
            flags = flags + list(extra_flags)
        key = sh256(hh, src, file_bytes(src), fl['cc'], ' '.join(flags))[:32]
        jobs.append((src, flags, os.path.join(BUILD, 'obj', flavor + '-' + key + '.o')))
    exe = os.path.join(BUILD, 'bin', '%s-%s-%s' % (tag, flavor, sh256(*([j[2] for j in jobs] + list(ldextra)))[:24]))
    if os.path.exists(exe):
        os.utime(exe)
        return exe
    with Lock('build-' + flavor):
        if os.path.exists(exe):
            return exe
        os.makedirs(BUILD + '/obj', exist_ok=True)
        os.makedirs(BUILD + '/bin', exist_ok=True)
        def one(j):
            src, flags, obj = j
            if os.path.exists(obj):
                os.utime(obj)
                return None
            tmp = obj + '.%d.tmp' % os.getpid()
            r = subprocess.run([fl['cc']] + flags + ['-c', src, '-o', tmp], capture_output=True, text=True)
            if r.returncode:
                return src + '\n' + r.stderr[-3000:]
            os.rename(tmp, obj)
        jobs.sort(key=lambda j: -os.path.getsize(j[0]))
        with ThreadPoolExecutor(NCPU) as ex:
            errs = [e for e in ex.map(one, jobs) if e]
        if errs:
            raise HarnessError('build failed: ' + errs[0])
        tmp = exe + '.%d.tmp' % os.getpid()
        r = subprocess.run([fl['cc']] + fl['ldflags'] + ['-rdynamic', '-Wl,-z,muldefs', '-pthread'] + list(ldextra)
                           + [j[2] for j in jobs] + ['-o', tmp, '-lm', '-ldl'], capture_output=True, text=True)
        if r.returncode:
            raise HarnessError('link failed: ' + r.stderr[-3000:])
        os.rename(tmp, exe)
        prune(BUILD + '/bin', 12)
        prune(BUILD + '/obj', 900)
    return exe

SAN_ENV = {
    'ASAN_OPTIONS': 'abort_on_error=1:detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=0:max_allocation_size_mb=3000:handle_segv=1:handle_sigfpe=1:color=never',
    'UBSAN_OPTIONS': 'print_stacktrace=1:abort_on_error=1:color=never',
    'TSAN_OPTIONS': 'halt_on_error=0:second_deadlock_stack=1:color=never:exitcode=66',
    'LC_ALL': 'C', 'TZ': 'UTC',
}

def env_with(extra=None):
    e = dict(os.environ)
    e.update(SAN_ENV)
    e.pop('SPVM_BUILD_DIR', None)
    if extra:
        e.update(extra)
    return e

class Run:
    __slots__ = ('rc', 'out', 'err', 'timeout', 'wall', 'cmd')

def run(cmd, timeout=120, stdin=None, env=None, cwd=None, out_limit=64 << 20, vmem_mb=None):
    """Runs a process with a generous watchdog. timeout => .timeout True (inconclusive, never a verdict)."""
    r = Run()
    r.cmd = cmd
    t0 = time.time()
    def pre():
        import resource
        os.setsid()
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        try: resource.setrlimit(resource.RLIMIT_STACK, (64 << 20, resource.RLIM_INFINITY))
        except Exception: pass
    p = subprocess.Popen(cmd, stdin=subprocess.PIPE if stdin is not None else subprocess.DEVNULL,
                         stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env_with(env), cwd=cwd, preexec_fn=pre)
    try:
        o, e = p.communicate(stdin, timeout=timeout)
        r.timeout = False
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, signal.SIGKILL)
        except OSError: pass
        o, e = p.communicate()
        r.timeout = True
    r.rc, r.out, r.err, r.wall = p.returncode, o, e, time.time() - t0
    return r

def run2(cmd, timeout=120, **kw):
    """run, repeated once after a timeout."""
    r = run(cmd, timeout, **kw)
    if r.timeout:
        r = run(cmd, timeout * 2, **kw)
    return r

SAN_RE = re.compile(rb'(ERROR: AddressSanitizer: ?([\w-]+)|runtime error: ([^\n]*)|WARNING: ThreadSanitizer: ([^\n(]*)|AddressSanitizer:DEADLYSIGNAL|ERROR: LeakSanitizer)')

def san_report(err):
    """(kind, first frame in the project) of the first sanitizer report in stderr, or None"""
    m = SAN_RE.search(err)
    if not m:
        return None
    if m.group(2): kind = m.group(2).decode()
    elif m.group(3): kind = 'ub:' + re.sub(r"0x[0-9a-f]+|-?\d+", 'N', m.group(3).decode('latin1'))[:80]
    elif m.group(4): kind = 'tsan:' + m.group(4).decode().strip()
    else: kind = m.group(1).decode()
    frame = '?'
    tail = err[m.start():]
    for fm in re.finditer(rb'#\d+ 0x[0-9a-f]+ in (\S+) (\S+)', tail):
        if b'/repo/' in fm.group(2) or REPO.encode() in fm.group(2) or b'precompile' in fm.group(2) or b'SPVM' in fm.group(1):
            frame = fm.group(1).decode()
            break
    return kind, frame

# ------------------------------------------------------------------ SPVM batches
INCDIRS = [VERIF + '/drv/lib', REPO + '/lib/SPVM']

def inc_args(extra):
    a = []
    for d in list(extra) + INCDIRS:
        a += ['-I', d]
    return a

PRE_CC = ['-w', '-fPIC', '-std=gnu99', '-g0', '-I' + INC]

def build_precompile(drv, incs, classes, outdir, opt='-O1', cc='clang', san=False, std=True, timeout=300):
    """Generates the precompiled C of every precompile class reachable from `classes` and links one .so."""
    os.makedirs(outdir, exist_ok=True)
    r = run2([drv] + inc_args(incs) + ['--gen', outdir] + classes, timeout=timeout)
    if r.timeout:
        return None, r
    if r.rc != 0:
        return None, r
    srcs = sorted(glob.glob(outdir + '/*.precompile.c'))
    objs = []
    flags = PRE_CC + [opt, '-fno-strict-aliasing', '-fwrapv'] + (['-fsanitize=address,undefined', '-fno-sanitize=function,shift-base,float-cast-overflow', '-fno-sanitize-recover=undefined'] if san else [])
    ih = headers_hash()
    def one(s):
        data = file_bytes(s)
        key = sh256(ih, data, ' '.join(flags), cc)[:32]
        obj = BUILD + '/obj/pre-' + key + '.o'
        if not os.path.exists(obj):
            tmp = obj + '.%d.%d.tmp' % (os.getpid(), random.getrandbits(30))
            c = subprocess.run([cc] + flags + ['-c', s, '-o', tmp], capture_output=True, text=True)
            if c.returncode:
                return s + '\n' + c.stderr[-2000:]
            os.rename(tmp, obj)
        objs.append(obj)
    os.makedirs(BUILD + '/obj', exist_ok=True)
    errs = [e for e in map(one, srcs) if e]
    if errs:
        r.rc = 98
        r.err = errs[0].encode()
        return None, r
    so = outdir + '/pre.so'
    c = subprocess.run([cc, '-shared', '-o', so] + objs, capture_output=True, text=True)
    if c.returncode:
        r.rc = 98
        r.err = c.stderr.encode()
        return None, r
    return so, r

class CaseOut:
    __slots__ = ('name', 'lines', 'error', 'blocks', 'done')
    def __init__(self, name):
        self.name, self.lines, self.error, self.blocks, self.done = name, [], None, None, False

def parse_log(out):
    """Splits the driver's event log into per-method records."""
    cases, cur, meta = {}, None, {'ce': [], 'end': None, 'order': [], 'init': None}
    txt = out.decode('latin1')
    errbuf = None
    for line in txt.split('\n'):
        if line.startswith('@B '):
            _, cls, name = line.split(' ', 2)
            cur = CaseOut(name)
            cases[cls + '.' + name] = cur
            meta['order'].append(cls + '.' + name)
            errbuf = None
        elif line.startswith('@K ') and cur is not None:
            cur.blocks = int(line[3:]); cur.done = True; cur = None; errbuf = None
        elif line.startswith('@E ') and cur is not None:
            p = line.split(' ', 2)
            cur.error = [int(p[1]), p[2] if len(p) > 2 else '']
            errbuf = cur
        elif line.startswith('@CE '):
            meta['ce'].append(line[4:])
        elif line.startswith('@INITERR '):
            meta['init'] = line[9:]
        elif line.startswith('@END'):
            meta['end'] = line[4:].strip(); cur = None
        elif cur is not None:
            if errbuf is cur: cur.error[1] += '\n' + line
            else: cur.lines.append(line)
        elif meta['ce'] and meta['end'] is None:
            meta['ce'][-1] += '\n' + line
    return cases, meta

# ------------------------------------------------------------------ check context
class Check:
    def __init__(self, prop, level='exploration', rule=''):
        self.prop, self.level, self.rule = prop, level, rule
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        if self.tier not in ('quick', 'thorough'): self.tier = 'quick'
        self.t0 = time.time()
        self.rng = random.Random('%s/%d/%s' % (prop, self.seed, self.tier))
        self.evals = 0
        self.distinct = set()
        self.samples = []
        self.counters = {}
        self.violations = []
        self.known_hit = {}
        self.inconclusive = []
        self.assumptions = []
        self.known = load_known(prop)
        self.work = tempfile.mkdtemp(prefix='vp-%s-' % prop)
        self.trace = []
        self.replay_dir = os.path.join(VERIF, 'evidence', 'replay-' + prop)

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def n(self, quick, thorough):
        return thorough if self.thorough else quick

    def count(self, k, n=1):
        self.counters[k] = self.counters.get(k, 0) + n

    def sub(self, name):
        d = os.path.join(self.work, name)
        os.makedirs(d, exist_ok=True)
        return d

    def sample(self, s, cap=12):
        if len(self.samples) < cap:
            self.samples.append(s)

    def seen(self, key, n=1):
        self.evals += n
        self.distinct.add(key if isinstance(key, (str, int, tuple)) else repr(key))

    def violation(self, key, detail, files=None):
        """key identifies the failing input/site stably; known findings are matched on it."""
        for k in self.known:
            if re.fullmatch(k['match'], key, re.S):
                if k['match'] not in self.known_hit:
                    self.known_hit[k['match']] = (k, key)
                return False
        if len(self.violations) < 40:
            d = os.path.join(self.replay_dir, '%03d' % len(self.violations))
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d, exist_ok=True)
            with open(d + '/what.txt', 'w') as f:
                f.write('property %s\nkey %s\nseed %d tier %s\n\n%s\n' % (self.prop, key, self.seed, self.tier, detail))
            for name, data in (files or {}).items():
                p = os.path.join(d, name)
                os.makedirs(os.path.dirname(p), exist_ok=True)
                with open(p, 'wb') as f:
                    f.write(data if isinstance(data, bytes) else data.encode('utf-8', 'surrogateescape'))
            self.violations.append((key, d, detail))
        else:
            self.violations.append((key, None, detail))
        return True

    def finish(self):
        shutil.rmtree(self.work, ignore_errors=True)
        for k, key in self.known_hit.values():
            print('KNOWN-FINDING: property=%s %s' % (self.prop, k['what']))
        cov = {'evaluations': self.evals, 'distinct_nontrivial': len(self.distinct), 'rule': self.rule,
               'samples': self.samples or ['(none)'], 'observed': self.counters,
               'inconclusive': self.inconclusive[:20]}
        ev = {'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': self.level,
              'coverage': cov, 'wall_s': round(time.time() - self.t0, 2), 'violations': len(self.violations),
              'assumptions': self.assumptions}
        os.makedirs(VERIF + '/evidence', exist_ok=True)
        tmp = VERIF + '/evidence/.%s.tmp' % self.prop
        with open(tmp, 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        os.rename(tmp, VERIF + '/evidence/%s.json' % self.prop)
        for key, d, detail in self.violations[:20]:
            print('--- %s\n%s' % (key, detail[:1500]))
        if self.violations:
            key, d, detail = self.violations[0]
            print('VIOLATION property=%s replay=%s' % (self.prop, d))
            sys.stdout.flush()
            return 1
        print('OK property=%s evaluations=%d distinct=%d inconclusive=%d wall=%.1fs %s' % (
            self.prop, self.evals, len(self.distinct), len(self.inconclusive), time.time() - self.t0,
            json.dumps(self.counters, sort_keys=True)))
        if self.evals == 0 or not self.distinct:
            print('HARNESS: nothing was observed')
            return 2
        if len(self.inconclusive) > max(3, self.evals // 3):
            print('HARNESS: too many inconclusive runs')
            return 2
        return 0

def load_known(prop):
    out = []
    p = VERIF + '/findings/known.jsonl'
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if not line or line.startswith('#') or line.startswith('fixed:'): continue
            k = json.loads(line)
            if k.get('property') == prop and k.get('match'):
                out.append(k)
    return out

def main(prop, fn, **kw):
    ck = Check(prop, **kw)
    shutil.rmtree(ck.replay_dir, ignore_errors=True)
    try:
        fn(ck)
    except HarnessError as e:
        shutil.rmtree(ck.work, ignore_errors=True)
        print('HARNESS ERROR: %s' % e)
        sys.exit(2)
    sys.exit(ck.finish())

def pmap(fn, items, workers=NCPU):
    with ThreadPoolExecutor(workers) as ex:
        return list(ex.map(fn, items))

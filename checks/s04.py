#!/usr/bin/env python3
"""S04: executables built by the real spvmcc from generated programs, observed against the direct run of the same program by
the spvm command and against what the generator knows (arguments, program name, evaluated values)."""
import os, sys, re, shutil, random
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import vp, perlbuild as pb, ccwrap
from concurrent.futures import ThreadPoolExecutor

def run(*a, **k):
    r = vp.run(*a, **k)
    r.out, r.err = (x.decode('utf-8', 'surrogateescape') if isinstance(x, bytes) else x or '' for x in (r.out, r.err))
    return r

ODD = ['?', '??/', '??=', '??<', '%', '%s', '%n', '%d', '/', '//', '/*', '*/', '#', '"', '\t', 'é', '日本', '\U0001F600', '$x', '@', '{', '}', '\x01', '\x1b', '\x7f',
       '\t7', '\t12', '\t0', '7', '0', '12', 'a', ' ', ';', 'ÿ', '\u0085', '~', '`', '\u2028', 'x41', 'u00e9', 'n', 'r', '|', '&', '<', '>', ',', '(', ')', '^', '!', '-', '=', '+', '*', '.', ':', '[', ']', '_']

class Prog:
    def __init__(s, seed):
        s.r = random.Random(seed)
        s.seed = seed
        s.files = {}
        s.feat = set()
        s.gen()

    def odd(s, n=None):
        r = s.r
        return ''.join(r.choice(ODD) for _ in range(n if n is not None else r.choice([0, 1, 3, 8, 20, 60])))
    def raw(s, n):
        return re.sub('[\x00-\x08\x0a-\x1f\x7f\u0085\u2028]', ' ', s.odd(n))
    def squote(s, t):
        """single-quoted literal"""
        return "q'" + t.replace('\\', '\\\\').replace("'", "\\'") + "'"
    def dquote(s, t):
        o = ''
        for c in t:
            b = c.encode('utf-8')
            k = s.r.random()
            if c in '"\\$':
                o += {'"': '\\"', '\\': '\\\\', '$': '\\$'}[c]
            elif c == '\n': o += '\\n'
            elif len(b) > 1:
                o += c if k < .7 else '\\N{U+%X}' % ord(c)
            elif k < .15 and ord(c) < 128: o += '\\x%02x' % ord(c) if k < .08 else '\\x{%x}' % ord(c)
            elif (ord(c) < 32 and c != '\t') or ord(c) == 127: o += '\\x{%x}' % ord(c)
            else: o += c
        return '"' + o + '"'
    def text(s):
        """-> (expression, value)"""
        t = s.odd()
        k = s.r.random()
        if k < .4:
            t = re.sub('[\x00-\x08\x0a-\x1f\x7f]', ' ', t)
            return s.squote(t), t
        return s.dquote(t), t
    def comment(s):
        r = s.r
        k = r.random()
        if k < .35:
            return '# ' + s.raw(12) + '\n'
        if k < .45:
            s.feat.add('pod')
            return '\n=pod\n\n' + s.raw(30) + '\n\n=cut\n\n'
        return ''

    def module(s, i, n):
        r = s.r
        name = s.names[i]
        pre = 'precompile ' if r.random() < .4 else ''
        if pre: s.feat.add('precompile')
        deps = sorted(set(r.choice(range(i)) for _ in range(r.randrange(0, 3)))) if i else []
        parent = r.choice(deps) if deps and r.random() < .5 else None
        if parent is not None and s.info[parent]['native'] and r.random() < .5:
            parent = None
        o = s.comment()
        o += 'class %s%s {\n' % (name, ' extends ' + s.names[parent] if parent is not None else '')
        if r.random() < .3:
            o = o.replace(' {\n', ' {\n  version "1.00%d";\n' % i); s.feat.add('version')
        for d in deps:
            o += '  use %s;\n' % s.names[d]
        o += '  use Fn; use StringBuffer; use IntList;\n'
        e, t = s.text()
        s.exp('VAR %s' % name, t)
        o += '  our $VAR : string;\n  our $COUNT : int;\n  our $OBJ : object;\n'
        o += s.comment()
        init = r.random() < .8
        o += '  INIT {\n    $VAR = %s;\n    $COUNT = %d;\n' % (e, i)
        for d in deps:
            o += '    $COUNT += %s->count;\n' % s.names[d]
        o += '    say "INIT %s " . $COUNT;\n  }\n' % name
        cnt = i + sum(s.info[d]['count'] for d in deps)
        o += '  static method count : int () { return $COUNT; }\n  static method var : string () { return $VAR; }\n'
        o += '  enum { EA = %d, EB }\n' % r.choice([0, -5, 7, 2147483646])
        o += '  has fld%d : rw int; has str%d : ro string;\n' % (i, i)
        o += '  method name%d : string () { return "%s/" . $self->{fld%d}; }\n' % (i, name, i)
        o += '  static method make%d : %s ($v : int) { my $o = new %s; $o->{fld%d} = $v; $o->{str%d} = "m" . $v; return $o; }\n' % (i, name, name, i, i)
        dest = r.random() < .6
        if dest:
            o += '  method DESTROY : void () { say "DESTROY %s " . $self->{fld%d};%s }\n' % (name, i, ' if ($self->{fld%d} == 13) { die "unlucky"; }' % i if r.random() < .4 else '')
            s.feat.add('destroy')
        a, b, c = r.randrange(1, 50), r.randrange(-50, 50), r.randrange(1, 9)
        o += s.comment()
        o += '  %sstatic method calc : long ($x : int, $y : long = %d) {\n    my $l = IntList->new_len(0);\n    for (my $i = 0; $i < $x; $i++) { $l->push($i * %d %% %d); }\n    my $sum = $y;\n' % (pre, b, a, c)
        o += '    for my $e (@{$l->to_array}) { $sum += $e; }\n    if ($sum > %d) { die "calc: %%s $sum" . $VAR; }\n    return $sum;\n  }\n' % (r.randrange(20, 200))
        an = 'precompile ' if r.random() < .4 else ''
        if an: s.feat.add('precompile anon')
        o += '  %sstatic method closure : int ($x : int) {\n    my $m = [$x : int] %smethod : int ($z : int) { if ($z > 40) { die "closure %s"; } return $x * 2 + $z; };\n    return $m->($x + %d);\n  }\n' % (pre, an, name, a)
        info = {'count': cnt, 'native': False, 'parent': parent, 'dest': dest}
        if r.random() < .35:
            s.feat.add('native')
            info['native'] = True
            o += '  native static method nat : int ($x : int);\n  native static method nstr : string ();\n  native static method ndie : void ($s : string);\n'
            e2, t2 = s.text()
            cs = ''.join('\\%03o' % x if x < 32 or x > 126 or x in b'"\\?' else chr(x) for x in t2.encode('utf-8'))
            cn = name.replace('::', '__')
            s.files['lib/SPVM/%s.c' % name.replace('::', '/')] = '''#include "spvm_native.h"
#include "v%d.h"
static const char* FILE_NAME = "%s.c";
int32_t SPVM__%s__nat(SPVM_ENV* env, SPVM_VALUE* stack) { stack[0].ival = stack[0].ival * %d + HV + sub%d(); return 0; }
int32_t SPVM__%s__nstr(SPVM_ENV* env, SPVM_VALUE* stack) { stack[0].oval = env->new_string(env, stack, "%s", %d); return 0; }
int32_t SPVM__%s__ndie(SPVM_ENV* env, SPVM_VALUE* stack) { return env->die(env, stack, "native %%s", env->get_chars(env, stack, stack[0].oval), __func__, FILE_NAME, __LINE__); }
''' % (i, name, cn, a, i, cn, cs, len(t2.encode('utf-8')), cn)
            b2 = r.randrange(100)
            s.files['lib/SPVM/%s.native/include/v%d.h' % (name.replace('::', '/'), i)] = '#define HV %d\nint sub%d(void);\n' % (b2, i)
            s.files['lib/SPVM/%s.native/src/s/u%d.c' % (name.replace('::', '/'), i)] = 'int sub%d(void) { return CFGV; }\n' % i
            cfgv = r.randrange(100)
            s.files['lib/SPVM/%s.config' % name.replace('::', '/')] = '''use strict; use warnings; use SPVM::Builder::Config;
my $config = SPVM::Builder::Config->new_gnu99(file => __FILE__);
$config->add_ccflag('-DCFGV=%d');
$config->add_source_file('s/u%d.c');
$config;
''' % (cfgv, i)
            info['nat'] = lambda x: x * a + b2 + cfgv
            info['nstr'] = t2
        if r.random() < .25:
            s.feat.add('interface')
            s.files['lib/SPVM/If%d.spvm' % i] = 'class If%d : interface_t {\n  required method name%d : string ();\n  method dflt : string () { return "dflt" . $self->name%d; }\n}\n' % (i, i, i)
            o = o.replace('use Fn;', 'use If%d; interface If%d; use Fn;' % (i, i), 1)
            o += '  method dflt : string () { return $self->name%d; }\n  static method viaif : string () { my $o = (If%d)&make%d(5); return $o->name%d; }\n' % (i, i, i, i)
            info['if'] = True
        if r.random() < .2:
            s.feat.add('mulnum')
            s.files['lib/SPVM/Mn%d_2d.spvm' % i] = 'class Mn%d_2d : mulnum_t {\n  has x : double;\n  has y : double;\n}\n' % i
            o = o.replace('use Fn;', 'use Mn%d_2d; use Fn;' % i, 1)
            o += '  %sstatic method mn : string () { my $v : Mn%d_2d; $v->{x} = 1.5; $v->{y} = %d; my $w = new Mn%d_2d[2]; $w->[1] = $v; return "" . $w->[1]{x} . $w->[1]{y}; }\n' % (pre, i, a, i)
            info['mn'] = True
        o += '}\n'
        if r.random() < .3: o += s.comment()
        if r.random() < .2: o = o.rstrip('\r\n'); s.feat.add('no newline at end')
        s.files['lib/SPVM/%s.spvm' % name.replace('::', '/')] = o
        s.info.append(info)

    def exp(s, k, v):
        s.expv[k] = v

    def gen(s):
        r = s.r
        s.expv = {}
        s.info = []
        n = r.randrange(1, 6)
        pool = ['Ma', 'Mb::C', 'Mb::C::D_e', 'Long' + 'x' * 40 + '::Y', 'M1::A2', 'Zz', 'Mb::D', 'Mb', 'A_b', 'A::B']
        s.names = r.sample(pool, n)
        for i in range(n):
            s.module(i, n)
        m = s.comment()
        m += '\n' if m and r.random() < .3 else ''
        m += 'class {\n  use CommandInfo; use Fn; use Native; use Array; use Hash; use Sort; use StringBuffer; use Error; use Format;\n'
        rt = r.random() < .15
        if rt:
            s.feat.add('compile at run time')
            m += '  use Native::Compiler; use Native::ClassFile; use Native::MethodCall; use Native::Runtime; use Native::Env; use Native::Stack; use Native::BasicType;\n'
        for x in s.names:
            m += '  use %s;\n' % x
        if r.random() < .4:
            m += '  use Ex; '
            s.files['lib/SPVM/Ex.spvm'] = 'class Ex extends Error;\n'
        else:
            m += '  '
        hasex = 'lib/SPVM/Ex.spvm' in s.files
        if r.random() < .4:
            m += 'INIT { say "INIT main"; %s}\n' % ('die "in INIT %s"; ' if r.random() < .12 else '')
        m += s.comment()
        m += '  static method show : void ($k : string, $v : string) { printf_("%s", [$k, $v]); }\n' if False else ''
        m += '  %sstatic method main : void () {\n' % ('precompile ' if r.random() < .2 else '')
        m += '    say "NARGS " . @{CommandInfo->ARGV};\n    for my $a (@{CommandInfo->ARGV}) { say "ARG " . length $a . ":" . $a; }\n'
        m += '    say "BT " . (CommandInfo->BASE_TIME > 1000000000L) . " " . __FILE__ . " " . __LINE__ . " " . __PACKAGE__;\n'
        b = []
        for i, x in enumerate(s.names):
            b.append('say "VAR %s=" . %s->var . "|";' % (x, x))
            b.append('say "COUNT %s=" . %s->count;' % (x, x))
            s.exp('COUNT %s' % x, str(s.info[i]['count']))
            b.append('say "CALC %s=" . %s->calc(%d%s);' % (x, x, r.randrange(0, 12), ', %d' % r.randrange(-9, 9) if r.random() < .5 else ''))
            b.append('eval { say "CALCE %s=" . %s->calc(%d); }; if ($@) { print "caught "; say $@; }' % (x, x, r.randrange(0, 40)))
            b.append('eval { say "CLO %s=" . %s->closure(%d); }; if ($@) { print "caught "; say $@; }' % (x, x, r.randrange(0, 30)))
            b.append('{ my $o = %s->make%d(%d); say $o->name%d . $o->str%d; $o->set_fld%d(%d); }' % (x, i, r.choice([1, 13, 7]), i, i, i, r.choice([13, 2])))
            b.append('say "" . (%s->EB - %s->EA);' % (x, x))
            if s.info[i]['native']:
                b.append('say "NAT %s=" . %s->nat(%d);' % (x, x, 3)); s.exp('NAT %s' % x, str(s.info[i]['nat'](3)))
                b.append('say "NSTR %s=" . %s->nstr . "|";' % (x, x)); s.exp('NSTR %s' % x, s.info[i]['nstr'])
                b.append('eval { %s->ndie("%%n"); }; if ($@) { print "caught "; say $@; }' % x)
            if s.info[i].get('if'): b.append('say %s->viaif;' % x)
            if s.info[i].get('mn'): b.append('say %s->mn;' % x)
            if s.info[i]['parent'] is not None:
                p = s.info[i]['parent']
                b.append('{ my $o = (%s)%s->make%d(4); $o->set_fld%d(9); say $o->name%d; say "" . ($o isa %s); }' % (s.names[p], x, i, p, p, x))
        b.append('my $ar%d = [3, 1, 2]; Sort->sort_int_asc($ar%d); say Fn->join(",", [(string)$ar%d->[0], "" . $ar%d->[1]]);' % ((1,) * 4))
        b.append('my $h = Hash->new({"k1" => 1, "k2" => "v"}); say "" . $h->get_int("k1") . @{$h->keys};')
        b.append('print "no newline "; warn "to stderr"; say "after";')
        b.append('my $e%d = %s; say $e%d;' % ((2,) + (s.text()[0],) + (2,)))
        x = [r.randrange(0, 99) for _ in range(3)]
        b.append('{ my $o%s=%s%d%s+%s%d%s*\t%d; say "ODD=" . $o; }' % ((r.choice(['\t', '\n', ' ']), r.choice(['\t', '\n', '\n\t']), x[0], r.choice(['\t', '\n', '\n\n']), r.choice(['\t', '\n\t', '\n']), x[1], r.choice(['\t', '\n']), x[2])))
        s.exp('ODD', str(x[0] + x[1] * x[2]))
        if rt:
            b.append('{ my $c = Native::Compiler->new; eval { $c->compile("NoSuchClass"); }; say "RT " . ($@ != undef); }')
        r.shuffle(b)
        for x in b[:r.randrange(3, len(b) + 1)]:
            m += '    ' + x + '\n'
            if r.random() < .08: m += s.comment()
        if r.random() < .3:
            x = r.randrange(n)
            m += '    my $keep = %s->make%d(%d);\n' % (s.names[x], x, 20)
        end = r.random()
        msg = s.text()[0]
        if end < .45: m += '  }\n'
        elif end < .55: m += '    return;\n  }\n'
        elif end < .68: m += '    die %s;\n  }\n' % (msg if len(msg) > 2 else '"x"'); s.feat.add('die')
        elif end < .74: m += '    my $l = (mutable string)new_string_len %d; for (my $i = 0; $i < length $l; $i++) { $l->[$i] = (byte)(97 + ($i %% 26)); } die $l . "%%s" . "end";\n  }\n' % r.choice([200, 255, 300, 480, 511, 512, 600, 5000]); s.feat.add('die long')
        elif end < .78: m += '    die "a\\0b%s";\n  }\n'; s.feat.add('die nul')
        elif end < .84: m += '    die %s "with id";\n  }\n' % ('Ex' if hasex else 'Error'); s.feat.add('die id')
        elif end < .88: m += '    my $u : string; my $z = $u->[0];\n  }\n'.replace('$u : string', '$u = new_string_len 1').replace('$u->[0]', '$u->[9]'); s.feat.add('die runtime')
        elif end < .91: m += '    &rec(0);\n  }\n  static method rec : int ($x : int) { return &rec($x + 1) + 1; }\n'; s.feat.add('die deep')
        elif end < .95:
            x = r.randrange(n)
            m += '    %s->calc(100000, 5000L);\n  }\n' % s.names[x]; s.feat.add('die in module')
        else:
            nat = [i for i in range(n) if s.info[i]['native']]
            if nat: m += '    %s->ndie("n %%d");\n  }\n' % s.names[nat[0]]; s.feat.add('die native')
            else: m += '  }\n'
        m += '}\n'
        if r.random() < .2: m = m.rstrip('\r\n')
        s.script = r.choice(['main.spvm', 'my app.spvm', 'é%s.spvm', 'noext', 'sub/dir/x-1.spvm', "q'u.spvm"])
        s.lib = r.choice(['lib', 'lib', "l'ib é", 'li b'])
        if r.random() < .25 and s.lib == 'lib' and '/' not in s.script:
            s.feat.add('lib directive')
            m = '#lib "$FindBin::Bin/lib/SPVM"\n' + m
            s.dirlib = True
        else:
            s.dirlib = False
        if s.lib != 'lib':
            s.files = {s.lib + k[3:]: v for k, v in s.files.items()}
        s.files[s.script] = m
        s.asan = r.random() < .25
        s.opts = r.choice([[], [], ['--optimize', '-O1'], ['--optimize', '-O0 -g']])
        s.config = s.asan or r.random() < .3
        if s.config:
            base = re.sub(r'\..*$', '', s.script)
            f = 'use strict; use warnings; use SPVM::Builder::Config::Exe;\nmy $config = SPVM::Builder::Config::Exe->new_gnu99(file => __FILE__);\n'
            if s.asan:
                f += "$config->add_global_after_create_compile_info_cb(sub { my ($c, $i) = @_; push @{$c->ccflags}, '-fsanitize=address,undefined', '-fno-sanitize=shift-base,float-cast-overflow,alignment', '-fno-sanitize-recover=undefined', '-fno-omit-frame-pointer', '-fwrapv'; });\n$config->add_ldflag('-fsanitize=address,undefined');\n"
            s.files[base + '.config'] = f + '$config;\n'
        s.args = [r.choice([[], ['a'], ['', 'x'], ['é', '%s%n', 'a b'], ['-', '--', '-x'], ['\x01\x7f"', '\\', "'"], ['z' * 3000], [str(i) for i in range(60)], ['\udcff\udcfe']]) for _ in range(2)]

def norm(s, root, lib):
    return s.replace('%s/%s/SPVM/' % (root, lib), '')

def err_exe(t):
    return re.sub(r'\n    main at [^\n]*\.boot\.c line \d+\n$', '\n', t)

def err_dir(t):
    i = t.rfind('\n    XS_SPVM__ExchangeAPI__xs_call_method at ')
    return t[:i] + '\n' if i >= 0 else t

class Job:
    def __init__(s, d, root, seed):
        s.d, s.root, s.seed = d, root, seed
        s.bad = []
        s.cnt = {}
        s.p = Prog(seed)
    def count(s, k, n=1):
        s.cnt[k] = s.cnt.get(k, 0) + n
    def report(s, kind, detail):
        s.bad.append((kind, 'program %d (%s)\n%s' % (s.seed, ', '.join(sorted(s.p.feat)), detail), {k.replace('/', '__'): v for k, v in s.p.files.items() if k.endswith('.spvm') or k == s.p.script}))
    def run(s):
        try:
            s.go()
        finally:
            shutil.rmtree(s.root, ignore_errors=True)
        return s
    def go(s):
        p, root = s.p, s.root
        P = root + '/p'
        for d in ('cwd', 'cwd2', 'out'):
            os.makedirs(root + '/' + d)
        for f, t in p.files.items():
            os.makedirs(os.path.dirname(P + '/' + f), exist_ok=True)
            with open(P + '/' + f, 'wb') as h:
                h.write(t.encode('utf-8'))
        inc = [] if p.dirlib else ['-I', '%s/%s/SPVM' % (P, p.lib)]
        env = ccwrap.env(s.d, '', {'ASAN_OPTIONS': 'detect_leaks=0:abort_on_error=0:exitcode=66:allocator_may_return_null=1', 'UBSAN_OPTIONS': 'print_stacktrace=1'})
        # spvmcc takes the folder of the script as it is given
        script = P + '/' + p.script
        dirs = []
        for a in p.args:
            dirs.append(run(ccwrap.spvm(s.d) + inc + ['-B', root + '/bj', '--', script] + [x.encode('utf-8', 'surrogateescape') for x in a], timeout=120, env=env, cwd=root + '/cwd'))
            if dirs[-1].timeout:
                return s.count('timeouts')
        exe = root + '/out/prog'
        opt = p.opts + ([] if p.config else ['--no-config'])
        b = run(ccwrap.spvmcc(s.d) + inc + ['-B', root + '/be', '-q', '-o', exe] + opt + [script], timeout=300, env=env, cwd=root + '/cwd')
        if b.timeout:
            return s.count('timeouts')
        comp = 'Compilation Error' in dirs[0].err
        if comp:
            s.count('not_accepted')
            if b.rc == 0:
                s.report('spvmcc builds a program that does not compile', dirs[0].err[:800])
            if not s.seed_quiet:
                print('# not accepted: %d %s' % (s.seed, dirs[0].err[:300]))
            return
        if b.rc != 0 or not os.path.exists(exe):
            return s.report('spvmcc fails', 'status %s\n%s' % (b.rc, chr(10).join([l for l in b.err.split(chr(10)) if re.search('rror|undefined|ld:|collect2', l)][:20])[:2500] + '...' + b.err[-300:]))
        s.count('executables')
        if p.asan: s.count('executables_asan')
        gone = s.p.r.random() < .5
        if gone:
            shutil.rmtree(P); shutil.rmtree(root + '/be'); shutil.rmtree(root + '/bj', ignore_errors=True)
            s.count('runs_without_sources', len(p.args))
        for a, q in zip(p.args, dirs):
            x = run([exe] + [z.encode('utf-8', 'surrogateescape') for z in a], timeout=120, env=env, cwd=root + '/cwd2')
            if x.timeout:
                s.count('timeouts'); continue
            s.count('runs')
            s.count('lines_compared', x.out.count('\n'))
            ctx = 'arguments %r, sources %s\n' % (a, 'removed' if gone else 'there')
            ox, oq = norm(x.out, P, p.lib), norm(q.out, P, p.lib)
            if 'Sanitizer' in x.err or 'runtime error:' in x.err:
                m = re.search(r'ERROR: AddressSanitizer: ([\w-]+)|runtime error: ([^\n]{0,60})', x.err)
                fr = re.findall(r'#\d+ 0x\w+ in (SPVM\w+)', x.err)
                return s.report('sanitizer:%s:%s' % (re.sub(r'\d+|0x\w+', 'N', (m.group(1) or m.group(2)) if m else '?'), fr[0] if fr else ''), ctx + x.err[-3000:])
            if x.rc < 0:
                return s.report('executable ends by signal', ctx + 'status %s\n%s\n%s' % (x.rc, ox[-500:], x.err[-1500:]))
            if ox != oq:
                i = next((i for i, (u, v) in enumerate(zip(ox, oq)) if u != v), min(len(ox), len(oq)))
                return s.report('output differs', ctx + 'at character %d\nexecutable: %r\ndirect:     %r' % (i, ox[max(0, i - 150):i + 150], oq[max(0, i - 150):i + 150]))
            ex, eq = norm(err_exe(x.err), P, p.lib), norm(err_dir(q.err), P, p.lib)
            if q.rc == 0: eq = norm(q.err, P, p.lib)
            if ex != eq:
                # an uncaught exception in INIT is reported by Perl in its own form
                if 'in INIT' in eq and 'in INIT' in ex:
                    s.count('init_exceptions')
                else:
                    i = next((i for i, (u, v) in enumerate(zip(ex, eq)) if u != v), min(len(ex), len(eq)))
                    return s.report('error report differs', ctx + 'at character %d of %d, %d\nexecutable: %r\ndirect:     %r' % (i, len(ex), len(eq), ex[max(0, i - 150):i + 250], eq[max(0, i - 150):i + 250]))
            if (x.rc == 0) != (q.rc == 0):
                return s.report('exit status differs', ctx + 'executable %s, direct %s\n%s' % (x.rc, q.rc, x.err[-600:]))
            if x.rc: s.count('uncaught_exceptions')
            # what the generator knows
            if x.rc == 0 or 'NARGS' in x.out:
                na = re.search(r'^NARGS (\d+)$', x.out, re.M)
                if not na or int(na.group(1)) != len(a):
                    return s.report('arguments', ctx + x.out[:300])
                i = na.end()
                want = ''.join('\nARG %d:%s' % (len(z.encode('utf-8', 'surrogateescape')), z) for z in a)
                if not x.out[i:].startswith(want + '\n'):
                    return s.report('arguments', ctx + x.out[i:i + 300])
                s.count('arguments_checked', len(a))
            for k, v in p.expv.items():
                bar = '|' if k.startswith(('VAR', 'NSTR')) else ''
                if '\n%s=' % k in x.out or x.out.startswith(k + '='):
                    s.count('values_checked')
                    if '%s=%s%s\n' % (k, v, bar) not in x.out:
                        return s.report('value of ' + k.split(' ')[0], ctx + 'want %r\n%r' % ('%s=%s%s' % (k, v, bar), x.out[x.out.find(k + '='):][:200]))

def probe_ids(ck, d, td):
    """an uncaught error whose ID is a multiple of 256"""
    root = td + '/ids'
    os.makedirs(root + '/lib/SPVM')
    n = 300
    for i in range(n):
        open('%s/lib/SPVM/Er%d.spvm' % (root, i), 'w').write('class Er%d extends Error;\n' % i)
    open(root + '/m.spvm', 'w').write('class {\n  use CommandInfo;\n' + ''.join('  use Er%d;\n' % i for i in range(n)) + '  static method main : void () {\n    my $i = (int)CommandInfo->ARGV->[0]; say CommandInfo->PROGRAM_NAME;\n'
        + ''.join('    if (basic_type_id Er%d == $i) { die Er%d "x"; }\n' % (i, i) for i in range(150, n)) + '    say "none";\n  }\n}\n')
    env = ccwrap.env(d)
    b = run(ccwrap.spvmcc(d) + ['-I', root + '/lib/SPVM', '-B', root + '/b', '-q', '--no-config', '-o', root + '/m', root + '/m.spvm'], timeout=300, env=env, cwd=root)
    if b.rc:
        return ck.violation('spvmcc fails', b.err[-2000:], {})
    for i in range(240, 320):
        for name in (root + '/m', './m') if i in (250, 256) else ('./m',):
            x = run([name, str(i)], timeout=60, env=env, cwd=root)
            if x.timeout: continue
            ck.count('id_runs')
            if x.rc < 0 or x.out.split('\n')[0] != name:
                ck.violation('program name', 'run as %s: %r status %s' % (name, x.out[:200], x.rc), {})
            thrown = 'none' not in x.out
            if thrown: ck.count('ids_thrown')
            if thrown != (x.rc != 0) or thrown != x.err.startswith('x\n'):
                ck.violation('exit status of an uncaught error', 'error id %d: status %s\n%s%s' % (i, x.rc, x.out, x.err), {})

def main(ck):
    d = pb.build()
    ccwrap.setup(d)
    td = ck.sub('run')
    Job.seed_quiet = not os.environ.get('S04_DEBUG')
    jobs = [ck.rng.randrange(1 << 30) for _ in range(ck.n(40, 500))]
    seen = {}
    def one(seed):
        return Job(d, '%s/p%d' % (td, seed), seed).run()
    with ThreadPoolExecutor(vp.NCPU) as ex:
        pr = ex.submit(probe_ids, ck, d, td)
        for j in ex.map(one, jobs):
            for k, n in j.cnt.items():
                ck.count(k, n)
            ck.seen('p%d' % j.seed, j.cnt.get('runs', 0))
            for f in j.p.feat: ck.count('feature: ' + f)
            for kind, detail, files in j.bad:
                if seen.get(kind, 0) < 1:
                    seen[kind] = 1
                    ck.violation('exe:' + kind, detail, files)
        pr.result()

if __name__ == '__main__':
    vp.main('S04', main)

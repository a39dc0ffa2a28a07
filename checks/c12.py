import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import re, random
import vp, session as se, corpus, stmts

GOOD = '''class Good : public { our $N : int; has x : int; has next : Good; INIT { $N = 3; }
  static method new : Good ($x : int = 5) { my $self = new Good; $self->{x} = $x; return $self; }
  method x : int () { return $self->{x}; }
  static method m : void () {
    my $t = 0; for (my $i = 0; $i < 10; $i++) { if ($i % 2) { next; } switch ($i) { case 4: { $t += 100; break; } default: { $t += $i; } } }
    my $o = Good->new; $o->{next} = Good->new($N); weaken $o->{next};
    eval { die "E" . $t; };
    my $f = method : int ($y : int) { return $y * 2; };
    say "$t $N " . $o->x . " " . "b" . " " . length $@ . " 1.5";
  }
}
'''
GOODOUT = re.compile(r'116 3 5 b \d+ 1\.5$')

def lines_of(b): return b.count(b'\n') + 1

def check_msgs(op, srcs):
    """every message of a failing compile carries a file and a line inside that source"""
    if not op.msgs: return 'no error message'
    for m in op.msgs:
        p = re.findall(r'\n?\s*at (.+?) line (-?\d+)', m)
        if not p: return 'message without position: %r' % m[:300]
        f, n = p[-1][0], int(p[-1][1])
        if f == 'start.c':
            if n != 77: return 'start file line %d' % n
        elif f in srcs:
            b = srcs[f]
            if re.search(rb'(^|\n)\s*#\s*(line|file)', b): continue
            if not 1 <= n <= lines_of(b): return 'line %d is outside the source of %d lines: %r' % (n, lines_of(b), m[:300])
        elif not f.endswith('.spvm') and not any(re.search(rb'#\s*file', b) for b in srcs.values()): return 'unknown file %r in %r' % (f, m[:300])
    return None

def special(rng, tier):
    """texts around the limits and buffers of the compiler"""
    L = 'L' * rng.choice([200, 230, 250, 300, 5000])
    yield 'long names in a call', 'class TA { static method %s : void ($x : int) { } static method m : void () { &%s(%s); } }' % (L, L, rng.choice(['1', '"a"', '1.5', 'undef', '1L']))
    yield 'long names of a field', 'class TA { has %s : int; method m : void () { $self->{%s} = %s; } }' % (L, L, rng.choice(['1', '"a"', '[1]']))
    yield 'long names of a variable', 'class TA { our $%s : int; static method m : void () { my $%s = $%s; $%s = %s; } }' % (L.upper(), L, L.upper(), L, rng.choice(['1', '"a"']))
    yield 'long cast', 'class TA { static method m : void () { my $x = (%s)1; } }' % L
    for n in ('2147483647', '2147483648', '99999999999', '0', '-1', '1', '999999999'):
        yield 'line directive', 'class TA {\n#line %s\n' % n + ' ' * rng.choice([0, 9, 1200, 12000]) + 'static method m : void () { my $f = method : void () { }; } }'
    for nm in ('A', 'AB', 'A_1i', 'A_i'):
        yield 'multi-numeric name', 'class %s : mulnum_t { x : int; }' % nm
    yield 'multi-numeric name', 'class TA : mulnum_t { x : int; }'
    yield 'multi-numeric types', 'class TA_2i : mulnum_t { x : int; y : long; }'
    for n in (254, 255, 256): yield 'multi-numeric fields', 'class TA_%di : mulnum_t { %s }' % (n, ' '.join('f%d : int;' % i for i in range(n)))
    for n in (255, 256, 257): yield 'arguments', 'class TA { static method m : void (%s) { } }' % ', '.join('$a%d : int' % i for i in range(n))
    if tier != 'quick': yield 'many fields', 'class TA { %s }' % ' '.join('has f%d : byte;' % i for i in range(65537))
    yield 'many variables', 'class TA { static method m : void () { %s } }' % ' '.join('my $a%d = %d;' % (i, i) for i in range(rng.choice([1000, 3000])))
    yield 'big switch', 'class TA { static method m : void () { switch (1) { %s } } }' % ' '.join('case %d: { break; }' % (i * 7 % 3001) for i in range(3001))
    yield 'deep dimension', 'class TA { static method m : void () { my $x : int%s; } }' % ('[]' * rng.choice([254, 255, 256, 257, 1000]))
    yield 'long string', 'class TA { static method m : void () { my $x = "%s"; } }' % ('ab' * 200000)
    yield 'many strings', 'class TA { static method m : void () { my $x : string; %s } }' % ' '.join('$x = "%d";' % i for i in range(3000))
    yield 'file directive', '#file "x"\nclass TA { foo }'
    yield 'lib directive', '#lib "/nonexistent"\nclass TA { static method m : void () { } }'
    yield 'use of a directory', 'class TA { use Native; }'
    yield 'use of itself', 'class TA { use TA; extends TA; }'
    yield 'extends itself', 'class TA extends TA { }'
    yield 'interface of itself', 'class TA : interface_t { interface TA; required method m : void (); }'
    for t in ('use Aa__B;', 'use a;', 'use A::b;', 'use ::A;', 'use A::;', 'use A::::B;', 'use 1A;', 'use A as b;', 'use Fn as A__B;', 'if (require A__B) { }', 'use ../x;', 'version "1.2.3"; version "1";', 'version "x";', 'version_from Fn;', 'version_from Nope;', 'extends Nope;', 'interface Nope;', 'allow Nope;', 'alias Nope as X;'):
        yield 'uses', 'class TA { %s static method m : void () { %s } }' % (t, '' if 'require' not in t else t)

STUBBED = {'Point', 'Point3D', 'Complex_2d', 'Complex_2f', 'Stringable', 'Cloneable', 'Byte', 'Short', 'Int', 'Long', 'Float', 'Double', 'Bool', 'Error', 'CommandInfo', 'Address'}
def valid(rng):
    """correct programs with a small set of classes"""
    files = [(k[:-5], v) for k, v in stmts.FILES.items()]
    names = {c for c, _ in files}
    out = []
    for c in stmts.all_cases(rng):
        t = c.body + c.decls
        used = set(re.findall(r'(?<![\w$>{:])([A-Z]\w*(?:::\w+)*)(?=->|\b\s*[;,)\]\[=]|\(|$)', t))
        used = {u for u in used if u not in ('INIT', 'SUPER', 'TB')}
        if c.files or 'TB' in t or len(t) > 6000 or not used <= names | STUBBED: continue
        src = 'class TA { %s\n%s\n static method m : void () {\n%s\n } }' % (' '.join('use %s;' % u for u in sorted(used | {'Stringable', 'Point'})), c.decls, c.body)
        need = names & used
        while True:
            more = {n2 for n in need for n2 in names if re.search(r'\b%s\b' % n2, dict(files)[n])}
            if more <= need: break
            need |= more
        out.append([('TA', src)] + [(n, v) for n, v in files if n in need])
    return out

def main(ck):
    rng = ck.rng
    drv = vp.build_driver('asan')
    tests = corpus.test_sources()
    files = corpus.file_sources(ck.n(5000, 20000))
    if len(tests) < 300: raise vp.HarnessError('corpus not found')
    pool = tests + files
    ctoks = []
    for g in rng.sample(pool, 200): ctoks += [x for x in corpus.toks(g[0][1]) if x.strip()]
    items, fitems, sitems = [], [], []
    def enc(s): return s if isinstance(s, bytes) else s.encode('utf-8', 'surrogateescape')
    def item(key, group, orig=None, kind='', out=items, fam=''):
        k = 1; ops = []
        srcs = {}
        def load(k, g):
            for c, s in g: ops.append(se.src(k, c, enc(s))); srcs[c.replace('::', '/') + '.spvm'] = enc(s); srcs[c + '.spvm'] = enc(s)
        ops.append(se.new(1)); load(1, group); ops.append(se.comp(1, group[0][0])); first = len(ops) - 1
        # a second compiler, which has compiled something else before: the same outcome
        ops.append(se.new(2)); ops.append(se.src(2, 'Good', GOOD.encode())); ops.append(se.comp(2, 'Good')); load(2, group); ops.append(se.comp(2, group[0][0])); second = len(ops) - 1
        # the first goes on with a class that is all right, and with the text before the mutation
        ops.append(se.src(1, 'Good', GOOD.encode())); ops.append(se.comp(1, 'Good')); good = len(ops) - 1
        ops.append(se.call(1, 'Good', 'm')); run = len(ops) - 1
        third = ref = None
        if orig:
            for c, _ in group: ops.append(se.dele(1, c))
            load(1, orig); ops.append(se.comp(1, orig[0][0])); third = len(ops) - 1
            ops.append(se.new(3)); load(3, orig); ops.append(se.comp(3, orig[0][0])); ref = len(ops) - 1
            load(1, group); del srcs  # keep the texts of the mutant for the positions
            srcs = {}
            for c, s in group: srcs[c.replace('::', '/') + '.spvm'] = srcs[c + '.spvm'] = enc(s)
            for _ in group: ops.pop()
            ops.append(se.free(3))
        ops.append(se.free(2)); ops.append(se.free(1))
        out.append(se.Item(key, ops, dict(first=first, second=second, good=good, run=run, third=third, ref=ref, srcs=srcs, kind=kind, group=group, fam=fam)))
    # the sources as they are
    for gi, g in enumerate(rng.sample(tests, ck.n(200, len(tests)))): item('test source %d' % gi, g)
    n = ck.n(2000, 40000)
    def mutant(i, fam, out, how=None):
        g = rng.choice(fam); j = rng.randrange(len(g)) if fam is not vals or rng.random() < .1 else 0
        kind, s = corpus.mutate(rng, g[j][1], rng.choice(fam if fam is vals else pool)[0][1], ctoks, how and 'swaptype')
        if rng.random() < .12 and not isinstance(s, bytes): k2, s = corpus.mutate(rng, s, rng.choice(pool)[0][1], ctoks); kind += '+' + k2
        m = [(c, s if x == j else t) for x, (c, t) in enumerate(g)]
        item('mutant %d %s of %s' % (i, kind, g[j][0]), m, orig=g if rng.random() < .3 else None, kind=kind, out=out, fam='valid' if fam is vals else 'file' if fam is files else 'test')
    vals = valid(rng)
    for i in range(n): mutant(i, tests, items)
    for i in range(ck.n(120, 4000)): mutant(i, files, fitems)
    for i in range(ck.n(700, 15000)): mutant(i, vals, items, 'swap' if rng.random() < .6 else None)
    for g in rng.sample(vals, min(len(vals), ck.n(40, 400))): item('valid %d' % len(items), g, kind='valid')
    for key, s in special(rng, ck.tier): item('special %s' % key, [('TA', s)], kind='special', out=sitems)
    for i in range(ck.n(150, 3000)):
        s = 'class TA { ' + ' '.join(rng.choice(corpus.WORDS if rng.random() < .5 else ctoks) for _ in range(rng.choice([1, 3, 8, 20, 60]))) + rng.choice(['', ' }', ' } }'])
        if rng.random() < .5: s = s.replace('class TA { ', 'class TA { static method m : void () { ', 1)
        item('soup %d' % i, [('TA', s)], kind='soup')
    for i in range(ck.n(40, 600)):
        item('noise %d' % i, [('TA', bytes(rng.randrange(256) for _ in range(rng.choice([0, 1, 2, 5, 30, 200]))))], kind='noise')
    done = se.run_all(drv, items, per=30, incs=[vp.VERIF + '/drv/stub']) + se.run_all(drv, fitems, per=8) + se.run_all(drv, sitems, per=2, incs=[vp.VERIF + '/drv/stub'])
    for it in done:
        f = {}
        if it.meta:
            for c, s in it.meta['group']: f[c.replace('::', '__') + '.spvm'] = enc(s)
        if it.kind == 'missing': ck.inconclusive.append('%s: %s' % (it.key, it.detail[:200])); continue
        if it.kind in ('crash', 'hang'):
            rep = vp.san_report(it.detail.encode('latin1')) or ('assert', (re.search(r"in (\w+)|: (\w+): Assertion", it.detail) or [0, '?'])[0]) if 'Assert' in it.detail else vp.san_report(it.detail.encode('latin1'))
            ck.violation('%s/%s' % (it.kind, it.detail[:60] if it.kind == 'hang' else '%s/%s' % (rep or ('?', '?'))), '%s: %s\n%s' % (it.key, it.kind, it.detail), f); continue
        m = it.meta; o = it.ops
        a, b = o[m['first']], o[m['second']]
        ck.seen(m['kind'].split(' ')[0] + ('/accepted' if a.rc == 0 else '/' + re.sub(r'"[^"]*"|\d+', '', a.msgs[0] if a.msgs else '')[:50]))
        ck.count(('accepted' if a.rc == 0 else 'rejected') + ' ' + it.key.split(' ')[0] + ' ' + m['fam']); ck.count('messages', len(a.msgs))
        why = None
        if m['kind'] == 'valid' and a.rc: why = 'a correct program is rejected: %r' % a.msgs[:2]
        elif a.rc: why = check_msgs(a, m['srcs'])
        elif a.msgs: why = 'a compile that succeeds has messages: %r' % a.msgs[:2]
        # a nesting that is too deep for the parser: how deep it has come depends on the classes before
        deep = 'nest' in m['kind'] and any('Unexpected token' in x for x in a.msgs + b.msgs)
        if not why and not deep and (a.rc != b.rc or a.msgs != b.msgs): why = 'compiling twice differs: %r %r, then (after another class) %r %r' % (a.rc, a.msgs[:3], b.rc, b.msgs[:3])
        if not why and o[m['good']].rc != 0: why = 'afterwards a correct class does not compile: %r' % o[m['good']].msgs[:3]
        g = [l for l in o[m['run']].out if not l.startswith('@I')]
        if not why and (len(g) < 2 or not GOODOUT.match(g[-2]) or g[-1] != '@K 0') and a.rc: why = 'afterwards a correct class gives %r' % g
        if not why and m['third'] is not None and a.rc:
            t, r = o[m['third']], o[m['ref']]
            if (t.rc, t.msgs) != (r.rc, r.msgs): why = 'after the failure the repaired source gives %r %r, in a new compiler %r %r' % (t.rc, t.msgs[:3], r.rc, r.msgs[:3])
        if not why:
            for x in o:
                if x.line == "F 1" and (x.freed or 0) > 0: why = '%s leaves %d bytes of the compiler' % (x.line, x.freed)
        if why: ck.violation('%s/%s' % (m['kind'].split(' ')[0], re.sub(r'\d+', 'N', why)[:60]), '%s: %s' % (it.key, why), f)
    ck.sample('%d texts: %d accepted, %d rejected' % (len(done), sum(v for k, v in ck.counters.items() if k.startswith('accepted')), sum(v for k, v in ck.counters.items() if k.startswith('rejected'))))

vp.main('C12', main, rule='a distinct case is a kind of mutation with acceptance or the first error message (names removed)')

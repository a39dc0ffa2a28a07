import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import vp, progcheck
from spvmrun import Case, run_and_judge

def switch_case(rng, k, ncase):
    base = rng.choice([0, -3, 1000, -2147483648, 2147483647 - 3 * ncase, 65530])
    vals = set()
    while len(vals) < ncase:
        v = base + rng.randrange(3 * ncase) if rng.random() < 0.8 else rng.choice([-2147483648, 2147483647, 0, -1, 1, rng.randrange(-2**31, 2**31)])
        if -2**31 <= v < 2**31: vals.add(v)
    vals = list(vals)
    order = rng.choice(['sorted', 'shuffled', 'reverse'])
    if order == 'sorted': vals.sort()
    elif order == 'reverse': vals.sort(reverse=True)
    else: rng.shuffle(vals)
    dflt = rng.random() < 0.7
    style = {v: rng.choice(['break', 'plain', 'condbreak', 'ret']) for v in vals}
    probes = sorted(set(vals) | {max(-2**31, v - 1) for v in vals} | {min(2**31 - 1, v + 1) for v in vals} | {-2**31, 2**31 - 1, 0})
    if len(probes) > 60: probes = rng.sample(probes, 60)
    decl = '  static method sw_%s : void ($x : int) {\n    switch ($x) {\n' % k
    for i, v in enumerate(vals):
        st = style[v]
        b = 'say "c%d";' % i
        if st == 'break': b += ' break; '
        elif st == 'condbreak': b += ' if ($x & 1) { break; } say "n%d";' % i
        elif st == 'ret': b += ' if ($x & 2) { return; } say "r%d";' % i
        decl += '      case %d: { %s }\n' % (v, b)
    if dflt: decl += '      default: { say "d"; }\n'
    decl += '    }\n    say "after";\n  }'
    body, exp = '', []
    body = 'my $p = Mon->arr_int("%s"); for (my $i = 0; $i < @$p; $i++) { TB->sw_%s($p->[$i]); }' % (' '.join(map(str, probes)), k)
    for x in probes:
        if x in style:
            i = vals.index(x)
            exp.append('c%d' % i)
            if style[x] == 'condbreak' and not x & 1: exp.append('n%d' % i)
            if style[x] == 'ret':
                if x & 2: continue
                exp.append('r%d' % i)
        elif dflt: exp.append('d')
        exp.append('after')
    return Case('switch %d cases %s %s' % (ncase, order, k), body, exp, decls=decl)

def loop_case(rng, k):
    """nested counted loops with next/last at random levels; the expected trace is computed by running the same thing in Python"""
    depth = rng.randrange(1, 5)
    lim = [rng.randrange(1, 5) for _ in range(depth)]
    kind = [rng.choice(['for', 'while', 'foreach', 'until_last', 'wfor']) for _ in range(depth)]
    nx = [rng.choice([None, rng.randrange(0, 4)]) for _ in range(depth)]
    la = [rng.choice([None, None, rng.randrange(0, 5)]) for _ in range(depth)]
    wrap = [rng.choice(['', 'block', 'eval', 'if', 'switch']) for _ in range(depth)]
    out = []
    class Nx(Exception): pass
    class La(Exception): pass
    def run(d, path):
        if d == depth: out.append('-'.join(map(str, path))); return
        i = -1
        while True:
            i += 1
            if i >= lim[d]: break
            try:
                if nx[d] == i: raise Nx()
                if la[d] == i: raise La()
                run(d + 1, path + [i])
                out.append('e%d:%d' % (d, i))
            except Nx: pass
            except La: break
        out.append('x%d' % d)
    run(0, [])
    def gen(d):
        ind = '  ' * (d + 2)
        if d == depth:
            return ind + 'say ' + (' . "-" . '.join('$i%d' % j for j in range(depth)) if depth > 1 else '"" . $i0') + ';\n'
        v, L = '$i%d' % d, lim[d]
        inner = ''
        w = wrap[d]
        pre, post = {'': ('', ''), 'block': ('{', '}'), 'eval': ('eval {', '};'), 'if': ('if (%s >= 0) {' % v, '}'), 'switch': ('if (1) {', '}')}[w]
        if nx[d] is not None: inner += ind + '  %s if (%s == %d) { next; } %s\n' % (pre, v, nx[d], post)
        if la[d] is not None: inner += ind + '  %s if (%s == %d) { last; } %s\n' % (pre, v, la[d], post)
        inner += gen(d + 1) + ind + '  say "e%d:" . %s;\n' % (d, v)
        if kind[d] == 'for': s = ind + 'for (my %s = 0; %s < %d; %s++) {\n%s%s}\n' % (v, v, L, v, inner, ind)
        elif kind[d] == 'while': s = ind + 'my %s = -1;\n%swhile (++%s < %d) {\n%s%s}\n' % (v, ind, v, L, inner, ind)
        elif kind[d] == 'foreach': s = ind + 'for my %s (@{[%s]}) {\n%s%s}\n' % (v, ', '.join(map(str, range(L))), inner, ind)
        elif kind[d] == 'until_last': s = ind + 'my %s = -1;\n%swhile (1) {\n%s  %s++; if (%s >= %d) { last; }\n%s%s}\n' % (v, ind, ind, v, v, L, inner, ind)
        else: s = ind + 'my %s = 0;\n%sfor (; %s < %d; %s++) {\n%s%s}\n' % (v, ind, v, L, v, inner, ind)
        return s + ind + 'say "x%d";\n' % d
    src = gen(0).replace('@{[', '@[').replace(']}) {', ']) {')
    return Case('loops %s d%d lim%s next%s last%s wrap%s' % (k, depth, lim, nx, la, wrap), '{\n%s}' % src.replace('\nmy', '\n  my'), out)

COND = [  # (decl, expression, truth)
    ('', '0', 0), ('', '1', 1), ('', '-1', 1), ('my $b = (byte)0;', '$b', 0), ('my $b = (byte)-128;', '$b', 1), ('my $s = (short)0;', '$s', 0), ('my $s = (short)256;', '$s', 1),
    ('', '0L', 0), ('', '4294967296L', 1), ('my $l = -9223372036854775808L;', '$l', 1), ('', '0.0', 0), ('', '0.0f', 0), ('my $z = -0.0;', '$z', 0), ('', '0.5', 1), ('', '1.0e-300', 1), ('', '1.0e-40f', 1),
    ('my $n = Fn->DOUBLE_MAX(); $n = $n * 10; $n = $n - $n;', '$n', 1), ('my $n = Fn->FLOAT_MAX(); $n = $n * 10f; $n = $n - $n;', '$n', 1),
    ('', '""', 1), ('', '"0"', 1), ('my $s = (string)undef;', '$s', 0), ('', 'undef', 0), ('my $o = (object)undef;', '$o', 0), ('my $o = (object)1;', '$o', 1), ('my $o = (object)0;', '$o', 1),
    ('my $a = new int[0];', '$a', 1), ('my $a = (int[])undef;', '$a', 0), ('', 'true', 1), ('', 'false', 0), ('my $t = Bool->FALSE;', '$t', 0), ('my $t = Bool->TRUE;', '$t', 1),
    ('my $t = !1;', '$t', 0), ('', 'new int[3]', 1), ('my $i = Int->new(0);', '$i', 1),
]

def cond_cases():
    out = []
    for i, (d, e, t) in enumerate(COND):
        b, exp = d, []
        b += ' if (%s) { say "T"; } else { say "F"; }' % e; exp.append('TF'[not t])
        b += ' unless (%s) { say "U"; } else { say "V"; }' % e; exp.append('VU'[not t])
        b += ' if (0) { say "no"; } elsif (%s) { say "T"; } else { say "F"; }' % e; exp.append('TF'[not t])
        b += ' if (!(%s)) { say "N"; } else { say "P"; }' % e; exp.append('PN'[not t])
        b += ' if (!!(%s)) { say "P"; } else { say "N"; }' % e; exp.append('PN'[not t])
        b += ' if ((%s) && 1) { say "T"; } else { say "F"; }' % e; exp.append('TF'[not t])
        b += ' if ((%s) || 0) { say "T"; } else { say "F"; }' % e; exp.append('TF'[not t])
        b += ' if (1 && (%s)) { say "T"; } else { say "F"; }' % e; exp.append('TF'[not t])
        b += ' if (0 || (%s)) { say "T"; } else { say "F"; }' % e; exp.append('TF'[not t])
        b += ' my $c = 0; while (%s) { say "W"; last; }' % e
        if t: exp.append('W')
        b += ' for (my $k = 0; %s; $k++) { say "R$k"; if ($k == 2) { last; } }' % e
        if t: exp += ['R0', 'R1', 'R2']
        out.append(Case('condition %s %s' % (d, e), '{ %s }' % b, exp))
    return out

def eval_order(rng, k):
    """effects of operand evaluation: left to right, each once, short-circuit"""
    n = [0]
    exp = []
    def e(d):
        n[0] += 1
        me = n[0]
        x = rng.random()
        if d == 0 or x < 0.25:
            v = rng.choice([0, 0, 1, 2, 7])
            return 'TB->ev_%s(%d, %d)' % (k, me, v), lambda: (exp.append('e%d' % me), v)[1]
        if x < 0.45:
            a, b = e(d - 1), e(d - 1)
            op = rng.choice(['+', '-', '*', '==', '<', '^', '|'])
            def f():
                p, q = a[1](), b[1]()
                r = {'+': p + q, '-': p - q, '*': p * q, '==': int(p == q), '<': int(p < q), '^': p ^ q, '|': p | q}[op]
                return (r + 2**31) % 2**32 - 2**31
            return '(%s %s %s)' % (a[0], op, b[0]), f
        if x < 0.6:
            a, b = e(d - 1), e(d - 1)
            return '(%s && %s)' % (a[0], b[0]), lambda: a[1]() and b[1]()
        if x < 0.75:
            a, b = e(d - 1), e(d - 1)
            return '(%s || %s)' % (a[0], b[0]), lambda: a[1]() or b[1]()
        if x < 0.82:
            a = e(d - 1)
            return '(!%s)' % a[0], lambda: int(not a[1]())
        if x < 0.9:
            a, b, c = e(d - 1), e(d - 1), e(d - 1)
            return 'TB->e3_%s(%s, %s, %s)' % (k, a[0], b[0], c[0]), lambda: (lambda p, q, r: (exp.append('m'), (p + 2 * q + 3 * r + 2**31) % 2**32 - 2**31)[1])(a[1](), b[1](), c[1]())
        a, b = e(d - 1), e(d - 1)
        def f():
            p, q = a[1](), b[1]()
            return q
        return '[%s, %s]->[1]' % (a[0], b[0]) if False else 'TB->e2_%s([%s, %s])' % (k, a[0], b[0]), f
    body = ''
    for i in range(3):
        s, f = e(4)
        body += 'say "=" . %s;\n' % s
        exp.append('=%d' % f())
        s, f = e(3)
        body += 'if (%s) { say "yes"; } else { say "no"; }\n' % s
        exp.append('yes' if f() else 'no')
    decl = ('  static method ev_%s : int ($i : int, $v : int) { say "e$i"; return $v; }\n'
            '  static method e3_%s : int ($a : int, $b : int, $c : int) { say "m"; return $a + 2 * $b + 3 * $c; }\n'
            '  static method e2_%s : int ($a : int[]) { return $a->[1]; }') % (k, k, k)
    return Case('evaluation order %s' % k, body, exp, decls=decl)

def effects(rng, k):
    """assignments through effectful index expressions, compound assignment evaluates its left side once"""
    body = 'my $a = [10, 20, 30, 40]; my $i = 0;\n'
    a, i, exp = [10, 20, 30, 40], 0, []
    for _ in range(6):
        op = rng.choice(['+', '-', '*', '^'])
        v = rng.randrange(1, 9)
        w = rng.choice(['post', 'pre', 'call'])
        if w == 'post': ix = '$i++'; j = i; i += 1
        elif w == 'pre': ix = '++$i'; i += 1; j = i
        else:
            ix = 'TB->ix_%s($i)' % k; exp.append('ix'); j = i
        j2 = j & 3
        body += '$a->[(%s) & 3] %s= %d;\n' % (ix, op, v)
        a[j2] = {'+': a[j2] + v, '-': a[j2] - v, '*': a[j2] * v, '^': a[j2] ^ v}[op]
        a[j2] = (a[j2] + 2**31) % 2**32 - 2**31
        if rng.random() < 0.5:
            body += 'my $r%d = ($a->[(%s) & 3] = %d);\nsay "r" . $r%d;\n' % (_, '$i++', v, _)
            a[i & 3] = v; i += 1
            exp.append('r%d' % v)
    body += 'say "" . $a->[0] . "," . $a->[1] . "," . $a->[2] . "," . $a->[3] . "," . $i;'
    exp.append(','.join(map(str, a + [i])))
    return Case('effects %s' % k, body, exp, decls='  static method ix_%s : int ($i : int) { say "ix"; return $i; }' % k)

def big_cases(rng, ck):
    out = []
    # a long method: jumps over many operations
    n = ck.n(6000, 30000)
    body = 'my $x = 0; for (my $i = 0; $i < 3; $i++) { if ($i == 1) { next; }\n' + '\n'.join('$x += %d;' % (j % 7) for j in range(n)) + '\nif ($i > 5) { last; } }\nsay "" . $x;'
    out.append(Case('long method', body, [str(2 * sum(j % 7 for j in range(n)))]))
    # many variables
    m = ck.n(600, 3000)
    body = ''.join('my $v%d = %d; ' % (j, j * 3) for j in range(m)) + ''.join('my $s%d = "s%d"; ' % (j, j) for j in range(m // 2)) + 'my $t = 0; ' + ''.join('$t += $v%d; ' % j for j in range(m)) + 'say "" . $t; say $s0 . $s%d;' % (m // 2 - 1)
    out.append(Case('many variables', body, [str(sum(j * 3 for j in range(m))), 's0s%d' % (m // 2 - 1)]))
    # deep nesting
    for w, o, c in (('if', 'if (1) {', '}'), ('eval', 'eval {', '};'), ('block', '{', '}'), ('loop', 'while (1) {', 'last; }'), ('switch', 'switch (1) { case 1: {', '} }')):
        d = 60
        out.append(Case('deep %s' % w, ' '.join([o] * d) + ' say "deep"; ' + ' '.join([c] * d) + ' say "out";', ['deep', 'out']))
    d = ck.n(300, 900)
    out.append(Case('deep parentheses', 'say "" . ' + '(' * d + '1' + ')' * d + ';', ['1']))
    out.append(Case('long sum', 'say "" . (' + ' + '.join(['1'] * 2000) + ');', ['2000']))
    out.append(Case('long elsif', 'my $x = 77; if ($x == -1) { say "a"; } ' + ' '.join('elsif ($x == %d) { say "b%d"; }' % (j, j) for j in range(100)) + ' else { say "c"; }', ['b77']))
    return out

def check(ck):
    ck.rule = ('one evaluation = one generated program (random nesting of every statement kind, judged line by line by the lock-step model) or one directed method '
               '(switch tables, loop nests, conditions of each type, evaluation order, sizes), each run by the interpreter and the precompiler; distinct = program/method x engine')
    drv = vp.build_driver('asan')
    rng = ck.rng
    cases = []
    for i in range(ck.n(40, 200)): cases.append(switch_case(rng, 'k%d' % i, rng.choice([1, 2, 3, 5, 8, 13, 40])))
    for i in range(ck.n(80, 500)): cases.append(loop_case(rng, 'k%d' % i))
    for i in range(ck.n(60, 400)): cases.append(eval_order(rng, 'k%d' % i))
    for i in range(ck.n(30, 150)): cases.append(effects(rng, 'k%d' % i))
    cases += cond_cases()
    rng.shuffle(cases)
    for c in cases[:4]: ck.sample('%s: %d expected lines' % (c.key, len(c.expect)))
    run_and_judge(ck, drv, cases, per=24, modes=('vm', 'pre'), uses='use Fn; use Int; use Bool;', pre_every=ck.n(2, 1), pre_opt=ck.n('-O0', '-O2'))
    run_and_judge(ck, drv, big_cases(rng, ck), per=1, modes=('vm', 'pre'), pre_opt='-O0', uses='use Fn;')
    kinds = None
    progcheck.run_programs(ck, drv, ck.n(500, 8000), {'ctrl': 2.2, 'exc': 1.0, 'weak': 0.3, 'obj': 0.6, 'size': 26, 'depth': 5}, modes=('vm',), kinds=kinds, prefix='ctl')
    progcheck.run_programs(ck, drv, ck.n(24, 400), {'ctrl': 2.2, 'exc': 0.7, 'weak': 0.2, 'obj': 0.4, 'size': 22, 'depth': 5}, modes=('pre',), kinds=kinds, prefix='ctlpre', per=3, opt=ck.n('-O0', '-O2'))
    ck.assumptions = ['expected traces come from a reference interpreter of the documented semantics in /verif/lib/progen.py', 'built with -fwrapv, as Perl builds the runtime']

vp.main('C03', check)

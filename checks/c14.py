import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import random, struct
import vp
from spvmrun import Case, run_and_judge

T = ['byte', 'short', 'int', 'long', 'float', 'double']; BITS = {'byte': 8, 'short': 16, 'int': 32, 'long': 64}
L = {'byte': 'b', 'short': 's', 'int': 'i', 'long': 'l', 'float': 'f', 'double': 'd'}
F = {1: ['a'], 2: ['re', 'im'], 3: ['x', 'y', 'z'], 5: ['p', 'q', 'r', 's', 't'], 8: ['f%d' % i for i in range(8)], 4: ['e', 'f', 'g', 'h']}
MT = {'G%d_%d%s' % (n, n, L[t]): (t, F[n]) for n in (1, 2, 3, 4, 5, 8) for t in T}
FILES = {k + '.spvm': 'class %s : mulnum_t { %s }\n' % (k, ' '.join('%s : %s;' % (f, t) for f in fs) if 0 else ' '.join('has %s : %s;' % (f, t) for f in fs)) for k, (t, fs) in MT.items()}
FILES['Ob14.spvm'] = 'class Ob14 : public { %s has str : public string; has ob : public Ob14; has arr : public object; static method new : Ob14 () { return new Ob14; } }\n' % ' '.join('has v%s : public %s; has w%s : public %s;' % (L[t], t, L[t], t) for t in ['byte', 'double', 'short', 'long', 'int', 'float'])

def val(rng, t):
    if t in BITS:
        b = BITS[t]; x = rng.random()
        return rng.choice([0, 1, -1, (1 << b - 1) - 1, -(1 << b - 1)]) if x < .3 else rng.randrange(-(1 << b - 1), 1 << b - 1)
    while True:
        if t == 'float': bts = rng.getrandbits(32); ex = bts >> 23 & 255; 
        else: bts = rng.getrandbits(64); ex = bts >> 52 & 2047
        if ex not in (255, 2047): return bts
def sgn(v, b): return v - (1 << b) if v >> (b - 1) else v
def lit(t, v):
    if t == 'int': return '%d' % v
    if t == 'long': return '%dL' % v
    if t in BITS: return '(%s)%d' % (t, v)
    return 'Mon->bits_float(%d)' % sgn(v, 32) if t == 'float' else 'Mon->bits_double(%dL)' % sgn(v, 64)
def show(t, e): return 'Mon->float_bits(%s)' % e if t == 'float' else 'Mon->double_bits(%s)' % e if t == 'double' else '%s' % e
def pv(t, v): return str(v) if t in BITS else str(sgn(v, 32 if t == 'float' else 64))
def wrap(t, v): b = BITS[t]; return sgn(v & ((1 << b) - 1), b)

class Arr:
    def __init__(s, kind, elems): s.kind, s.e = kind, elems     # kind: a type, a multi-numeric type, or ('[]', kind)

class W:
    def __init__(s, rng, k):
        s.rng, s.k, s.out, s.exp, s.decls, s.tmp = rng, k, [], [], [], 0
        s.tys = rng.sample(T, rng.randrange(2, 5)); s.mts = rng.sample(sorted(MT), rng.randrange(1, 4))
        s.sc = {}; s.refs = {}; s.mul = {}; s.mrefs = {}; s.arr = {}; s.obs = []; s.cv = {}
        w = s.out.append
        order = ['sc', 'mul', 'arr', 'ob']; rng.shuffle(order); order += ['mul', 'sc']
        for o in order:
            if o == 'sc':
                for t in s.tys:
                    n = '$%s%d' % (L[t], len(s.sc)); s.sc[n] = [t, 0]
                    if rng.random() < .5: v = val(rng, t); w('my %s : %s = %s;' % (n, t, lit(t, v))); s.sc[n][1] = v
                    else: w('my %s : %s;' % (n, t))
            elif o == 'mul':
                for m in s.mts: n = '$m%d' % len(s.mul); w('my %s : %s;' % (n, m)); s.mul[n] = [m, [0] * len(MT[m][1])]
            elif o == 'arr':
                for m in s.mts + s.tys:
                    n = '$a%d' % len(s.arr); ln = rng.choice([1, 2, 3, 5, 9]); w('my %s = new %s[%d];' % (n, m, ln)); s.arr[n] = Arr(m, [s.zero(m) for _ in range(ln)])
                t = rng.choice(s.tys); n = '$aa'; ln = rng.randrange(1, 4); w('my $aa = new %s[][%d];' % (t, ln)); s.arr[n] = Arr(('[]', t), [None] * ln)
                for i in range(ln): l2 = rng.randrange(1, 4); w('$aa->[%d] = new %s[%d];' % (i, t, l2)); s.arr[n].e[i] = Arr(t, [0] * l2)
                t = rng.choice(s.tys); w('my $aaa = new %s[][][2];' % t); s.arr['$aaa'] = Arr(('[]', ('[]', t)), [None] * 2)
                for i in range(2):
                    w('$aaa->[%d] = new %s[][2];' % (i, t)); s.arr['$aaa'].e[i] = Arr(('[]', t), [None] * 2)
                    for j in range(2): l2 = rng.randrange(1, 4); w('$aaa->[%d][%d] = new %s[%d];' % (i, j, t, l2)); s.arr['$aaa'].e[i].e[j] = Arr(t, [0] * l2)
            else:
                for i in range(2): w('my $o%d = Ob14->new;' % i); s.obs.append({p + L[t]: (t, 0) for t in T for p in 'vw'})
        for t in T:
            if rng.random() < .5: n = '$CV%d_%s' % (k, t); s.decls.append('  our %s : %s;' % (n, t)); s.cv[n] = [t, 0]
        for n, (t, _) in list(s.sc.items()):
            if rng.random() < .7: r = '$r%d' % len(s.refs); w('my %s = \\%s;' % (r, n)); s.refs[r] = n
        for n in list(s.mul):
            if rng.random() < .7: r = '$q%d' % len(s.mrefs); w('my %s = \\%s;' % (r, n)); s.mrefs[r] = n
        if rng.random() < .8: s.helpers()
        s.hm = {}
    def zero(s, kind): return [0] * len(MT[kind][1]) if kind in MT else 0
    def helpers(s): pass
    # ---- places of numeric values: (type, expression, get, set)
    def places(s):
        p = []
        for n, c in s.sc.items(): p.append((c[0], n, lambda c=c: c[1], lambda v, c=c: c.__setitem__(1, v)))
        for n, c in s.cv.items(): p.append((c[0], n, lambda c=c: c[1], lambda v, c=c: c.__setitem__(1, v)))
        for r, n in s.refs.items(): c = s.sc[n]; p.append((c[0], '$' + r, lambda c=c: c[1], lambda v, c=c: c.__setitem__(1, v)))
        for n, c in list(s.mul.items()) + [(r, s.mul[n]) for r, n in s.mrefs.items()]:
            t, fs = MT[c[0]]
            for i, f in enumerate(fs): p.append((t, '%s->{%s}' % (n, f), lambda c=c, i=i: c[1][i], lambda v, c=c, i=i: c[1].__setitem__(i, v)))
        def arr(n, a):
            if isinstance(a.kind, tuple):
                for i, x in enumerate(a.e):
                    if x is not None: arr('%s->[%s]' % (n, s.ix(i)) if not n.endswith(']') else '%s[%s]' % (n, s.ix(i)), x)
            elif a.kind in MT:
                t, fs = MT[a.kind]
                for i, x in enumerate(a.e):
                    for j, f in enumerate(fs): p.append((t, '%s->[%s]%s{%s}' % (n, s.ix(i), s.rng.choice(['', '->']), f), lambda a=a, i=i, j=j: a.e[i][j], lambda v, a=a, i=i, j=j: a.e[i].__setitem__(j, v)))
            else:
                for i in range(len(a.e)): p.append((a.kind, ('%s->[%s]' if not n.endswith(']') else '%s[%s]') % (n, s.ix(i)), lambda a=a, i=i: a.e[i], lambda v, a=a, i=i: a.e.__setitem__(i, v)))
        for n, a in s.arr.items(): arr(n, a)
        for i, o in enumerate(s.obs):
            for f, (t, _) in o.items(): p.append((t, '$o%d->{%s}' % (i, f), lambda o=o, f=f: o[f][1], lambda v, o=o, f=f, t=t: o.__setitem__(f, (t, v))))
        return p
    def ix(s, i): return str(i) if s.rng.random() < .7 else '(byte)%d' % i if s.rng.random() < .3 else '%d + %d' % (i - 1, 1)
    def mplaces(s):
        p = []
        for n, c in s.mul.items(): p.append((c[0], n, c, 1))
        for r, n in s.mrefs.items(): c = s.mul[n]; p.append((c[0], '$' + r, c, 1))
        for n, a in s.arr.items():
            if a.kind in MT: p += [(a.kind, '%s->[%s]' % (n, s.ix(i)), a.e, i) for i in range(len(a.e))]
        return p
    def dump(s):
        for n, c in list(s.sc.items()) + list(s.cv.items()): s.say(n, c[0], n, c[1])
        for n, c in s.mul.items(): s.saym(n, c[0], c[1])
        for r, n in s.refs.items(): s.say(r, s.sc[n][0], '$' + r, s.sc[n][1])
        for r, n in s.mrefs.items(): s.saym(r, s.mul[n][0], s.mul[n][1])
        def arr(n, a):
            j = '->' if not n.endswith(']') else ''
            s.out.append('say "len " . @{%s};' % n if j else 'say "len " . @{%s};' % n); s.exp.append('len %d' % len(a.e))
            for i, x in enumerate(a.e):
                e = '%s%s[%d]' % (n, j, i)
                if isinstance(a.kind, tuple):
                    if x is not None: arr(e, x)
                elif a.kind in MT: s.saym(e, a.kind, x)
                else: s.say(e, a.kind, e, x)
        for n, a in s.arr.items(): arr(n, a)
        for i, o in enumerate(s.obs):
            for f, (t, v) in o.items(): s.say('o%d.%s' % (i, f), t, '$o%d->{%s}' % (i, f), v)
    def say(s, tag, t, e, v): tag = tag.replace('$', ''); s.out.append('say "%s " . %s;' % (tag, show(t, e))); s.exp.append('%s %s' % (tag, pv(t, v)))
    def saym(s, n, m, vs):
        t, fs = MT[m]; tag = n.replace('$', '')
        s.out.append('say "%s " . %s;' % (tag, ' . " " . '.join(show(t, '%s->{%s}' % (n, f)) for f in fs))); s.exp.append(tag + ' ' + ' '.join(pv(t, v) for v in vs))
    def method(s, sig, body):
        n = 'h%d_%d' % (s.k, s.tmp); s.tmp += 1; s.decls.append('  static method %s : %s { %s }' % (n, sig, body)); return 'TB->' + n
    # ---- operations
    def step(s):
        rng, w = s.rng, s.out.append; x = rng.random(); P = s.places(); M = s.mplaces()
        def same(t, w_=0): return [q for q in P if q[0] == t]
        a = rng.choice(P)
        if x < .14: v = val(rng, a[0]); w('%s = %s;' % (a[1], lit(a[0], v))); a[3](v)
        elif x < .30: b = rng.choice(same(a[0])); w('%s = %s;' % (a[1], b[1])); a[3](b[2]())
        elif x < .36:
            c = [q for q in P if q[0] in ('int', 'long')]
            if c:
                a = rng.choice(c); b = rng.choice([q for q in c if q[0] == a[0]]); k = rng.randrange(1, 100); o = rng.choice(['+=', '-=', '^=', 'post', 'pre', '*='])
                if o in ('post', 'pre'): 
                    old = a[2](); new = wrap(a[0], old + 1); n = '$x%d' % s.tmp; s.tmp += 1; w('my %s = %s; %s = %s;' % (n, '%s++' % a[1] if o == 'post' else '++%s' % a[1], b[1], n)); a[3](new); b[3](old if o == 'post' else new)
                else: v = b[2](); u = a[2](); w('%s %s %s;' % (a[1], o, b[1])); a[3](wrap(a[0], {'+=': u + v, '-=': u - v, '^=': u ^ v, '*=': u * v}[o]))
        elif x < .48 and M:
            a = rng.choice(M); b = rng.choice([q for q in M if q[0] == a[0]]); w('%s = %s;' % (a[1], b[1])); v = list(b[2][b[3]]); a[2][a[3]] = v
        elif x < .58 and M:     # by value: the argument keeps its value, the changed copy comes back
            a = rng.choice(M); b = rng.choice([q for q in M if q[0] == a[0]]); t, fs = MT[a[0]]; i = rng.randrange(len(fs)); v = val(rng, t)
            t2 = rng.choice(T); v2 = val(rng, t2); c = rng.choice(P); m2 = rng.choice(M); t3, f3 = MT[m2[0]]; j = rng.randrange(len(f3)); order = rng.randrange(3); same2 = [q for q in P if q[0] == t3]
            args = [('$m : %s' % a[0], b[1]), ('$u : %s' % m2[0], m2[1]), ('$n : %s' % t, lit(t, v)), ('$z : %s' % t2, lit(t2, v2)), ('$s : string', '"str"'), ('$c : %s' % c[0], c[1])]; rng.shuffle(args)
            ret = rng.choice(['m', 'u']); body = '$m->{%s} = $n; my $k = $u->{%s}; $u->{%s} = (%s)0; say "in " . %s . " " . %s . " " . %s . " $s"; ' % (fs[i], f3[j], f3[j], t3, show(t3, '$k'), show(t2, '$z'), show(c[0], '$c'))
            if rng.random() < .4: body = 'my $w : %s; my $i0 = 1; ' % m2[0] + body + '$w = $u; $u = $w; '
            f = s.method('%s (%s)' % (a[0], ', '.join(q[0] for q in args)), body + 'return $m;')
            w('%s = %s(%s);' % (a[1], f, ', '.join(q[1] for q in args))); s.exp.append('in %s %s %s str' % (pv(t3, m2[2][m2[3]][j]), pv(t2, v2), pv(c[0], c[2]())))
            r = list(b[2][b[3]]); r[i] = v; a[2][a[3]] = r
        elif x < .66 and s.sc:  # by reference
            n = rng.choice(sorted(s.sc)); t = s.sc[n][0]; n2 = rng.choice([q for q in sorted(s.sc) if s.sc[q][0] == t]); v = val(rng, t); form = rng.randrange(3)
            def rf(n): rs = [r for r in s.refs if s.refs[r] == n]; return rng.choice(rs + ['\\' + n])
            if form == 0: f = s.method('void ($a : %s*, $v : %s)' % (t, t), '$$a = $v;'); w('%s(%s, %s);' % (f, rf(n), lit(t, v))); s.sc[n][1] = v
            elif form == 1: f = s.method('void ($a : %s*, $b : %s*)' % (t, t), 'my $t = $$a; $$a = $$b; $$b = $t;'); w('%s(%s, %s);' % (f, rf(n), rf(n2))); a_, b_ = s.sc[n], s.sc[n2]; a_[1], b_[1] = b_[1], a_[1]
            else: f = s.method('%s ($p : int, $a : %s*, $d : int)' % (t, t), 'if ($d > 0) { my $l = %s; my $r = \\$l; my $z = %s($p, $r, $d - 1); unless (%s == %s) { say "moved"; } return $$a; } $$a = %s; return $$a;' % (lit(t, v), 'TB->h%d_%d' % (s.k, s.tmp), show(t, '$l'), show(t, '$z'), lit(t, val(rng, t)))); w('%s(1, %s, 3);' % (f, rf(n)))
        elif x < .74 and s.mul: # multi-numeric reference
            n = rng.choice(sorted(s.mul)); m = s.mul[n][0]; t, fs = MT[m]; i = rng.randrange(len(fs)); v = val(rng, t); n2 = rng.choice([q for q in sorted(s.mul) if s.mul[q][0] == m])
            def rf(n): rs = [r for r in s.mrefs if s.mrefs[r] == n]; return rng.choice(rs + ['\\' + n])
            form = rng.randrange(3)
            if form == 0: f = s.method('void ($k : long, $a : %s*, $v : %s)' % (m, t), '$a->{%s} = $v;' % fs[i]); w('%s(7L, %s, %s);' % (f, rf(n), lit(t, v))); s.mul[n][1][i] = v
            elif form == 1: f = s.method('void ($a : %s*, $b : %s*)' % (m, m), 'my $t = $$a; $$a = $$b; $$b = $t;'); w('%s(%s, %s);' % (f, rf(n), rf(n2))); p, q = s.mul[n], s.mul[n2]; p[1], q[1] = q[1], p[1]
            else: f = s.method('%s ($a : %s*, $v : %s)' % (m, m, t), 'my $t = $$a; my $o = $$a; $t->{%s} = $v; $$a = $t; return $o;' % fs[i]); old = list(s.mul[n][1]); new = list(old); new[i] = v; w('%s = %s(%s, %s);' % (n2, f, rf(n), lit(t, v))); s.mul[n][1] = new; s.mul[n2][1] = old
        elif x < .78 and (s.refs or s.mrefs):   # another target
            if s.refs and rng.random() < .5: r = rng.choice(sorted(s.refs)); t = s.sc[s.refs[r]][0]; n = rng.choice([q for q in sorted(s.sc) if s.sc[q][0] == t]); w('%s = \\%s;' % (r, n)); s.refs[r] = n
            elif s.mrefs: r = rng.choice(sorted(s.mrefs)); m = s.mul[s.mrefs[r]][0]; rs = [q for q in sorted(s.mrefs) if s.mul[s.mrefs[q]][0] == m]; q = rng.choice(rs); w('%s = %s;' % (r, q)); s.mrefs[r] = s.mrefs[q]
        elif x < .88:   # whole arrays
            n = rng.choice(sorted(s.arr)); a = s.arr[n]; form = rng.randrange(4)
            if isinstance(a.kind, tuple):
                i, j = rng.randrange(len(a.e)), rng.randrange(len(a.e)); 
                if form < 2: w('%s->[%d] = %s->[%d];' % (n, i, n, j)); a.e[i] = a.e[j]
                elif not isinstance(a.kind[1], tuple): t = a.kind[1]; vs = [val(rng, t) for _ in range(rng.randrange(1, 5))]; w('%s->[%d] = [%s];' % (n, i, ', '.join(lit(t, v) for v in vs))); a.e[i] = Arr(t, vs)
            elif form == 0: w('%s = copy %s;' % (n, n)); s.arr[n] = Arr(a.kind, [list(v) if isinstance(v, list) else v for v in a.e])
            elif form == 1:
                c = [q for q in sorted(s.arr) if s.arr[q].kind == a.kind]; q = rng.choice(c); w('%s = %s;' % (n, q)); s.arr[n] = s.arr[q]
            elif a.kind in MT:
                c = [q for q in s.mplaces() if q[0] == a.kind]; qs = [rng.choice(c) for _ in range(rng.randrange(1, 5))]; vs = [list(q[2][q[3]]) for q in qs]; w('%s = [%s];' % (n, ', '.join(q[1] for q in qs))); s.arr[n] = Arr(a.kind, vs)
            else:
                c = same(a.kind); qs = [rng.choice(c) for _ in range(rng.randrange(1, 7))]; vs = [q[2]() for q in qs]; w('%s = [%s];' % (n, ', '.join(q[1] for q in qs))); s.arr[n] = Arr(a.kind, vs)
        elif x < .93 and M:     # a variable of a block is zero each time, and is a copy
            b = rng.choice(M); a = rng.choice([q for q in M if q[0] == b[0]]); t, fs = MT[b[0]]; i = rng.randrange(len(fs)); v = val(rng, t); n = '$t%d' % s.tmp; s.tmp += 1; c = rng.randrange(1, 4)
            w('for (my $i = 0; $i < %d; $i++) { my $pad : %s; my %s : %s; say "zero " . %s; %s = %s; %s->{%s} = %s; %s = %s; }' % (c, rng.choice(T), n, b[0], ' . " " . '.join(show(t, '%s->{%s}' % (n, f)) for f in fs), n, b[1], n, fs[i], lit(t, v), a[1], n))
            for _ in range(c): s.exp.append('zero ' + ' '.join(pv(t, 0) for f in fs)); r = list(b[2][b[3]]); r[i] = v; a[2][a[3]] = r
        elif x < .97:   # out of range: an exception, nothing changes
            n = rng.choice(sorted(s.arr)); a = s.arr[n]; i = rng.choice([-1, len(a.e), len(a.e) + 1, 2147483647, -2147483648])
            if isinstance(a.kind, tuple): e = 'my $z = %s->[%d];' % (n, i)
            elif a.kind in MT: q = rng.choice([q for q in M if q[0] == a.kind]); t, fs = MT[a.kind]; e = rng.choice(['%s->[%d] = %s;' % (n, i, q[1]), 'my $z = %s->[%d];' % (n, i), '%s->[%d]{%s} = %s;' % (n, i, fs[0], lit(t, val(rng, t))), 'my $z = %s->[%d]{%s};' % (n, i, fs[-1])])
            else: e = rng.choice(['%s->[%d] = %s;' % (n, i, lit(a.kind, val(rng, a.kind))), 'my $z = %s->[%d];' % (n, i)])
            w('eval { %s say "no exception"; }; unless ($@) { say "none"; } say "range"; $@ = undef;' % e); s.exp.append('range')
        elif M:     # recursion with a multi-numeric value per level
            b = rng.choice(M); a = rng.choice([q for q in M if q[0] == b[0]]); t, fs = MT[b[0]]; i = rng.randrange(len(fs)); v = val(rng, t); d = rng.randrange(1, 6)
            f = s.method('%s ($m : %s, $d : int)' % (b[0], b[0]), 'if ($d == 0) { $m->{%s} = %s; return $m; } my $k = $m; my $r = TB->h%d_%d($m, $d - 1); unless (%s) { say "changed"; } return $r;' % (fs[i], lit(t, v), s.k, s.tmp, ' && '.join('%s == %s' % (show(t, '$k->{%s}' % q), show(t, '$m->{%s}' % q)) for q in fs)))
            w('%s = %s(%s, %d);' % (a[1], f, b[1], d)); r = list(b[2][b[3]]); r[i] = v; a[2][a[3]] = r

def case(seed, k, n):
    rng = random.Random(seed); s = W(rng, k)
    for i in range(n):
        # the recursion with references has a value only the program knows: not generated in `step` form 2 with a literal result
        s.step()
        if i % 6 == 5: s.out.append('say "-- %d";' % i); s.exp.append('-- %d' % i); s.dump()
    s.dump()
    return Case('world %d' % seed, '    ' + '\n    '.join(s.out), s.exp, decls='\n'.join(s.decls))

def main(ck):
    drv = vp.build_driver('asan'); n = ck.n(240, 2400); cases = [case(ck.seed * 1000003 + i, i, ck.n(30, 40)) for i in range(n)]
    uses = 'use Ob14; %s' % ' '.join('use %s;' % m for m in sorted(MT)); q = ck.tier == 'quick'
    run_and_judge(ck, drv, cases, per=8, modes=('vm',), uses=uses, files=FILES)
    run_and_judge(ck, drv, cases[:len(cases) // 5], per=3, modes=('pre',), uses=uses, files=FILES, pre_opt='-O0')
    if not q: run_and_judge(ck, drv, cases[:len(cases) // 12], per=3, modes=('pre',), uses=uses, files=FILES, pre_opt='-O2')
    ck.count('events', sum(len(c.expect) for c in cases))
vp.main('C14', main)

import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import struct, re, math
import vp
from spvmrun import Case, run_and_judge

FILES = {
 'DN.spvm': '''class DN : public {
  has b : public byte; has s : public short; has i : public int; has l : public long; has f : public float; has d : public double; has st : public string;
  has o : public object; has nx : public DN; has oa : public object[]; has ia : public int[]; has da : public double[]; has ma : public DP_3s[]; has md : public DP_2d[]; has sa : public string[]; has pt : public Point; has na : public DN[]; has ii : public int[][];
  use Point; use DP_3s; use DP_2d;
  static method new : DN () { return new DN; }
}
''',
 'DM.spvm': 'class DM extends DN : public { has extra : public long; has again : public object; static method new : DM () { return new DM; } }\n',
 'DE.spvm': 'class DE : public { static method new : DE () { return new DE; } }\n',
 'DP_3s.spvm': 'class DP_3s : mulnum_t public { has x : short; has y : short; has z : short; }\n',
 'DP_2d.spvm': 'class DP_2d : mulnum_t public { has re : double; has im : double; }\n',
 'DP_1b.spvm': 'class DP_1b : mulnum_t public { has a : byte; }\n',
 'DP_4i.spvm': 'class DP_4i : mulnum_t public { has a : int; has b : int; has c : int; has d : int; }\n',
 'DP_3l.spvm': 'class DP_3l : mulnum_t public { has a : long; has b : long; has c : long; }\n',
 'DP_5f.spvm': 'class DP_5f : mulnum_t public { has a : float; has b : float; has c : float; has d : float; has e : float; }\n',
 'DC.spvm': '''class DC : public { interface Comparable; interface EqualityCheckable; interface Cloneable; has k : public int; has tag : public object;
  static method new : DC ($k : int, $tag : object = undef) { my $self = new DC; $self->{k} = $k; $self->{tag} = $tag; return $self; }
  method cmp : int ($a : DC, $b : DC) { return $a->{k} <=> $b->{k}; }
  method eq : int ($a : DC, $b : DC) { return $a->{k} == $b->{k}; }
  method clone : DC () { return DC->new($self->{k}, $self->{tag}); }
}
''',
}
USES = 'use DN; use DM; use DE; use DC; use Point; use Point3D; use DP_3s; use DP_2d; use DP_1b; use DP_4i; use DP_3l; use DP_5f; use Fn; use Array; use Comparator; use EqualityChecker; use EqualityChecker::Address; use Cloner; use Hash; use StringBuffer; use Int; use Long; use Double; use Byte; use Short; use Float; use Bool; ' + ' '.join('use Immutable::%sList;' % t for t in ['Int', 'Byte', 'Short', 'Long', 'Float', 'Double', 'String'])

def f32(v): return struct.unpack('<f', struct.pack('<f', v))[0]
def g(v): return 'inf' if v == math.inf else '-inf' if v == -math.inf else '%g' % v
def lit(b):
    return '"' + ''.join('\\x%02x' % c for c in b) + '"'
def dlit(v): return repr(v) if 'e' in repr(v) or '.' in repr(v) else repr(v) + '.0'

def dstr(b):
    """text of a string in dump: printable ASCII and valid UTF-8 as they are, other bytes as \\x{HH}"""
    out, i = b'"', 0
    while i < len(b):
        for n in (1, 2, 3, 4):
            try: c = b[i:i + n].decode('utf8')
            except UnicodeDecodeError: continue
            if len(c) == 1: break
        else:
            out += b'\\x{%02X}' % b[i]; i += 1; continue
        if n == 1 and not 0x20 <= b[i] < 0x7f: out += b'\\x{%02X}' % b[i]
        else: out += b[i:i + n]
        i += n
    return (out + b'"').decode('latin1')

class G:
    """one object of the model heap"""
    def __init__(s, kind): s.kind, s.f = kind, {}
NUMF = ['b', 's', 'i', 'l', 'f', 'd']
DNF = ['b', 's', 'i', 'l', 'f', 'd', 'st', 'o', 'nx', 'oa', 'ia', 'da', 'ma', 'md', 'sa', 'pt', 'na', 'ii']

def rnum(rng, t):
    if t in 'fd':
        v = rng.choice([0.0, 1.0, -1.5, 0.1, 1e10, 123456.7, 1e-5, 1234567.0, rng.uniform(-1000, 1000)]); return f32(v) if t == 'f' else v
    n = {'b': 8, 's': 16, 'i': 32, 'l': 64}[t]
    return rng.choice([0, 1, -1, (1 << n - 1) - 1, -(1 << n - 1) + 1, rng.randrange(-(1 << n - 1) + 1, 1 << n - 1)])
def nlit(t, v):
    return {'b': '(byte)%d' % v, 's': '(short)%d' % v, 'i': '%d' % v, 'l': '%dL' % v, 'f': '(float)' + dlit(v), 'd': dlit(v)}[t].replace('(byte)-', '(byte)-').replace('(float)-', '(float)-')
def rbytes(rng):
    return b''.join(rng.choice([b'a', b'Z', b' ', b'"', b'\\', b'\x00', b'\n', b'\x7f', b'\xff', b'\xe3\x81\x82', b'\xe3\x81', b'\xe3', b'\xc3\xa9', b'\xf0\x9f\x98\x80', b'\xf0\x9f\x98', b'\xc0\x80', b'\xed\xa0\x80', b'{', b'%s']) for _ in range(rng.choice([0, 1, 2, 4, 9])))

def dump_case(rng, key):
    code, objs = [], []
    def var(o): return '$n%d' % objs.index(o) if o is not None else 'undef'
    def add(kind, expr, **f):
        o = G(kind); o.f.update(f); objs.append(o); code.append('my $n%d = %s;' % (len(objs) - 1, expr)); return o
    for _ in range(rng.choice([1, 2, 4, 8, 16])):
        k = rng.choice(['DN', 'DN', 'DN', 'DM', 'DM', 'DE', 'str', 'oa', 'oa', 'na', 'ia', 'da', 'ma', 'md', 'mo', 'mo', 'sa', 'pt', 'pt3', 'box', 'ba', 'sha', 'la', 'fa', 'ii'])
        n = rng.choice([0, 1, 2, 5])
        if k in ('DN', 'DM', 'DE'):
            o = add(k, k + '->new', **{})
            if k != 'DE':
                for x in NUMF:
                    v = rnum(rng, x) if rng.random() < .7 else 0
                    o.f[x] = v
                    if v != 0: code.append('%s->{%s} = %s;' % (var(o), x, nlit(x, v)))
                if k == 'DM': o.f['extra'] = rnum(rng, 'l'); code.append('%s->{extra} = %s;' % (var(o), nlit('l', o.f['extra'])))
        elif k == 'str': b = rbytes(rng); add('str', lit(b) if rng.random() < .5 else 'copy ' + lit(b), v=b)
        elif k == 'oa': add('oa', 'new object[%d]' % n, e=[None] * n, t='object[]')
        elif k == 'na': add('oa', 'new DN[%d]' % n, e=[None] * n, t='DN[]')
        elif k == 'sa': add('oa', 'new string[%d]' % n, e=[None] * n, t='string[]')
        elif k == 'ii': add('oa', 'new int[][%d]' % n, e=[None] * n, t='int[][]')
        elif k in ('ia', 'da', 'ba', 'sha', 'la', 'fa'):
            t = {'ia': 'i', 'da': 'd', 'ba': 'b', 'sha': 's', 'la': 'l', 'fa': 'f'}[k]; vs = [rnum(rng, t) for _ in range(n)]; tn = {'ia': 'int', 'da': 'double', 'ba': 'byte', 'sha': 'short', 'la': 'long', 'fa': 'float'}[k]
            o = add('num', 'new %s[%d]' % (tn, n), e=[g(v) if t in 'fd' else str(v) for v in vs], t=tn + '[]')
            for j, v in enumerate(vs): code.append('%s->[%d] = %s;' % (var(o), j, nlit(t, v)))
        elif k in ('ma', 'md', 'mo'):
            fs, t, tn = (['x', 'y', 'z'], 's', 'DP_3s') if k == 'ma' else (['re', 'im'], 'd', 'DP_2d') if k == 'md' else rng.choice([(['a'], 'b', 'DP_1b'), (list('abcd'), 'i', 'DP_4i'), (list('abc'), 'l', 'DP_3l'), (list('abcde'), 'f', 'DP_5f')])
            vs = [[rnum(rng, t) for _ in fs] for _ in range(n)]
            o = add('mul', 'new %s[%d]' % (tn, n), e=[[(f, g(v) if t in 'fd' else str(v)) for f, v in zip(fs, r)] for r in vs], t=tn + '[]')
            for j, r in enumerate(vs):
                for f, v in zip(fs, r): code.append('%s->[%d]{%s} = %s;' % (var(o), j, f, nlit(t, v)))
        elif k == 'pt': a, b = rnum(rng, 'i'), rnum(rng, 'i'); add('rec', 'Point->new(%d, %d)' % (a, b), t='Point', fs=[('x', str(a)), ('y', str(b))])
        elif k == 'pt3': a, b, c = (rnum(rng, 'i') for _ in '123'); add('rec', 'Point3D->new(%d, %d, %d)' % (a, b, c), t='Point3D', fs=[('x', str(a)), ('y', str(b)), ('z', str(c))])
        elif k == 'box':
            t = rng.choice('bsilfd'); v = rnum(rng, t); cn = {'b': 'Byte', 's': 'Short', 'i': 'Int', 'l': 'Long', 'f': 'Float', 'd': 'Double'}[t]
            add('rec', '%s->new(%s)' % (cn, nlit(t, v)), t=cn, fs=[('value', g(v) if t in 'fd' else str(v))])
    def of(*kinds, t=None): return [o for o in objs if o.kind in kinds and (t is None or o.f.get('t') in t)]
    weaks = []
    for o in objs:
        if o.kind in ('DN', 'DM'):
            fields = {'o': objs, 'nx': of('DN', 'DM'), 'oa': of('oa', t=['object[]', 'DN[]', 'string[]', 'int[][]']), 'ia': of('num', t=['int[]']), 'da': of('num', t=['double[]']), 'ma': of('mul', t=['DP_3s[]']), 'md': of('mul', t=['DP_2d[]']),
                      'sa': of('oa', t=['string[]']), 'pt': of('rec', t=['Point', 'Point3D']), 'na': of('oa', t=['DN[]']), 'st': of('str'), 'ii': of('oa', t=['int[][]'])}
            if o.kind == 'DM': fields['again'] = objs
            for f, pool in fields.items():
                if pool and rng.random() < .35:
                    v = rng.choice(pool); o.f[f] = v
                    code.append('%s->{%s} = %s;' % (var(o), f, var(v)))
                    if rng.random() < .15: code.append('weaken %s->{%s};' % (var(o), f))
        elif o.kind == 'oa':
            t = o.f['t']
            pool = objs if t == 'object[]' else of('DN', 'DM') if t == 'DN[]' else of('str') if t == 'string[]' else of('num', t=['int[]']) if t == 'int[][]' else of('oa', t=['object[]', 'DN[]', 'string[]', 'int[][]'])
            for j in range(len(o.f['e'])):
                if pool and rng.random() < .6:
                    v = rng.choice(pool); o.f['e'][j] = v; code.append('%s->[%d] = %s;' % (var(o), j, var(v)))
    # shared arrays are written out at each use: keep the expected text small
    class Big(Exception): pass
    def render(o, seen, path, budget):
        budget[0] -= 1
        if budget[0] < 0: raise Big
        if o is None: return ['undef']
        ad = '@%d@' % objs.index(o)
        if o.kind == 'str': return [dstr(o.f['v'])]
        def seq(xs, ind='  '):
            r = []
            for j, x in enumerate(xs):
                x = list(x)
                if j < len(xs) - 1: x[-1] += ','
                r += x
            return r
        if o.kind in ('num', 'mul', 'oa'):
            if o.kind == 'oa' and o in path: return ['REUSE_OBJECT(%s)' % ad]
            if o.kind == 'num': body = [[x] for x in o.f['e']]
            elif o.kind == 'mul': body = [['{'] + seq([['%s => %s' % p] for p in r]) + ['}'] for r in o.f['e']]
            else: body = [render(x, seen, path + [o], budget) for x in o.f['e']]
            return ['['] + seq(body) + ['] : %s(%s)' % (o.f['t'], ad)]
        if o in seen: return ['REUSE_OBJECT(%s)' % ad]
        seen.append(o)
        if o.kind == 'rec': return ['%s (%s) {' % (o.f['t'], ad)] + seq([['%s => %s' % p] for p in o.f['fs']]) + ['}']
        fs = [] if o.kind == 'DE' else DNF + (['extra', 'again'] if o.kind == 'DM' else [])
        body = []
        for f in fs:
            v = o.f.get(f)
            if f in ('b', 's', 'i', 'l', 'extra'): x = [str(v)]
            elif f in 'fd' and len(f) == 1: x = [g(v)]
            else: x = render(v, seen, path, budget)
            x[0] = '%s => %s' % (f, x[0]); body.append(x)
        return ['%s (%s) {' % (o.kind, ad)] + seq(body) + ['}']
    want = []
    for o in rng.sample(objs, min(3, len(objs))):
        try: w = render(o, [], [], [400])
        except Big: continue
        want.append(w); code.append('{ my $t = dump %s; Mon->nul_terminated($t); say "dump " . Mon->hex($t); }' % var(o))
    for j in range(len(objs)): code.append('say "addr " . Mon->addr($n%d);' % j)
    # undo cycles so that the block accounting stays meaningful
    for o in objs:
        if o.kind in ('DN', 'DM'):
            for f in ('o', 'nx', 'oa', 'na', 'again'):
                if o.f.get(f) is not None: code.append('%s->{%s} = undef;' % (var(o), f))
        elif o.kind == 'oa':
            for j in range(len(o.f['e'])): code.append('%s->[%d] = undef;' % (var(o), j))
    def f(o):
        addrs = [int(l[5:]) for l in o.lines if l.startswith('addr ')]
        dumps = [bytes.fromhex(l[5:]).decode('latin1') for l in o.lines if l.startswith('dump ')]
        if len(addrs) != len(objs) or len(dumps) != len(want): return 'incomplete log'
        for d, w in zip(dumps, want):
            e = [re.sub(r'@(\d+)@', lambda m: '0x%x' % addrs[int(m.group(1))], x) for x in w]
            gl = [x.strip(' ') for x in re.split(r'\n', d)]; e = [x.strip(' ') for x in e]
            if gl != e:
                for j in range(max(len(gl), len(e))):
                    a, b = (gl[j] if j < len(gl) else '<nothing>'), (e[j] if j < len(e) else '<nothing>')
                    if a != b: return 'dump line %d: %r, the object graph says %r\n%s' % (j, a, b, d[:3000])
        return None
    return Case(key, '    ' + '\n    '.join(code), f)

ELT = {'byte': ('(byte)1', '(byte)-7'), 'short': ('(short)300', '(short)-7'), 'int': ('70000', '-7'), 'long': ('5000000000L', '-7L'), 'float': ('1.5f', '-0.25f'), 'double': ('0.1', '-0.25')}
def copy_cases(rng):
    cs = []
    for t, (a, b) in ELT.items():
        for n in (0, 1, 7, 300):
            body = '''    my $x = new %(t)s[%(n)d]; for (my $i = 0; $i < %(n)d; $i++) { $x->[$i] = (%(t)s)($i * 3 - 5); }
    my $y = copy $x; say (type_name $y); say "" . (@$y) . " " . ($x == $y); my $bad = 0;
    for (my $i = 0; $i < %(n)d; $i++) { if ($x->[$i] != $y->[$i]) { $bad++; } }
    for (my $i = 0; $i < %(n)d; $i++) { $y->[$i] = %(a)s; }
    for (my $i = 0; $i < %(n)d; $i++) { if ($x->[$i] != (%(t)s)($i * 3 - 5)) { $bad++; } $x->[$i] = %(b)s; }
    for (my $i = 0; $i < %(n)d; $i++) { if ($y->[$i] != %(a)s) { $bad++; } } say $bad;
    my $u = (%(t)s[])undef; my $v = copy $u; if ($v) { say "defined"; } else { say "undef"; }''' % dict(t=t, n=n, a=a, b=b)
            cs.append(Case('copy %s[%d]' % (t, n), body, [t + '[]', '%d 0' % n, '0', 'undef']))
    for n in (0, 1, 5):
        body = '''    my $x = new DP_3s[%(n)d]; for (my $i = 0; $i < %(n)d; $i++) { $x->[$i]{x} = (short)$i; $x->[$i]{z} = (short)-$i; } my $y = copy $x; my $bad = 0;
    for (my $i = 0; $i < %(n)d; $i++) { if ($y->[$i]{x} != $i || $y->[$i]{y} != 0 || $y->[$i]{z} != -$i) { $bad++; } $y->[$i]{z} = 9; }
    for (my $i = 0; $i < %(n)d; $i++) { if ($x->[$i]{z} != -$i) { $bad++; } } say (type_name $y) . " " . @$y . " " . ($x == $y) . " $bad";''' % dict(n=n)
        cs.append(Case('copy DP_3s[%d]' % n, body, ['DP_3s[] %d 0 0' % n]))
    for b in [b'', b'a', b'\0', b'abc\0def', bytes(range(256)), b'x' * 5000]:
        body = '''    my $x = Mon->unhex("%s"); make_read_only $x; my $y = copy $x; my $w = (mutable string)$y; say "" . ($x == $y) . is_read_only $y; say Mon->hex($y) eq Mon->hex($x); Mon->nul_terminated($y); say length $y;
    if (length $y > 0) { my $c = $x->[0]; $w->[0] = (byte)($c + 1); say $x->[0] == $c && $y->[0] != $c; } else { say 1; }''' % b.hex()
        cs.append(Case('copy string of %d bytes %s' % (len(b), b[:3].hex()), body, ['00', '1', str(len(b)), '1']))
    # Hash clone, StringBuffer clone, Array copy_object with a cloner
    cs.append(Case('clone of Hash', '''    my $h = Hash->new({a => 1, b => "x", c => [1, 2]}); my $k = $h->clone; say $k->keys_length; $k->set("d" => 2); $k->set("a" => 5); $k->delete("b"); say $h->keys_length . " " . $h->get_int("a") . " " . $h->get_string("b");
    $h->set("a", 9); say $k->get_int("a") . " " . $k->exists("b"); if ($h->get("c") == $k->get("c")) { say "shared"; }''', ['3', '3 1 x', '5 0', 'shared']))
    cs.append(Case('cloners', '''    my $cl = Cloner->default_cloner; my $t = DE->new; my $a = DC->new(4, $t); my $b = (DC)$cl->($a); say "" . ($a == $b) . $b->{k} . ($b->{tag} == $t) . Mon->refcnt($t); $b->{k} = 5; say $a->{k}; if ($cl->(undef)) { say "defined"; } else { say "undef"; }
    my $arr = [$a, undef, $b]; my $cp = (DC[])Array->copy_object($arr, $cl); say type_name $cp; say "" . @$cp . ($cp->[0] == $a) . $cp->[0]{k} . $cp->[2]{k} . ($cp->[1] == undef); $cp->[0]{k} = 77; say $a->{k};
    my $sh = Array->copy_object($arr); say $sh->[0] == $a; eval { $cl->($t); say "no exception"; }; say !!eval_error_id;''', ['0414', '4', 'undef', 'DC[]', '30451', '4', '1', '1']))
    return cs

def law_case(rng, key):
    n = rng.randrange(3, 9)
    ks = [rng.choice([None, rng.randrange(-3, 4), 2147483647, -2147483648]) for _ in range(n)]
    body = '    my $p = new DC[%d]; ' % n + ' '.join('$p->[%d] = DC->new(%d);' % (i, k) for i, k in enumerate(ks) if k is not None)
    body += '''
    my $c = Comparator->default_comparator; my $e = EqualityChecker->default_equality_checker; my $ad = EqualityChecker::Address->new; my $s = "";
    for (my $i = 0; $i < @$p; $i++) { for (my $j = 0; $j < @$p; $j++) { $s .= $c->($p->[$i], $p->[$j]) . "," . $e->($p->[$i], $p->[$j]) . "," . $ad->($p->[$i], $p->[$j]) . ";"; } } say $s;'''
    def cm(a, b):
        if a is None or b is None: return (a is not None) - (b is not None)
        return (a > b) - (a < b)
    w = ''.join('%d,%d,%d;' % (cm(a, b), a == b, i == j or (a is None and b is None)) for i, a in enumerate(ks) for j, b in enumerate(ks))
    return Case(key, body, [w])

def point_case(rng, key):
    three = rng.random() < .5
    cn, d = ('Point3D', 3) if three else ('Point', 2)
    vs = [[rng.choice([0, 1, -1, 2147483647, -2147483648, rng.randrange(-9, 9)]) for _ in range(d)] for _ in range(4)]
    vs[3] = list(vs[0])
    body = '    my $o = [%s, undef];' % ', '.join('%s->new(%s)' % (cn, ', '.join(map(str, v))) for v in vs)
    acc = ' . " " . '.join('$k->%s' % c for c in 'xyz'[:d])
    body += '''
    for my $x (@$o) { my $s = ""; for my $y (@$o) { my $p = $x; unless ($p) { $p = $o->[0]; } $s .= $p->eq($x, $y); } say $s; }
    for (my $i = 0; $i < 4; $i++) { my $x = $o->[$i]; my $k = $x->clone; say "" . ($x == $k) . " " . (type_name $k) . " " . %s . " " . $k->to_string; $x->clear; say $x->to_string . $k->to_string; }''' % acc
    w = []
    for i in range(5): w.append(''.join(str(int((vs[i] if i < 4 else None) == (vs[j] if j < 4 else None))) for j in range(5)))
    for v in vs:
        t = '(%s)' % ','.join(map(str, v)); w += ['0 %s %s %s' % (cn, ' '.join(map(str, v)), t), '(%s)' % ','.join('0' * d) + t]
    return Case(key, body, w)

def imm_case(rng, key, T):
    t = T.lower(); n = rng.choice([0, 1, 2, 9, 100])
    if T == 'String':
        vs = [rng.choice([None, b'', b'a', rbytes(rng)]) for _ in range(n)]
        mk = 'my $a = new string[%d]; ' % n + ' '.join('$a->[%d] = Mon->unhex("%s");' % (i, v.hex()) for i, v in enumerate(vs) if v is not None)
        show = lambda e: 'Mon->hex(%s)' % e
        chg = 'for (my $i = 0; $i < @$a; $i++) { if ($a->[$i] && length $a->[$i] > 0) { $a->(mutable string[])->[$i][0] = 1; } $a->[$i] = "changed"; }'
        out = lambda i: '?' if vs[i] is None else vs[i].hex()
    else:
        vs = [rng.randrange(-100, 100) for _ in range(n)]
        mk = 'my $a = new %s[%d]; ' % (t, n) + ' '.join('$a->[%d] = %d;' % (i, v) for i, v in enumerate(vs))
        show = lambda e: '(int)' + e
        chg = 'for (my $i = 0; $i < @$a; $i++) { $a->[$i] = 55; }'
        out = lambda i: str(vs[i])
    cn = 'Immutable::%sList' % T
    one = (lambda e: 'my $v = %s; if ($v) { $s .= Mon->hex($v) . ","; } else { $s .= "?,"; }' % e) if T == 'String' else (lambda e: '$s .= (int)%s . ",";' % e)
    body = '''    %s my $l = %s->new($a); %s
    my $b = $l->to_array; my $s = ""; for (my $i = 0; $i < $l->length; $i++) { %s } say $l->length . " " . $s; $s = ""; for (my $i = 0; $i < @$b; $i++) { %s $b->[$i] = %s; } say $s;
    $s = ""; my $c = $l->to_array; for (my $i = 0; $i < @$c; $i++) { %s } say $s . ($b == $c);
    my $bad = [-1, %d, %d, 2147483647, -2147483648]; for my $i (@$bad) { eval { $l->get($i); say "no exception"; }; }
    eval { %s->new_len(-1); say "no exception"; }; my $e = %s->new_len(3); say $e->length; my $u = %s->new; say $u->length; $@ = undef;''' % (
        mk, cn, chg if T != 'String' else chg.replace('if ($a->[$i] && length $a->[$i] > 0) { $a->(mutable string[])->[$i][0] = 1; } ', 'if ($a->[$i]) { my $m = (mutable string)$a->[$i]; if (length $m > 0) { $m->[0] = 1; } } '),
        one('$l->get($i)'), one('$b->[$i]'), 'undef' if T == 'String' else '0', one('$c->[$i]'), n, n + 1, cn, cn, cn)
    w = ''.join(out(i) + ',' for i in range(n))
    return Case(key, body, ['%d %s' % (n, w), w, w + '0', '3', '0'])

def check(ck):
    ck.rule = ('one evaluation = a random object graph (up to 16 objects of every kind, with sharing, cycles through fields and arrays and weak fields) whose dump is compared line by line with the graph; '
               'or a copy / clone / immutable list / comparator case on generated values; distinct = case x engine')
    drv = vp.build_driver('asan')
    cases = [dump_case(ck.rng, 'graph %d' % i) for i in range(ck.n(500, 20000))]
    more = copy_cases(ck.rng) + [law_case(ck.rng, 'laws %d' % i) for i in range(ck.n(20, 300))] + [point_case(ck.rng, 'points %d' % i) for i in range(ck.n(20, 300))]
    more += [imm_case(ck.rng, 'immutable %s %d' % (T, i), T) for T in ['Int', 'Byte', 'Short', 'Long', 'Float', 'Double', 'String'] for i in range(ck.n(6, 60))]
    ck.sample(cases[3].body[:1500]); ck.sample(more[-1].body[:800])
    run_and_judge(ck, drv, cases, per=50, modes=('vm',), uses=USES, files=FILES)
    run_and_judge(ck, drv, cases[:ck.n(60, 600)], per=30, modes=('pre',), uses=USES, files=FILES, pre_opt='-O0')
    run_and_judge(ck, drv, more, per=60, modes=('vm', 'pre'), uses=USES, files=FILES, pre_opt='-O0')
    ck.assumptions = ['indentation of dump is not judged; strings are not escaped beyond what the existing tests show']
vp.main('D09', check)

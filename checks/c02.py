import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import ctypes, struct, re
import vp, num
from spvmrun import Case, run_and_judge

libc = ctypes.CDLL(None)
libc.strtof.restype = ctypes.c_float; libc.strtod.restype = ctypes.c_double; libc.strtoll.restype = ctypes.c_longlong
def c_strtoll(b): return libc.strtoll(ctypes.c_char_p(b), None, 10)
def c_strtof(b): return libc.strtof(ctypes.c_char_p(b), None)
def c_strtod(b): return libc.strtod(ctypes.c_char_p(b), None)

FILES = {'XS.spvm': '''class XS : public {
  our $K : string; has f : public string; has m : public mutable string;
  static method new : XS () { return new XS; }
  static method id : string ($s : string) { return $s; }
  static method set_k : void ($s : string) { $K = $s; }
  static method k : string () { return $K; }
  static method opt : string () { return "dflt\\x00x"; }
  static method show : void ($n : string, $s : string) { if ($s) { Mon->nul_terminated($s); say "$n " . length $s . " " . Mon->hex($s) . " " . is_read_only $s; } else { say "$n undef"; } }
  static method bytes : void ($n : string, $b : byte[]) { if ($b) { say "$n " . @$b . " " . Mon->hex((string)$b); } else { say "$n undef"; } }
  use Mon;
}
'''}

class S:
    __slots__ = ('d', 'ro', 'lit')
    def __init__(s, d, ro=False, lit=False): s.d, s.ro, s.lit = bytearray(d), ro, lit

SPECIAL = [b'', b'', b'a', b'abc', b'\0', b'a\0b', b'\0\0', b'ab', b'abcd', b'b', b'\xff', b'\x7f\x80', b'\xe3\x81\x82', b'0', b'10', b' ', b'x' * 40]
NUMSTR = [b'0', b'-1', b'12', b' 34', b'\t-5x', b'127', b'128', b'-129', b'32768', b'2147483648', b'-2147483649', b'9223372036854775807', b'9223372036854775808', b'-9223372036854775809', b'99999999999999999999', b'0x1f', b'010', b'1e3', b'1.5', b'-0.0', b'.5', b'5.', b'1e400', b'-1e400', b'1e-400',
          b'0x1.8p3', b'inf', b'-Infinity', b'nan', b'3.4028235e38', b'3.4028236e38', b'1e-45', b'16777217', b'0.1', b'+7', b'--7', b'', b'abc', b'12\x0034', b'1_000', b'4.9e-324', b'2.2250738585072014e-308', b'9007199254740993', b'\xc2\xa012', b'\r\n\v\f 8']

def lit(b):
    return '"' + ''.join(chr(c) if 0x20 <= c < 0x7f and chr(c) not in '"\\$@{}' else '\\x%02x' % c for c in b) + '"'
def rb(rng):
    q = rng.random()
    if q < .5: return rng.choice(SPECIAL)
    if q < .7: return rng.choice(NUMSTR)
    return bytes(rng.choice(b'ab\0\xff') for _ in range(rng.randrange(0, 7)))

class Fault(Exception): pass

def number(rng):
    t = rng.choice(num.NUMS)
    if t in num.INTS:
        b = num.BITS[t]; v = rng.choice([0, 1, -1, (1 << b - 1) - 1, -(1 << b - 1) + 1, rng.randrange(-1000, 1000)])
        if b < 64: v = num.wrap(v, b)
        return '(%s)%s' % (t, ('%dL' % v) if t == 'long' else v), t, str(v).encode()
    v = rng.choice([0.0, 1.0, -2.5, 0.1, 1e10, 1e-7, 123456.0, 1234567.0, 1e100 if t == 'double' else 1e30, rng.uniform(-1000, 1000)])
    if t == 'float': v = num.f32(v); c = '%r' % v; c = (c if '.' in c or 'e' in c else c + '.0') + 'f'
    else: c = '%r' % v; c = c if '.' in c or 'e' in c else c + '.0'
    return c, t, ('%g' % v).encode()

def history(rng, key, steps):
    NS, NB, NA = 5, 2, 4
    v = [None] * NS; bs = [None] * NB; arr = [None] * NA; fld = {'f': None, 'm': None}; kv = [None]
    code = ['my $s%d : string; ' % i for i in range(NS)] + ['my $b%d : byte[]; ' % i for i in range(NB)] + ['my $p = new string[%d]; my $o = XS->new; my $bi = 0;' % NA]
    want = []
    def sref():
        q = rng.randrange(12)
        if q < 7: i = rng.randrange(NS); return '$s%d' % i, v[i]
        if q < 9: i = rng.randrange(NA); return '$p->[%d]' % i, arr[i]
        if q == 9: f = rng.choice('fm'); return '$o->{%s}' % f, fld[f]
        if q == 10: return 'XS->k', kv[0]
        i = rng.randrange(NS); return 'XS->id($s%d)' % i, v[i]
    def expr(depth):
        """a string-valued expression: (code, S or None)"""
        q = rng.randrange(10)
        if depth <= 0 or q < 3: return sref()
        if q == 3: b = rb(rng); return lit(b), S(b, True, True)
        if q == 4: a = sref(); return 'copy ' + a[0], None if a[1] is None else S(a[1].d)
        if q == 5: c, t, b = number(rng); return '(string)%s' % (c if c.startswith('(') else '(%s)' % c if c.startswith('-') else c), S(b)
        if q == 6: i = rng.randrange(NB); return '(string)$b%d' % i, None if bs[i] is None else S(bs[i])
        if q == 7: return 'XS->opt', S(b'dflt\0x', True, True)
        return cat(depth - 1)
    def operand(depth):
        q = rng.randrange(8)
        if q == 0: c, t, b = number(rng); return '(%s)' % c, S(b)
        if q == 1: i = rng.randrange(NB); return '$b%d' % i, None if bs[i] is None else S(bs[i])
        c, x = expr(depth); return ('(%s)' % c if not re.fullmatch(r'\$\w+|"[^"]*"', c) else c), x
    def cat(depth):
        a, x = operand(depth); b, y = operand(depth)
        if x is None or y is None: raise Fault('%s . %s' % (a, b))
        return '%s . %s' % (a, b), S(x.d + y.d)
    def store(x):
        """(code to store into, setter)"""
        q = rng.randrange(10)
        if q < 6:
            i = rng.randrange(NS)
            def st(o): v[i] = o
            return '$s%d = %%s;' % i, st, '$s%d' % i
        if q < 8:
            i = rng.randrange(NA)
            def st(o): arr[i] = o
            return '$p->[%d] = %%s;' % i, st, '$p->[%d]' % i
        if q == 8:
            def st(o): fld['f'] = o
            return '$o->{f} = %s;', st, '$o->{f}'
        def st(o): kv[0] = o
        return 'XS->set_k(%s);', st, 'XS->k'
    def shown(o): return 'undef' if o is None else '%d %s %d' % (len(o.d), bytes(o.d).hex(), o.ro)
    n = 0
    def out(c, w): code.append(c); want.append(w)
    def fault(c): code.append('eval { %s say "no exception"; }; unless (eval_error_id) { say "id 0"; }' % c)
    fresh = [0]
    while n < steps:
        n += 1
        op = rng.randrange(16)
        try:
            if op < 4:
                st, put, rd = store(None); c, x = cat(2) if rng.random() < .6 else expr(2)
                code.append(st % c); put(x); out('XS->show("set", %s);' % rd, 'set ' + shown(x))
            elif op == 4:
                i = rng.randrange(NS); b, y = operand(1)
                if v[i] is None or y is None: raise Fault('$s%d .= %s' % (i, b))
                if len(v[i].d) > 3000: continue
                old = v[i]; v[i] = S(v[i].d + y.d); code.append('$s%d .= %s;' % (i, b)); out('XS->show("app", $s%d);' % i, 'app ' + shown(v[i]))
            elif op == 5:
                a, x = expr(1); b, y = (expr(1) if rng.random() < .8 else ('$b0', None if bs[0] is None else S(bs[0])))
                if rng.random() < .2 and x is not None: b, y = 'copy (%s)' % a if False else a, x
                a, b = '(%s)' % a, '(%s)' % b
                k = (0 if x is None else 1) - (0 if y is None else 1) if x is None or y is None else (x.d > y.d) - (x.d < y.d)
                w = '%d%d%d%d%d%d%d' % (k == 0, k != 0, k > 0, k >= 0, k < 0, k <= 0, k)
                out('say "" . (%s);' % ') . ('.join('%s %s %s' % (a, o, b) for o in ('eq', 'ne', 'gt', 'ge', 'lt', 'le', 'cmp')), w)
            elif op == 6:
                a, x = sref(); out('say length %s;' % a, str(0 if x is None else len(x.d)))
            elif op == 7:
                a, x = sref(); L = 0 if x is None else len(x.d)
                i = rng.choice([0, L - 1, L, L + 1, -1, 2147483647, -2147483648, rng.randrange(0, L + 1)])
                t = rng.choice(['%d', '(byte)%d' if -128 <= i < 128 else '%d', '(short)%d' if -32768 <= i < 32768 else '%d'])
                if x is None or not 0 <= i < L: raise Fault('my $c = %s->[%s]' % (a, t % i))
                out('say %s->[%s];' % (a, t % i), str(struct.unpack('b', x.d[i:i + 1])[0]))
            elif op == 8:
                a, x = sref()
                if x is not None and x.ro: raise Fault('my $m = (mutable string)%s' % a)
                L = 0 if x is None else len(x.d); i = rng.choice([0, L - 1, L, -1, rng.randrange(0, L + 1)]); b = rng.randrange(-128, 128)
                if x is None or not 0 <= i < L: raise Fault('my $m = (mutable string)%s; $m->[%d] = (byte)%d' % (a, i, b))
                code.append('{ my $m = (mutable string)%s; $m->[%d] = (byte)%d; XS->show("put", $m); }' % (a, i, b)); x.d[i] = b & 255; want.append('put ' + shown(x))
            elif op == 9:
                c, x = expr(1); i = rng.randrange(NB)
                code.append('$b%d = (byte[])(%s);' % (i, c)); bs[i] = None if x is None else bytearray(x.d)
                out('XS->bytes("b", $b%d);' % i, 'b ' + ('undef' if bs[i] is None else '%d %s' % (len(bs[i]), bytes(bs[i]).hex())))
            elif op == 10:
                i = rng.randrange(NB)
                if bs[i]: j = rng.randrange(len(bs[i])); b = rng.randrange(-128, 128); bs[i][j] = b & 255; code.append('$b%d->[%d] = (byte)%d;' % (i, j, b))
                else: continue
            elif op == 11:
                a, x = sref()
                if x is not None and x is fld['m']: continue      # a mutable variable keeps its access: documented as unchecked
                code.append('make_read_only %s;' % a)
                if x is not None: x.ro = True
                out('say is_read_only %s;' % a, str(int(x is not None)))
            elif op == 12:
                i = rng.randrange(NS); L = rng.choice([0, 1, 5, 100, -1, -2147483648])
                if L < 0: raise Fault('$s%d = new_string_len %d' % (i, L))
                v[i] = S(bytes(L)); code.append('$s%d = new_string_len %d;' % (i, L)); out('XS->show("new", $s%d);' % i, 'new ' + shown(v[i]))
            elif op == 13:
                if rng.random() < .7: b = rng.choice(NUMSTR); a, x = lit(b), S(b)
                else: a, x = sref()
                t = rng.choice(num.NUMS); b = b'' if x is None else bytes(x.d)
                if t in num.INTS:
                    r = 0 if x is None else c_strtoll(b); m = 1 << num.BITS[t] - 1; r = max(-m, min(m - 1, r)); out('say "" . (%s)%s;' % (t, a), str(r))
                else:
                    r = 0.0 if x is None else (c_strtof(b) if t == 'float' else c_strtod(b))
                    out('say Mon->%s_bits((%s)%s);' % (t, t, a), str(num.fbits(r) if t == 'float' else num.dbits(r)))
            elif op == 14:
                i = rng.randrange(NS); q = rng.randrange(4)
                if q == 0: v[i] = None; code.append('$s%d = undef;' % i)
                elif q == 1: j = rng.randrange(NS); v[i] = v[j]; code.append('$s%d = $s%d;' % (i, j))
                elif q == 2:
                    j = rng.randrange(NS)
                    if v[j] is not None and v[j].ro: raise Fault('$o->{m} = (mutable string)$s%d' % j)
                    fld['m'] = v[j]; code.append('$o->{m} = (mutable string)$s%d;' % j)
                else:
                    # interpolation makes one new string of the parts
                    j = rng.randrange(NS); b = rb(rng)
                    if v[j] is None or v[i] is None: raise Fault('my $t = "%s$s%d:$s%d"' % (lit(b)[1:-1], i, j))
                    x = S(b + v[i].d + b':' + v[j].d + b'!'); code.append('my $t%d = "%s$s%d:$s%d!";' % (fresh[0], lit(b)[1:-1], i, j)); out('XS->show("ipol", $t%d);' % fresh[0], 'ipol ' + shown(x)); fresh[0] += 1
            else:
                i, j = rng.randrange(NS), rng.randrange(NA)
                x, y = v[i], arr[j]
                if x is not None and y is not None and x.lit and y.lit: continue
                out('say $s%d == $p->[%d];' % (i, j), str(int(x is y)))
        except Fault as f:
            fault(str(f) + ';')
        if any(o is not None and len(o.d) > 2000 for o in v + arr + [kv[0]]):
            for k in range(NS): v[k] = None; code.append('$s%d = undef;' % k)
            for k in range(NA): arr[k] = None; code.append('$p->[%d] = undef;' % k)
            kv[0] = None; code.append('XS->set_k(undef);'); fld['f'] = None; code.append('$o->{f} = undef;')
    for i in range(NS): out('XS->show("s%d", $s%d);' % (i, i), 's%d %s' % (i, shown(v[i])))
    for i in range(NA): out('XS->show("p%d", $p->[%d]);' % (i, i), 'p%d %s' % (i, shown(arr[i])))
    for f in 'fm': out('XS->show("%s", $o->{%s});' % (f, f), '%s %s' % (f, shown(fld[f])))
    for i in range(NB): out('XS->bytes("b%d", $b%d);' % (i, i), 'b%d %s' % (i, 'undef' if bs[i] is None else '%d %s' % (len(bs[i]), bytes(bs[i]).hex())))
    code.append('XS->set_k(undef); $@ = undef;')
    return Case(key, '    ' + '\n    '.join(code), want)

def big_case(n):
    body = '''    my $a = new_string_len %d; my $b = (mutable string)$a; $b->[0] = 'x'; $b->[%d] = 'y'; my $c = $a . $a; say length $c; say "" . $c->[0] . " " . $c->[%d] . " " . $c->[%d] . " " . $c->[%d] . " " . $c->[%d]; Mon->nul_terminated($c);
    my $d = ""; for (my $i = 0; $i < 2000; $i++) { $d .= $i; $d .= ","; } say length $d; say $d->[6889]; my $e = copy $c; say "" . ($e eq $c) . ($e cmp $a) . ($e == $c); say $e . "z" gt $e;''' % (n, n - 1, n - 1, n, 2 * n - 1, n // 2)
    s = ''.join('%d,' % i for i in range(2000))
    return Case('long strings %d' % n, body, [str(2 * n), '120 121 120 121 0', str(len(s)), str(ord(s[6889])), '110', '1'])

def check(ck):
    ck.rule = ('one evaluation = a generated history of string operations (concatenation of strings, byte arrays and numbers, .=, interpolation, comparison, character get and set, copy, conversions, read-only) on variables, array elements, fields and a class variable, '
               'with the contents, length, read-only flag, hidden NUL and identity compared with a byte-string model after every step; distinct = history x engine')
    drv = vp.build_driver('asan')
    cases = [history(ck.rng, 'history %d' % i, ck.rng.choice([20, 60, 120])) for i in range(ck.n(400, 12000))]
    ck.sample(cases[0].body[:1500])
    run_and_judge(ck, drv, cases, per=50, modes=('vm',), uses='use XS; use Fn;', files=FILES)
    run_and_judge(ck, drv, cases[:ck.n(60, 800)], per=15, modes=('pre',), uses='use XS; use Fn;', files=FILES, pre_opt='-O1')
    run_and_judge(ck, drv, [big_case(n) for n in (3, 1000, 70000, 5000000)], modes=('vm', 'pre'), uses='use XS; use Fn;', files=FILES)
    ck.assumptions = ['whether two equal literals are one object is not judged', 'comparison with undef: undef sorts before every string (behaviour of both engines, undocumented)']
vp.main('C02', check)

import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import struct, math
import vp
from spvmrun import Case, run_and_judge

RUN = '''class XFormat : public {
  use Format; use Fn; use Mon; use Int; use Long; use Double; use Float; use Byte; use Short;
  static method arg : object ($t : string) {
    my $k = $t->[0]; my $v = ""; if (length $t > 1) { $v = Fn->substr($t, 1, length $t - 1); }
    if ($k == 'i') { return Int->new(Mon->arr_int($v)->[0]); }
    elsif ($k == 'l') { return Long->new(Mon->arr_long($v)->[0]); }
    elsif ($k == 'd') { return Double->new(Mon->arr_double($v)->[0]); }
    elsif ($k == 'f') { return Float->new(Mon->arr_float($v)->[0]); }
    elsif ($k == 'b') { return Byte->new(Mon->arr_byte($v)->[0]); }
    elsif ($k == 'h') { return Short->new(Mon->arr_short($v)->[0]); }
    elsif ($k == 's') { return Mon->unhex($v); }
    elsif ($k == 'o') { return Mon->arr_int("1 2"); }
    return undef;
  }
  static method start : void ($jobs : string) {
    my $js = Mon->split(";", $jobs);
    for my $job (@$js) {
      my $p = Mon->split(",", $job);
      my $format = Mon->unhex($p->[0]);
      my $args = new object[@$p - 2];
      for (my $i = 2; $i < @$p; $i++) { $args->[$i - 2] = &arg($p->[$i]); }
      my $r = (string)undef;
      if ($p->[1] eq "u") { $args = undef; }
      eval { if ($p->[1] eq "n") { $r = Fn->sprintf($format, $args); } else { $r = Format->sprintf($format, $args); } };
      if (eval_error_id) { say "X"; } else { Mon->nul_terminated($r); say "=" . Mon->hex($r); }
    }
    $@ = undef;
    say "end";
  }
}
'''

def fbits(v): return struct.unpack('<I', struct.pack('<f', v))[0]
def dbits(v): return struct.unpack('<Q', struct.pack('<d', v))[0]
def f32(v):
    try: return struct.unpack('<f', struct.pack('<f', v))[0]
    except OverflowError: return math.copysign(float('inf'), v)

def dbl(rng):
    q = rng.randrange(8)
    if q == 0: return rng.choice([0.0, -0.0, 1.0, -1.0, 0.5, 2.5, 1e15, 1e16, 123456789012345678.0, float('inf'), float('-inf'), float('nan'), 5e-324, 1.7976931348623157e308, -1.7976931348623157e308])
    if q == 1: return struct.unpack('<d', struct.pack('<Q', rng.getrandbits(64)))[0]
    if q == 2: return rng.uniform(-1, 1) * 10 ** rng.randrange(-20, 20)
    if q == 3: return round(rng.uniform(-1000, 1000), rng.randrange(5))
    if q == 4: return rng.randrange(-10**6, 10**6) / 8
    if q == 5: return rng.uniform(-1, 1) * 10.0 ** rng.randrange(20, 308)
    return rng.uniform(-100, 100)

def real(spec, v, prec):
    if v != v: return ('-' if math.copysign(1, v) < 0 else '') + 'nan'
    if math.isinf(v): return 'inf' if v > 0 else '-inf'
    return '%.*' .replace('*', str(prec if prec is not None else 6)) .__add__(spec) % v

def utf8(c):
    if c < 0 or c > 0x10FFFF or 0xD800 <= c <= 0xDFFF: return b'?'
    return chr(c).encode()

def pad(body, width, zero, left, plus, signed):
    n = plus and signed and not body.startswith(b'-')
    if n: body = b'+' + body
    if width <= len(body): return body
    if left: return body + b' ' * (width - len(body))
    if zero:
        s = body[:1] if signed and body[:1] in b'+-' else b''
        return s + b'0' * (width - len(body)) + body[len(s):]
    return b' ' * (width - len(body)) + body

def intval(rng, b): return rng.choice([0, 1, -1, 9, 10, -10, (1 << b - 1) - 1, -(1 << b - 1), rng.randrange(-1000, 1000), rng.randrange(-(1 << b - 1), 1 << b - 1)])

LIT = [b'', b'', b'abc', b' ', b'%%', b'%%%%', b'\xe3\x81\x82', b'a\x00b', b'0', b'-5', b'd', b'l', b'.', b'x%%d', b'#', b'\xff\xfe', b'100%% ', b'q' * 60]
KINDS = ['c', 'd', 'f', 'g', 'x', 'X', 'lX', 'ld', 'lu', 'lx', 's', 'u']

def spec(rng):
    """(template, argument token, expected text or None when it must throw)"""
    k = rng.choice(KINDS); flags = ''.join(rng.choice('0+-') for _ in range(rng.choice([0, 0, 1, 1, 2, 3])))
    width = rng.choice([0, 0, 0, 1, 2, 5, 8, 12, 25, 40, 130, rng.randrange(1, 60)]); prec = None
    left, zero, plus = '-' in flags, '0' in flags, '+' in flags
    if k in 'fg':
        if rng.random() < .6: prec = rng.choice([0, 1, 2, 3, 6, 10, 17, 20, 40, 120, 330, 1100])
        if rng.random() < .3: v = f32(dbl(rng)); tok = 'f%d' % fbits(v)
        else: v = dbl(rng); tok = 'd%d' % dbits(v)
        if (v != v or math.isinf(v)) and zero: flags = flags.replace('0', ''); zero = False
        if v != v and tok[0] == 'f': v = 1.0; tok = 'f%d' % fbits(v)
        body = real(k, v, prec).encode(); signed = True
    elif k == 'c':
        if rng.random() < .3: v = rng.randrange(0, 128); tok = 'b%d' % v
        else: v = rng.choice([0, 65, 0x7f, 0x80, 0x7ff, 0x800, 0xd7ff, 0xd800, 0xdfff, 0xe000, 0xffff, 0x10000, 0x10ffff, 0x110000, 2147483647, -1, -128, rng.randrange(0, 0x10ffff)]); tok = 'i%d' % v
        body = utf8(v); signed = False
    elif k == 's':
        v = bytes(rng.choice(b'abc-+0% \x00\xe3\xff') for _ in range(rng.choice([0, 0, 1, 2, 5, 30])))
        tok = 's' + v.hex(); body = v; signed = False
        if rng.random() < .5:
            prec = rng.randrange(0, 12)
            if prec < len(v): body = v[:prec]; width = 0        # a width beyond the precision: see the assumptions
    elif k[0] == 'l':
        v = intval(rng, 64); tok = 'l%d' % v; signed = k == 'ld'
        u = v & (1 << 64) - 1
        body = {'ld': '%d' % v, 'lu': '%d' % u, 'lx': '%x' % u, 'lX': '%X' % u}[k].encode()
    else:
        v = intval(rng, 32); tok = 'i%d' % v; u = v & 0xffffffff; signed = k == 'd'
        body = {'d': '%d' % v, 'u': '%d' % u, 'x': '%x' % u, 'X': '%X' % u}[k].encode()
    t = '%' + flags + (str(width) if width else '') + ('.%d' % prec if prec is not None else '') + k
    return t.encode(), tok, pad(body, width, zero and not left, left, plus, signed), k

WRONG = {'c': 'lhdfsou', 'd': 'lbhdfsou', 'x': 'lbhdfsou', 'X': 'lbhdfsou', 'u': 'lbhdfsou', 'ld': 'ibhdfsou', 'lu': 'ibhdfsou', 'lx': 'ibhdfsou', 'lX': 'ibhdfsou', 'f': 'ilbhsou', 'g': 'ilbhsou', 's': 'ilbhdfou'}
TOK = {'i': 'i1', 'l': 'l2', 'b': 'b3', 'h': 'h4', 'd': 'd0', 'f': 'f0', 's': 's616263', 'o': 'o', 'u': 'u'}

def job(rng):
    t, toks, out, ks = b'', [], b'', []
    for _ in range(rng.choice([0, 1, 1, 1, 2, 3, 6])):
        l = rng.choice(LIT); t += l; out += l.replace(b'%%', b'%')
        a, tok, e, k = spec(rng); t += a; toks.append(tok); out += e; ks.append(k)
    l = rng.choice(LIT); t += l; out += l.replace(b'%%', b'%')
    q = rng.random(); mode = 'n' if rng.random() < .1 else 'p'
    if q < .2:
        z = rng.randrange(6)
        if z == 0 and toks:
            j = rng.randrange(len(toks)); toks[j] = TOK[rng.choice(WRONG[ks[j]])]; out = None
        elif z == 1 and toks: toks.pop(rng.randrange(len(toks))) if len(set(ks)) == 1 else toks.pop(); out = None
        elif z == 2 and toks: toks = []; mode = 'u'; out = None
        elif z == 3: t += b'%' + rng.choice([b'', b'0', b'5', b'-5.', b'.3', b'012', b'+']); out = None; toks += ['i1']
        elif z == 4: t += b'%' + rng.choice([b'k', b'y', b'lk', b'l', b'5h', b'n', b'e', b'Z', b'0.2q', b'*', b'#', b'l%', b'lf', b'ls', b'\x00', b'\xff']); toks.append(TOK[rng.choice('ilds')]); out = None
        else: toks += [TOK[rng.choice('ilbhdfsou')] for _ in range(rng.randrange(1, 4))]   # arguments beyond the template are ignored
    return ','.join([t.hex(), mode] + toks), out

def case(rng, key, n):
    jobs, want, src = [], [], []
    for _ in range(n):
        j, e = job(rng)
        jobs.append(j); want.append('X' if e is None else '=' + e.hex()); src.append(j)
    s = ';'.join(jobs)
    body = '    my $j = ""; ' + ' '.join('$j .= "%s";' % s[i:i + 2000] for i in range(0, len(s), 2000)) + '\n    XFormat->start($j);'
    def f(o):
        for i, (g, w) in enumerate(zip(o.lines, want)):
            if g.lower() != w.lower():
                p = src[i].split(',')
                sh = lambda x: bytes.fromhex(x[1:]) if x.startswith('=') else x
                return 'template %r arguments %r: %r, expected %r' % (bytes.fromhex(p[0]), p[2:], sh(g), sh(w))
        if len(o.lines) != n + 1 or o.lines[-1] != 'end': return 'incomplete: %d lines' % len(o.lines)
        return None
    c = Case(key, body, f); c.meta = n
    return c

def pointer_cases():
    b = '''    my $a = Mon->arr_int("1 2"); my $s = "x"; my $h = Format->sprintf("%p %p %p", [(object)$a, $s, undef]);
    say $h; say Mon->addr($a); say Mon->addr($s); my $w = Format->sprintf("[%30p][%-30p]", [(object)$a, $a]); say $w;'''
    def f(o):
        a, s = int(o.lines[1]), int(o.lines[2])
        if o.lines[0] != '0x%x 0x%x 0x0' % (a, s): return 'got %r for %x %x' % (o.lines[0], a, s)
        if o.lines[3] != '[%30s][%-30s]' % ('0x%x' % a, '0x%x' % a): return 'got %r' % o.lines[3]
    return [Case('pointer', b, f)]

def check(ck):
    ck.rule = ('one evaluation = a batch of 30 sprintf calls with generated templates (0 to 6 specifiers with flags in any order, widths, precisions up to 1100, literal parts with %%, NUL and UTF-8) and arguments at the edges of their types; '
               'the text, or that an exception is thrown, is compared with an independent printf model; distinct = batch x engine')
    drv = vp.build_driver('asan')
    files = {'XFormat.spvm': RUN}
    cases = [case(ck.rng, 'templates %d' % i, 30) for i in range(ck.n(250, 20000))]
    ck.count('sprintf calls', sum(c.meta for c in cases)); ck.sample(cases[0].body[:800])
    run_and_judge(ck, drv, cases, per=25, modes=('vm',), uses='use XFormat;', files=files)
    run_and_judge(ck, drv, cases[:ck.n(50, 1000)], per=50, modes=('pre',), uses='use XFormat;', files=files, pre_opt='-O1')
    run_and_judge(ck, drv, pointer_cases(), modes=('vm', 'pre'), uses='use Format;')
    ck.assumptions = ['%s with a width above a precision that cuts the string, a precision for integers and %c, 0 flag with nan or inf, and widths beyond int range are not specified by the documentation and are not judged',
                      'zero padding of strings and characters follows the existing tests']
vp.main('D07', check)

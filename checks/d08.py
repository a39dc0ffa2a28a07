import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import struct
import vp
from spvmrun import Case, run_and_judge

RUN = '''class XPacker : public {
  use Packer; use Fn; use Mon; use Int; use Long; use Double; use Float; use Byte; use Short;
  static method obj : object ($t : string) {
    my $k = $t->[0]; my $v = ""; if (length $t > 1) { $v = Fn->substr($t, 1, length $t - 1); }
    if ($k == 'i') { return Int->new(Mon->arr_int($v)->[0]); }
    elsif ($k == 'l') { return Long->new(Mon->arr_long($v)->[0]); }
    elsif ($k == 'd') { return Double->new(Mon->arr_double($v)->[0]); }
    elsif ($k == 'f') { return Float->new(Mon->arr_float($v)->[0]); }
    elsif ($k == 'b') { return Byte->new(Mon->arr_byte($v)->[0]); }
    elsif ($k == 'h') { return Short->new(Mon->arr_short($v)->[0]); }
    elsif ($k == 's') { return Mon->unhex($v); }
    elsif ($k == 'I') { return Mon->arr_int($v); }
    elsif ($k == 'L') { return Mon->arr_long($v); }
    elsif ($k == 'D') { return Mon->arr_double($v); }
    elsif ($k == 'F') { return Mon->arr_float($v); }
    elsif ($k == 'B') { return Mon->arr_byte($v); }
    elsif ($k == 'H') { return Mon->arr_short($v); }
    return undef;
  }
  static method show : string ($o : object) {
    if ($o isa Byte) { return "b" . (int)(byte)$o; }
    if ($o isa Short) { return "h" . (int)(short)$o; }
    if ($o isa Int) { return "i" . (int)$o; }
    if ($o isa Long) { return "l" . (long)$o; }
    if ($o isa Float) { return "f" . Mon->float_bits((float)$o); }
    if ($o isa Double) { return "d" . Mon->double_bits((double)$o); }
    if ($o isa string) { Mon->nul_terminated((string)$o); return "s" . Mon->hex((string)$o); }
    my $s = "";
    if ($o isa byte[]) { $s = "B"; for my $x (@{(byte[])$o}) { $s .= " " . (int)$x; } return $s; }
    if ($o isa short[]) { $s = "H"; for my $x (@{(short[])$o}) { $s .= " " . (int)$x; } return $s; }
    if ($o isa int[]) { $s = "I"; for my $x (@{(int[])$o}) { $s .= " " . $x; } return $s; }
    if ($o isa long[]) { $s = "L"; for my $x (@{(long[])$o}) { $s .= " " . $x; } return $s; }
    if ($o isa float[]) { $s = "F"; for my $x (@{(float[])$o}) { $s .= " " . Mon->float_bits($x); } return $s; }
    if ($o isa double[]) { $s = "D"; for my $x (@{(double[])$o}) { $s .= " " . Mon->double_bits($x); } return $s; }
    return "?";
  }
  static method start : void ($jobs : string) {
    my $js = Mon->split(";", $jobs);
    my $packer = Packer->new;
    for my $job (@$js) {
      my $p = Mon->split(",", $job);
      my $template = Mon->unhex($p->[1]);
      if ($p->[0] eq "p") {
        my $objs = new object[@$p - 2];
        for (my $i = 2; $i < @$p; $i++) { $objs->[$i - 2] = &obj($p->[$i]); }
        my $before = ""; for my $o (@$objs) { $before .= &show($o); }
        my $r = (string)undef;
        eval { $r = $packer->pack($template, $objs); };
        if (eval_error_id) { say "X"; } else { Mon->nul_terminated($r); say "=" . Mon->hex($r); }
        my $after = ""; for my $o (@$objs) { $after .= &show($o); }
        unless ($before eq $after) { say "the arguments changed: $before $after"; }
      }
      else {
        my $bin = Mon->unhex($p->[2]);
        my $r = (object[])undef;
        eval { $r = $packer->unpack($template, $bin); };
        if (eval_error_id) { say "X"; }
        else { my $s = "="; for my $o (@$r) { $s .= &show($o) . ","; } say $s; }
        unless (Mon->hex($bin) eq $p->[2]) { say "the data changed"; }
      }
    }
    $@ = undef;
    say "end";
  }
}
'''
SZ = {'c': 1, 'C': 1, 's': 2, 'S': 2, 'l': 4, 'L': 4, 'q': 8, 'Q': 8, 'f': 4, 'd': 8}
ONE = {'c': 'b', 's': 'h', 'l': 'i', 'q': 'l', 'f': 'f', 'd': 'd'}
ARR = {'c': 'B', 's': 'H', 'l': 'I', 'q': 'L', 'f': 'F', 'd': 'D'}
FMT = {'c': 'b', 's': 'h', 'l': 'i', 'q': 'q', 'f': 'I', 'd': 'Q'}      # floats travel as their bit patterns
FBITS = [0, 0x80000000, 0x3f800000, 0xc2f6e979, 0x7f800000, 0xff800000, 1, 0x7f7fffff, 0x4b000001]
DBITS = [0, 1 << 63, 0x3ff0000000000000, 0xc05edd2f1a9fbe77, 0x7ff0000000000000, 1, 0x7fefffffffffffff, 0x0123456789abcdef]

def val(rng, b):
    if b == 'f': return rng.choice(FBITS) if rng.random() < .6 else rng.getrandbits(32) & 0x7f7fffff
    if b == 'd': return rng.choice(DBITS) if rng.random() < .6 else rng.getrandbits(64) & 0x7fefffffffffffff
    n = SZ[b] * 8
    return rng.choice([0, 1, -1, (1 << n - 1) - 1, -(1 << n - 1), rng.randrange(-(1 << n - 1), 1 << n - 1), 0x0102030405060708 & (1 << n - 1) - 1])

def enc(b, vs, big): return struct.pack(('>' if big else '<') + '%d%s' % (len(vs), FMT[b]), *vs)
def dec(b, raw, big): return list(struct.unpack(('>' if big else '<') + '%d%s' % (len(raw) // SZ[b], FMT[b]), raw))
def atok(b, vs): return ARR[b] + ' '.join(map(str, vs))
def sg(b, v):                    # bit patterns are printed as signed integers
    n = SZ[b] * 8
    return v - (1 << n) if b in 'fd' and v >> (n - 1) else v
def ashow(b, vs): return ARR[b] + ''.join(' %d' % sg(b, v) for v in vs)
HEXD = '0123456789abcdefABCDEF'

def part(rng):
    """(template, argument token, packed bytes, text of the unpacked object; None when the unpacking has no single meaning here)"""
    k = rng.choice('aahHccsSlLqQffdd' + 'slqfd')
    if k == 'a':
        v = bytes(rng.randrange(256) for _ in range(rng.choice([0, 1, 2, 5, 20])))
        e = rng.choice(['', '', '', '>', '<'])
        if rng.random() < .25: n = len(v); t = 'a%s*' % e; star = 1
        else: n = rng.choice([1, 2, 3, 7, 30, max(1, len(v))]); t = 'a%s%d' % (e, n); star = 0
        raw = v[:n].ljust(n, b'\0')
        return t, 's' + v.hex(), raw, 's' + raw.hex(), star
    if k in 'hH':
        n = rng.choice([0, 1, 2, 3, 4, 5, 8, 13]); s = ''.join(rng.choice(HEXD) for _ in range(n))
        f = (lambda p: p[::-1]) if k == 'h' else (lambda p: p)
        by = lambda s: bytes(int(f((s[i:i + 2] + '0')[:2]), 16) for i in range(0, len(s), 2))
        star = 0
        if rng.random() < .3 and n: t = k + '*'; m = n + n % 2; star = 1
        else: m = rng.choice([2, 4, 6, n + n % 2 or 2, n or 1, n or 1, 14]); t = '%s%d' % (k, m); m = m if m % 2 == 0 or m >= n else m + 1
        mm = m + m % 2
        raw = by(s[:mm]).ljust(mm // 2, b'\0')
        txt = ''.join(f('%02x' % c) for c in raw)
        if not star: txt = txt[:int(t[1:])]
        return t, 's' + s.encode().hex(), raw, 's' + txt.encode().hex(), star
    b = k.lower(); e = rng.choice(['', '>', '<'])
    if rng.random() < .4:
        v = val(rng, b)
        return k + e, ONE[b] + str(v), enc(b, [v], e == '>'), ONE[b] + str(sg(b, v)), 0
    vs = [val(rng, b) for _ in range(rng.choice([0, 1, 2, 3, 5, 17]))]
    if rng.random() < .3: n = len(vs); t = k + e + '*'; star = 1
    else: n = rng.choice([1, 2, 3, 4, 9, max(1, len(vs))]); t = k + e + str(n); star = 0
    ws = (vs + [0] * n)[:n]
    return t, atok(b, vs), enc(b, ws, e == '>'), ashow(b, ws), star

HT = lambda s: s.encode('latin1').hex()
BADT = ['k', 'z', ' ', 'l l', 'a', 'l0', 'l>0', 'l2*', 'l3>', 'l*>', 'l-1', 'l99999999999', 'q268435456', 'l>>', '\x00', '\xff', 'l*3', 'd536870912', 'a2147483648']

def jobs(rng):
    ps = [part(rng) for _ in range(rng.choice([0, 1, 1, 1, 2, 3, 5]))]
    for i, p in enumerate(ps):
        if p[4] and i < len(ps) - 1: star = True; break
    else: star = False
    t = ''.join(p[0] for p in ps); raw = b''.join(p[2] for p in ps); toks = [p[1] for p in ps]
    out = []
    q = rng.random()
    P = lambda t, ts: ','.join(['p', HT(t)] + ts)
    U = lambda t, b: ','.join(['u', HT(t), b.hex()])
    if q < .7:
        out.append((P(t, toks + (['i1'] if rng.random() < .1 else [])), '=' + raw.hex()))
        if not star:
            tail = b'' if (ps and ps[-1][4]) else rng.choice([b'', b'', b'\x01', b'abc'])
            out.append((U(t, raw + tail), '=' + ''.join(p[3] + ',' for p in ps)))
            fixed = [p for p in ps if not p[4]]
            if raw and len(fixed) == len(ps):
                out.append((U(t, raw[:rng.randrange(len(raw))]), 'X'))
    elif q < .8 and ps:
        out.append((P(t, toks[:rng.randrange(len(toks))]), 'X'))
    elif q < .9 and ps:
        j = rng.randrange(len(ps)); k = ps[j][0][0]; tk = toks[j][0]
        wrong = [w for w in ['i1', 'l1', 'd0', 'f0', 'b1', 'h1', 's6162', 'I1', 'L1', 'B1', 'H1', 'D0', 'F0', 'u'] if w[0] != tk]
        if k in 'hH': wrong.remove('u')
        if tk == 's': wrong = [w for w in wrong if w[0] != 'B']       # a byte[] may be cast to a string
        toks = list(toks); toks[j] = rng.choice(wrong)
        if k in 'hH' and rng.random() < .5: toks[j] = 's' + rng.choice(['g0', 'xy', '-1', 'z', '\x00a', 'g']).encode().hex()
        out.append((P(t, toks), 'X'))
    else:
        b = rng.choice(BADT)
        out.append((P(t + b, toks + ['I1', 'I1', 's61']), 'X'))
        out.append((U(t + b, raw + b'\1' * 40), 'X'))
    return out

def case(rng, key, n):
    js = []
    while len(js) < n: js += jobs(rng)
    s = ';'.join(j for j, _ in js)
    body = '    my $j = ""; ' + ' '.join('$j .= "%s";' % s[i:i + 2000] for i in range(0, len(s), 2000)) + '\n    XPacker->start($j);'
    def f(o):
        for g, (j, w) in zip(o.lines, js):
            if g != w:
                p = j.split(',')
                return '%s template %r, %r: %s, expected %s' % ({'p': 'pack', 'u': 'unpack'}[p[0]], bytes.fromhex(p[1]), p[2:], g[:300], w[:300])
        if len(o.lines) != len(js) + 1 or o.lines[-1] != 'end': return 'incomplete: %r' % o.lines[-2:]
        return None
    c = Case(key, body, f); c.meta = len(js)
    return c

def check(ck):
    ck.rule = ('one evaluation = a batch of about 30 pack and unpack calls: generated templates of 0 to 5 specifiers with endians, counts and *, objects at the edges of their types; '
               'packed bytes and unpacked objects are compared with a model of the documented layout, the packed data is unpacked again, cut short, given too few or wrong objects, or the template made invalid (must throw); distinct = batch x engine')
    drv = vp.build_driver('asan')
    files = {'XPacker.spvm': RUN}
    cases = [case(ck.rng, 'templates %d' % i, 30) for i in range(ck.n(150, 12000))]
    ck.count('calls', sum(c.meta for c in cases)); ck.sample(cases[0].body[:800])
    run_and_judge(ck, drv, cases, per=20, modes=('vm',), uses='use XPacker;', files=files)
    run_and_judge(ck, drv, cases[:ck.n(80, 2000)], per=80, modes=('pre',), uses='use XPacker;', files=files, pre_opt='-O1')
    ck.assumptions = ['a hex string with an odd count smaller than its own length, undef for h and H, and * before other specifiers when unpacking are not specified and not judged']
vp.main('D08', check)

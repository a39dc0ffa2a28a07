import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vp
from spvmrun import Case, run_and_judge

FILES = {'XBuf.spvm': '''class XBuf : public {
  use StringBuffer; use Mon; use Fn;
  has b : StringBuffer; has c : StringBuffer; has ks : string[]; has kept : string[]; has n : int;
  method k : string ($i : int) { if ($i < 0) { return undef; } return $self->{ks}->[$i]; }
  method op : void ($d : int[], $p : int) {
    my $b = $self->{b}; my $c = $d->[$p]; my $k = $self->k($d->[$p + 1]); my $x = $d->[$p + 2]; my $y = $d->[$p + 3];
    if ($c == 0) { $b->push($k); say "push"; }
    elsif ($c == 1) { $b->push($k, $x); say "push"; }
    elsif ($c == 2) { $b->push($k, $x, $y); say "push"; }
    elsif ($c == 3) { $b->push_char($x); say "push_char"; }
    elsif ($c == 4) { $b->replace($x, $y, $k); say "replace"; }
    elsif ($c == 5) { $b->reserve($x); say "reserve"; if ($b->capacity < $x) { say "capacity too small"; } }
    elsif ($c == 6) { $b->set_length($x); say "set_length"; }
    elsif ($c == 7) { $b->set($k); say "set"; }
    elsif ($c == 8) { $self->{kept}->[$x] = $b->to_string; say "keep"; }
    elsif ($c == 9) { $self->{c} = $b->clone; say "clone " . Mon->hex($self->{c}->to_string); }
    elsif ($c == 10) { my $t = $self->{b}; $self->{b} = $self->{c}; $self->{c} = $t; say "swap"; }
    elsif ($c == 11) { say "cmp " . $b->cmp($b, $self->{c}) . " " . $b->cmp($self->{c}, $b) . " " . $b->eq($b, $self->{c}) . " " . $b->cmp($b, $b) . " " . $b->eq($b, $b); }
    elsif ($c == 12) { $self->{b} = StringBuffer->new($k, $x); say "new"; }
    elsif ($c == 13) { $self->{b} = StringBuffer->new_len($x, $y); say "new_len"; }
    elsif ($c == 14) { $b->push($b->get_string_unsafe, 0, $b->length); say "double"; }
    elsif ($c == 15) { say "undef " . $b->cmp($b, undef) . $b->cmp(undef, $b) . $b->cmp(undef, undef) . $b->eq($b, undef) . $b->eq(undef, $b) . $b->eq(undef, undef); }
    elsif ($c == 16) { my $s = (mutable string)copy $k; $b->push($s); if (length $s > 0) { $s->[0] = '!'; } say "push"; }
    elsif ($c == 17) { my $s = (mutable string)$b->to_string; if (length $s > 0) { $s->[0] = '!'; } say "to_string"; }
  }
  method state : void () {
    my $b = $self->{b}; my $s = $b->to_string; my $u = $b->get_string_unsafe; my $n = $b->length;
    if (length $s != $n) { say "length"; }
    if ($b->capacity < $n || length $u != $b->capacity) { say "capacity"; }
    for (my $i = $n; $i < length $u; $i++) { unless ($u->[$i] == 0) { say "not filled with 0 at " . ($i - $n); last; } }
    unless (Mon->nul_terminated($s) && Mon->nul_terminated($u)) { say "terminator"; }
    say Mon->hex($s);
  }
  method run : void ($keys : string, $d : int[]) {
    { $self->{b} = StringBuffer->new; $self->{c} = StringBuffer->new("c"); $self->{kept} = new string[8]; }
    my $ks = Mon->split(",", $keys); $self->{ks} = new string[@$ks];
    for (my $i = 0; $i < @$ks; $i++) { $self->{ks}->[$i] = Mon->unhex($ks->[$i]); }
    for (my $p = 0; $p < @$d; $p += 4) {
      eval { $self->op($d, $p); };
      if (eval_error_id) { say "X"; }
      $@ = undef;
      $self->state;
    }
    for (my $i = 0; $i < 8; $i++) { if ($self->{kept}->[$i]) { say Mon->hex($self->{kept}->[$i]); } else { say "none"; } }
    for (my $i = 0; $i < @$ks; $i++) { unless ($ks->[$i] eq Mon->hex($self->{ks}->[$i])) { say "source changed"; } }
    say "end";
  }
  static method start : void ($keys : string, $d : int[]) { my $x = new XBuf; $x->run($keys, $d); }
}
'''}

BIG = [2147483647, -2147483648, 2147483646, -1]

def history(rng, key, steps):
    ks = []
    for _ in range(rng.choice([3, 10])):
        n = rng.choice([0, 1, 2, 3, 7, 8, 9, 17, 40])
        ks.append(bytes(rng.choice([0, 65, 255, 128, rng.randrange(256)]) for _ in range(n)))
    b, c, kept = bytearray(), bytearray(b'c'), [None] * 8
    data, exp = [], []
    W = {'grow': [6, 3, 3, 6, 1, 1, .3, .2, 1, .3, .3, 1, .1, .1, .5, .2, 1, .3], 'edit': [3, 1, 1, 1, 12, 1, 2, .4, 1, .5, .5, 1, .2, .2, .2, .2, 1, .5], 'mix': [1] * 18}[rng.choice(['grow', 'edit', 'edit', 'mix'])]
    def cmpv(a, b): return (a > b) - (a < b)
    for _ in range(steps):
        op = rng.choices(range(18), W)[0]
        if op == 14 and len(b) > 300: op = 4
        k = rng.randrange(len(ks)); x = y = 0
        K = ks[k]; n = len(b); r = None
        bad = rng.random() < .12
        if op in (0, 16):
            if bad and op == 0: k = -1
            else: b += K; r = 'push'
        elif op == 1:
            x = rng.choice(BIG + [len(K) + 1]) if bad else rng.randrange(0, len(K) + 1)
            if 0 <= x <= len(K): b += K[x:]; r = 'push'
        elif op == 2:
            x = rng.randrange(0, len(K) + 1); y = rng.randrange(0, len(K) - x + 1)
            if bad:
                q = rng.randrange(4)
                if q == 0: x = rng.choice(BIG)
                elif q == 1: y = rng.choice([2147483647, -2, -2147483648, len(K) - x + 1])
                elif q == 2: y = 2147483647 - rng.randrange(0, x + 1)
                else: y = -1
            yy = len(K) - x if y == -1 else y
            if 0 <= x and 0 <= yy and x + yy <= len(K): b += K[x:x + yy]; r = 'push'
        elif op == 3: x = rng.choice([0, 65, 127, 255, -1, 256 + 66, rng.randrange(256)]); b.append(x & 255); r = 'push_char'
        elif op == 4:
            x = rng.randrange(0, n + 1); y = rng.choice([0, rng.randrange(0, n - x + 1), n - x])
            if rng.random() < .2: k = -1; K = b''
            if bad:
                q = rng.randrange(4)
                if q == 0: x = rng.choice(BIG + [n + 1])
                elif q == 1: y = rng.choice([2147483647, -1, -2147483648, n - x + 1])
                else: y = 2147483647 - rng.randrange(0, x + 1)
            if 0 <= x and 0 <= y and x + y <= n: b[x:x + y] = K; r = 'replace'
        elif op == 5:
            x = rng.choice([0, n, n + 1, 2 * n, rng.randrange(0, 200)]) if not bad else rng.choice([-1, -2147483648])
            if x >= 0: r = 'reserve'
        elif op == 6:
            x = rng.choice([0, n, max(0, n - 1), n + 1, rng.randrange(0, n + 20)]) if not bad else rng.choice([-1, -2147483648])
            if x >= 0: b = b[:x] + bytearray(max(0, x - n)); r = 'set_length'
        elif op == 7: b = bytearray(K); r = 'set'
        elif op == 8: x = rng.randrange(8); kept[x] = bytes(b); r = 'keep'
        elif op == 9: c = bytearray(b); r = 'clone ' + b.hex()
        elif op == 10: b, c = c, b; r = 'swap'
        elif op == 11: r = 'cmp %d %d %d 0 1' % (cmpv(b, c), cmpv(c, b), b == c)
        elif op == 12:
            x = rng.choice([-1, 0, 1, 5, 100])
            if rng.random() < .2: k = -1; K = b''
            b = bytearray(K); r = 'new'
        elif op == 13:
            x = rng.choice([0, 1, 9, 50]) if not bad else -1; y = rng.choice([-1, 0, 4, 99])
            if x >= 0: b = bytearray(x); r = 'new_len'
        elif op == 14: b += bytes(b); r = 'double'
        elif op == 15: r = 'undef 1-10001'
        elif op == 17: r = 'to_string'
        data += [op, k, x, y]
        exp.append([r or 'X', bytes(b).hex()])
    want = [y for x in exp for y in x] + [k.hex() if k is not None else 'none' for k in kept] + ['end']
    kl = ','.join(x.hex() for x in ks); dl = ' '.join(map(str, data))
    body = '    my $d = ""; ' + ' '.join('$d .= "%s";' % dl[i:i + 2000] for i in range(0, len(dl), 2000)) + '\n    XBuf->start("%s", Mon->arr_int($d));' % kl
    def judge(o):
        if o.lines == want: return None
        for i, (a, w) in enumerate(zip(o.lines + ['(end)'], want)):
            if a != w: return 'line %d (op %s): got %r, byte string model says %r' % (i, data[4 * (i // 2):4 * (i // 2) + 4], a[-300:], w[-300:])
        return 'extra output %r' % o.lines[len(want):][:4]
    c_ = Case(key, body, judge)
    c_.meta = steps
    return c_

def check(ck):
    ck.rule = ('one evaluation = one random history of 30-300 StringBuffer operations with arbitrary bytes and legal and illegal ranges; after every operation its result, the contents, length <= capacity, the \\0 fill behind the contents and the '
               'terminator are compared with a byte string model; strings returned earlier are compared at the end; distinct = history x engine')
    drv = vp.build_driver('asan')
    rng = ck.rng
    cases = [history(rng, 'history %d' % i, rng.choice([30, 80, 150, 300])) for i in range(ck.n(400, 8000))]
    for c in cases: ck.count('steps', c.meta)
    ck.sample(cases[0].body[:1500])
    run_and_judge(ck, drv, cases, per=25, modes=('vm',), uses='use XBuf;', files=FILES)
    run_and_judge(ck, drv, cases[:ck.n(50, 1000)], per=50, modes=('pre',), uses='use XBuf;', files=FILES, pre_opt='-O1')
    ck.assumptions = ['set(undef) is not exercised: the document states no behaviour for it', 'AddressSanitizer watches the runtime']

vp.main('D03', check)

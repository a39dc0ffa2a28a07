import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import struct
import vp
from spvmrun import Case, run_and_judge

TYPES = {'byte': 'b', 'short': 'h', 'int': 'i', 'long': 'q', 'float': 'f', 'double': 'd', 'Mu_3s': '3h', 'Mu_2d': '2d'}
SHOW = {'float': 'Mon->float_bits($x->[$i])', 'double': 'Mon->double_bits($x->[$i])', 'Mu_3s': '$x->[$i]->{x} . "," . $x->[$i]->{y} . "," . $x->[$i]->{z}',
        'Mu_2d': 'Mon->double_bits($x->[$i]->{x}) . "," . Mon->double_bits($x->[$i]->{y})'}

def runner(T):
    plain = T[0].islower()
    show = SHOW.get(T, '(int)$x->[$i]' if T != 'long' else '$x->[$i]')
    if T == 'Mu_3s': load = 'my $v = Mon->arr_short($s); my $r = new Mu_3s[@$v / 3]; for (my $i = 0; $i < @$r; $i++) { $r->[$i]->{x} = $v->[$i * 3]; $r->[$i]->{y} = $v->[$i * 3 + 1]; $r->[$i]->{z} = $v->[$i * 3 + 2]; } return $r;'
    elif T == 'Mu_2d': load = 'my $v = Mon->arr_double($s); my $r = new Mu_2d[@$v / 2]; for (my $i = 0; $i < @$r; $i++) { $r->[$i]->{x} = $v->[$i * 2]; $r->[$i]->{y} = $v->[$i * 2 + 1]; } return $r;'
    else: load = 'return Mon->arr_%s($s);' % T
    typed = '' if not plain else '''
    if ($c == 0) { $self->{a} = Array->copy_@T@($b, $x, $y); say "copy"; }
    elsif ($c == 1) { Array->memcpy_@T@($a, $x, $b, $y, $z); say "memcpy"; }
    elsif ($c == 2) { Array->memmove_@T@($a, $x, $a, $y, $z); say "memmove"; }
    elsif ($c == 3) { Array->memmove_@T@($a, $x, $b, $y, $z); say "memmove"; }
    elsif ($c == 4) { Array->memset_@T@($a, @C@$self->{vals}->[$z], $x, $y); say "memset"; }
    elsif ($c == 5) { $self->{a} = Array->merge_@T@($a, $b); say "merge"; }
    elsif ($c == 6) { say "equals " . Array->equals_@T@($a, $b) . Array->equals_@T@($b, $a) . Array->equals_@T@($a, Array->copy_@T@($a)); }
    elsif ($c == 7) { my $o = Array->to_object_array_@T@($a); unless (type_name $o eq "@U@[]") { say type_name $o; } $self->{a} = Array->to_array_@T@($o); say "objects"; }
    elsif ($c == 22) { my $n = new @U@[3]; $n->[0] = @U@->new(1); my $r = Array->to_array_@T@($n); say "undef element"; }
    elsif ($c == 23) { my $u = (@T@[])undef;
      if ($x == 0) { Array->copy_@T@($u); } elsif ($x == 1) { Array->memcpy_@T@($u, 0, $a, 0, 0); } elsif ($x == 2) { Array->memmove_@T@($a, 0, $u, 0, 0); }
      elsif ($x == 3) { Array->memset_@T@($u, @C@$self->{vals}->[0]); } elsif ($x == 4) { Array->merge_@T@($u, $a); } elsif ($x == 5) { Array->merge_@T@($a, $u); } elsif ($x == 6) { Array->to_object_array_@T@($u); }
      elsif ($x == 7) { Array->to_array_@T@(undef); } elsif ($x == 8) { Array->copy_any_numeric(undef); } elsif ($x == 9) { Array->repeat(undef, 1); } elsif ($x == 10) { Fn->slice(undef, 0, 0); } elsif ($x == 11) { Fn->reverse_inplace(undef); }
      elsif ($x == 12) { Fn->memcpy(undef, 0, $a, 0, 0); } elsif ($x == 13) { Fn->memcmp($a, 0, undef, 0, 0); } elsif ($x == 14) { Array->new_proto_any(undef, 1); } elsif ($x == 15) { Array->shuffle(undef, \\$seed); }
      elsif ($x == 16) { say "undef equals " . Array->equals_@T@($u, $u) . Array->equals_@T@($a, $u) . Array->equals_@T@($u, $a) . Array->equals(undef, undef) . Array->equals($a, undef) . Array->equals(undef, $a); }
      elsif ($x == 17) { Array->copy_any_numeric(new Int[1]); } elsif ($x == 18) { Array->copy_any_numeric("abc"); } elsif ($x == 19) { Fn->memcpy(new Int[1], 0, $a, 0, 0); } elsif ($x == 20) { Fn->slice("abc", 0, 1); }
    }
    els'''
    src = '''class XArr_@T@ : public {
  use Array; use Fn; use Mon; use Byte; use Short; use Int; use Long; use Float; use Double; use Mu_3s; use Mu_2d;
  has a : @T@[]; has b : @T@[]; has vals : @V@[];
  method load : @T@[] ($s : string) { @LOAD@ }
  method state : string ($x : @T@[]) { my $r = ""; for (my $i = 0; $i < @$x; $i++) { $r .= " " . @SHOW@; } return $r; }
  method op : void ($d : int[], $p : int, $ls : string[]) {
    my $a = $self->{a}; my $b = $self->{b}; my $c = $d->[$p]; my $x = $d->[$p + 1]; my $y = $d->[$p + 2]; my $z = $d->[$p + 3]; my $seed = $x;
    @TYPED@if ($c == 8) { $self->{a} = (@T@[])Array->copy_any_numeric($b, $x, $y); say "copy"; }
    elsif ($c == 9) { say "equals " . Array->equals($a, $b) . Array->equals($b, $a) . Array->equals($a, Fn->copy($a)); if (Fn->copy($a) == $a) { say "same"; } }
    elsif ($c == 10) { my $n = (@T@[])Fn->copy($b); if ($y) { Array->shuffle_any_numeric($n, \\$seed); } else { Array->shuffle($n, \\$seed); } say "shuffle" . $self->state($n); }
    elsif ($c == 11) { $self->{a} = (@T@[])Array->repeat($a, $x); say "repeat"; }
    elsif ($c == 12) { $self->{a} = (@T@[])Fn->reverse($b); say "reverse"; }
    elsif ($c == 13) { Fn->reverse_inplace($a); say "reverse"; }
    elsif ($c == 14) { $self->{a} = (@T@[])Fn->slice($b, $x, $y); say "slice"; }
    elsif ($c == 15) { Fn->memcpy($a, $x, $b, $y, $z); say "memcpy"; }
    elsif ($c == 16) { Fn->memmove($a, $x, $a, $y, $z); say "memmove"; }
    elsif ($c == 17) { my $r = Fn->memcmp($a, $x, $b, $y, $z); my $s = 0; if ($r < 0) { $s = -1; } elsif ($r > 0) { $s = 1; } say "memcmp $s"; }
    elsif ($c == 18) { my $n = Array->new_proto_any($a, $x); say "proto " . (type_name $n) . " " . Fn->length($n) . $self->state((@T@[])$n); }
    elsif ($c == 19) { my $t = $self->{a}; $self->{a} = $self->{b}; $self->{b} = $t; say "swap"; }
    elsif ($c == 20) { $self->{a} = $self->load($ls->[$x]); say "load"; }
    elsif ($c == 21) { say "size " . Fn->get_elem_size($a) . " " . Fn->length($a) . " " . Fn->array_length($a) . " " . Fn->get_elem_type_name($a); }
    elsif ($c == 24) { my $s = (mutable string)new_string_len $x; Fn->memcpy($s, 0, $b, 0, $x); say "bytes " . Mon->hex($s); }
  }
  static method start : void ($vals : string, $loads : string, $dl : string) {
    my $self = new XArr_@T@; my $d = Mon->arr_int($dl); my $ls = Mon->split(";", $loads);
    { $self->{a} = $self->load($ls->[0]); $self->{b} = $self->load($ls->[1]); $self->{vals} = Mon->arr_@V@($vals); }
    for (my $p = 0; $p < @$d; $p += 4) {
      eval { $self->op($d, $p, $ls); };
      if (eval_error_id) { say "X"; }
      $@ = undef;
      say $self->state($self->{a}); say $self->state($self->{b});
    }
    say "end";
  }
}
'''
    return (src.replace('@TYPED@', typed).replace('@LOAD@', load).replace('@SHOW@', show).replace('@T@', T).replace('@U@', T.capitalize() if plain else '')
            .replace('@V@', 'int' if T in ('byte', 'short', 'int') else T if plain else 'int').replace('@C@', ''))

FILES = {'XArr_%s.spvm' % T: runner(T) for T in TYPES}
FILES['Mu_3s.spvm'] = 'class Mu_3s : mulnum_t public { has x : rw short; has y : rw short; has z : rw short; }'.replace('rw ', '')
FILES['Mu_2d.spvm'] = 'class Mu_2d : mulnum_t public { has x : double; has y : double; }'
FILES['XObjA.spvm'] = '''class XObjA : public {
  use Array; use Fn; use Mon; use Ob; use EqualityChecker; use Cloner; use Comparator; use Callback::Grep; use Callback::Map; use Callback::MapExpand; use @ES@;
  has pool : @E@[]; has a : @E@[]; has b : @E@[];
  method el : @E@ ($i : int) { if ($i < 0) { return undef; } return $self->{pool}->[$i]; }
  method find : int ($o : object) { unless ($o) { return -1; } my $pool = $self->{pool}; for (my $i = 0; $i < @$pool; $i++) { if ($pool->[$i] == $o) { return $i; } } return -2; }
  method show : string ($x : object[]) { my $r = ""; for (my $i = 0; $i < @$x; $i++) { $r .= " " . $self->find($x->[$i]); } return $r; }
  method op : void ($d : int[], $p : int) {
    my $c = $d->[$p]; my $x = $d->[$p + 1]; my $y = $d->[$p + 2]; my $z = $d->[$p + 3]; my $w = $d->[$p + 4]; my $seed = $x; my $a = $self->{a}; my $b = $self->{b};
    if ($c == 0) { $self->{a} = (@E@[])Array->copy_@K@_address($b, $x, $y); say "copy"; }
    elsif ($c == 1) { Array->memcpy_@K@_address($a, $x, $b, $y, $z); say "memcpy"; }
    elsif ($c == 2) { Array->memmove_@K@_address($a, $x, $a, $y, $z); say "memmove"; }
    elsif ($c == 3) { Array->memset_@K@($a, $self->el($z), $x, $y); say "memset"; }
    elsif ($c == 4) { my $m = Array->merge_@K@($a, $b); say "merge" . $self->show($m); my $n = @$m; $m = undef; }
    elsif ($c == 5) { say "equals " . Array->equals_@K@_address($a, $b) . Array->equals($a, $b, 1) . Array->equals_@K@_address($a, Array->copy_@K@_address($a)); }
    elsif ($c == 6) { my $n = Array->copy_@K@_address($b); Array->shuffle_object($n, \\$seed); say "shuffle" . $self->show($n); }
    elsif ($c == 7) { $self->{a} = (@E@[])Array->repeat($a, $x); say "repeat"; }
    elsif ($c == 8) { Fn->reverse_inplace($a); say "reverse"; }
    elsif ($c == 9) { $self->{a} = (@E@[])Fn->slice($b, $x, $y); say "slice"; }
    elsif ($c == 10) { my $n = Array->new_proto($a, $x); say "proto " . (type_name $n) . $self->show($n); }
    elsif ($c == 11) { my $t = $self->{a}; $self->{a} = $self->{b}; $self->{b} = $t; say "swap"; }
    elsif ($c == 12) { $a->[$x] = $self->el($y); say "set"; }
    elsif ($c == 13) { my $n = Array->copy_object($b, method : object ($e : object) { return $e; }, $x, $y); say "copy " . (type_name $n) . $self->show($n); }
    elsif ($c == 14) { my $me = $self; my $n = Fn->grep($b, [$me : XObjA, $x : int] method : int ($e : object) { my $i = $me->find($e); if ($i == $x) { die "g"; } return ($i & 1) == 0; }); say "grep " . (type_name $n) . $self->show($n); }
    elsif ($c == 15) { my $me = $self; my $n = Fn->map($b, [$me : XObjA, $x : int] method : object ($e : object) { my $i = $me->find($e); if ($i == $x) { die "m"; } if ($i < 1) { return undef; } return $me->el($i - 1); }); say "map " . (type_name $n) . $self->show($n); }
    elsif ($c == 16) { my $me = $self; my $n = Fn->map_expand($b, [$me : XObjA] method : object[] ($e : object) { my $i = $me->find($e); my $r = new object[$i + 1 & 3]; for (my $k = 0; $k < @$r; $k++) { $r->[$k] = $e; } return $r; }); say "expand " . (type_name $n) . $self->show($n); }
    elsif ($c == 17) { my $n = Fn->merge_options($a, $b); say "options" . $self->show($n); }
    elsif ($c == 18) { say "deep " . @DEEP@; }
    elsif ($c == 19) { my $n = Fn->reverse($b); say "reverse @REV@"; }
    elsif ($c == 20) { my $n = Array->new_array_proto_element($self->el($x), $y); say "element " . (type_name $n) . " " . @$n; }
    elsif ($c == 21) { my $u = (@E@[])undef;
      if ($x == 0) { Array->copy_@K@_address($u); } elsif ($x == 1) { Array->memcpy_@K@_address($u, 0, $a, 0, 0); } elsif ($x == 2) { Array->memmove_@K@_address($a, 0, $u, 0, 0); } elsif ($x == 3) { Array->memset_@K@($u, $self->el(0)); }
      elsif ($x == 4) { Array->merge_@K@($a, $u); } elsif ($x == 5) { Array->merge_@K@($u, $a); } elsif ($x == 6) { Array->new_proto($u, 1); } elsif ($x == 7) { Fn->grep($a, undef); } elsif ($x == 8) { Fn->map($u, method : object ($e : object) { return $e; }); }
      elsif ($x == 9) { Fn->slice($u, 0, 1); } elsif ($x == 10) { Array->shuffle_object($u, \\$seed); } elsif ($x == 11) { Array->memmove_object_address((object[])Array->new_proto($a, 2), 0, new Other[2], 0, 2); say "undef into"; }
      elsif ($x == 12) { my $o = new Other[2]; $o->[1] = new Other; Array->memcpy_object_address($a, 0, $o, 0, 2); }
    }
    elsif ($c == 22) { @EXTRA@ }
  }
  static method start : void ($np : int, $dl : string) {
    my $self = new XObjA; my $d = Mon->arr_int($dl);
    { $self->{pool} = new @E@[$np]; for (my $i = 0; $i < $np; $i++) { @NEW@ } $self->{a} = new @E@[0]; $self->{b} = new @E@[4]; $self->{b}->[1] = $self->{pool}->[0]; }
    for (my $p = 0; $p < @$d; $p += 5) {
      eval { $self->op($d, $p); };
      if (eval_error_id) { say "X"; }
      $@ = undef;
      say $self->show($self->{a}); say $self->show($self->{b});
      my $r = ""; for (my $i = 0; $i < $np; $i++) { $r .= Mon->refcnt($self->{pool}->[$i]) . " "; } say $r;
    }
    say "end";
  }
}
'''
FILES['Ob.spvm'] = 'class Ob : public { has id : int; static method new : Ob ($id : int) { my $s = new Ob; $s->{id} = $id; return $s; } }'
FILES['Other.spvm'] = 'class Other : public { }'
OBJ = dict(FILES)
_o = FILES['XObjA.spvm']
def obj_runner(kind):
    if kind == 'object':
        return (_o.replace('@ES@', 'Other').replace('@E@', 'Ob').replace('@K@', 'object').replace('@NEW@', '$self->{pool}->[$i] = Ob->new($i);')
                .replace('@DEEP@', 'Array->equals_object($a, $b, method : int ($p : object, $q : object) { return $p == $q; }) . (Array->equals_object($a, $b, undef))')
                .replace('@REV@', '').replace('@EXTRA@', 'my $o = new object[@$b]; Array->memcpy_object_address($o, 0, $b, 0, @$b); say "any" . $self->show($o);'))
    return (_o.replace('XObjA', 'XStrA').replace('@ES@', 'StringList, Other'.split(',')[0] + '; use Other').replace('@E@', 'string').replace('@K@', 'string').replace('@NEW@', '$self->{pool}->[$i] = copy "s" . ($i / 2);')
            .replace('@DEEP@', 'Array->equals_string($a, $b) . Array->equals($a, $b)').replace('@REV@', '" . Fn->join(",", (string[])$n) . "')
            .replace('@EXTRA@', 'my $n = Array->copy_string($b, $x, $y); for (my $i = 0; $i < @$n; $i++) { if ($n->[$i] && $n->[$i] == $b->[$x + $i]) { say "not a copy"; } } say "copy " . $self->join_ud($n); my $r = Array->repeat_string($n, 2); say $self->join_ud($r);')
            .replace('static method start', 'method join_ud : string ($x : string[]) { my $r = ""; for my $e (@$x) { if ($e) { $r .= " $e"; } else { $r .= " -"; } } return $r; }\n  static method start', 1))
del FILES['XObjA.spvm']
FILES['XObjA.spvm'] = obj_runner('object'); FILES['XStrA.spvm'] = obj_runner('string')

BIG = [2147483647, -2147483648, 2147483646, 1 << 30, 1 << 29, 1 << 28, -1, -2, -(1 << 30), 536870913, 268435457]

def chunks(name, s): return 'my %s = ""; ' % name + ' '.join('%s .= "%s";' % (name, s[i:i + 2000]) for i in range(0, len(s), 2000))

def rngpair(rng, n, bad, neg=True):
    """offset, length for an array of n elements; length -1 (to the end) allowed with neg. Returns (off, len, real length or None when illegal)."""
    x = rng.randrange(0, n + 1)
    y = rng.choice([0, n - x, rng.randrange(0, n - x + 1)] + ([-1, -5] if neg else []))
    if bad:
        q = rng.randrange(6)
        if q == 0: x = rng.choice(BIG)
        elif q == 1: y = rng.choice([b for b in BIG if not neg or b > 0])
        elif q == 2: y = n - x + 1
        elif q == 3: y = 2147483647 - rng.randrange(0, x + 1)
        elif q == 4: x = n + rng.choice([1, 2, 1 << 20]); y = rng.choice([1, -1 if neg else 1])
        else: x = -1
    if x < 0: return x, y, None
    if y < 0:
        if not neg: return x, y, None
        return x, y, (n - x if x <= n else None)
    return x, y, (y if x + y <= n else None)

def two(rng, na, nb, bad):
    z = rng.randrange(0, min(na, nb) + 1); x = rng.randrange(0, na - z + 1); y = rng.randrange(0, nb - z + 1)
    if bad:
        q = rng.randrange(6)
        if q == 0: x = rng.choice(BIG)
        elif q == 1: y = rng.choice(BIG)
        elif q == 2: z = rng.choice(BIG)
        elif q == 3: x = na - z + 1
        elif q == 4: y = nb - z + 1
        else: x = 2147483647 - rng.randrange(0, 3); z = rng.randrange(1, 5)
    ok = x >= 0 and y >= 0 and z >= 0 and x + z <= na and y + z <= nb
    if z == 0 and not ok: z = 1; ok = x >= 0 and y >= 0 and x + z <= na and y + z <= nb  # a range of no element outside the array is left open
    return x, y, z, ok

def rnd_val(rng, c):
    if c in 'fd': return rng.choice([0.0, 1.0, -1.5, 0.25, 1e10, -3.0, 1e-3, 3.0e38, rng.randrange(-100, 100) / 4])
    b = {'b': 8, 'h': 16, 'i': 32, 'q': 64}[c]
    return rng.choice([0, 1, -1, (1 << b - 1) - 1, -(1 << b - 1), rng.randrange(-(1 << b - 1), 1 << b - 1), rng.randrange(-5, 5)])

def num_history(rng, T, key, steps):
    f = TYPES[T]; ch = f[-1]; per = int(f[:-1] or 1); sz = struct.calcsize('<' + f); plain = T[0].islower()
    def pack(vs): return struct.pack('<%d%s' % (len(vs), ch), *vs)
    bits = {'f': '<I', 'd': '<Q'}
    def txt(vs): return ' '.join(str(struct.unpack(bits[ch], struct.pack('<' + ch, v))[0]) if ch in 'fd' else str(v) for v in vs)
    def elems(b): return [bytes(b[i:i + sz]) for i in range(0, len(b), sz)]
    def canon(v):                    # the driver prints every NaN as one value
        if ch == 'f' and v & 0x7fffffff > 0x7f800000: v = 0x7fc00000
        if ch == 'd' and v & (1 << 63) - 1 > 0x7ff0000000000000: v = 0x7ff8000000000000
        return str(v)
    def show(b):
        r = ''
        for e in elems(b): r += ' ' + ','.join(map(canon, struct.unpack('<%d%s' % (per, {'f': 'i', 'd': 'q'}.get(ch, ch)), e)))
        return r
    loads = [[rnd_val(rng, ch) for _ in range(per * rng.choice([0, 1, 2, 3, 5, 9, 17, 60]))] for _ in range(6)]
    wide = {'b': (-2**31, 2**31), 'h': (-2**31, 2**31)}.get(ch)
    vals = [rng.choice([rng.randrange(*wide), 127, 128, -129, 65535, 32768, 256 + 7]) if wide else rnd_val(rng, ch) for _ in range(6)]
    if not plain: vals = [0]
    a, b = bytearray(pack(loads[0])), bytearray(pack(loads[1]))
    data, exp = [], []
    ops = list(range(25)) if plain else [8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 24]
    for _ in range(steps):
        op = rng.choice(ops)
        if op in (5, 11) and len(a) > 60 * sz: op = 20
        x = y = z = 0; r = None; bad = rng.random() < .25; na, nb = len(a) // sz, len(b) // sz
        if op in (0, 8):
            x, y, L = rngpair(rng, nb, bad)
            if L is not None: a = b[x * sz:(x + L) * sz]; r = 'copy'
        elif op in (1, 3):
            x, y, z, ok = two(rng, na, nb, bad)
            if ok: a[x * sz:(x + z) * sz] = b[y * sz:(y + z) * sz]; r = 'memcpy' if op == 1 else 'memmove'
        elif op == 2:
            x, y, z, ok = two(rng, na, na, bad)
            if ok: a[x * sz:(x + z) * sz] = bytes(a[y * sz:(y + z) * sz]); r = 'memmove'
        elif op == 4:
            x, y, L = rngpair(rng, na, bad); z = rng.randrange(len(vals)); v = vals[z]
            if wide: m = 1 << 8 * sz; v %= m; v = v - m if v >= m // 2 else v
            if L is None and x >= 0 and y < 0: x = 0; L = na   # an offset outside the array with "to the end": left open
            if L is not None: a[x * sz:(x + L) * sz] = pack([v]) * L; r = 'memset'
        elif op == 5: a = a + b; r = 'merge'
        elif op in (6, 9):
            def eq(p, q):
                if op == 9: return p == q
                return len(p) == len(q) and all(struct.unpack('<' + f, u) == struct.unpack('<' + f, w) for u, w in zip(elems(p), elems(q)))
            r = 'equals %d%d%d' % (eq(a, b), eq(b, a), eq(a, a))
        elif op == 7: r = 'objects'
        elif op == 10: x = rng.randrange(1, 1000); y = rng.randrange(2); r = ('shuffle', sorted(show(b).split(' ')[1:]))
        elif op == 11:
            x = rng.choice([0, 1, 2, 3]) if not bad else rng.choice([-1, -2147483648])
            if x >= 0: a = a * x; r = 'repeat'
        elif op == 12: a = bytearray(b''.join(elems(b)[::-1])); r = 'reverse'
        elif op == 13: a = bytearray(b''.join(elems(a)[::-1])); r = 'reverse'
        elif op == 14:
            x, y, L = rngpair(rng, nb, bad, neg=False)
            if L is not None: a = b[x * sz:(x + L) * sz]; r = 'slice'
        elif op == 15:
            x, y, z, ok = two(rng, len(a), len(b), bad)
            if ok: a[x:x + z] = b[y:y + z]; r = 'memcpy'
        elif op == 16:
            x, y, z, ok = two(rng, len(a), len(a), bad)
            if ok: a[x:x + z] = bytes(a[y:y + z]); r = 'memmove'
        elif op == 17:
            x, y, z, ok = two(rng, len(a), len(b), bad)
            if ok: p, q = bytes(a[x:x + z]), bytes(b[y:y + z]); r = 'memcmp %d' % ((p > q) - (p < q))
        elif op == 18:
            x = rng.choice([0, 1, 5]) if not bad else rng.choice([-1, -2147483648])
            if x >= 0: r = 'proto %s[] %d%s' % (T, x, show(bytearray(sz * x)))
        elif op == 19: a, b = b, a; r = 'swap'
        elif op == 20: x = rng.randrange(len(loads)); a = bytearray(pack(loads[x])); r = 'load'
        elif op == 21: r = 'size %d %d %d %s' % (sz, na, na, T)
        elif op == 23:
            x = rng.randrange(21)
            if x == 16: r = 'undef equals 100100'
        elif op == 24:
            x = rng.randrange(0, len(b) + 1); r = 'bytes ' + b[:x].hex()
            if bad: x = len(b) + rng.randrange(1, 9); r = None
        data += [op, x, y, z]; exp += [r or 'X', show(a), show(b)]
    exp.append('end')
    body = '    ' + chunks('$v', txt(vals)) + chunks('$l', ';'.join(map(txt, loads))) + chunks('$d', ' '.join(map(str, data))) + '\n    XArr_%s->start($v, $l, $d);' % T
    def judge(o):
        for i, (g, w) in enumerate(zip(o.lines + ['(end)'] * max(0, len(exp) - len(o.lines)), exp)):
            if isinstance(w, tuple): ok = g.split(' ')[0] == w[0] and sorted(g.split(' ')[1:]) == w[1]
            else: ok = g == w
            if not ok: return 'line %d (op %s): got %r, model says %r' % (i, data[4 * (i // 3):4 * (i // 3) + 4], g[-300:], w)
        return None if len(o.lines) == len(exp) else 'extra output %r' % o.lines[len(exp):][:4]
    c = Case(key, body, judge); c.meta = steps
    return c

def obj_history(rng, kind, key, steps):
    np = rng.choice([1, 3, 6]); C = 'XObjA' if kind == 'object' else 'XStrA'; tn = 'Ob[]' if kind == 'object' else 'string[]'
    a, b = [], [-1, 0, -1, -1]; data, exp = [], []
    def show(l): return ''.join(' %d' % e for e in l)
    name = lambda e: 's%d' % (e // 2)
    val = (lambda e: e) if kind == 'object' else (lambda e: e if e < 0 else e // 2)
    for _ in range(steps):
        op = rng.randrange(23); x = y = z = w = 0; r = None; bad = rng.random() < .25; na, nb = len(a), len(b)
        if op == 7 and na > 20: op = 12
        if op == 12 and na == 0 and rng.random() < .8: op = 11
        if op == 0:
            x, y, L = rngpair(rng, nb, bad)
            if L is not None: a = b[x:x + L]; r = 'copy'
        elif op == 1:
            x, y, z, ok = two(rng, na, nb, bad)
            if ok: a[x:x + z] = b[y:y + z]; r = 'memcpy'
        elif op == 2:
            x, y, z, ok = two(rng, na, na, bad)
            if ok: a[x:x + z] = a[y:y + z]; r = 'memmove'
        elif op == 3:
            x, y, L = rngpair(rng, na, bad); z = rng.randrange(-1, np)
            if L is None and x >= 0 and y < 0: x = 0; L = na
            if L is not None: a[x:x + L] = [z] * L; r = 'memset'
        elif op == 4: r = 'merge' + show(a + b)
        elif op == 5: r = 'equals %d%d1' % (a == b, a == b)
        elif op == 6: x = rng.randrange(1, 1000); r = ('shuffle', sorted(map(str, b)))
        elif op == 7:
            x = rng.choice([0, 1, 2, 3]) if not bad else rng.choice([-1, -2147483648])
            if x >= 0: a = a * x; r = 'repeat'
        elif op == 8: a = a[::-1]; r = 'reverse'
        elif op == 9:
            x, y, L = rngpair(rng, nb, bad, neg=False)
            if L is not None: a = b[x:x + L]; r = 'slice'
        elif op == 10:
            x = rng.choice([0, 1, 5]) if not bad else -1
            if x >= 0: r = 'proto ' + tn + show([-1] * x)
        elif op == 11: a, b = b, a; r = 'swap'
        elif op == 12:
            x = rng.randrange(0, max(na, 1)) if not bad else rng.choice([-1, na]); y = rng.randrange(-1, np)
            if 0 <= x < na: a[x] = y; r = 'set'
        elif op == 13:
            x, y, L = rngpair(rng, nb, bad)
            if L is not None: r = 'copy ' + tn + show(b[x:x + L])
        elif op == 14:
            x = rng.choice([-9, -9, rng.randrange(0, np)])
            if x not in b: r = 'grep ' + tn + show([e for e in b if e & 1 == 0])
        elif op == 15:
            x = rng.choice([-9, -9, rng.randrange(0, np)])
            if x not in b: r = 'map ' + tn + show([e - 1 if e >= 1 else -1 for e in b])
        elif op == 16: r = 'expand ' + tn + show([e for e in b for _ in range(e + 1 & 3)])
        elif op == 17:
            if na % 2 == 0 and nb % 2 == 0: r = 'options' + show(a + b)
        elif op == 18: q = list(map(val, a)) == list(map(val, b)); r = 'deep %d%d' % (q, q)
        elif op == 19:
            if kind == 'object':
                if any(e >= 0 for e in b): op = 8; a = a[::-1]; r = 'reverse'
                else: r = 'reverse '
            else:
                if -1 in b: op = 8; a = a[::-1]; r = 'reverse'
                else: r = 'reverse ' + ','.join(map(name, b[::-1]))
        elif op == 20:
            x = rng.randrange(-1, np); y = rng.choice([0, 3]) if not bad else -1
            if x >= 0 and y >= 0: r = 'element %s %d' % (tn, y)
        elif op == 21:
            x = rng.randrange(13)
            if x == 11: r = 'undef into'
            if x == 12 and na and a[0] != -1: x = 0
            if x == 12 and na: x = 1
        elif op == 22:
            if kind == 'object': r = 'any' + show(b)
            else:
                x, y, L = rngpair(rng, nb, bad)
                if L is not None:
                    ud = lambda l: ''.join(' ' + (name(e) if e >= 0 else '-') for e in l)
                    r = 'copy ' + ud(b[x:x + L]) + '\n' + ud(b[x:x + L] * 2)
        data += [op, x, y, z, w]
        exp += [[r or 'X', show(a), show(b), ''.join('%d ' % (2 + a.count(i) + b.count(i)) for i in range(np))]]
    body = '    ' + chunks('$d', ' '.join(map(str, data))) + '\n    %s->start(%d, $d);' % (C, np)
    flat = []; owner = []
    for i, e in enumerate(exp):
        for l in e:
            for q in (l.split('\n') if isinstance(l, str) else [l]): flat.append(q); owner.append(i)
    flat.append('end'); owner.append(-1)
    def judge(o):
        for i, (g, w) in enumerate(zip(o.lines + ['(end)'] * max(0, len(flat) - len(o.lines)), flat)):
            if isinstance(w, tuple): ok = g.split(' ')[0] == w[0] and sorted(g.split(' ')[1:]) == w[1]
            else: ok = g == w
            if not ok: return 'line %d (op %s): got %r, model says %r' % (i, data[5 * owner[i]:5 * owner[i] + 5], g[-300:], w)
        return None if len(o.lines) == len(flat) else 'extra output %r' % o.lines[len(flat):][:4]
    c = Case(key, body, judge); c.meta = steps
    return c

def check(ck):
    ck.rule = ('one evaluation = one random history of 20-120 Array/Fn memory operations on two arrays of one element type (6 numeric types, 2 multi-numeric types, objects, strings), a quarter with illegal ranges; after every operation its result, the contents '
               'of both arrays (bit for bit) and, for objects, the reference count of every element are compared with a model; distinct = history x engine')
    drv = vp.build_driver('asan')
    rng = ck.rng
    for T in TYPES:
        cases = [num_history(rng, T, '%s %d' % (T, i), rng.choice([20, 60, 120])) for i in range(ck.n(60, 1500))]
        for c in cases: ck.count('steps', c.meta)
        ck.sample(cases[0].body[:600])
        run_and_judge(ck, drv, cases, per=20, modes=('vm',), uses='use XArr_%s;' % T, files=FILES)
        run_and_judge(ck, drv, cases[:ck.n(6, 100)], per=50, modes=('pre',), uses='use XArr_%s;' % T, files=FILES, pre_opt='-O1')
    for kind in ('object', 'string'):
        C = 'XObjA' if kind == 'object' else 'XStrA'
        cases = [obj_history(rng, kind, '%s %d' % (kind, i), rng.choice([20, 60, 120])) for i in range(ck.n(120, 3000))]
        for c in cases: ck.count('steps', c.meta)
        run_and_judge(ck, drv, cases, per=20, modes=('vm',), uses='use %s;' % C, files=FILES)
        run_and_judge(ck, drv, cases[:ck.n(10, 150)], per=50, modes=('pre',), uses='use %s;' % C, files=FILES, pre_opt='-O1')
    ck.assumptions = ['memcpy functions are given ranges that do not overlap', 'a range of no elements that starts outside the array is left open (the document and the code disagree)',
                      'shuffle: only that the result is a permutation is judged', 'AddressSanitizer watches the runtime']

vp.main('D05', check)

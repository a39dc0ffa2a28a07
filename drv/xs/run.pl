# Random histories over the exchange API with a model of every value on the Perl side.
# usage: run.pl SEED ROUNDS [TRACE]
use strict; no warnings;
use SPVM 'TX'; use SPVM 'TX::C'; use SPVM 'TX::D'; use SPVM 'TX::E'; use SPVM 'Int';
use SPVM::ExchangeAPI::Error;
my ($seed, $rounds, $tracefile) = @ARGV;
srand($seed);
my $api = SPVM::api();
my ($T) = (undef);
if ($tracefile) { open $T, '>', $tracefile or die; my $o = select $T; $| = 1; select $o; }
my (%cnt, @log);
my $bad = 0;
sub trace { my $m = shift; push @log, $m; print $T "$m\n" if $T; }
sub bad { my ($k, $d) = @_; $d =~ s/[\n\t]/ /g; $d =~ s/[^\x20-\x7e]/?/g; my @l = @log > 12 ? @log[-12..-1] : @log; s/[\n\t]/ /g, s/[^\x20-\x7e]/?/g for @l; print "BAD\t$k\t" . substr($d, 0, 600) . "\tafter: " . substr(join(' ; ', @l), 0, 1500) . "\n"; $bad++; }
sub r { int(rand(shift)) }
sub pick { $_[r(scalar @_)] }
sub q_ { my $v = shift; return 'undef' unless defined $v; if (ref $v eq 'ARRAY') { return '[' . join(',', map { q_($_) } @$v) . ']' } if (ref $v eq 'HASH') { return '{' . join(',', map { "$_=>" . q_($v->{$_}) } sort keys %$v) . '}' } if (ref $v) { return ref $v } my $s = "$v"; $s = substr($s, 0, 40); $s =~ s/([^\x20-\x7e])/sprintf '\\x{%x}', ord $1/ge; $s }

my @NT = qw(byte short int long float double);
my %C = (byte=>'b', short=>'s', int=>'i', long=>'l', float=>'f', double=>'d');
my %PK = (byte=>'c', short=>'s', int=>'l', long=>'q', float=>'f', double=>'d');
my %UPK = (byte=>'C', short=>'S', int=>'L', long=>'Q');
my %W = (byte=>1, short=>2, int=>4, long=>8, float=>4, double=>8);

sub iv { my $v = shift; my $n = 0 + $v; return $n if $n == 0; return int($n); }
# the value a Perl scalar has as an SPVM number, packed
sub conv { my ($t, $v) = @_;
  return pack($PK{$t}, $v) if $t eq 'float' || $t eq 'double';
  my $i = iv($v);
  my $q = pack('q', $i);
  return substr($q, 0, $W{$t}); }
sub uconv { my ($t, $v) = @_; my $i = iv($v); my $q = $i < 0 ? pack('q', $i) : pack('Q', $i); return substr($q, 0, $W{$t}); }
sub unp { my ($t, $b) = @_; return unpack($PK{$t}, $b); }
sub same { my ($t, $got, $b) = @_; return 0 if !defined $got || ref $got; my $g = pack($PK{$t}, $got); return 1 if $g eq $b; if ($t eq 'float' || $t eq 'double') { my $e = unp($t, $b); return 1 if $e != $e && $got != $got; } return 0; }
sub gen_num { my $t = shift;
  my $k = r(14);
  if ($t eq 'float' || $t eq 'double') {
    return pick(0, -0.0, 1, -1, 0.5, 1e300, -1e-300, 9**9**9, -9**9**9, -sin(9**9**9), 3.4028234e38, 1.17549435e-38, 1e-45, 16777217, '1.5', '-2e3', 'abc', 12345678901) if $k < 6;
    return (rand() - 0.5) * 10 ** (r(40) - 20) if $k < 12;
    return r(2000) - 1000;
  }
  return pick(0, 1, -1, 127, 128, -128, -129, 255, 256, 32767, 32768, -32768, -32769, 65535, 65536, 2147483647, 2147483648, -2147483648, -2147483649, 4294967295, 4294967296, 9223372036854775807, -9223372036854775807-1) if $k < 6;
  return pick('12', '-7', '3.9', '-3.9', ' 5', '1e3', '12abc', 'x', '', 3.99, -3.99, 1e10, -1e15, '9223372036854775807', !!1, !!0, '0x10', '+8') if $k < 9;
  my $v = r(1 << 31); $v = ($v << 31) | r(1 << 31) if r(2); return r(2) ? $v : -$v; }
sub gen_chars { my $n = pick(0, 0, 1, 2, 3, 8, 15, 16, 17, 100, 1000);
  my $m = r(5); my $s = '';
  for (1 .. $n) { $s .= $m == 0 ? chr(97 + r(26)) : $m == 1 ? chr(r(256)) : $m == 2 ? chr(pick(0, 0x41, 0xe9, 0x3042, 0x1f600, 0x7ff, 0x800)) : $m == 3 ? pick("\0", "a", "\n", "\xff") : chr(32 + r(95)); }
  return $s; }
sub gen_str { my $k = r(12); return undef if $k == 0; return gen_num('int') if $k == 1; return gen_num('double') if $k == 2; return gen_chars(); }
sub bytes_of { my $s = shift; return undef unless defined $s; my $c = "$s"; utf8::encode($c) if utf8::is_utf8($c); return $c; }

# ---- calls
my $who = 0;
my %sig;
sub kind { my $v = shift; return 'undef' unless defined $v; return ref($v) . (ref $v eq 'ARRAY' ? (@$v > 8 ? '9+' : scalar @$v) : '') if ref $v; return $v =~ /^-?\d+$/ ? 'i' . length $v : $v =~ /^-?[\d.]+(e|$)/ ? 'n' : (utf8::is_utf8($v) ? 'u' : 's') . (length $v > 16 ? '17+' : length $v) }
sub call { my ($m, @a) = @_; $cnt{calls}++; $sig{join ' ', $m, map { kind($_) } @a}++; trace("$m(" . join(', ', map { q_($_) } @a) . ")"); my $k = r(2); my @r;
  my $w = r(3);
  if ($w == 0) { no strict 'refs'; @r = scalar "SPVM::TX"->$m(@a); }
  else { @r = scalar $api->call_method('TX', $m, @a); }
  return $r[0]; }
sub try { my ($f, @a) = @_; my $r; local $@; my $ok = eval { $r = $f->(@a); 1 }; return $ok ? (1, $r) : (0, $@); }
sub must { my ($key, $f) = @_; my ($ok, $r) = try($f); if (!$ok) { bad("$key:throws", $r); return undef; } return $r; }
sub must_throw { my ($key, $re, $f) = @_; $cnt{expected_exceptions}++; my ($ok, $r) = try($f); if ($ok) { bad("$key:accepted", 'returned ' . q_($r)); return; } if (defined $re && $r !~ $re) { bad("$key:message", $r); } }
sub chk { my ($key, $cond, $d) = @_; $cnt{checks}++; bad($key, $d) unless $cond; }

sub arr_bin { my ($t, @v) = @_; return join '', map { conv($t, $_) } @v; }
sub chk_arr { my ($key, $t, $o, $bin) = @_;
  if (!defined $bin) { chk("$key:undef", !defined $o, q_($o)); return; }
  if (ref $o ne 'SPVM::BlessedObject::Array') { bad("$key:class", ref $o); return; }
  my $n = length($bin) / $W{$t};
  chk("$key:length", $o->length == $n, $o->length . " expected $n");
  my $b = $o->to_bin;
  if ($b ne $bin) { my $nanok = ($t eq 'float' || $t eq 'double') && length $b == length $bin; if ($nanok) { for my $i (0 .. $n - 1) { my ($x, $y) = (substr($b, $i * $W{$t}, $W{$t}), substr($bin, $i * $W{$t}, $W{$t})); my ($p, $q) = (unp($t, $x), unp($t, $y)); $nanok = 0 unless $x eq $y || ($p != $p && $q != $q); } } bad("$key:bytes", unpack('H*', $b) . ' expected ' . unpack('H*', $bin)) unless $nanok; }
  my $e = $o->to_elems;
  chk("$key:elems_count", @$e == $n, scalar @$e);
  for my $i (0 .. $n - 1) { my $x = substr($bin, $i * $W{$t}, $W{$t}); unless (same($t, $e->[$i], $x)) { bad("$key:elem", "index $i: " . q_($e->[$i])); last } }
  $cnt{array_elems} += $n;
  if ($n) { my $i = r($n); chk("$key:get", same($t, $o->get($i), substr($bin, $i * $W{$t}, $W{$t})), "index $i"); }
  must_throw("$key:get_range", qr/index/, sub { $o->get($n) }) if r(8) == 0;
  must_throw("$key:get_range", qr/index/, sub { $o->get(-1) }) if r(8) == 0;
}
sub chk_str { my ($key, $o, $bytes) = @_;
  if (!defined $bytes) { chk("$key:undef", !defined $o, q_($o)); return; }
  if (ref $o ne 'SPVM::BlessedObject::String') { bad("$key:class", q_($o)); return; }
  my $b = $o->to_bin;
  chk("$key:bytes", !utf8::is_utf8($b) && $b eq $bytes, unpack('H*', bytes_of($b)) . ' expected ' . unpack('H*', $bytes));
  my $c = $bytes; my $valid = utf8::decode($c);
  my ($ok, $s) = try(sub { $o->to_string });
  if ($valid) { chk("$key:to_string", $ok && $s eq $c, q_($s)); my ($ok2, $s2) = try(sub { "$o" }); chk("$key:stringify", $ok2 && $s2 eq $c, q_($s2)); }
  else { chk("$key:invalid_utf8", !$ok, 'to_string accepted ' . unpack('H*', $bytes)); }
  $cnt{strings}++;
}
sub gen_arr { my $t = shift; my $n = pick(0, 1, 2, 3, 7, 8, 9, 40); return map { gen_num($t) } 1 .. $n; }
sub gen_mul { my $t = shift; return { x => gen_num($t), y => gen_num($t), z => gen_num($t) }; }
sub mulbin { my ($t, $h) = @_; return join '', map { conv($t, $h->{$_}) } qw(x y z); }
sub chk_mul { my ($key, $t, $h, $bin) = @_; if (ref $h ne 'HASH') { bad("$key:class", q_($h)); return; } chk("$key:keys", join(',', sort keys %$h) eq 'x,y,z', join ',', keys %$h); my $i = 0; for my $f (qw(x y z)) { my $x = substr($bin, $W{$t} * $i++, $W{$t}); chk("$key:$t", same($t, $h->{$f}, $x), "$f: " . q_($h->{$f}) . ' expected ' . unp($t, $x)); } }

# ---- objects Perl holds
my @held;       # [blessed, model]  model = {x, s, d, next, cls, id}
my @arrs;                       # [blessed, type, \bin]
my @strs;                       # [blessed, bytes]
sub chk_obj { my ($o, $m, $key) = @_; chk("$key:x", $o->x == $m->{x}, $o->x . " expected $m->{x}"); chk_str("$key:s", $o->s, $m->{s}); chk("$key:tag", $o->tag->to_bin eq ($m->{cls} eq 'D' ? 'D:' : 'C:') . $m->{x}, 'tag'); chk("$key:d", $o->d == $m->{d}, $o->d); $cnt{object_checks}++; }
sub model_sum { my $m = shift; my $r = $m->{x}; my $o = $m->{next}; my $n = 0; while ($o && $n < 20) { $r += $o->{x}; $o = $o->{next}; $n++ } return $r; }

my @ops;
push @ops, sub { my $t = pick(@NT); my $v = gen_num($t); my $b = conv($t, $v); my $g = must("id_$t", sub { call("id_$t", $v) }); chk("id_$t", same($t, $g, $b), q_($v) . ' -> ' . q_($g)) if defined $g;
  my $m = must("eq_$t", sub { call("eq_$t", $v, $api->can("new_${t}_array_from_bin")->($api, $b)) }); chk("eq_$t", $m, q_($v) . ' is another value inside SPVM') if defined $m; };
push @ops, sub { my $s = gen_str(); my $b = bytes_of($s); chk_str('id_string', must('id_string', sub { call('id_string', $s) }), $b); chk_str('new_string', must('new_string', sub { $api->new_string($s) }), $b); if (defined $b) { chk_arr('bytes', 'byte', must('bytes', sub { call('bytes', $s) }), $b); } else { chk('isundef', call('isundef', undef) == 1, '') } };
push @ops, sub { my ($x, $y) = (gen_chars(), gen_chars()); my $o = r(2) ? $api->new_string($y) : $y; chk_str('cat', must('cat', sub { call('cat', $x, $o) }), bytes_of($x) . bytes_of($y)); };
push @ops, sub { my $b = bytes_of(gen_chars()); chk_str('mkstr', must('mkstr', sub { call('mkstr', $api->new_byte_array_from_bin($b)) }), $b); };
push @ops, sub { my $t = pick(@NT); my @v = gen_arr($t); my $a = r(10) ? [@v] : undef; my $b = defined $a ? arr_bin($t, @v) : undef;
  my $k = r(4);
  if ($k == 0) { chk_arr("new_${t}_array", $t, must("new_${t}_array", sub { $api->can("new_${t}_array")->($api, $a) }), $b); }
  elsif ($k == 1) { my $o = must("new_${t}_array", sub { $api->can("new_${t}_array")->($api, $a) }); chk_arr("ida_$t", $t, must("ida_$t", sub { call("ida_$t", $o) }), $b); }
  elsif ($k == 2) { chk_arr("rev_$t", $t, must("rev_$t", sub { call("rev_$t", $a) }), defined $b ? arr_bin($t, reverse @v) : undef); }
  else { chk_arr("ida_$t", $t, must("ida_$t", sub { call("ida_$t", $a) }), $b); } };
push @ops, sub { my $t = pick(qw(byte short int long)); my @v = map { pick(0, 1, 127, 128, 200, 255, 256, 32768, 65535, 2147483648, 4294967295, 18446744073709551615, 9223372036854775808, r(1 << 31), -1) } 1 .. r(6); my $b = join '', map { uconv($t, $_) } @v; chk_arr("new_${t}_array_unsigned", $t, must("new_${t}_array_unsigned", sub { $api->can("new_${t}_array_unsigned")->($api, \@v) }), $b); };
push @ops, sub { my $t = pick(@NT); my $n = pick(0, 1, 2, 5, 33); chk_arr("new_${t}_array_len", $t, must("new_${t}_array_len", sub { $api->can("new_${t}_array_len")->($api, $n) }), "\0" x ($n * $W{$t})); must_throw("new_${t}_array_len:neg", qr/length/, sub { $api->can("new_${t}_array_len")->($api, -1 - r(5)) }); };
push @ops, sub { my $t = pick(@NT); my $b = join '', map { chr r(256) } 1 .. r(8) * $W{$t}; utf8::upgrade(my $ub = $b) if 0; chk_arr("new_${t}_array_from_bin", $t, must("from_bin_$t", sub { $api->can("new_${t}_array_from_bin")->($api, $b) }), $b);
  if ($W{$t} > 1) { my $odd = 'x' x (r(6) * $W{$t} + 1 + r($W{$t} - 1)); must_throw("new_${t}_array_from_bin:len", qr/divisible/, sub { $api->can("new_${t}_array_from_bin")->($api, $odd) }); } must_throw("new_${t}_array_from_bin:undef", qr/binary/, sub { $api->can("new_${t}_array_from_bin")->($api, pick(undef, [])) }); };
push @ops, sub { my $t = pick(@NT); my $c = $C{$t}; my $h = gen_mul($t); chk_mul("id_m$c", $t, must("id_m$c", sub { call("id_m$c", $h) }), mulbin($t, $h)); chk_mul("rot_m$c", $t, must("rot_m$c", sub { call("rot_m$c", $h) }), mulbin($t, { x => $h->{y}, y => $h->{z}, z => $h->{x} })); my $k = r(3); my $g = must("pick_m$c", sub { call("pick_m$c", 4, $h, 5, $k) }); my $e = conv($t, $h->{(qw(x y z))[$k]}); chk("pick_m$c", same($t, $g, $e), q_($g)) if defined $g; };
push @ops, sub { my $t = pick(@NT); my $c = $C{$t}; my @h = map { gen_mul($t) } 1 .. r(6); my $bin = join '', map { mulbin($t, $_) } @h; my $k = r(4);
  my $o = $k == 0 ? must("new_mulnum_array:$t", sub { $api->new_mulnum_array("TX::V_3${c}[]", \@h) }) : $k == 1 ? must("new_mulnum_array_from_bin:$t", sub { $api->new_mulnum_array_from_bin("TX::V_3${c}[]", $bin) }) : must("ida_m$c", sub { call("ida_m$c", \@h) });
  return unless $o; chk("mulnum_array:$t:length", $o->length == @h, $o->length); my $nan = ($t eq 'float' || $t eq 'double'); chk("mulnum_array:$t:bytes", $o->to_bin eq $bin, unpack 'H*', $o->to_bin) unless $nan; my $e = $o->to_elems; for my $i (0 .. $#h) { chk_mul("mulnum_array:$t:elem", $t, $e->[$i], mulbin($t, $h[$i])); }
  if (@h) { my $i = r(scalar @h); chk_mul("at_m$c", $t, must("at_m$c", sub { call("at_m$c", $o, $i) }), mulbin($t, $h[$i])); }
  must_throw("mulnum_array:missing", qr/key/, sub { $api->new_mulnum_array("TX::V_3${c}[]", [@h, { x => 1, z => 3 }]) }) if r(4) == 0; must_throw("mulnum_array:elem", qr/hash/, sub { call("ida_m$c", [@h, pick(3, undef, [])]) }) if r(4) == 0; must_throw("mulnum_array:len", qr/divisible/, sub { $api->new_mulnum_array_from_bin("TX::V_3${c}[]", "x" x ($W{$t} * 3 + 1)) }) if r(6) == 0; };
push @ops, sub { my $t = pick(@NT); my $c = $C{$t}; my ($p, $q) = (gen_num($t), gen_num($t)); my ($x, $y) = ($p, $q); must("ref_$t", sub { call("ref_$t", \$x, $q) }); chk("ref_$t", same($t, $x, conv($t, $q)), q_($x) . ' expected ' . q_($q));
  ($x, $y) = ($p, $q); my $g = must("swap_$t", sub { call("swap_$t", 40, \$x, "abc", \$y) }); chk("swap_$t:ret", $g == 43, q_($g)); chk("swap_$t:first", same($t, $x, conv($t, $q)), q_($x)); chk("swap_$t:second", same($t, $y, conv($t, $p)), q_($y));
  my $h = gen_mul($t); my $v = gen_mul($t); my $hb = mulbin($t, { x => $v->{z}, y => $h->{z}, z => $h->{y} }); $g = must("refm_$c", sub { call("refm_$c", 12, \$h, $v) }); chk("refm_$c:ret", $g == 12, q_($g)); chk_mul("refm_$c", $t, $h, $hb); };
push @ops, sub { my @v = map { gen_str() } 1 .. r(6); my $j = join '', map { defined $_ ? '<' . bytes_of($_) . '>' : 'U' } @v; chk_str('join_sa', must('join_sa', sub { call('join_sa', \@v) }), $j); my $o = must('new_string_array', sub { r(2) ? $api->new_string_array(\@v) : call('id_sa', \@v) }); return unless $o; my $e = $o->to_elems; chk('string_array:count', @$e == @v && $o->length == @v, scalar @$e); chk_str('string_array:elem', $e->[$_], bytes_of($v[$_])) for 0 .. $#v; unless (grep { !defined } @v) { my $bb = $o->to_bins; chk('to_bins', join('|', @$bb) eq join('|', map { bytes_of($_) } @v), q_($bb)); } chk_str('string_array:get', $o->get($_), bytes_of($v[$_])) for 0 .. $#v;
  if (@v) { my $i = r(scalar @v); my $s = gen_chars(); must('string_array:set', sub { $o->set($i, $api->new_string($s)) }); chk_str('string_array:set', $o->get($i), bytes_of($s)); must_throw('string_array:set_type', undef, sub { $o->set($i, $api->new_int_array([1])) }); must('string_array:set_undef', sub { $o->set($i, undef) }); chk('string_array:set_undef', !defined $o->get($i), ''); } };
push @ops, sub { my @r = map { r(4) ? [ map { gen_num('int') } 1 .. r(5) ] : undef } 1 .. r(5); my $o = must('new_muldim_array', sub { $api->new_muldim_array('int[][]', [ map { defined $_ ? $api->new_int_array($_) : undef } @r ]) }); return unless $o; my $back = must('id_i2', sub { call('id_i2', $o) }); return unless $back; chk('muldim:length', $back->length == @r, ''); my $e = $back->to_elems; chk_arr('muldim:elem', 'int', $e->[$_], defined $r[$_] ? arr_bin('int', @{$r[$_]}) : undef) for 0 .. $#r; chk_arr('muldim:get', 'int', $back->get($_), defined $r[$_] ? arr_bin('int', @{$r[$_]}) : undef) for 0 .. $#r;
  my $sum = 0; { use integer; for my $x (@r) { $sum += unpack('l', conv('int', $_)) for @{ $x || [] } } } my $k = r(100); my $g = must('sum_i2', sub { call('sum_i2', $o, $k) }); chk('sum_i2', $g == $sum * 1000 + $k * 10 + 7, "$g"); $g = must('sum_i2:all', sub { call('sum_i2', $o, $k, 'abc', 3) }); chk('sum_i2:all', $g == $sum * 1000 + $k * 10 + 3, "$g");
  must_throw('muldim:elem_type', qr/assignable/, sub { $api->new_muldim_array('int[][]', [ $api->new_long_array([1]) ]) }); must_throw('muldim:elem_scalar', undef, sub { $api->new_muldim_array('int[][]', [ [1, 2] ]) }); must_throw('muldim:type', qr/assignable/, sub { call('id_i2', $api->new_muldim_array_len('long[][]', 2)) }); };
push @ops, sub { my @r = map { r(4) ? [ map { gen_chars() } 1 .. r(4) ] : undef } 1 .. r(4); my $o = must('new_muldim_array:string', sub { $api->new_muldim_array('string[][]', [ map { defined $_ ? $api->new_string_array($_) : undef } @r ]) }); return unless $o; $o = must('id_s2', sub { call('id_s2', $o) }); my $e = must('string2:to_elems', sub { $o->to_elems }); for my $i (0 .. $#r) { for my $x ($e->[$i], $o->get($i)) { if (!defined $r[$i]) { chk('string2:undef', !defined $x, q_($x)); next } if (ref $x ne 'SPVM::BlessedObject::Array') { bad('string2:elem_class', ref $x); next } my $g = $x->to_bins; chk('string2:elem', join("\1", @$g) eq join("\1", map { bytes_of($_) } @{$r[$i]}), q_($g)); } } };
push @ops, sub { my @v = map { [ map { gen_num('double') } 1 .. r(3) ] } 1 .. r(4); my $o = must('double3', sub { $api->new_muldim_array('double[][][]', [ map { $api->new_muldim_array('double[][]', [ $api->new_double_array($_), undef ]) } @v ]) }); return unless $o; my $b = must('id_d3', sub { call('id_d3', $o) }); for my $i (0 .. $#v) { my $x = $b->get($i); chk('double3:len', $x->length == 2, ''); chk_arr('double3', 'double', $x->get(0), arr_bin('double', @{$v[$i]})); chk('double3:undef', !defined $x->get(1), ''); } };
push @ops, sub { my $k = r(3); my $n = pick(0, 1, 2, 7); my $key = ('new_any_object_array_len', 'new_object_array_len', 'new_string_array_len')[$k];
  my $o = must($key, sub { $k == 0 ? $api->new_any_object_array_len($n) : $k == 1 ? $api->new_object_array_len('TX::C[]', $n) : $api->new_string_array_len($n) }); return unless $o;
  chk("$key:length", $o->length == $n, $o->length); my @m = (undef) x $n;
  for (1 .. r(6)) { my $i = r($n + 2) - 1; my $what = r(4); my ($v, $b);
    if ($what == 0) { $v = undef } elsif ($what == 1) { $b = gen_chars(); $b = bytes_of($b); $v = $api->new_string($b); } elsif ($what == 2) { $v = SPVM::TX::C->new(5, 'x'); $b = 'C' } else { $v = $api->new_int_array([1, $i]); $b = 'I' }
    my $fits = !defined $v || $k == 0 || ($k == 1 && $what == 2) || ($k == 2 && $what == 1);
    if ($i < 0 || $i >= $n) { must_throw("$key:set_range", qr/index/, sub { $o->set($i, $v) }); next; }
    if (!$fits) { must_throw("$key:set_type", qr/assigned/, sub { $o->set($i, $v) }); next; }
    must("$key:set", sub { $o->set($i, $v); 1 }); $m[$i] = $b; }
  my $b = $k == 2 ? $o : must("$key:id_oa", sub { call(pick('id_oa', 'id_object'), $o) }); return unless $b; my $e = $b->to_elems; chk("$key:count", @$e == $n, scalar @$e);
  for my $i (0 .. $n - 1) { my $x = r(2) ? $b->get($i) : $e->[$i]; if (!defined $m[$i]) { chk("$key:undef", !defined $x, "index $i: " . q_($x)); } elsif ($m[$i] eq 'C' && ref $x eq 'SPVM::BlessedObject::Class') { chk("$key:class", $x->sum == 5, 'x') if ref $x; } elsif ($m[$i] eq 'I' && ref $x eq 'SPVM::BlessedObject::Array') { chk_arr("$key:int", 'int', $x, pack('l*', 1, $i)); } else { chk_str("$key:string", $x, $m[$i]); } } };
push @ops, sub { my @v = map { my $w = r(4); $w == 0 ? undef : $w == 1 ? $api->new_string(bytes_of(gen_chars())) : $w == 2 ? SPVM::TX::C->new(3, 'y') : $api->new_double_array([0.5]) } 1 .. r(5); my $o = must('new_any_object_array', sub { r(2) ? $api->new_any_object_array(\@v) : $api->new_object_array('object[]', \@v) }); return unless $o; my $e = $o->to_elems;
  chk('new_any_object_array:count', @$e == @v, scalar @$e); for my $i (0 .. $#v) { chk('new_any_object_array:elem', ref $e->[$i] eq ref $v[$i] && (!defined $v[$i] || ref $v[$i] ne 'SPVM::BlessedObject::String' || $v[$i]->to_bin eq $e->[$i]->to_bin), "index $i: " . q_($e->[$i])); } };
push @ops, sub { my $w = r(6); my $o = $w == 0 ? undef : $w == 1 ? $api->new_string(bytes_of(gen_chars())) : $w == 2 ? SPVM::TX::C->new(r(100), bytes_of(gen_chars())) : $w == 3 ? $api->new_int_array([map { gen_num('int') } 1 .. r(5)]) : $w == 4 ? $api->new_string_array([map { gen_str() } 1 .. r(5)]) : $api->new_any_object_array([SPVM::TX::C->new(1), undef, $api->new_long_array([1, -1])]);
  my $x = must('dump', sub { $api->dump($o) }); my $y = must('dmp', sub { call('dmp', $o) }); return unless $x && $y; chk('dump', ref $x eq 'SPVM::BlessedObject::String' && $x->to_bin eq $y->to_bin, q_($x->to_bin) . ' expected ' . q_($y->to_bin)); };
push @ops, sub { my $n = r(6); my $o = must('mk2', sub { call('mk2', $n) }); my $e = $o->to_elems; for my $i (0 .. $n - 1) { chk_arr('mk2', 'int', $e->[$i], pack('l*', map { $i * 10 + $_ } 0 .. $i - 1)); } };
push @ops, sub { my $s = gen_chars(); my $o = must('mixed', sub { call('mixed', $s) }); return unless $o; my $e = must('mixed:to_elems', sub { $o->to_elems }); for my $way (0, 1) { my @x = $way ? map { $o->get($_) } 0 .. 6 : @$e; my $w = $way ? 'get' : 'to_elems'; chk_str("mixed:$w:string", $x[0], bytes_of($s)); chk("mixed:$w:undef", !defined $x[1], q_($x[1])); chk("mixed:$w:int", ref $x[2] eq 'SPVM::BlessedObject::Class' && $x[2]->value == 3, q_($x[2])); chk("mixed:$w:class", ref $x[3] eq 'SPVM::BlessedObject::Class' && $x[3]->x == 8, q_($x[3])); if (ref $x[4] eq 'SPVM::BlessedObject::Array') { chk_arr("mixed:$w:array", 'int', $x[4], pack 'l2', 0, 0); } else { bad("mixed:$w:array_class", ref $x[4]); } if (ref $x[5] eq 'SPVM::BlessedObject::Array') { chk("mixed:$w:object_array", $x[5]->length == 2, ''); chk_str("mixed:$w:object_array_elem", $x[5]->get(1), bytes_of($s)); } else { bad("mixed:$w:array_class", ref $x[5]); } }
  my $i = r(7); my $g = must('at_oa', sub { call('at_oa', $o, $i) }); chk('at_oa', ref $g eq ('SPVM::BlessedObject::String', '', 'SPVM::BlessedObject::Class', 'SPVM::BlessedObject::Class', 'SPVM::BlessedObject::Array', 'SPVM::BlessedObject::Array', 'SPVM::BlessedObject::Array')[$i], ref $g); };
push @ops, sub { my ($a, $b, $s) = (r(100), r(100), gen_chars()); my @x = ($a); my $e; my $n = r(5); push @x, $b if $n > 0; push @x, $s if $n > 1; push @x, 2.25 if $n > 2; push @x, SPVM::TX::C->new(1) if $n > 3; $e = "$a," . ($n > 0 ? $b : 5) . ',' . ($n > 1 ? bytes_of($s) : 'U') . ',' . ($n > 2 ? 9 : 2) . ($n > 3 ? ',O' : ''); chk_str('opt', must('opt', sub { call('opt', @x) }), $e); };
push @ops, sub { my ($g, $h, $v) = (gen_chars(), [r(1000), 3], gen_mul('int')); my @n = map { r(100) - 50 } 1 .. 6; my $x = must('many', sub { call('many', @n, $g, $h, $v, pick(undef, 'str', $api->new_int_array([]))) }); my $e = $h->[0] + length(bytes_of($g)) + unpack('l', conv('int', $v->{x})) + unpack('l', conv('int', $v->{z})); $e += $_ for @n; chk('many', $x == $e, "$x expected $e") if defined $x; };
push @ops, sub { my $m = gen_chars(); $m = "E$m"; my $k = r(4); my $err = SPVM::ExchangeAPI::Error->new; my $use = r(2); my ($ok, $r) = try(sub { trace("fail(" . q_($m) . ", $k)"); $api->call_method('TX', 'fail', $m, $k, undef, $use ? $err : ()) }); if ($k == 3) { chk('fail:return', $ok && $r == 3, q_($r)); } else { chk('fail:throws', !$ok, ''); my $b = bytes_of($m); my $rb = bytes_of($r); my $r2 = $r; chk('fail:message', index($rb, $b) == 0 || index($r2, $b) == 0, q_($r) . ' expected ' . q_($m)) unless $ok; if ($use) { my $id = $err->id; my $cls = ('Error', 'Error::System', 'Error::NotSupported')[$k]; my $ids = $api->call_method('TX', 'eid', $k); chk('fail:error_id', $id == $ids, "$id expected $ids"); } my $ex = $api->get_exception; chk_str('fail:get_exception', $ex, $ex ? $ex->to_bin : undef); chk('fail:exception_text', $ex && index($ex->to_bin, $b) == 0, q_($ex)); } $cnt{spvm_exceptions}++; };
push @ops, sub { my ($n, $s) = (gen_num('int'), gen_chars()); $n = unpack 'l', conv('int', $n); my $cls = pick('C', 'C', 'D'); my $o = must('new', sub { "SPVM::TX::$cls"->new($n, $s) }); return unless $o; my $m = { x => $n, s => bytes_of($s), d => 0, cls => $cls }; push @held, [$o, $m]; };
for (1 .. 8) { push @ops, sub { return unless @held; my $h = pick(@held); my ($o, $m) = @$h; my $k = r(11);
  if ($k == 0) { my $x = r(1000); trace("set_x($x)"); must('set_x', sub { $o->set_x($x) }); $m->{x} = $x; }
  elsif ($k == 1) { my $s = gen_str(); must('set_s', sub { $o->set_s($s) }); $m->{s} = bytes_of($s); }
  elsif ($k == 2) { my $p = pick(@held); must('link', sub { $o->link($p->[0]) }); my $q = $p->[1]; my $cyc = 0; for (my $c = $q; $c; $c = $c->{next}) { if ($c == $m) { $cyc = 1; last } } if ($cyc) { $o->link(undef); delete $m->{next}; } else { $m->{next} = $q; } }
  elsif ($k == 3) { my $x = must('sum', sub { $o->sum }); chk('sum', $x == model_sum($m), "$x expected " . model_sum($m)); }
  elsif ($k == 4) { my $x = must('id_c', sub { call(pick('id_c', 'id_i', 'id_object'), $o) }); chk_obj($x, $m, 'id_c') if $x; push @held, [$x, $m] if $x && r(2); }
  elsif ($k == 5) { my $x = must('add', sub { r(2) ? $o->add : $o->add(1) }); $m->{x} = unpack 'l', pack 'l', $m->{x} + 1; chk('add', $x == $m->{x}, "$x"); }
  elsif ($k == 6) { my $x = must('tag_i', sub { call('tag_i', $o) }); chk('tag_i', $x->to_bin eq "$m->{cls}:$m->{x}", q_($x->to_bin)) if $x; my $y = must('static call', sub { my $f = 'SPVM::TX::C::tag'; $api->call_method($o, 'TX::C::tag') }); chk('static_tag', $y->to_bin eq "C:$m->{x}", q_($y->to_bin)) if $y; }
  elsif ($k == 7) { my $d = gen_num('double'); $d = 0 if $d != $d; must('set_d', sub { $o->set_d($d) }); $m->{d} = 0 + $d; }
  elsif ($k == 8) { my $x = must('next', sub { $o->next }); if ($m->{next}) { chk_obj($x, $m->{next}, 'next') if $x; push @held, [$x, $m->{next}] if $x && r(2); } else { chk('next:undef', !defined $x, q_($x)); } }
  elsif ($k == 9) { my $x = must('me', sub { $o->me }); push @held, [$x, $m] if $x; }
  else { must_throw('class method by instance', qr/not found/, sub { $o->live }); must_throw('unknown method', qr/not found/, sub { $o->nothing }); must_throw('static call to another class', undef, sub { $api->call_method($o, 'TX::E::new') }); }
  chk_obj($o, $m, 'held'); }; }
our $L0 = 0;
sub reach { my %s; my @w = map { $_->[1] } @held; while (@w) { my $m = pop @w; next if $s{$m}++; push @w, $m->{next} if $m->{next}; } return scalar keys %s; }
for (1 .. 3) { push @ops, sub { return unless @held > 3; for (1 .. 1 + r(3)) { splice @held, r(scalar @held), 1; my ($g, $e) = (SPVM::TX::C->live - $L0, reach()); chk('release', $g == $e, "$g objects alive, $e reachable"); $cnt{release_checks}++; } }; }
push @ops, sub { my @p = map { r(4) && @held ? pick(@held) : undef } 1 .. r(5); my @o = map { $_ ? $_->[0] : undef } @p; my $s = 0; $s += $_ ? $_->[1]{x} : 0 for @p; my $a = must('new_object_array', sub { r(2) ? $api->new_object_array('TX::C[]', \@o) : \@o }); my $x = must('sum_ca', sub { call('sum_ca', $a) }); chk('sum_ca', $x == $s, "$x expected $s"); my $f = pick('id_ca', 'id_ia', 'id_oa'); my $b = must($f, sub { call($f, $a) }); return unless $b; my $e = $b->to_elems; for my $i (0 .. $#p) { if ($p[$i]) { chk_obj($e->[$i], $p[$i][1], 'object_array'); chk_obj($b->get($i), $p[$i][1], 'object_array:get'); } else { chk('object_array:undef', !defined $e->[$i] && !defined $b->get($i), ''); } }
  must_throw('object_array:elem_type', qr/assignable/, sub { $api->new_object_array('TX::C[]', [@o, SPVM::TX::E->new]) }); must_throw('object_array:elem_type', qr/assignable/, sub { $api->new_object_array('TX::D[]', [SPVM::TX::C->new]) }); must_throw('object_array:scalar', undef, sub { $api->new_object_array('TX::C[]', [@o, 3]) }); must_throw('object_array:arg', undef, sub { call('sum_ca', $api->new_string_array(['a'])) }); };
push @ops, sub { my %h = (a => $api->new_string('v'), b => SPVM::Int->new(7)); $h{c} = undef if r(2); my $o = must('new_options', sub { $api->new_options(\%h) }); return unless $o; my $x = must('opts', sub { call('opts', $o) }); my %e = (a => 'v', b => '#7', exists $h{c} ? (c => 'U') : ()); my %g = split /;/, $x->to_bin, -1; my @l = split /;/, $x->to_bin; my %got = @l; chk('new_options', join(',', map { "$_=$got{$_}" } sort keys %got) eq join(',', map { "$_=$e{$_}" } sort keys %e), $x->to_bin); };
push @ops, sub { my $t = pick(@NT); my @v = gen_arr($t); my $bin = arr_bin($t, @v); my $o = $api->can("new_${t}_array")->($api, \@v); push @arrs, [$o, $t, \$bin]; };
push @ops, sub { return unless @arrs; my $h = pick(@arrs); my ($o, $t, $b) = @$h; my $n = length($$b) / $W{$t}; my $k = r(5);
  if ($k == 0 && $n) { my $i = r($n); my $v = gen_num($t); trace("set($i, " . q_($v) . ")"); must("set_$t", sub { $o->set($i, $v) }); substr($$b, $i * $W{$t}, $W{$t}) = conv($t, $v); }
  elsif ($k == 1) { my $x = call("ida_$t", $o); push @arrs, [$x, $t, $b]; }
  elsif ($k == 2) { must_throw('set_range', qr/index/, sub { $o->set(pick($n, -1, $n + 5), 1) }); must_throw('array_type', undef, sub { call('ida_' . ($t eq 'int' ? 'long' : 'int'), $o) }); }
  elsif ($k == 3) { my $x = call('id_object', $o); chk_arr('id_object', $t, $x, $$b); }
  chk_arr("held_$t", $t, $o, $$b); };
push @ops, sub { splice @arrs, r(scalar @arrs), 1 while @arrs > 5; splice @strs, r(scalar @strs), 1 while @strs > 5; };
push @ops, sub { my $s = gen_chars(); push @strs, [$api->new_string($s), bytes_of($s)]; my $h = pick(@strs); chk_str('held_string', $h->[0], $h->[1]); chk_str('held_string:arg', call('id_string', $h->[0]), $h->[1]); chk_str('held_string:object', call('id_object', $h->[0]), $h->[1]); };
push @ops, sub { my $n = 1 + r(30); my ($l, $d) = (SPVM::TX::C->live, SPVM::TX::C->dead); my $o = must('chain', sub { call('chain', $n) }); return unless $o; my $k = r($n); my $x = $o; for (1 .. $k) { $x = $x->next; } undef $o; chk('chain:x', $x->x == $n - 1 - $k, $x->x); chk('chain:live', SPVM::TX::C->live == $l + $n - $k, SPVM::TX::C->live . " expected " . ($l + $n - $k)); chk('chain:dead', SPVM::TX::C->dead == $d + $k, ''); undef $x; chk('chain:all_destroyed', SPVM::TX::C->live == $l && SPVM::TX::C->dead == $d + $n, SPVM::TX::C->live . " expected $l"); };
push @ops, sub { my $v = call('void', 3); chk('void', !defined $v, q_($v)); };
my @wrong = ( ['id_int'], ['id_int', 1, 2], ['id_int', undef], ['id_int', []], ['id_int', {}], ['id_double', \1], ['id_byte', undef], ['id_string', []], ['id_string', {}], ['id_string', \"x"], ['id_string', 'a', 'b'], ['ida_int', 3], ['ida_int', 'abc'], ['ida_int', {}], ['ida_int', [1, undef]], ['ida_int', [1, []]], ['ida_long', [{}]], ['ida_byte', [undef]], ['ida_short', [\1]], ['ida_float', [1, undef]], ['ida_double', [[]]], ['id_mi', 3], ['id_mi', undef], ['id_mi', []], ['id_mi', { x => 1, y => 2 }], ['id_md', { x => 1, y => 2, zz => 3 }], ['ref_int', 3, 4], ['ref_int', [], 4], ['ref_int', undef, 4], ['refm_i', 1, { x => 1, y => 1, z => 1 }, { x => 1, y => 1, z => 1 }], ['refm_i', 1, \3, { x => 1, y => 1, z => 1 }], ['refm_i', 1, \{ x => 1, y => 1 }, { x => 1, y => 1, z => 1 }], ['id_object', 3], ['id_object', []], ['id_object', {}], ['id_c', 'abc'], ['id_c', 3], ['id_c', []], ['id_i', {}], ['id_sa', 'abc'], ['id_sa', [[]]], ['id_sa', ['a', {}]], ['id_oa', [3]], ['id_oa', ['str']], ['id_oa', 'x'], ['id_i2', [[1]]], ['id_i2', 3], ['id_i2', [3]], ['nothing'], ['opt'], ['opt', 1, 2, 'a', 0.5, undef, 6], ['many', 1, 2], ['sum_i2', undef], ['tag_i', undef], ['at_oa', undef, 0], ['ida_mi', [{ x => 1 }]], ['ida_mi', [3]], ['ida_mi', 5], ['fail_ref', \(my $fr = 1), 'EE'] );
for (1 .. 2) { push @ops, sub { my $w = pick(@wrong); my ($m, @a) = @$w; must_throw("wrong:$m(" . join(',', map { q_($_) } @a) . ")", undef, sub { trace("wrong $m"); $api->call_method('TX', $m, @a) }); }; }
push @ops, sub { my $w = pick('Nope', 'No::Such', 'TX::Nope_3i'); must_throw('unknown mulnum array', qr/not found/, sub { $api->new_mulnum_array_len($w . '[]', r(5)) }); must_throw('unknown object array', qr/not found/, sub { $api->new_object_array_len($w . '[]', r(5)) }); must_throw('unknown mulnum from bin', qr/not found/, sub { $api->new_mulnum_array_from_bin($w . '[]', '') }); };
push @ops, sub { must_throw('wrong object class', undef, sub { call('id_c', SPVM::TX::E->new) }); must_throw('wrong object class', undef, sub { call('id_i', SPVM::TX::E->new) }); must_throw('string for object', undef, sub { call('id_c', $api->new_string('a')) }); must_throw('array for string', undef, sub { call('id_string', $api->new_int_array([1])) }); must_throw('unknown class', undef, sub { $api->call_method('TX::Nope', 'x') }) if r(2); must_throw('instance method by class', qr/not found/, sub { $api->call_method('TX::C', 'tag') }); must_throw('new_object_array type', undef, sub { $api->new_object_array(pick('int[]', 'TX::C', 'TX::C[][]', 'Nope[]', '..'), []) }); must_throw('new_mulnum_array type', undef, sub { $api->new_mulnum_array(pick('int[]', 'TX::C[]', 'TX::V_3i', 'Nope_3i[]'), []) }); must_throw('new_muldim_array type', undef, sub { $api->new_muldim_array(pick('int[]', 'int', 'Nope[][]'), []) }); };
push @ops, sub { my $n = r(4); my $m = gen_chars(); $m = "X$m"; $api->set_exception($m); my $e = $api->get_exception; chk_str('get_exception', $e, bytes_of($m)); $api->set_exception(undef); chk('set_exception:undef', !defined $api->get_exception, ''); };

sub settle { @held = (); @arrs = (); @strs = (); $api->set_exception(undef); }
# warm up: everything that allocates once
for (1 .. 2) { SPVM::TX->opt(1); }
for (1 .. $rounds) {
  settle();
  my $base = $api->get_memory_blocks_count;
  my $l0 = $L0 = SPVM::TX::C->live;
  @log = ();
  my $n = $ENV{XS_STEP} || 120;
  for (1 .. $n) { my $op = pick(@ops); $cnt{ops}++; my ($ok, $e) = try($op); bad('uncaught', $e) unless $ok; last if $bad > 40; }
  # what Perl holds is alive
  for my $h (@held) { chk_obj($h->[0], $h->[1], 'end'); }
  $cnt{held_at_end} += @held;
  { my ($g, $e) = (SPVM::TX::C->live - $L0, reach()); chk('release', $g == $e, "$g objects alive, $e reachable"); }
  settle();
  my $l1 = SPVM::TX::C->live;
  chk('destroy', $l1 == $l0, "$l1 objects alive after all were dropped, $l0 at the start");
  my $now = $api->get_memory_blocks_count;
  chk('leak', $now == $base, "$now memory blocks, $base at the start of the round");
  last if $bad > 40;
}
print "CNT\t" . join(' ', map { "$_=$cnt{$_}" } sort keys %cnt) . "\n";
print "SIG\t$_\t$sig{$_}\n" for keys %sig;
print "DONE\n";

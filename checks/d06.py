import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import struct
from collections import Counter
import vp
from spvmrun import Case, run_and_judge

NUM = ['byte', 'short', 'int', 'long', 'float', 'double']
SHOW = {'float': 'Mon->float_bits($x->[$i])', 'double': 'Mon->double_bits($x->[$i])'}
CMPT = {'byte': 'int', 'short': 'int'}

def num_runner(T):
    C = CMPT.get(T, T)
    return '''class XSort_@T@ : public {
  use Sort; use Fn; use Mon; use Comparator::Int; use Comparator::Long; use Comparator::Float; use Comparator::Double;
  our $LEFT : int; our $N : int;
  static method state : string ($x : @T@[]) { my $r = ""; for (my $i = 0; $i < @$x; $i++) { if ($i) { $r .= " "; } $r .= @S@; } return $r; }
  static method job : void ($a : @T@[], $k : int, $o : int, $l : int, $s : int) {
    if ($k == 0) { Sort->sort_@T@_asc($a, $o, $l); }
    elsif ($k == 1) { Sort->sort_@T@_desc($a, $o, $l); }
    elsif ($k == 2) { Sort->sort_@T@($a, method : int ($p : @C@, $q : @C@) { my $x = (long)$p / 4; my $y = (long)$q / 4; if ($x < $y) { return -100; } elsif ($x > $y) { return 5; } return 0; }, $o, $l); }
    elsif ($k == 3) { $LEFT = $s; Sort->sort_@T@($a, method : int ($p : @C@, $q : @C@) { $LEFT--; if ($LEFT < 0) { die "enough"; } return $p <=> $q; }, $o, $l); }
    elsif ($k == 4) { $N = $s; Sort->sort_@T@($a, method : int ($p : @C@, $q : @C@) { $N = $N * 1103515245 + 12345; return ($N >> 16) % 3; }, $o, $l); }
    elsif ($k == 5) { Sort->sort_@T@_asc($a); }
    elsif ($k == 6) { Sort->sort_@T@_desc($a, $o); }
    elsif ($k == 7) { my $c = (@T@[])Fn->sort_asc($a); say "copy " . &state($c); }
    elsif ($k == 8) { my $c = (@T@[])Fn->sort_desc($a); say "copy " . &state($c); }
    elsif ($k == 9) { if ($s == 0) { Sort->sort_@T@_asc(undef); } elsif ($s == 1) { Sort->sort_@T@($a, undef); } elsif ($s == 2) { Fn->sort_asc(undef); } elsif ($s == 3) { Fn->sort_desc("abc"); } else { Fn->sort_asc(new string[1]); } }
    elsif ($k == 10) { Sort->sort_@T@($a, [$a : @T@[], $o : int] method : int ($p : @C@, $q : @C@) { if ($o % 3 == 0) { my $b = new @T@[2]; $b->[0] = $a->[0]; Sort->sort_@T@_desc($b); } return $p <=> $q; }, $o, $l); }
  }
  static method start : void ($arr : string, $d : string) {
    my $as = Mon->split(";", $arr); my $v = Mon->arr_int($d);
    for (my $i = 0; $i < @$as; $i++) {
      my $a = Mon->arr_@T@($as->[$i]);
      eval { &job($a, $v->[$i * 4], $v->[$i * 4 + 1], $v->[$i * 4 + 2], $v->[$i * 4 + 3]); };
      if (eval_error_id) { say "X"; } else { say "ok"; }
      say &state($a);
    }
    $@ = undef;
    say "end";
  }
}
'''.replace('@T@', T).replace('@C@', C).replace('@S@', SHOW.get(T, '(int)$x->[$i]' if T in CMPT else '$x->[$i]'))

FILES = {'XSort_%s.spvm' % T: num_runner(T) for T in NUM}
FILES['Ob.spvm'] = '''class Ob extends Nothing : public { interface Comparable; has id : public int; has key : public int;
  static method new : Ob ($id : int, $key : int) { my $s = new Ob; $s->{id} = $id; $s->{key} = $key; return $s; }
  method cmp : int ($a : Ob, $b : Ob) { return $a->{key} <=> $b->{key}; } }'''.replace(' extends Nothing', '')
_o = '''class XSort_@K@ : public {
  use Sort; use Fn; use Mon; use Ob; use Comparator; use Comparator::String; use Array; use Comparable;
  our $LEFT : int; our $N : int;
  has pool : @E@[];
  method show : string ($x : object[]) { my $r = ""; my $pool = $self->{pool};
    for (my $i = 0; $i < @$x; $i++) { if ($i) { $r .= " "; } my $k = -1; if ($x->[$i]) { $k = -2; for (my $j = 0; $j < @$pool; $j++) { if ($pool->[$j] == $x->[$i]) { $k = $j; } } } $r .= $k; } return $r; }
  method job : void ($a : @E@[], $k : int, $o : int, $l : int, $s : int) {
    @JOBS@
    elsif ($k == 9) { if ($s == 0) { Sort->sort_@K@(undef, $self->any); } elsif ($s == 1) { Sort->sort_@K@($a, undef); } else { Sort->sort_options_asc(undef); } }
  }
  method start_ : void ($arr : string, $d : string) {
    my $as = Mon->split(";", $arr); my $v = Mon->arr_int($d); my $pool = $self->{pool};
    for (my $i = 0; $i < @$as; $i++) {
      my $ix = Mon->arr_int($as->[$i]); my $a = new @E@[@$ix];
      for (my $j = 0; $j < @$ix; $j++) { if ($ix->[$j] >= 0) { $a->[$j] = $pool->[$ix->[$j]]; } }
      eval { $self->job($a, $v->[$i * 4], $v->[$i * 4 + 1], $v->[$i * 4 + 2], $v->[$i * 4 + 3]); };
      if (eval_error_id) { say "X"; } else { say "ok"; }
      say $self->show($a);
      my $r = ""; for (my $j = 0; $j < @$pool; $j++) { $r .= Mon->refcnt($pool->[$j]) . " "; } say $r;
    }
    $@ = undef;
    say "end";
  }
  @EXTRA@
}
'''
OBJ_JOBS = '''if ($k == 0) { Sort->sort_object($a, method : int ($p : object, $q : object) { return &key($p) <=> &key($q); }, $o, $l); }
    elsif ($k == 1) { Sort->sort_object($a, method : int ($p : object, $q : object) { return &key($q) <=> &key($p); }, $o, $l); }
    elsif ($k == 2) { Sort->sort_object($a, Comparator->default_comparator, $o, $l); }
    elsif ($k == 3) { $LEFT = $s; Sort->sort_object($a, method : int ($p : object, $q : object) { $LEFT--; if ($LEFT < 0) { die "enough"; } return &key($p) <=> &key($q); }, $o, $l); }
    elsif ($k == 4) { $N = $s; Sort->sort_object($a, method : int ($p : object, $q : object) { $N = $N * 1103515245 + 12345; return ($N >> 16) % 3; }, $o, $l); }
    elsif ($k == 5) { my $c = Fn->sort($a, method : int ($p : object, $q : object) { return &key($p) <=> &key($q); }); say "copy " . $self->show($c); }
    elsif ($k == 6) { my $b = new object[@$a]; Array->memcpy_object_address($b, 0, $a, 0, @$a); Sort->sort_object($b, method : int ($p : object, $q : object) { return &key($p) * 50 - &key($q) * 50; }, $o, $l); Array->memcpy_object_address($a, 0, $b, 0, @$a); }'''
OBJ_EXTRA = '''static method key : int ($p : object) { if ($p) { return $p->(Ob)->{key}; } return -1; }
  method any : Comparator () { return method : int ($p : object, $q : object) { return 0; }; }
  static method start : void ($np : int, $div : int, $arr : string, $d : string) { my $self = new XSort_object; { $self->{pool} = new Ob[$np]; for (my $i = 0; $i < $np; $i++) { $self->{pool}->[$i] = Ob->new($i, $i / $div); } } $self->start_($arr, $d); }'''
STR_JOBS = '''if ($k == 0) { Sort->sort_string_asc($a, $o, $l); }
    elsif ($k == 1) { Sort->sort_string_desc($a, $o, $l); }
    elsif ($k == 2) { Sort->sort_string($a, method : int ($p : string, $q : string) { return length $p <=> length $q; }, $o, $l); }
    elsif ($k == 3) { $LEFT = $s; Sort->sort_string($a, method : int ($p : string, $q : string) { $LEFT--; if ($LEFT < 0) { die "enough"; } return $p cmp $q; }, $o, $l); }
    elsif ($k == 4) { $N = $s; Sort->sort_string($a, method : int ($p : string, $q : string) { $N = $N * 1103515245 + 12345; return ($N >> 16) % 3; }, $o, $l); }
    elsif ($k == 5) { Sort->sort_string_asc($a); }
    elsif ($k == 6) { Sort->sort_string_desc($a, $o); }
    elsif ($k == 7) { my $op = new object[@$a * 2]; for (my $i = 0; $i < @$a; $i++) { $op->[$i * 2] = $a->[$i]; $op->[$i * 2 + 1] = $a->[$i]; } 
      if ($s == 1) { $op = (object[])Fn->slice($op, 1, @$op - 1); } elsif ($s == 2) { $op->[0] = undef; } elsif ($s == 3) { $op->[0] = Ob->new(1, 1); }
      Sort->sort_options_asc($op); for (my $i = 0; $i < @$a; $i++) { $a->[$i] = (string)$op->[$i * 2]; unless ($op->[$i * 2] == $op->[$i * 2 + 1]) { say "value moved"; } } }'''
STR_EXTRA = '''method any : Comparator::String () { return method : int ($p : string, $q : string) { return 0; }; }
  static method start : void ($pool : string, $arr : string, $d : string) { my $self = new XSort_string; { my $p = Mon->split(",", $pool); $self->{pool} = new string[@$p]; for (my $i = 0; $i < @$p; $i++) { $self->{pool}->[$i] = Mon->unhex($p->[$i]); } } $self->start_($arr, $d); }'''
FILES['XSort_object.spvm'] = _o.replace('@JOBS@', OBJ_JOBS).replace('@EXTRA@', OBJ_EXTRA).replace('@E@', 'Ob').replace('@K@', 'object')
FILES['XSort_string.spvm'] = _o.replace('@JOBS@', STR_JOBS).replace('@EXTRA@', STR_EXTRA).replace('@E@', 'string').replace('@K@', 'string')

BIG = [2147483647, -2147483648, 2147483646, 1 << 30, -1]

def pair(rng, n):
    """(offset, length, real length or None)"""
    x = rng.randrange(0, n + 1); y = rng.choice([n - x, rng.randrange(0, n - x + 1), -1, -7])
    if rng.random() < .2:
        q = rng.randrange(5)
        if q == 0: x = rng.choice(BIG)
        elif q == 1: y = rng.choice(BIG[:1] + BIG[2:4])
        elif q == 2: y = n - x + 1
        elif q == 3: y = 2147483647 - rng.randrange(0, x + 1)
        else: x = n + 1 + rng.randrange(3); y = rng.choice([1, -1])
    if x < 0: return x, y, None
    if y < 0: return x, y, n - x if x <= n else None
    return x, y, y if x + y <= n else None

def chunks(name, s): return 'my %s = ""; ' % name + ' '.join('%s .= "%s";' % (name, s[i:i + 2000]) for i in range(0, len(s), 2000))

def size(rng): return rng.choice([0, 1, 2, 3, 4, 5, 8, 13, 30, rng.randrange(0, 70), rng.randrange(60, 200)])

def expected(a, o, L, k, key, rev=False):
    return a[:o] + sorted(a[o:o + L], key=key, reverse=False) + a[o + L:] if not rev else a[:o] + stable_desc(a[o:o + L], key) + a[o + L:]

def stable_desc(v, key):
    return sorted(v, key=key, reverse=True)      # python's reverse keeps the order of equal elements

def perm_ok(before, after, o, L):
    return after[:o] == before[:o] and after[o + L:] == before[o + L:] and Counter(after) == Counter(before)

def num_case(rng, T, key, n):
    ch = {'byte': 'b', 'short': 'h', 'int': 'i', 'long': 'q', 'float': 'f', 'double': 'd'}[T]
    fl = ch in 'fd'
    def val(small):
        if fl:
            v = rng.choice([0.0, -1.5, 2.25, rng.randrange(-20, 20) / 2, 1e30, -1e30, float('inf'), float('-inf'), 1e-30]) if not small else float(rng.randrange(-8, 8))
            return struct.unpack('<' + ch, struct.pack('<' + ch, v))[0]
        b = {'b': 8, 'h': 16, 'i': 32, 'q': 64}[ch]
        return rng.randrange(-8, 8) if small else rng.choice([(1 << b - 1) - 1, -(1 << b - 1), 0, rng.randrange(-(1 << b - 1), 1 << b - 1)])
    tobits = (lambda v: struct.unpack({'f': '<i', 'd': '<q'}[ch], struct.pack('<' + ch, v))[0]) if fl else (lambda v: v)
    ubits = (lambda v: struct.unpack({'f': '<I', 'd': '<Q'}[ch], struct.pack('<' + ch, v))[0]) if fl else (lambda v: v)
    arrs, data, chk = [], [], []
    for _ in range(n):
        k = rng.choice([0, 0, 1, 1, 2, 2, 3, 3, 4, 5, 6, 7, 8, 9, 10]); m = size(rng); small = rng.random() < .5 or k == 2
        a = [val(small) for _ in range(m)]
        style = rng.randrange(5)
        if style == 0: a.sort()
        elif style == 1: a.sort(reverse=True)
        if fl and not small and rng.random() < .2 and k != 2 and a: a[rng.randrange(len(a))] = float('nan')
        o, l, L = pair(rng, m); s = rng.choice([0, 1, 2, 3, 5, 20, 100]) if k != 9 else rng.randrange(5)
        if k in (5, 7, 8): o, l, L = 0, -1, m
        if k == 6: L = m - o if 0 <= o <= m else None; l = -1
        if k == 10 and m == 0: k = 0
        if k == 10: s = 0
        arrs.append(' '.join(str(ubits(v)) for v in a)); data += [k, o, l, s]
        nan = any(v != v for v in a)
        A = [str(tobits(v)) for v in a]
        back = dict(zip(A, a)); tr = lambda v: int(v / 4) if fl else (abs(v) // 4 * (1 if v >= 0 else -1))
        keyf = {0: lambda t, b=back: b[t], 2: lambda t, b=back: tr(int(b[t]) if fl else b[t])}
        def want(asc_key, rev, A=A, o=o, L=L): return expected(A, o, L, 0, asc_key, rev)
        if k == 9: chk.append(('X', [A]))
        elif k in (7, 8): chk.append(('copy', [want(keyf[0], k == 8)] if not nan else None, A))
        elif L is None: chk.append(('X', [A]))
        elif nan or k == 4: chk.append(('perm', A, o, L, ('ok', 'X') if k == 3 else ('ok',)))
        elif k == 3: chk.append(('die', A, o, L, want(keyf[0], False)))
        else: chk.append(('ok', [want(keyf[2] if k == 2 else keyf[0], k in (1, 6))]))
    body = '    ' + chunks('$a', ';'.join(arrs)) + chunks('$d', ' '.join(map(str, data))) + '\n    XSort_%s->start($a, $d);' % T
    return mk(key, body, chk, data, n, 2)

def judge_lines(lines, chk, data, stride):
    i = 0
    for j, c in enumerate(chk):
        job = 'job %d %r: ' % (j, data[4 * j:4 * j + 4])
        g = lines[i:i + 1 + (c[0] == 'copy')]
        if len(lines) < i + stride + (c[0] == 'copy'): return job + 'no output'
        if c[0] == 'copy':
            if not lines[i].startswith('copy '): return job + 'got %r' % lines[i]
            got = lines[i][5:].split()
            if c[1] is not None and got not in c[1]: return job + 'sorted copy %r, expected %r' % (got, c[1][0])
            if c[1] is None and Counter(got) != Counter(c[2]): return job + 'not a permutation'
            i += 1; st, arr = lines[i], lines[i + 1].split()
            if st != 'ok' or arr != c[2]: return job + 'the source changed: %r' % arr
        else:
            st, arr = lines[i], lines[i + 1].split()
            if c[0] in ('X', 'ok'):
                if st != c[0]: return job + 'got %s, expected %s' % (st, c[0])
                if arr not in c[1]: return job + 'array %r, expected %r' % (arr, c[1][0])
            elif c[0] == 'perm':
                if st not in c[4]: return job + 'got ' + st
                if not perm_ok(c[1], arr, c[2], c[3]): return job + 'not a permutation of the range: %r from %r' % (arr, c[1])
            elif c[0] == 'die':
                if st == 'ok' and arr != c[4]: return job + 'array %r, expected %r' % (arr, c[4])
                if st == 'X' and not perm_ok(c[1], arr, c[2], c[3]): return job + 'after the exception: not a permutation of the range: %r from %r' % (arr, c[1])
        i += 2
        if stride == 3:
            rc = lines[i]; i += 1
            want = ''.join('%d ' % (2 + arr.count(str(p))) for p in range(len(rc.split())))
            if rc != want: return job + 'reference counts %r, expected %r' % (rc, want)
    if lines[i:] != ['end']: return 'end: %r' % lines[i:][:3]
    return None

def mk(key, body, chk, data, n, stride):
    c = Case(key, body, lambda o: judge_lines(o.lines, chk, data, stride)); c.meta = n
    return c

def obj_case(rng, kind, key, n):
    np = rng.choice([1, 4, 12, 40]); div = rng.choice([1, 2, 5, 100])
    if kind == 'string':
        pool = [bytes(rng.choice([0, 65, 66, 255, 128]) for _ in range(rng.choice([0, 1, 1, 2, 3, 9]))) for _ in range(np)]
        ks = [lambda p: pool[p], None, lambda p: len(pool[p])]
    else: kf = lambda p: p // div if p >= 0 else -1
    arrs, data, chk = [], [], []
    for _ in range(n):
        k = rng.choice([0, 0, 1, 1, 2, 2, 3, 3, 4, 6, 9] + ([5, 7, 7] if kind == 'string' else [])); m = size(rng)
        a = [rng.randrange(-1 if kind == 'object' else 0, np) for _ in range(m)]
        o, l, L = pair(rng, m); s = rng.choice([0, 1, 2, 3, 5, 20, 100]) if k != 9 else rng.randrange(3)
        if kind == 'string':
            if k == 5: o, l, L = 0, -1, m
            if k == 6: L = m - o if 0 <= o <= m else None; l = -1
            if k == 7: s = rng.randrange(4); o, l, L = 0, -1, m
            if k == 7 and s and not m: s = 0
        arrs.append(' '.join(map(str, a))); data += [k, o, l, s]; A = list(map(str, a))
        if k == 9 or L is None or (kind == 'string' and k == 7 and s): chk.append(('X', [A])); continue
        if kind == 'string': kk = (lambda t: len(pool[int(t)])) if k == 2 else (lambda t: pool[int(t)]); rev = k in (1, 6)
        else: kk = lambda t: kf(int(t)); rev = k == 1
        if k == 4: chk.append(('perm', A, o, L, ('ok',)))
        elif k == 3: chk.append(('die', A, o, L, expected(A, o, L, 0, kk)))
        else: chk.append(('ok', [expected(A, o, L, 0, kk, rev)]))
    if kind == 'string': body = '    ' + chunks('$p', ','.join(x.hex() for x in pool)) + chunks('$a', ';'.join(arrs)) + chunks('$d', ' '.join(map(str, data))) + '\n    XSort_string->start($p, $a, $d);'
    else: body = '    ' + chunks('$a', ';'.join(arrs)) + chunks('$d', ' '.join(map(str, data))) + '\n    XSort_object->start(%d, %d, $a, $d);' % (np, div)
    return mk(key, body, chk, data, n, 3)

def check(ck):
    ck.rule = ('one evaluation = a batch of 20 sort calls of one element type with generated arrays (sorted, reversed, duplicates, NaN), ranges legal and illegal and comparators (documented orders, keys with ties, inconsistent ones, ones that throw at the n-th call); '
               'each resulting array is compared with a stable reference sort, or checked to be a permutation of the range where the comparator gives no order; reference counts of sorted objects are compared; distinct = batch x engine')
    drv = vp.build_driver('asan')
    rng = ck.rng
    for T in NUM + ['object', 'string']:
        num = T in NUM
        f = (lambda i: num_case(rng, T, '%s %d' % (T, i), 20)) if num else (lambda i: obj_case(rng, T, '%s %d' % (T, i), 20))
        cases = [f(i) for i in range(ck.n(50, 1500) if num else ck.n(80, 2500))]
        for c in cases: ck.count('sort calls', c.meta)
        ck.sample(cases[0].body[:600])
        run_and_judge(ck, drv, cases, per=20, modes=('vm',), uses='use XSort_%s;' % T, files=FILES)
        run_and_judge(ck, drv, cases[:ck.n(6, 100)], per=50, modes=('pre',), uses='use XSort_%s;' % T, files=FILES, pre_opt='-O1')
    # Fn->sort: known finding (an existing test expects that the given array is sorted), anything else it may do is a violation
    def fn_sort(found):
        def j(o):
            sortd = '2 1 0 3'; src = '3 2 1 0'
            if len(o.lines) < 2 or not o.lines[0].startswith('copy '): return 'got %r' % o.lines
            c = o.lines[0][5:]; a = o.lines[2]
            if found: return 'the returned array is not sorted and the given array is' if (c, a) == ('3 2 1 0', '0 1 2 3') else None
            return None if (c, a) in (('0 1 2 3', '3 2 1 0'), ('3 2 1 0', '0 1 2 3'), ('0 1 2 3', '0 1 2 3')) else 'got %r' % o.lines
        return j
    body = '    XSort_object->start(4, 1, "3 2 1 0", "5 0 -1 0");'
    more = [Case('Fn->sort returns an unsorted copy and sorts the given array', body, fn_sort(True)), Case('Fn->sort', body, fn_sort(False))]
    run_and_judge(ck, drv, more, per=20, modes=('vm', 'pre'), uses='use XSort_object;', files=FILES)
    ck.assumptions = ['the order of equal elements follows the stable reference', 'with NaN, or a comparator that is no order, only the permutation is judged', 'the number of comparator calls is not specified']

vp.main('D06', check)

import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vp
from spvmrun import Case, run_and_judge

FILES = {
'LObj.spvm': '''class LObj : public { has id : public int;
  static method new : LObj ($id : int) { my $self = new LObj; $self->{id} = $id; return $self; }
  method DESTROY : void () { say "~" . $self->{id}; } }
''',
'XHash.spvm': '''class XHash : public {
  use Hash; use LObj; use Mon; use Fn; use Byte; use Short; use Int; use Long; use Float; use Double; use Sort;
  has h : Hash; has hold : object[]; has keys : string[];
  static method show : string ($o : object) {
    unless ($o) { return "u"; }
    if ($o is_type LObj) { return "o" . ((LObj)$o)->{id}; }
    if ($o is_type string) { return "s" . Mon->hex((string)$o); }
    if ($o is_type Byte) { return "B" . (byte)$o; }
    if ($o is_type Short) { return "S" . (short)$o; }
    if ($o is_type Int) { return "I" . (int)$o; }
    if ($o is_type Long) { return "L" . (long)$o; }
    if ($o is_type Float) { return "F" . (float)$o; }
    if ($o is_type Double) { return "D" . (double)$o; }
    return "?" . type_name $o;
  }
  method mk : object ($t : int, $n : int) {
    if ($t == 0) { return undef; }
    if ($t == 1) { return LObj->new($n); }
    if ($t == 2) { return $self->{hold}->[$n]; }
    if ($t == 3) { return Mon->unhex("73" . $n % 10 . "0"); }
    if ($t == 4) { return Byte->new($n); }
    if ($t == 5) { return Short->new($n); }
    if ($t == 6) { return Int->new($n); }
    if ($t == 7) { return Long->new($n); }
    if ($t == 8) { return Float->new($n); }
    return Double->new($n);
  }
  static method state : void ($h : Hash) {
    my $k = $h->keys; my $v = $h->values; my $n = $h->keys_length;
    if (@$k != $n || @$v != $n || $h->has_keys != ($n > 0)) { say "counts differ"; }
    unless (type_name $k eq "string[]" && type_name $v eq "object[]") { say "types"; }
    my $l = new string[@$k];
    for (my $i = 0; $i < @$k; $i++) {
      unless ($h->exists($k->[$i])) { say "no key"; }
      my $w = $h->get($k->[$i]);
      unless (&show($w) eq &show($v->[$i])) { say "value differs"; }
      $l->[$i] = Mon->hex($k->[$i]) . "=" . &show($w) . "/" . $h->isweak($k->[$i]);
      $w = undef;
    }
    Sort->sort_string_asc($l);
    for (my $i = 0; $i < @$l; $i++) { say $l->[$i]; }
    say "#" . $n;
  }
  method op : void ($d : int[], $p : int) {
    my $h = $self->{h}; my $c = $d->[$p]; my $k = (string)undef;
    if ($d->[$p + 1] >= 0) { $k = $self->{keys}->[$d->[$p + 1]]; }
    my $t = $d->[$p + 2]; my $n = $d->[$p + 3];
    if ($c == 0) { $h->set($k, $self->mk($t, $n)); say "set"; }
    elsif ($c == 1) { say "get " . &show($h->get($k)); }
    elsif ($c == 2) { say "exists " . $h->exists($k); }
    elsif ($c == 3) { say "delete " . &show($h->delete($k)); }
    elsif ($c == 4) { $h->weaken($k); say "weaken"; }
    elsif ($c == 5) { $h->unweaken($k); say "unweaken"; }
    elsif ($c == 6) { say "isweak " . $h->isweak($k); }
    elsif ($c == 7) {
      if ($t == 3) { say "get_ " . &show($h->get_string($k)); }
      elsif ($t == 4) { say "get_ " . $h->get_byte($k); }
      elsif ($t == 5) { say "get_ " . $h->get_short($k); }
      elsif ($t == 6) { say "get_ " . $h->get_int($k); }
      elsif ($t == 7) { say "get_ " . $h->get_long($k); }
      elsif ($t == 8) { say "get_ " . $h->get_float($k); }
      else { say "get_ " . $h->get_double($k); }
    }
    elsif ($c == 8) {
      if ($t == 0) { say "or " . &show($h->get_or_default($k, Int->new($n))); }
      elsif ($t == 3) { say "or " . &show($h->get_or_default_string($k, "" . $n)); }
      elsif ($t == 4) { say "or " . $h->get_or_default_byte($k, $n); }
      elsif ($t == 5) { say "or " . $h->get_or_default_short($k, $n); }
      elsif ($t == 6) { say "or " . $h->get_or_default_int($k, $n); }
      elsif ($t == 7) { say "or " . $h->get_or_default_long($k, $n); }
      elsif ($t == 8) { say "or " . $h->get_or_default_float($k, $n); }
      else { say "or " . $h->get_or_default_double($k, $n); }
    }
    elsif ($c == 9) {
      if ($t == 0) { say "del " . &show($h->delete_or_default($k, Int->new($n))); }
      elsif ($t == 3) { say "del " . &show($h->delete_or_default_string($k, "" . $n)); }
      elsif ($t == 4) { say "del " . $h->delete_or_default_byte($k, $n); }
      elsif ($t == 5) { say "del " . $h->delete_or_default_short($k, $n); }
      elsif ($t == 6) { say "del " . $h->delete_or_default_int($k, $n); }
      elsif ($t == 7) { say "del " . $h->delete_or_default_long($k, $n); }
      elsif ($t == 8) { say "del " . $h->delete_or_default_float($k, $n); }
      else { say "del " . $h->delete_or_default_double($k, $n); }
    }
    elsif ($c == 10) { &state($h); }
    elsif ($c == 11) {
      my $g = $h->copy;
      if ($n == 1) { $g = $h->clone; }
      &state($g);
      $g->set("only in the copy", "x"); $g->delete($self->{keys}->[0]);
      if ($h->exists("only in the copy")) { say "the copy is not independent"; }
    }
    elsif ($c == 12) { $self->{hold}->[$t] = LObj->new($n); say "hold"; }
    elsif ($c == 13) { $self->{hold}->[$t] = undef; say "unhold"; }
    elsif ($c == 14) {
      my $a = $h->to_array($n);
      my $m = @$a / 2;
      if ($n == 0) { my $l = new string[$m]; for (my $i = 0; $i < $m; $i++) { $l->[$i] = Mon->hex((string)$a->[$i * 2]) . " " . &show($a->[$i * 2 + 1]); } Sort->sort_string_asc($l); for (my $i = 0; $i < $m; $i++) { say $l->[$i]; } }
      else { for (my $i = 0; $i < $m; $i++) { say Mon->hex((string)$a->[$i * 2]) . " " . &show($a->[$i * 2 + 1]); } }
    }
    elsif ($c == 15) {
      if ($t == 3) { $h->set_string($k, "" . $n); }
      elsif ($t == 4) { $h->set_byte($k, $n); }
      elsif ($t == 5) { $h->set_short($k, $n); }
      elsif ($t == 6) { $h->set_int($k, $n); }
      elsif ($t == 7) { $h->set_long($k, $n); }
      elsif ($t == 8) { $h->set_float($k, $n); }
      else { $h->set_double($k, $n); }
      say "set_";
    }
    elsif ($c == 16) {
      my $mk = (mutable string)copy $k; $h->set($mk, $self->mk($t, $n));
      if (length $mk > 0) { $mk->[0] = 'Z'; }
      say "mset " . $h->exists($k);
    }
    elsif ($c == 17) { $self->{h} = Hash->new($h->to_array); say "new"; }
    elsif ($c == 18) { Hash->new([(object)"a", "b", "c"]); say "odd"; }
    elsif ($c == 19) { Hash->new([(object)Int->new(3), "b"]); say "nonstring"; }
    elsif ($c == 20) { Hash->new([(object)undef, "b"]); say "undef key"; }
    elsif ($c == 21) { my $v = $h->get($k); $h->set($k, $v); say "reset"; }
  }
  method run : void ($keys : string, $d : int[]) {
    { $self->{h} = Hash->new; $self->{hold} = new object[8]; }
    my $ks = Mon->split(",", $keys); $self->{keys} = new string[@$ks];
    for (my $i = 0; $i < @$ks; $i++) { $self->{keys}->[$i] = Mon->unhex($ks->[$i]); }
    for (my $p = 0; $p < @$d; $p += 4) {
      eval { $self->op($d, $p); };
      if (eval_error_id) { say "X"; }
      $@ = undef;
      say ".";
    }
    $self->{hold} = undef; $self->{h} = undef;
    say "end";
  }
  static method start : void ($keys : string, $d : int[]) { my $x = new XHash; $x->run($keys, $d); }
}
'''}

class Obj:
    """a value with identity; strong = number of strong references"""
    __slots__ = ('t', 'n', 'strong')
    def __init__(self, t, n): self.t, self.n, self.strong = t, n, 0
    def show(self):
        if self.t == 1: return 'o%d' % self.n
        if self.t == 3: return 's' + self.n
        return ' ????BSILFD'[self.t + 1] + str(self.n)

def make_keys(rng):
    n = rng.choice([1, 3, 12, 60, 300])
    style = rng.choice(['ascii', 'prefix', 'bytes', 'nul', 'long', 'mix'])
    ks = {b''} if rng.random() < .5 else set()
    while len(ks) < n:
        s = style if style != 'mix' else rng.choice(['ascii', 'prefix', 'bytes', 'nul', 'long'])
        if s == 'ascii': k = b'key%d' % rng.randrange(10**6)
        elif s == 'prefix': k = b'a' * rng.randrange(0, n + 5)
        elif s == 'bytes': k = bytes(rng.randrange(256) for _ in range(rng.randrange(0, 12)))
        elif s == 'nul': k = bytes(rng.choice([0, 0, 1, 65]) for _ in range(rng.randrange(0, 14)))
        else: k = b'long' * 40 + bytes([rng.randrange(256), rng.randrange(256)]) + b'x' * rng.randrange(9)
        ks.add(k)
    ks = list(ks); rng.shuffle(ks)
    return ks

CONV = {4: (4,), 5: (4, 5), 6: (4, 5, 6), 7: (4, 5, 6, 7), 8: (8,), 9: (9,)}
TRNG = {4: 128, 5: 32768, 6: 99999, 7: 99999, 8: 9999, 9: 9999}

def history(rng, key, steps):
    keys = make_keys(rng)
    M, H = {}, [None] * 8   # key index -> [obj or None, weak]
    data, exp = [], []
    nid = [0]
    mode = rng.choice(['mix', 'grow', 'churn', 'weak', 'typed'])
    W = {'mix': [6, 3, 2, 3, 1, 1, 1, 2, 2, 2, 1, .4, 1, .7, .7, 3, 1, .3, .2, .2, .2, 1], 'grow': [20, 1, 1, 1, 2, 0, 0, 0, 0, 0, .5, .1, .2, 0, .3, 3, 1, .1, 0, 0, 0, .3],
         'churn': [8, 1, 1, 8, 0, 0, 0, 0, 1, 3, .6, .2, .1, .1, .2, 1, .2, .1, 0, 0, 0, .2], 'weak': [9, 2, 1, 1, 6, 3, 3, 0, 0, .5, 1, .3, 4, 2, .3, 0, .3, .2, 0, 0, 0, 2],
         'typed': [1, 1, 1, 1, 0, 0, 0, 9, 9, 5, .5, .2, 0, 0, .3, 9, .1, .1, .1, .1, .1, .3]}[mode]
    died = []
    def unref(o):
        if o is None: return
        o.strong -= 1
        if o.strong == 0:
            if o.t == 1: died.append(o.n)
            for e in M.values():
                if e[0] is o: e[0] = None; e[1] = 0
    def drop(e):
        if e and e[0] and not e[1]: unref(e[0])
    def put(k, o):
        if o: o.strong += 1
        if k in M:
            old = M[k][:]
            M[k][0] = o; M[k][1] = 0
            drop(old)
        else: M[k] = [o, 0]
    def mk(t, n):
        if t == 0: return None
        if t == 2: return H[n]
        if t == 3: return Obj(3, '73%d0' % (n % 10))
        return Obj(t, n)
    def hx(k): return keys[k].hex()
    def sh(o): return o.show() if o else 'u'
    def state(weakflags=True):
        L = sorted('%s=%s/%d' % (hx(k), sh(o), w if weakflags else 0) for k, (o, w) in M.items())
        return L + ['#%d' % len(M)]
    def newval():
        t = rng.choice([0, 1, 1, 2, 2, 3, 4, 5, 6, 7, 8, 9]) if mode != 'weak' else rng.choice([1, 2, 2, 2, 3, 6])
        if t == 1: nid[0] += 1; return t, nid[0]
        if t == 2: return t, rng.randrange(8)
        if t == 3: return t, rng.randrange(10)
        if t == 0: return 0, 0
        m = TRNG[t]
        return t, rng.choice([rng.randrange(-m, m), 0, m - 1, -m])
    def show_for(t, o):
        """typed getter: text, or None for an exception"""
        if t == 3:
            return sh(o) if o is None or o.t == 3 else None
        if o is None or o.t not in CONV[t]: return None
        return str(o.n)
    for step in range(steps):
        c = rng.choices(range(22), W)[0] if step != steps - 1 else 10
        k = rng.randrange(len(keys))
        if M and rng.random() < .5: k = rng.choice(list(M))
        if rng.random() < .01: k = -1
        t = n = 0
        del died[:]
        if c in (0, 16): t, n = newval()
        if c in (7, 8, 9, 15): t = rng.choice([3, 4, 5, 6, 7, 8, 9] + ([0] if c in (8, 9) else []))
        if c in (8, 9, 15): n = rng.randrange(-100, 100) if t not in (5, 6, 7, 8, 9) or rng.random() < .5 else rng.randrange(-TRNG[t], TRNG[t])
        if c == 7 and k in M and M[k][0] and M[k][0].t >= 3 and rng.random() < .6: t = M[k][0].t
        if c == 11: n = rng.randrange(2)
        if c == 12:
            t = rng.randrange(8); nid[0] += 1; n = nid[0]
        if c == 13: t = rng.randrange(8)
        if c == 14: n = rng.choice([0, 1, -1, 7, -9])
        r = None
        if k == -1 and c in (0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 21):
            if c in (0, 16) and t == 1: died.append(n)   # made, then released by the exception
            if c == 16: died[:] = []                     # copy of undef is undef: set throws after mk? see below
            if c == 16 and t == 1: died.append(n)
            r = None
        elif c == 0: put(k, mk(t, n)); r = ['set']
        elif c == 1: r = ['get ' + sh(M[k][0] if k in M else None)]
        elif c == 2: r = ['exists %d' % (k in M)]
        elif c == 3:
            e = M.pop(k, None)
            r = ['delete ' + sh(e[0] if e else None)]
            drop(e)
        elif c == 4:
            if k in M and M[k][0] and not M[k][1]:
                M[k][1] = 1; unref(M[k][0])
            r = ['weaken']
        elif c == 5:
            if k in M and M[k][0] and M[k][1]: M[k][1] = 0; M[k][0].strong += 1
            r = ['unweaken']
        elif c == 6: r = ['isweak %d' % (M[k][1] if k in M else 0)]
        elif c == 7:
            s = show_for(t, M[k][0] if k in M else None)
            r = ['get_ ' + s] if s is not None else None
        elif c in (8, 9):
            w = 'or ' if c == 8 else 'del '
            if k not in M:
                r = [w + ('I%d' % n if t == 0 else 's' + str(n).encode().hex() if t == 3 else str(n))]
            else:
                s = sh(M[k][0]) if t == 0 else show_for(t, M[k][0])
                r = [w + s] if s is not None else None
                if s is not None and c == 9: drop(M.pop(k))
        elif c == 10: r = state()
        elif c == 11: r = state(False)
        elif c == 12:
            old = H[t]; H[t] = Obj(1, n); H[t].strong = 1; unref(old); r = ['hold']
        elif c == 13:
            old = H[t]; H[t] = None; unref(old); r = ['unhold']
        elif c == 14:
            L = [(keys[x], '%s %s' % (hx(x), sh(M[x][0]))) for x in M]
            if n == 0: r = sorted(x[1] for x in L)
            else: r = [x[1] for x in sorted(L, reverse=n < 0)]
        elif c == 15:
            put(k, Obj(t, str(n).encode().hex() if t == 3 else n)); r = ['set_']
        elif c == 16: put(k, mk(t, n)); r = ['mset 1']
        elif c == 17:
            for e in M.values():
                if e[0] and e[1]: e[1] = 0; e[0].strong += 1
            r = ['new']
        elif c == 21:
            if k in M:
                if M[k][0] and M[k][1]: M[k][1] = 0; M[k][0].strong += 1
            else: M[k] = [None, 0]
            r = ['reset']
        data += [c, k, t, n]
        exp.append((['X'] if r is None else r, sorted(died), c))
    alive = {id(o): o for o in [e[0] for e in M.values()] + H if o is not None and o.t == 1}
    final = sorted(o.n for o in alive.values())
    kl = ','.join(x.hex() for x in keys)
    # long literals are split so that the program text stays ordinary
    parts = [kl[i:i + 2000] for i in range(0, len(kl), 2000)] or ['']
    dl = ' '.join(map(str, data)); dparts = [dl[i:i + 2000] for i in range(0, len(dl), 2000)]
    body = '    my $k = ""; ' + ' '.join('$k .= "%s";' % x for x in parts) + '\n    my $d = ""; ' + ' '.join('$d .= "%s";' % x for x in dparts) + '\n    XHash->start($k, Mon->arr_int($d));'
    def judge(o):
        ls, p = o.lines, 0
        for i, (r, dd, c) in enumerate(exp):
            got, res = [], []
            while p < len(ls) and ls[p] != '.':
                (got if ls[p].startswith('~') else res).append(ls[p]); p += 1
            if p >= len(ls): return 'step %d: the log ends' % i
            p += 1
            if res != r: return 'step %d (op %s): got %r, map model says %r' % (i, data[4 * i:4 * i + 4], [x for x in res if x not in r][:5] or res[:5], [x for x in r if x not in res][:5] or r[:5])
            if sorted(int(x[1:]) for x in got) != dd: return 'step %d (op %s): values destroyed %s, map model says %s' % (i, data[4 * i:4 * i + 4], got, dd)
        rest = ls[p:]
        if sorted(int(x[1:]) for x in rest if x[0] == '~') != final or 'end' not in rest: return 'at the end: %r destroyed, model says %s' % (rest, final)
    c = Case(key, body, judge)
    c.meta = (len(keys), steps)
    return c

def check(ck):
    ck.rule = ('one evaluation = one random history of 40-700 Hash operations over 1-300 keys (empty, NUL-containing, common-prefix and long byte strings), each result, the complete contents and the destroyed values compared with a map model that '
               'tracks strong and weak references; distinct = history x engine')
    drv = vp.build_driver('asan')
    rng = ck.rng
    cases = [history(rng, 'history %d' % i, rng.choice([40, 100, 200, 700])) for i in range(ck.n(160, 3000))]
    for c in cases: ck.count('steps', c.meta[1]); ck.count('keys', c.meta[0])
    ck.sample(cases[0].body[:1500])
    run_and_judge(ck, drv, cases, per=10, modes=('vm',), uses='use XHash;', files=FILES)
    run_and_judge(ck, drv, cases[:ck.n(40, 600)], per=ck.n(20, 50), modes=('pre',), uses='use XHash;', files=FILES, pre_opt='-O1')
    ck.assumptions = ['the order of keys is unspecified: contents are compared sorted', 'AddressSanitizer watches the runtime']

vp.main('D02', check)

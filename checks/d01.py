import sys, os, re; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vp
from spvmrun import Case, run_and_judge

NUM = [('IntList', 'int', 'int'), ('ByteList', 'byte', 'int'), ('ShortList', 'short', 'int'), ('LongList', 'long', 'long'), ('FloatList', 'float', 'float'), ('DoubleList', 'double', 'double')]
OBJ = '''class LObj : public { has id : public int;
  static method new : LObj ($id : int) { if ($id == -1) { return undef; } my $self = new LObj; $self->{id} = $id; return $self; }
  method DESTROY : void () { say "~" . $self->{id}; } }
'''

def runner(cls, el, arg, kind):
    """a class that performs operations given as numbers and prints the result and the state after each"""
    mk = {'num': '(%s)($d->[%%s])' % arg, 'str': 'XL->str($d->[%s])', 'obj': 'LObj->new($d->[%s])'}[kind]
    mke = {'num': '(%s)($d->[%%s])' % el, 'str': mk, 'obj': mk}[kind]
    show = {'num': '"" . %s', 'str': 'XL->sh(%s)', 'obj': 'XL->id(%s)'}[kind]
    et = {'num': el, 'str': 'string', 'obj': 'LObj'}[kind]
    el = el or ''
    at = {'num': el + '[]', 'str': 'string[]', 'obj': 'object[]'}[kind]
    ret = {'num': arg, 'str': 'string', 'obj': 'object'}[kind]
    def S(e): return show % e
    new0 = '%s->new' % cls
    newarr = 'my $n = $d->[$p + 1]; my $a = new %s[$n]; for (my $i = 0; $i < $n; $i++) { $a->[$i] = %s; } $self->{l} = %s->new($a, $d->[$p + 2]); if ($n > 0) { $a->[0] = %s; }' % (et, mke % '$p + 3 + $i', cls, {'num': '(%s)77' % el, 'str': '"changed"', 'obj': 'undef'}[kind])
    newlen = 'my $n = $d->[$p + 1]; $self->{l} = %s->new_len(%s$n, $d->[$p + 2]);' % (cls, 'new LObj[0], ' if kind == 'obj' else '')
    G = '((LObj)%s)' if kind == 'obj' else '%s'
    zero = 'if ($c == 0) { %%s return; }'
    body = '''class X%(cls)s : public {
  use XL; use LObj; use %(cls)s; use Fn;
  has l : %(cls)s;
  static method new : X%(cls)s () { my $self = new X%(cls)s; $self->{l} = %(new0)s; return $self; }
  method op : void ($d : int[], $p : int) {
    my $l = $self->{l}; my $c = $d->[$p];
    if ($c == 0) { $l->push(%(v1)s); say "push"; }
    elsif ($c == 1) { say "pop " . %(pop)s; }
    elsif ($c == 2) { say "shift " . %(shift)s; }
    elsif ($c == 3) { $l->unshift(%(v1)s); say "unshift"; }
    elsif ($c == 4) { $l->insert($d->[$p + 1], %(v2)s); say "insert"; }
    elsif ($c == 5) { say "remove " . %(remove)s; }
    elsif ($c == 6) { my $a = (%(et)s[])undef; my $n = $d->[$p + 3]; if ($n >= 0) { $a = new %(et)s[$n]; for (my $i = 0; $i < $n; $i++) { $a->[$i] = %(e4)s; } } $l->replace($d->[$p + 1], $d->[$p + 2], $a); say "replace"; }
    elsif ($c == 7) { say "get " . %(get)s; }
    elsif ($c == 8) { $l->set($d->[$p + 1], %(v2)s); say "set"; }
    elsif ($c == 9) { $l->resize($d->[$p + 1]); say "resize"; }
    elsif ($c == 10) { $l->reserve($d->[$p + 1]); say "reserve"; if ($l->capacity < $d->[$p + 1]) { say "capacity too small"; } }
    elsif ($c == 11) { my $a = $l->to_array; say "to_array " . @$a; if (@$a > 0) { my $last = @$a - 1; $a->[0] = %(other)s; $a->[$last] = %(other)s; } }
    elsif ($c == 12) { %(newarr)s say "new"; }
    elsif ($c == 13) { %(newlen)s say "new_len"; }
  }
  method state : void () {
    my $l = $self->{l}; my $s = "" . $l->length . ":"; my $a = $l->to_array;
    if ($l->capacity < $l->length) { say "capacity < length"; }
    if (@$a != $l->length) { say "array length"; }
    my $n = @$a;
    for (my $i = 0; $i < $n; $i++) { $s .= %(ea)s . ","; unless (%(ea)s eq %(eg)s) { say "get differs from to_array"; } }
    say $s;
    if (type_name $a ne "%(at)s") { say "array type " . type_name $a; }
  }
  method run : void ($d : int[]) {
    my $p = 0;
    while ($p < @$d) {
      my $w = $d->[$p];
      eval { $self->op($d, $p + 1); };
      if (eval_error_id) { say "X"; }
      $@ = undef;
      say ".";
      $self->state;
      $p += $w;
    }
    $self->{l} = undef;
    say "end";
  }
}
'''
    return (body % dict(cls=cls, et=et, new0=new0, v1=mk % '$p + 1', v2=mk % '$p + 2', e4=mke % '$p + 4 + $i', pop=S(G % '$l->pop'), shift=S(G % '$l->shift'), remove=S(G % '$l->remove($d->[$p + 1])'), get=S(G % '$l->get($d->[$p + 1])'),
                       newarr=newarr, newlen=newlen, other={'num': '(%s)55' % el, 'str': '"other"', 'obj': 'undef'}[kind], at={'num': el + '[]', 'str': 'string[]', 'obj': "object[]"}[kind], ea=S(G % '$a->[$i]'), eg=S(G % '$l->get($i)'))).replace(
        'if (type_name $a ne "object[]")', 'if (type_name $a ne "object[]" && type_name $a ne "LObj[]")')

XL = '''class XL : public { use LObj; use Fn;
  static method str : string ($v : int) { if ($v == -1) { return undef; } return "s" . $v; }
  static method sh : string ($s : string) { unless ($s) { return "u"; } return $s; }
  static method id : string ($o : LObj) { unless ($o) { return "u"; } return "" . $o->{id}; }
}
'''

FILES = {'LObj.spvm': OBJ, 'XL.spvm': XL}
KINDS = {}
for c, e, a in NUM:
    FILES['X%s.spvm' % c] = runner(c, e, a, 'num'); KINDS[c] = ('num', e)
FILES['XStringList.spvm'] = runner('StringList', None, None, 'str'); KINDS['StringList'] = ('str', None)
FILES['XList.spvm'] = runner('List', None, None, 'obj'); KINDS['List'] = ('obj', None)
USES = 'use XL; use LObj; ' + ' '.join('use X%s;' % c for c in KINDS)

RNG = {'byte': 128, 'short': 32768, 'int': 2**31, 'long': 2**31, 'float': 2**19, 'double': 2**19}

def history(rng, cls, key, steps):
    kind, el = KINDS[cls]
    nid = [0]
    def val():
        if kind == 'num':
            m = RNG[el]
            return rng.choice([rng.randrange(-m, m), rng.randrange(-9, 10), 0, -1, m - 1, -m])
        if rng.random() < 0.12: return -1
        nid[0] += 1
        return nid[0]
    def sh(v):
        if kind == 'num':
            if el in ('float', 'double'):
                s = '%g' % v
                return s
            return str(v)
        if v == -1 or v is None: return 'u'
        return 's%d' % v if kind == 'str' else str(v)
    ZERO = 0 if kind == 'num' else -1
    L = []
    data, exp = [], []
    mode = rng.choice(['mix', 'grow', 'queue', 'stack', 'edit'])
    W = {'mix': [1] * 14, 'grow': [6, 1, 1, 5, 3, 1, 2, 1, 1, 1, 1, 1, 0.3, 0.2], 'queue': [8, 2, 7, 3, 0, 0, 0.5, 1, 1, 0, 0.7, 1, 0.1, 0.1], 'stack': [6, 5, 1, 1, 0, 0, 0, 1, 0, 1, 0.3, 1, 0, 0], 'edit': [3, 0.5, 2, 2, 5, 5, 6, 1, 3, 2, 0.5, 1, 0.3, 0.2]}[mode]
    for _ in range(steps):
        n = len(L)
        c = rng.choices(range(14), W)[0]
        before = list(L)
        made = []
        def nv():
            v = val()
            if v != -1: made.append(v)
            return v
        bad = rng.random() < 0.1
        def idx(hi):
            if bad: return rng.choice([-1, hi, hi + 1, -2147483648, 2147483647, hi + 7])
            return rng.randrange(0, max(1, hi))
        r = None
        if c == 0: v = nv(); d = [c, v]; L.append(v); r = 'push'
        elif c == 1: d = [c]; r = 'pop ' + sh(L.pop()) if L else None
        elif c == 2: d = [c]; r = 'shift ' + sh(L.pop(0)) if L else None
        elif c == 3: v = nv(); d = [c, v]; L.insert(0, v); r = 'unshift'
        elif c == 4:
            i, v = idx(n + 1), nv(); d = [c, i, v]
            if 0 <= i <= n: L.insert(i, v); r = 'insert'
        elif c == 5:
            i = idx(n); d = [c, i]
            if 0 <= i < n: r = 'remove ' + sh(L.pop(i))
        elif c == 6:
            o = idx(n + 1)
            rem = rng.randrange(0, n - o + 1) if 0 <= o <= n else rng.randrange(0, 3)
            if rng.random() < 0.08: rem = rng.choice([-1, n + 1, n - o + 1 if abs(n - o) < 99 else 1, 2147483647, 2147483647 - max(0, min(o, n))])
            k = rng.choice([-1, 0, 0, 1, 1, 2, 3, 8])
            vs = [nv() for _ in range(max(k, 0))]
            d = [c, o, rem, k] + vs
            if o >= 0 and rem >= 0 and o + rem <= n: L[o:o + rem] = vs; r = 'replace'
        elif c == 7:
            i = idx(n); d = [c, i]
            if 0 <= i < n: r = 'get ' + sh(L[i])
        elif c == 8:
            i, v = idx(n), nv(); d = [c, i, v]
            if 0 <= i < n: L[i] = v; r = 'set'
        elif c == 9:
            m = rng.choice([0, n, max(0, n - 1), n + 1, n + 5, rng.randrange(0, 40)]) if not bad else rng.choice([-1, -2147483648])
            d = [c, m]
            if m >= 0: L[:] = L[:m] + [ZERO] * (m - n); r = 'resize'
        elif c == 10:
            m = rng.choice([0, n, n + 1, n + 3, 2 * n, rng.randrange(0, 64)]); d = [c, m]; r = 'reserve'
        elif c == 11: d = [c]; r = 'to_array %d' % n
        elif c == 12:
            k = rng.choice([0, 1, 2, 5, 9]); vs = [nv() for _ in range(k)]
            d = [c, k, rng.choice([-1, 0, 1, 3, 20])] + vs; L[:] = vs; r = 'new'
        else:
            k = rng.choice([0, 1, 4, 10]) if not bad else -1
            d = [c, k, rng.choice([-1, 0, 2, 30])]
            if k >= 0: L[:] = [ZERO] * k; r = 'new_len'
        data.append(len(d) + 1); data += d
        died = []
        if kind == 'obj': died = sorted(set(x for x in before + made if x != -1) - set(L))
        exp.append((r, died, '%d:%s' % (len(L), ''.join(sh(x) + ',' for x in L))))
    final = sorted(x for x in L if x != -1) if kind == 'obj' else []
    body = '    my $x = X%s->new; my $d = Mon->arr_int("%s");\n    $x->run($d);' % (cls, ' '.join(map(str, data)))
    def judge(o):
        ls, p = o.lines, 0
        for k, (r, died, st) in enumerate(exp):
            got, res = [], []
            while p < len(ls) and ls[p] != '.':
                (got if ls[p].startswith('~') else res).append(ls[p]); p += 1
            if p >= len(ls): return 'step %d: the log ends' % k
            p += 1
            if res != [r or 'X']: return 'step %d: got %r, model says %r' % (k, res, r or 'X')
            if sorted(int(x[1:]) for x in got) != died: return 'step %d (%s): objects destroyed %s, model says %s' % (k, r, got, died)
            if p >= len(ls) or ls[p] != st: return 'step %d (%s): state %r, model says %r' % (k, r, ls[p] if p < len(ls) else None, st)
            p += 1
        rest = ls[p:]
        if rest[-1:] != ['end'] or sorted(int(x[1:]) for x in rest[:-1] if x[0] == '~') != final or len(rest) != len(final) + 1: return 'at the end: %r, model says %s destroyed' % (rest, final)
    c = Case(key, body, judge)
    c.meta = (cls, steps)
    return c

def check(ck):
    ck.rule = ('one evaluation = one random history of 30-200 operations on one list class (all public operations, valid and illegal indices and lengths), the result, the complete contents (to_array and get) and the destroyed elements compared '
               'with a sequence model after every step; distinct = history x engine')
    drv = vp.build_driver('asan')
    rng = ck.rng
    cases = []
    for i in range(ck.n(60, 900)):
        for cls in KINDS: cases.append(history(rng, cls, '%s history %d' % (cls, i), rng.choice([30, 60, 120, 200])))
    for c in cases: ck.count('steps', c.meta[1])
    ck.sample(cases[0].body[:1500])
    run_and_judge(ck, drv, cases, per=24, modes=('vm',), uses=USES, files=FILES)
    run_and_judge(ck, drv, cases[:ck.n(24, 400)], per=ck.n(24, 50), modes=('pre',), uses=USES, files=FILES, pre_opt='-O1')
    ck.assumptions = ['elements are compared through to_array and get', 'AddressSanitizer watches the runtime']

vp.main('D01', check)

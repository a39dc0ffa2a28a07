import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vp, progcheck, stmts
from stmts import B, R
from spvmrun import Case, run_and_judge

FILES = dict(stmts.FILES)
FILES['WN.spvm'] = '''class WN : public {
  has id : public int; has w0 : public WN; has b : public byte; has w1 : public WN; has d : public double; has w2 : public WN;
  static method new : WN ($id : int) { my $self = new WN; $self->{id} = $id; return $self; }
  method f3 : WN () { return undef; }
  method DESTROY : void () {
    my $x = 0;
    if ($self->{w0}) { $x += $self->{w0}->{id}; } if ($self->{w1}) { $x += $self->{w1}->{id}; } if ($self->{w2}) { my $k = $self->{w2}; $x += $k->{id}; }
    say "~" . $self->{id};
  }
  static method st : string ($o : WN, $w : int) { if ($o) { if ($w) { return "w" . $o->{id}; } return "s" . $o->{id}; } if ($w) { return "w!"; } return "u"; }
  method state : string () { return $self->{id} . ":" . WN->st($self->{w0}, isweak $self->{w0}) . "," . WN->st($self->{w1}, isweak $self->{w1}) . "," . WN->st($self->{w2}, isweak $self->{w2}); }
}
'''
FILES['WN3.spvm'] = '''class WN3 extends WN : public {
  has s : public short; has w3 : public WN;
  static method new : WN3 ($id : int) { my $self = new WN3; $self->{id} = $id; return $self; }
  method state : string () { return $self->SUPER::state . "," . WN->st($self->{w3}, isweak $self->{w3}); }
}
'''

class O:
    __slots__ = ('id', 'n', 'f', 'rc', 'dead', 'back')
    def __init__(s, id, n): s.id, s.n, s.f, s.rc, s.dead, s.back = id, n, [(None, 0)] * n, 0, False, 0

class Model:
    def __init__(m, k): m.slots, m.objs, m.died = [None] * k, [], []
    def inc(m, o):
        if o: o.rc += 1
    def dec(m, o):
        if not o: return
        o.rc -= 1
        if o.rc == 0:
            o.dead = True
            m.died.append(o.id)
            for i in range(o.n):
                t, w = o.f[i]
                o.f[i] = (None, 0)
                if t and not w: m.dec(t)
            for p in m.objs:
                for i in range(p.n):
                    if p.f[i][0] is o: p.f[i] = (None, 0)
    def setf(m, o, i, t):
        old, w = o.f[i]
        m.inc(t); o.f[i] = (t, 0)
        if old and not w: m.dec(old)
    def weaken(m, o, i):
        t, w = o.f[i]
        if t and not w:
            o.f[i] = (t, 1)
            m.dec(t)
    def unweaken(m, o, i):
        t, w = o.f[i]
        if t and w: m.inc(t); o.f[i] = (t, 0)
    def path(m, a, b, seen=None):
        """is there a strong path from a to b"""
        if a is b: return True
        seen = seen if seen is not None else set()
        if id(a) in seen: return False
        seen.add(id(a))
        return any(t and not w and m.path(t, b, seen) for t, w in a.f)

def history(rng, key, steps, k):
    m = Model(k)
    src, exp = ['    my $r = new WN[%d];' % k], []
    nid = [0]
    def step(s):
        src.append('    { %s }' % s)
        src.append('    say ".";')
        exp.append(('died', sorted(m.died))); m.died = []
    weaks = 0
    for n in range(steps):
        live = [i for i in range(k) if m.slots[i]]
        x = rng.random()
        if len(live) < 2 or x < 0.1:
            i = rng.randrange(k); nid[0] += 1
            three = rng.random() < 0.4
            o = O(nid[0], 4 if three else 3); m.objs.append(o)
            old = m.slots[i]; m.inc(o); m.slots[i] = o; m.dec(old)
            step('$r->[%d] = %s->new(%d);' % (i, 'WN3' if three else 'WN', nid[0]))
            continue
        a, b = rng.choice(live), rng.choice(live)
        oa, ob = m.slots[a], m.slots[b]
        i = rng.randrange(oa.n)
        acc = '$x->{w%d}' % i
        inv = 'my $x = %s$r->[%d]; ' % ('(WN3)' if i == 3 else '', a)
        if x < 0.2:
            m.slots[a] = None; m.dec(oa); step('$r->[%d] = undef;' % a)
        elif x < 0.25:
            j = rng.randrange(k); old = m.slots[j]; m.inc(oa); m.slots[j] = oa; m.dec(old)
            step('$r->[%d] = $r->[%d];' % (j, a))
        elif x < 0.55:
            if not m.path(ob, oa) and rng.random() < 0.35:
                m.setf(oa, i, ob); step(inv + '%s = $r->[%d];' % (acc, b))
            else:
                m.setf(oa, i, ob); m.weaken(oa, i); step(inv + '%s = $r->[%d]; weaken %s;' % (acc, b, acc)); weaks += 1
        elif x < 0.68:
            m.weaken(oa, i); step(inv + 'weaken %s;' % acc); weaks += 1
        elif x < 0.78:
            t, w = oa.f[i]
            if t and w and m.path(t, oa): m.setf(oa, i, None); step(inv + '%s = undef;' % acc)
            else: m.unweaken(oa, i); step(inv + 'unweaken %s;' % acc)
        elif x < 0.86:
            m.setf(oa, i, None); step(inv + '%s = undef;' % acc)
        elif x < 0.93:
            t, w = oa.f[i]
            j = rng.randrange(k); old = m.slots[j]; m.inc(t); m.slots[j] = t; m.dec(old)
            step(inv + '$r->[%d] = %s;' % (j, acc))
        else:
            # move a strong or weak reference from field to field
            t, w = oa.f[i]
            j = rng.randrange(3)
            if t and m.path(t, ob): continue
            m.setf(ob, j, t)
            step(inv + '$r->[%d]->{w%d} = %s;' % (b, j, acc))
        if n % 3 == 0:
            src.append('    for (my $i = 0; $i < %d; $i++) { if ($r->[$i]) { say "" . $i . " " . $r->[$i]->state; } }' % k)
            for j, o in enumerate(m.slots):
                if o: exp.append('%d %d:%s' % (j, o.id, ','.join('u' if not t else ('w%d' if w else 's%d') % t.id for t, w in o.f)))
    src.append('    $r = undef; say "end";')
    for j in range(k):
        o = m.slots[j]; m.slots[j] = None; m.dec(o)
    exp.append(('end', sorted(m.died)))
    def judge(o):
        L, p = o.lines, 0
        for e in exp:
            if isinstance(e, str):
                if p >= len(L) or L[p] != e: return 'line %d: got %r, model says %r' % (p, L[p] if p < len(L) else None, e)
                p += 1
            else:
                got, mark = [], '.' if e[0] == 'died' else 'end'
                while p < len(L) and L[p].startswith('~'): got.append(int(L[p][1:])); p += 1
                if p >= len(L) or L[p] != mark: return 'line %d: got %r, expected the end of the step' % (p, L[p] if p < len(L) else None)
                p += 1
                if sorted(got) != e[1]: return 'line %d: destroyed in this step: %s, model says %s' % (p - 1, got, e[1])
        return None if p == len(L) else 'extra line %r' % L[p]
    c = Case(key, '\n'.join(src), judge)
    c.meta = (weaks, nid[0])
    return c

def burst(rng, key, n):
    """n weak fields on one object, then every one treated at random, then the object goes"""
    src = ['    my $t = WN->new(1); my $r = new WQ[%d];' % n, '    for (my $i = 0; $i < %d; $i++) { my $x = WN->new(-1); $x->{w0} = $t; weaken $x->{w0}; $x->{w1} = $t; weaken $x->{w1}; $r->[$i] = $x; }' % n]
    src[1] = src[1].replace('WN->new(-1)', 'WQ->new')
    st = ['w'] * n
    for j in rng.sample(range(n), n * 2 // 3):
        w = rng.choice('durxUb')
        if w == 'd': src.append('    $r->[%d] = undef;' % j); st[j] = None
        elif w == 'u': src.append('    { $r->[%d]->{w0} = undef; }' % j); st[j] = 'u'
        elif w == 'r': src.append('    { my $x = $r->[%d]; $x->{w0} = $t; weaken $x->{w0}; }' % j)
        elif w == 'x': src.append('    { my $x = $r->[%d]; unweaken $x->{w0}; weaken $x->{w0}; weaken $x->{w0}; }' % j)
        elif w == 'U': src.append('    { my $x = $r->[%d]; unweaken $x->{w0}; $x->{w0} = undef; }' % j); st[j] = 'u'
        else: src.append('    { my $k = $r->[%d]; $k->{w1} = $k; weaken $k->{w1}; }' % j); st[j] = 'b'
    chk = '    { my $a = 0; my $b = 0; my $c = 0; for (my $i = 0; $i < %d; $i++) { my $x = $r->[$i]; unless ($x) { next; } if ($x->{w0}) { $a++; if (!(isweak $x->{w0})) { say "notweak"; } } if ($x->{w1}) { $b++; } if (isweak $x->{w1}) { $c++; } } say "$a $b $c"; }' % n
    src.append(chk)
    src.append('    $t = undef; say "gone";')
    src.append(chk)
    al = [s for s in st if s]
    exp = ['%d %d %d' % (sum(s != 'u' for s in al), len(al), len(al)), '~1', 'gone', '0 %d %d' % (al.count('b'), al.count('b'))]
    return Case(key, '\n'.join(src), exp)

FILES['WQ.spvm'] = 'class WQ : public { has w0 : public WN; has w1 : public object; static method new : WQ () { return new WQ; } }\n'
USES = stmts.USES + ' use WN; use WN3; use WQ;'

def directed():
    out = []
    for t, mk in (('string', '"ab" . $n'), ('int[]', 'new int[2]'), ('object[]', 'new object[2]'), ('object', 'ZNode->new(-1)'), ('ZNode', 'ZNode->new(-1)'), ('ZFace', 'ZImpl->new(1)'), ('Int', 'Int->new(2)'), ('Z_3i[]', 'new Z_3i[2]'), ('mutable string', '(mutable string)copy "q"'), ('string[][]', '[["a"]]')):
        nm = 'WT' + ''.join(c for c in t if c.isalnum())
        cls = 'class %s : public { use ZNode; use ZFace; use Int; use Z_3i; has a : public byte; has w : public %s; has z : public int; static method new : %s () { return new %s; } }\n' % (nm, t, nm, nm)
        b = B('weak field of type %s' % t)
        b.do('my $n = 3; my $h = %s->new; { $h->{w} = %s; weaken $h->{w}; if ($h->{w}) { say "alive"; } } if ($h->{w}) { say "bad"; } else { say "undef"; }' % (nm, mk)); b.tok += ['alive', 'undef']
        b.do('{ my $k = %s; $h->{w} = $k; weaken $h->{w}; if (isweak $h->{w}) { say "weak"; } $h->{w} = $k; if (isweak $h->{w}) { say "bad"; } else { say "strong"; } weaken $h->{w}; unweaken $h->{w}; } if ($h->{w}) { say "kept"; } if (isweak $h->{w}) { say "bad"; } weaken $h->{w}; if ($h->{w}) { say "bad"; } else { say "gone"; }' % mk); b.tok += ['weak', 'strong', 'kept', 'gone']
        b.do('weaken $h->{w}; unweaken $h->{w}; if (isweak $h->{w}) { say "bad"; } else { say "no"; } $h->{z} = 5; say "" . $h->{z};'); b.tok += ['no', '5']
        b.do('{ my $k = (%s)undef; my $q = new %s; { my $v = %s; $q->{w} = $v; weaken $q->{w}; $q = undef; $k = $v; } if ($k) { say "survives"; } }' % (t, nm, mk)); b.tok += ['survives']
        c = b.case(); c.files = {nm + '.spvm': cls}; c.body = c.body
        c.decls = '  use %s;' % nm
        out.append(c)
    b = B('weak operators on undef')
    b.do('my $u = (ZNode)undef;').fault('weaken $u->{next};', 'invocant must be defined').fault('unweaken $u->{next};', 'invocant must be defined').fault('my $i = isweak $u->{next}; say "" . $i;', 'invocant must be defined').line('"on"', 'on')
    out.append(b.case())
    b = B('weak parent of a tree')
    b.do('{ my $p = ZNode->new(1); { my $c = ZNode->new(2); $p->{next} = $c; $c->{weaknext} = $p; weaken $c->{weaknext}; my $d = ZNode->new(3); $c->{next} = $d; $d->{weaknext} = $p; weaken $d->{weaknext}; } say "built"; my $c = $p->{next}; $p = undef; if ($c->{weaknext}) { say "bad"; } if ($c->{next}->{weaknext}) { say "bad"; } say "parent gone"; } say "end";'); b.tok += ['built', '~1', 'parent gone', '~2', '~3', 'end']
    out.append(b.case())
    b = B('weak reference to itself')
    b.do('{ my $p = ZNode->new(1); $p->{weaknext} = $p; weaken $p->{weaknext}; if (isweak $p->{weaknext}) { say "weak"; } } say "end";'); b.tok += ['weak', '~1', 'end']
    out.append(b.case())
    b = B('weakening the only reference')
    b.do('my $p = ZNode->new(-1); { $p->{next} = ZNode->new(2); } weaken $p->{next}; if ($p->{next}) { say "bad"; } say "gone";'); b.tok += ['~2', 'gone']
    b.do('{ $p->{next} = ZNode->new(3); $p->{next}->{next} = ZNode->new(4); } weaken $p->{next}; say "gone";'); b.tok += ['~3', '~4', 'gone']
    out.append(b.case())
    return out

def check(ck):
    ck.rule = ('one evaluation = one random history (set, weaken, unweaken, reassign, copy, drop over a graph of objects with 3-4 weakenable fields, inherited ones included) whose every step is compared with a '
               'reference-count model (which objects were destroyed in the step, the value and isweak of every field), or one burst of hundreds of weak fields on one object, or one generated program; distinct = history x engine')
    drv = vp.build_driver('asan')
    rng = ck.rng
    cases = [history(rng, 'history %d' % i, rng.choice([30, 60, 90]), rng.choice([3, 4, 6, 9])) for i in range(ck.n(240, 3000))]
    for c in cases: ck.count('weaken_steps', c.meta[0]); ck.count('objects_made', c.meta[1])
    cases += [burst(rng, 'burst %d' % i, rng.choice([3, 10, 40, 200])) for i in range(ck.n(30, 300))]
    cases += directed()
    ck.sample(cases[0].body[:1500])
    run_and_judge(ck, drv, cases, per=12, modes=('vm', 'pre'), pre_every=ck.n(5, 2), uses=USES, files=FILES, pre_opt='-O0')
    progcheck.run_programs(ck, drv, ck.n(200, 4000), {'weak': 4.0, 'obj': 1.5, 'exc': 0.6, 'num': 0.3, 'str': 0.4, 'size': 24, 'depth': 4}, modes=('vm',), prefix='wk')
    ck.assumptions = ['a strong cycle is never made by the histories (it would be a leak by design)', 'AddressSanitizer watches for use of a released referent or back reference']

vp.main('C06', check)

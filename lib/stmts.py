"""Directed catalogue: every operation of the instruction set on every operand type, with good, boundary and faulting
operands, and the expected log.  Shared by the checks on engine equality, memory safety, exceptions, types and arrays."""
import re, random
from spvmrun import Case

USES = ('use Fn; use Point; use Int; use Long; use Byte; use Short; use Float; use Double; use Bool; use IntList; use List; use Stringable; use Cloneable; '
        'use Array; use CommandInfo; use Error; use Error::System; use Error::NotSupported; '
        'use ZNode; use ZBase; use ZDer; use ZDer2; use ZFace; use ZImpl; use ZOther; use ZAll; use Z_3i; use Z_2d; use Z_4b; use Z_1s; use Z_2l; use Z_3f; use Error::Compile; use StringBuffer; use StringList; use Hash; use Comparator; use Sort; use Format;')

NUMT = ['byte', 'short', 'int', 'long', 'float', 'double']
MUL = {'Z_3i': ('int', 'xyz'), 'Z_2d': ('double', ['re', 'im']), 'Z_4b': ('byte', 'xyzt'), 'Z_1s': ('short', 'x'), 'Z_2l': ('long', 'xy'), 'Z_3f': ('float', 'xyz')}

FILES = {
 'ZNode.spvm': '''class ZNode : public {
  has b : rw byte; has s : rw short; has i : rw int; has l : rw long; has f : rw float; has d : rw double;
  has str : rw string; has o : rw object; has next : rw ZNode; has weaknext : rw ZNode; has ia : rw int[]; has oa : rw object[]; has id : rw int;
  has m3 : rw int;
  static method new : ZNode ($id : int = 0) { my $self = new ZNode; $self->{id} = $id; return $self; }
  method DESTROY : void () { if ($self->{id} > 0) { say "~" . $self->{id}; } }
  method get_id : int () { return $self->{id}; }
  method boom : void () { die "boom" . $self->{id}; }
}
'''.replace('has b : rw', 'has b : public rw').replace(' : rw ', ' : public rw ').replace('public public', 'public'),
 'ZBase.spvm': 'class ZBase : public { has base_f : public int; static method new : ZBase () { return new ZBase; } method who : string () { return "base"; } method only_base : int () { return 1; } method sum : int ($a : int, $b : int = 10) { return $a + $b; } }\n',
 'ZDer.spvm': 'class ZDer extends ZBase : public { has der_f : public int; static method new : ZDer () { return new ZDer; } method who : string () { return "der/" . $self->SUPER::who; } method only_der : int () { return 2; } }\n',
 'ZDer2.spvm': 'class ZDer2 extends ZDer : public { static method new : ZDer2 () { return new ZDer2; } method who : string () { return "der2/" . $self->SUPER::who; } }\n',
 'ZFace.spvm': 'class ZFace : interface_t public { required method face : int ($x : int); method opt : int (); }\n',
 'ZImpl.spvm': 'class ZImpl : public { interface ZFace; has k : public int; static method new : ZImpl ($k : int) { my $self = new ZImpl; $self->{k} = $k; return $self; } method face : int ($x : int) { return $x + $self->{k}; } }\n',
 'ZOther.spvm': 'class ZOther : public { static method new : ZOther () { return new ZOther; } method face2 : int ($x : int) { return -1; } }\n',
 'ZAll.spvm': '''class ZAll : public {
  our $B : public byte; our $S : public short; our $I : public int; our $L : public long; our $F : public float; our $D : public double;
  our $STR : public string; our $O : public object; our $N : public ZNode; our $IA : public int[];
  our $MSTR : public mutable string;
  static method reset : void () { $B = 0; $S = 0; $I = 0; $L = 0; $F = 0; $D = 0; $STR = undef; $O = undef; $N = undef; $IA = undef; $MSTR = undef; }
  static method thrower : int ($n : int) { if ($n > 0) { return ZAll->thrower($n - 1); } die "deep"; }
  static method thrower_id : int ($id : int) { die $id, "withid"; }
  static method nothing : void () { }
  static method w0 : int () { return args_width; }
  static method w2 : int ($a : int = 1, $b : string = undef) { return args_width * 100 + $a + length $b; }
}
''',
 'Z_3i.spvm': 'class Z_3i : mulnum_t public { has x : int; has y : int; has z : int; }\n',
 'Z_2d.spvm': 'class Z_2d : mulnum_t public { has re : double; has im : double; }\n',
 'Z_4b.spvm': 'class Z_4b : mulnum_t public { has x : byte; has y : byte; has z : byte; has t : byte; }\n',
 'Z_1s.spvm': 'class Z_1s : mulnum_t public { has x : short; }\n',
 'Z_2l.spvm': 'class Z_2l : mulnum_t public { has x : long; has y : long; }\n',
 'Z_3f.spvm': 'class Z_3f : mulnum_t public { has x : float; has y : float; has z : float; }\n',
}

E_ARR, E_IDX, E_NEG, E_FLD, E_UNB, E_UNBT = 'array must be defined', 'index is out of range', 'must be a non-negative integer', 'invocant must be defined', 'operand must defined|must be defined', 'numeric object type'
E_ASG, E_SET, E_RO = 'does not satisfy type assignability', 'does not satisfy type assignability', 'read-only|cannnot be cast|cannot be'
E_INV = 'invocant.*must be defined'

class F:
    """expected fault"""
    def __init__(self, rx, eid=18): self.rx, self.eid = rx, eid
class R:
    """expected line by regex"""
    def __init__(self, rx): self.rx = rx
class L: pass     # a line number line

def expect(tokens):
    def f(o):
        ls, i, last = o.lines, 0, None
        for t in tokens:
            if i >= len(ls): return 'the log ends where %s was expected' % (t if isinstance(t, str) else vars(t) if not isinstance(t, type) else 'L',)
            if isinstance(t, str):
                if ls[i] != t: return 'line %d: got %r, expected %r' % (i, ls[i], t)
                i += 1
            elif isinstance(t, R):
                if not re.fullmatch(t.rx, ls[i]): return 'line %d: got %r, expected a match of %r' % (i, ls[i], t.rx)
                i += 1
            elif t is L:
                m = re.fullmatch(r'L(\d+)', ls[i])
                if not m: return 'line %d: got %r, expected a line mark' % (i, ls[i])
                last = int(m.group(1)); i += 1
            else:
                m = re.match(r'X(-?\d+) (.*)', ls[i])
                if not m: return 'line %d: got %r, expected an exception (%s)' % (i, ls[i], t.rx)
                if t.eid is not None and int(m.group(1)) != t.eid: return 'line %d: %r: error id, expected %d' % (i, ls[i], t.eid)
                if not re.search(t.rx, m.group(2)): return 'line %d: the exception %r does not match %r' % (i, m.group(2), t.rx)
                i += 1
                tr = []
                while i < len(ls) and re.match(r' +\S+ at \S+ line \d+$', ls[i]): tr.append(ls[i]); i += 1
                if not tr: return 'line %d: no stack trace after the exception %r' % (i, m.group(2))
                mm = re.match(r' +\S+->(t_\d+) at \S+ line (\d+)$', tr[-1])
                if not mm: return 'line %d: the last trace line %r is not the frame of the test method' % (i, tr[-1])
                if last is not None and int(mm.group(2)) != last: return 'line %d: the trace says line %s, the statement is on line %d' % (i, mm.group(2), last)
        if i < len(ls): return 'line %d: unexpected %r' % (i, ls[i])
    return f

class B:
    def __init__(self, key, decls='', leak=0):
        self.key, self.decls, self.leak = key, decls, leak
        self.src, self.tok = [], []
    def do(self, s): self.src.append(s); return self
    def line(self, expr, *want):
        """prints expr"""
        self.src.append('say ' + expr + ';'); self.tok += list(want); return self
    def ok(self, stmt, *lines):
        self.src.append('eval { say "L" . __LINE__; %s } if ($@) { say "X" . eval_error_id . " " . $@; } else { say "ok"; }'.replace('} if', '}; if') % stmt)
        self.tok += [L] + list(lines) + ['ok']; return self
    def fault(self, stmt, rx='.', eid=18, lines=()):
        self.src.append('eval { say "L" . __LINE__; %s } if ($@) { say "X" . eval_error_id . " " . $@; } else { say "ok"; }'.replace('} if', '}; if') % stmt)
        self.tok += [L] + list(lines) + [F(rx, eid)]; return self
    def case(self):
        body = '\n'.join('    ' + s for s in self.src) + '\n    $@ = undef;'
        return Case(self.key, body, expect(self.tok), decls=self.decls, leak=self.leak, meta=len(self.tok))

INT = {'byte': (-128, 127), 'short': (-32768, 32767), 'int': (-2**31, 2**31 - 1), 'long': (-2**63, 2**63 - 1)}

def wrap(t, v):
    n = {'byte': 8, 'short': 16, 'int': 32, 'long': 64}[t]
    v &= (1 << n) - 1
    return v - (1 << n) if v >> (n - 1) else v

def lit(t, v):
    if t in ('float',): return '%sf' % fl(v)
    if t == 'double': return fl(v)
    if t == 'long' or not -2**31 < v < 2**31: return '%dL' % v if v != -2**63 else '(-9223372036854775807L - 1)'
    return '%d' % v
def fl(v): return '%s' % (repr(float(v)))
def val(rng, t):
    if t in INT: return rng.choice([INT[t][0], INT[t][1], 0, 1, -1, rng.randrange(-100, 100)])
    return rng.choice([0.0, -0.5, 1.5, 100.25, -3.0])
def show(t, v):
    return '%d' % v if t in INT else '%g' % v
def cast(t, v): return '(%s)%s' % (t, lit(t, v) if not (v < 0 and t not in ('float', 'double') and False) else '(%s)' % lit(t, v))

BADIDX = ['-1', 'LEN', 'LEN + 1', '2147483647', '-2147483648', '(-2147483647 - 1)', '65536', '-65536']

def arrays(rng):
    out = []
    for t in NUMT:
        for n in (0, 1, 5, rng.randrange(6, 40)):
            b = B('array %s %d' % (t, n))
            b.do('my $a = new %s[%d]; my $n = @$a;' % (t, n)).line('"" . $n . " " . (scalar @$a)', '%d %d' % (n, n))
            vals = [val(rng, t) for _ in range(n)]
            if n: b.do('for (my $i = 0; $i < @$a; $i++) { if ($a->[$i] != 0) { say "notzero"; } }')
            for i, v in enumerate(vals): b.do('$a->[%d] = %s;' % (i, cast(t, v)))
            for ix in BADIDX:
                ix = ix.replace('LEN', str(n))
                b.fault('my $v = $a->[%s]; say "" . $v;' % ix, E_IDX)
                b.fault('$a->[%s] = (%s)1;' % (ix, t), E_IDX)
            b.do('my $k = %d;' % n)
            b.fault('$a->[$k] += (%s)1;' % t, E_IDX)
            b.fault('$a->[-$k - 1]++;', E_IDX)
            b.fault('--$a->[$k];', E_IDX)
            b.do('{ my $s = ""; for (my $i = 0; $i < @$a; $i++) { $s .= $a->[$i] . ","; } say $s; }')
            b.tok.append(''.join(show(t, v) + ',' for v in vals))
            for _ in range(min(n, 4)):
                i = rng.randrange(n)
                op = rng.choice(['+', '-', '*'])
                w = val(rng, t)
                if t in INT:
                    r = wrap(t, {'+': vals[i] + w, '-': vals[i] - w, '*': vals[i] * w}[op])
                else:
                    w = rng.choice([1.0, 2.0, -0.5])
                    r = {'+': vals[i] + w, '-': vals[i] - w, '*': vals[i] * w}[op]
                b.do('$a->[%d] %s= %s;' % (i, op, cast(t, w)))
                vals[i] = r
                i = rng.randrange(n)
                pp = rng.choice(['++', '--'])
                d = 1 if pp == '++' else -1
                old = vals[i]
                new = wrap(t, old + d) if t in INT else old + d
                if rng.random() < .5: b.line('"" . $a->[%d]%s' % (i, pp), show(t, old))
                else: b.line('"" . %s$a->[%d]' % (pp, i), show(t, new))
                vals[i] = new
            b.do('{ my $s = ""; for my $v (@$a) { $s .= $v . ","; } say $s; }')
            b.tok.append(''.join(show(t, v) + ',' for v in vals))
            out.append(b.case())
        b = B('array %s undef and lengths' % t)
        b.do('my $a = (%s[])undef;' % t)
        b.fault('say "" . $a->[0];', E_ARR).fault('$a->[0] = (%s)1;' % t, E_ARR).fault('$a->[0] += (%s)1;' % t, E_ARR).fault('$a->[0]++;', E_ARR)
        b.fault('my $n = @$a; say "" . $n;').fault('for my $v (@$a) { say "no"; }')
        for n in ('-1', '-2147483648'): b.fault('my $x = new %s[%s];' % (t, n), E_NEG)
        b.do('my $m = -1;').fault('my $x = new %s[$m];' % t, E_NEG).fault('my $x = new %s[][$m];' % t, E_NEG)
        b.ok('my $x = new %s[0]; say "" . @$x;' % t, '0')
        b.ok('my $x = new %s[][3]; if ($x->[0] || $x->[1] || $x->[2]) { say "no"; } $x->[1] = new %s[2]; say "" . $x->[1][1];' % (t, t), '0')
        b.do('my $x = new %s[][2];' % t).fault('say "" . $x->[0][0];', E_ARR).fault('$x->[1][0] = (%s)1;' % t, E_ARR).fault('say "" . $x->[2][0];', E_IDX)
        out.append(b.case())
    # object-like element types
    for t, mk, sh in (('string', lambda i: '"s%d"' % i, lambda i: 's%d' % i), ('object', lambda i: '"o%d"' % i, lambda i: 'o%d' % i), ('ZNode', lambda i: 'ZNode->new(-%d)' % (i + 1), lambda i: '-%d' % (i + 1)), ('int[]', lambda i: '[%d, %d]' % (i, i + 1), lambda i: '%d' % (2 * i + 1))):
        read = {'string': '$v', 'object': '(string)$v', 'ZNode': '"" . $v->{id}', 'int[]': '"" . ($v->[0] + $v->[1])'}[t]
        n = rng.randrange(1, 9)
        b = B('array of %s %d' % (t, n))
        b.do('my $a = new %s[%d];' % (t if not t.endswith('[]') else t[:-2] + '[]', n) if not t.endswith('[]') else 'my $a = new int[][%d];' % n)
        b.do('for (my $i = 0; $i < @$a; $i++) { if ($a->[$i]) { say "notundef"; } }')
        for i in range(n): b.do('$a->[%d] = %s;' % (i, mk(i)))
        for ix in BADIDX:
            ix = ix.replace('LEN', str(n))
            b.fault('my $v = $a->[%s]; if ($v) { say "got"; }' % ix, E_IDX)
            b.fault('$a->[%s] = undef;' % ix, E_IDX)
            b.fault('$a->[%s] = %s;' % (ix, mk(77)), E_IDX)
        b.do('for my $v (@$a) { say %s; }' % read)
        b.tok += [sh(i) for i in range(n)]
        i = rng.randrange(n)
        b.do('$a->[%d] = undef; say (($a->[%d] ? 1 : 0));' % (i, i) if False else '$a->[%d] = undef; if ($a->[%d]) { say "1"; } else { say "0"; }' % (i, i)); b.tok.append('0')
        b.do('my $u = (%s[])undef;' % t)
        b.fault('my $v = $u->[0];', E_ARR).fault('$u->[0] = %s;' % mk(1), E_ARR)
        out.append(b.case())
    # element stores checked at run time
    b = B('array store through a wider static type')
    b.do('my $zn = [ZNode->new, ZNode->new]; my $oa = (object[])$zn;')
    b.fault('$oa->[0] = "str";', E_SET).fault('$oa->[1] = [1, 2];', E_SET).fault('$oa->[0] = ZOther->new;', E_SET).fault('$oa->[0] = 3;', E_SET)
    b.ok('$oa->[0] = undef; $oa->[1] = ZNode->new(-4); say "" . $zn->[1]->{id};', '-4')
    b.do('my $sa = ["a", "b"]; my $so = (object[])$sa;').fault('$so->[0] = 1;', E_SET).fault('$so->[0] = ["x"];', E_SET).ok('$so->[0] = "c"; say $sa->[0];', 'c')
    b.do('my $bases = new ZBase[2]; my $ders = new ZDer[2]; my $bb = (ZBase[])$ders;') if False else b.do('my $bases = new ZBase[2];')
    b.ok('$bases->[0] = ZDer->new; $bases->[1] = ZDer2->new; say $bases->[0]->who . $bases->[1]->who;', 'der/basederR'.replace('derR', '') + 'der2/der/base')
    b.do('my $fa = new ZFace[2]; $fa->[0] = ZImpl->new(5); my $fo = (object[])$fa;').fault('$fo->[1] = ZOther->new;', E_SET).ok('$fo->[1] = ZImpl->new(7); say "" . ($fa->[0]->face(1) + $fa->[1]->face(1));', '14')
    out.append(b.case())
    b = B('array literals')
    b.line('"" . scalar @{[1, 2, 3]}', '3') if False else None
    b.do('my $a = [1, 2L, 3.5] if 0;') if False else None
    b.do('my $i = [1, 2, 3]; my $d = [1.5, 2.5]; my $s = ["x", "y"]; my $o = [(object)1, "z"]; my $e = []; my $n = [[1, 2], [3]]; my $h = {a => 1, b => "t"};')
    b.line('"" . @$i . @$d . @$s . @$o . @$e . @$n . @$h', '3222024')
    for v, tn in (('i', 'int[]'), ('d', 'double[]'), ('s', 'string[]'), ('o', 'object[]'), ('e', 'object[]'), ('n', 'int[][]'), ('h', 'object[]')): b.line('type_name $%s' % v, tn)
    b.line('"" . ($n->[0][1] + $n->[1][0])', '5').line('(string)$h->[0] . (int)$h->[1] . (string)$h->[2] . (string)$h->[3]', 'a1bt')
    b.fault('say "" . $n->[1][1];', E_IDX).fault('say "" . $n->[2][0];', E_IDX)
    out.append(b.case())
    return [c for c in out if c]

def fields(rng):
    out = []
    FT = [('b', 'byte'), ('s', 'short'), ('i', 'int'), ('l', 'long'), ('f', 'float'), ('d', 'double')]
    for n, t in FT:
        b = B('field %s' % t)
        b.do('my $o = ZNode->new; my $u = (ZNode)undef;')
        others = [x for x, _ in FT if x != n]
        for v in {val(rng, t) for _ in range(6)}:
            b.do('$o->{%s} = %s;' % (n, cast(t, v))).line('"" . $o->{%s}' % n, show(t, v))
        b.line(' . '.join('"" . $o->{%s}' % x for x in others), '0' * len(others))
        b.do('$o->{%s} = %s; $o->{%s} += (%s)7; my $p = $o->{%s}++; my $q = --$o->{%s};' % (n, cast(t, 100), n, t, n, n)).line('"" . $o->{%s} . " " . $p . " " . $q' % n, '107 107 107')
        for st in ('say "" . $u->{%s};', '$u->{%s} = (T)1;', '$u->{%s} += (T)1;', '$u->{%s}++;', '--$u->{%s};'): b.fault(st.replace('T', t) % n, E_FLD)
        out.append(b.case())
    for n, mk in (('str', '"abc"'), ('o', '"obj"'), ('next', 'ZNode->new(-2)'), ('ia', '[1, 2]'), ('oa', '[(object)1, "a"]')):
        b = B('field %s' % n)
        b.do('my $o = ZNode->new; my $u = (ZNode)undef;')
        b.do('if ($o->{%s}) { say "set"; } $o->{%s} = %s; if ($o->{%s}) { say "T"; } $o->{%s} = undef; unless ($o->{%s}) { say "F"; }' % ((n,) + (n, mk) + (n,) * 3)); b.tok += ['T', 'F']
        for st in ('my $x = $u->{%s};', '$u->{%s} = undef;', '$u->{%s} = ' + mk + ';'): b.fault(st % n, E_FLD)
        if n in ('str',): b.fault('$u->{str} .= "x";', E_FLD).fault('$o->{str} .= "x";')
        if n == 'next':
            for st in ('weaken $u->{next};', 'unweaken $u->{next};', 'my $w = isweak $u->{next};'): b.fault(st, E_FLD)
            b.ok('weaken $o->{next}; if (isweak $o->{next}) { say "weak-undef"; } else { say "not"; }', 'not')
            b.fault('say "" . $o->{next}->{id};', E_FLD).fault('$o->{next}->{next}->{id} = 3;', E_FLD).fault('$o->next->set_id(3);', E_INV)
        out.append(b.case())
    b = B('weak fields')
    b.do('my $a = ZNode->new(1); my $b = ZNode->new(2); $a->{next} = $b; $b->{weaknext} = $a; weaken $b->{weaknext};')
    b.do('if (isweak $b->{weaknext}) { say "weak"; } unless (isweak $a->{next}) { say "strong"; }'); b.tok += ['weak', 'strong']
    b.do('weaken $b->{weaknext}; weaken $b->{weaknext}; if (isweak $b->{weaknext}) { say "weak"; }'); b.tok += ['weak']
    b.do('my $c = ZNode->new(3); $c->{next} = $a; weaken $c->{next}; unweaken $c->{next}; unless (isweak $c->{next}) { say "unweak"; }'); b.tok += ['unweak']
    b.do('$a = undef; say "a gone?"; if ($b->{weaknext}) { say "still"; } $c->{next} = undef; say "now"; unless ($b->{weaknext}) { say "cleared"; } if (isweak $b->{weaknext}) { say "weakbit"; } else { say "noweakbit"; }')
    b.tok += ['a gone?', 'still', '~1', 'now', 'cleared', 'noweakbit']
    b.do('$b = undef; say "b"; $c = undef; say "c";'); b.tok += ['~2', 'b', '~3', 'c']
    out.append(b.case())
    return out

def strings(rng):
    out = []
    for s in ('', 'a', 'hello', 'x' * 40):
        n = len(s)
        b = B('string index %d' % n)
        b.do('my $s = "%s"; my $m = (mutable string)copy $s; if (length $s != %d) { say "bad"; }' % (s, n)).line('"" . length $m', str(n))
        for ix in BADIDX:
            ix = ix.replace('LEN', str(n))
            b.fault('my $c = $s->[%s]; say "" . $c;' % ix, E_IDX).fault("$m->[%s] = 'Q';" % ix, E_IDX)
            b.fault('my $c = $m->[%s];' % ix, E_IDX)
        for i in range(min(n, 3)):
            b.line('"" . $s->[%d]' % i, str(ord(s[i])))
        if n:
            i = rng.randrange(n)
            b.do("$m->[%d] = 'Z'; $m->[%d] = (byte)($m->[%d] + 0);" % (i, i, i)).line('$m', s[:i] + 'Z' + s[i + 1:]).line('$s', s)
        b.line('"" . Mon->nul_terminated($s) . Mon->nul_terminated($m)', '11')
        out.append(b.case())
    b = B('string undef and faults')
    b.do('my $u = (string)undef; my $um = (mutable string)undef; my $a = "abc"; my $r = "";')
    b.fault('say "" . $u->[0];', E_ARR).fault("$um->[0] = 'a';", E_ARR)
    b.fault('$r = $u . $a;', 'left operand').fault('$r = $a . $u;', 'right operand').fault('$r = $u . $u;').fault('$r .= $u;', 'right operand').fault('$u .= $a;', 'left operand')
    b.line('"" . length $u', '0')
    b.do('my $c = copy $u; unless ($c) { say "copyundef"; }'); b.tok.append('copyundef')
    b.fault('my $n = new_string_len -1;', E_NEG).fault('my $k = -2147483648; my $n = new_string_len $k;', E_NEG)
    b.ok('my $n = new_string_len 0; say "" . length $n . Mon->nul_terminated($n);', '01')
    b.ok('my $n = new_string_len 3; say Mon->hex($n) . Mon->nul_terminated($n);', '0000001')
    b.do('my $m = (mutable string)copy "xyz"; if (is_read_only $m) { say "ro"; } else { say "rw"; } make_read_only $m; if (is_read_only $m) { say "ro"; }'); b.tok += ['rw', 'ro']
    b.do('my $sm = (string)$m;').fault('my $w = (mutable string)$sm;', 'read-only').fault('my $w = (mutable string)"lit";', 'read-only').fault('my $w = (mutable string)(object)"lit";', 'read-only|assignability')
    b.ok('my $w = (mutable string)(string)copy "q"; $w->[0] = \'p\'; say $w;', 'p')
    b.do('if (is_read_only "lit") { say "ro"; } my $k = copy $m; unless (is_read_only $k) { say "rw"; }'); b.tok += ['ro', 'rw']
    b.line('$r', '')
    out.append(b.case())
    b = B('string comparison with undef')
    b.do('my $u = (string)undef; my $v = (string)undef; my $a = "a"; my $e = "";')
    for op, table in (('eq', (1, 0, 0, 0, 0, 0)), ('ne', (0, 1, 1, 1, 1, 1)), ('gt', (0, 0, 1, 0, 1, 1)), ('ge', (1, 0, 1, 0, 1, 1)), ('lt', (0, 1, 0, 1, 0, 0)), ('le', (1, 1, 0, 1, 0, 0)), ('cmp', (0, -1, 1, -1, 1, 1))):
        for (x, y), r in zip((('$u', '$v'), ('$u', '$a'), ('$a', '$u'), ('$u', '$e'), ('$e', '$u'), ('$a', '$e')), table):
            b.line('"" . (%s %s %s)' % (x, op, y), str(r))
    out.append(b.case())
    b = B('byte arrays and strings')
    b.do('my $s = "ab" . "c"; my $y = (byte[])$s; say "" . @$y . $y->[0]; $y->[0] = (byte)90; say $s; my $t = (string)$y; say $t; $y->[1] = (byte)90; say $t; my $z = new byte[0]; say "<" . (string)$z . ">";'); b.tok += ['397', 'abc', 'Zbc', 'Zbc', '<>']
    b.do('my $un = (byte[])(string)undef; unless ($un) { say "undef"; } my $us = (string)(byte[])undef; unless ($us) { say "undef"; }'); b.tok += ['undef', 'undef']
    out.append(b.case())
    return out

def casts(rng):
    out = []
    objs = {'ZBase': ('ZBase->new', ['ZBase', 'object']), 'ZDer': ('ZDer->new', ['ZDer', 'ZBase', 'object']), 'ZDer2': ('ZDer2->new', ['ZDer2', 'ZDer', 'ZBase', 'object']),
            'ZImpl': ('ZImpl->new(1)', ['ZImpl', 'ZFace', 'object']), 'ZOther': ('ZOther->new', ['ZOther', 'object']), 'ZNode': ('ZNode->new', ['ZNode', 'object']),
            'string': ('"s"', ['string', 'object']), 'int[]': ('[1]', ['int[]', 'object']), 'string[]': ('["a"]', ['string[]', 'object[]', 'object']), 'int[][]': ('[[1]]', ['int[][]', 'object[]', 'object']),
            'object[]': ('new object[1]', ['object[]', 'object']), 'ZDer[]': ('new ZDer[1]', ['ZDer[]', 'ZBase[]', 'object[]', 'object']), 'ZBase[]': ('new ZBase[1]', ['ZBase[]', 'object[]', 'object']),
            'ZImpl[]': ('new ZImpl[1]', ['ZImpl[]', 'ZFace[]', 'object[]', 'object']), 'Int': ('Int->new(3)', ['Int', 'object']), 'Long': ('Long->new(3)', ['Long', 'object']), 'ZNode[][]': ('new ZNode[][1]', ['ZNode[][]', 'object[]', 'object']),
            'byte[]': ('new byte[1]', ['byte[]', 'object']), 'double[]': ('new double[1]', ['double[]', 'object']), 'Z_3i[]': ('new Z_3i[1]', ['Z_3i[]', 'object'])}
    targets = sorted({x for v in objs.values() for x in v[1]} | {'ZFace[]', 'ZDer2[]', 'mutable string', 'ZNode[]', 'long[]', 'Z_2d[]'})
    for src, (mk, good) in objs.items():
        b = B('casts of %s' % src)
        b.do('my $o = (object)%s; my $keep = $o;' % mk)
        b.line('type_name $o', src)
        for t in targets:
            if t == 'mutable string' : 
                continue
            isok = t in good or (t in ('string',) and src == 'string')
            if t == 'byte[]' and src == 'string' or t == 'string' and src == 'byte[]': continue     # conversions, see strings
            if isok: b.ok('my $x = (%s)$o; if (Mon->addr($x) == Mon->addr($o)) { say "same"; }' % t, 'same')
            else: b.fault('my $x = (%s)$o; say "stored";' % t, E_ASG)
            b.line('"" . ($o isa %s)' % t, '1' if isok else '0') if t != 'object' else None
            if t not in ('ZFace', 'ZFace[]', 'object', 'object[]'): b.line('"" . ($o is_type %s)' % t, '1' if t == src else '0')
        b.do('my $u = (object)undef;')
        for t in rng.sample(targets, 5):
            b.ok('my $x = (%s)$u; unless ($x) { say "undef"; }' % t, 'undef')
            if t not in ('object', 'mutable string'): b.line('"" . ($u isa %s)' % t, '0')
        out.append(b.case())
    b = B('unboxing')
    kinds = {'byte': 'Byte', 'short': 'Short', 'int': 'Int', 'long': 'Long', 'float': 'Float', 'double': 'Double'}
    for t, k in kinds.items():
        v = val(rng, t)
        b.do('{ my $o = (object)%s; say type_name $o; my $x = (%s)$o; say "" . $x; }' % (cast(t, v), t)); b.tok += [k, show(t, v)]
        for t2, k2 in kinds.items():
            if t2 != t: b.fault('my $o = (object)%s; my $x = (%s)$o; say "" . $x;' % (cast(t, v), t2), E_UNBT + '|assignability')
        b.fault('my $o = (object)undef; my $x = (%s)$o; say "" . $x;' % t, E_UNB)
        b.fault('my $o = (object)"12"; my $x = (%s)$o; say "" . $x;' % t, E_UNBT)
        b.fault('my $o = (%s)undef; my $x = (%s)$o; say "" . $x;' % (k, t), E_UNB)
        b.ok('my $o = (%s)%s; my $x = (%s)$o; say "" . $x;' % (k, cast(t, v), t), show(t, v))
    out.append(b.case())
    return out

def calls(rng):
    out = []
    b = B('calls on undef')
    b.do('my $u = (ZNode)undef; my $f = (ZFace)undef; my $d = (ZBase)undef; my $l = (List)undef;')
    b.fault('my $x = $u->get_id; say "" . $x;', E_INV).fault('$u->boom;', E_INV).fault('my $x = $f->face(1);', E_INV).fault('my $x = $d->who;', E_INV).fault('$u->set_id(3);', E_INV).fault('my $x = $u->i;', E_INV)
    b.fault('my $x = $l->get(0);', E_INV).fault('my $x = $f->opt;', E_INV)
    b.fault('my $c = (Comparator)undef; my $r = $c->(undef, undef);', E_INV)
    b.ok('ZAll->nothing; say "" . ZAll->w0 . "" . (ZAll->w2 - 0) . "," . ZAll->w2(5) . "," . ZAll->w2(5, "abc");', '01,105,208')
    b.fault('my $i = (ZFace)ZImpl->new(1); my $x = $i->opt;', 'not found|implementation')
    b.ok('my $x = (ZBase)ZDer2->new; say $x->who . $x->only_base . $x->sum(1) . $x->sum(1, 2);', 'der2/der/base1113')
    b.ok('my $x = ZDer2->new; say $x->ZBase::who . "," . $x->ZDer::who;', 'base,der/base')
    out.append(b.case())
    b = B('argument and return types')
    decl = ''
    for i, t in enumerate(NUMT):
        decl += '  static method ra_%d : %s ($x : %s) { return $x; }\n' % (i, t, t)
        for v in [val(rng, t) for _ in range(3)]: b.line('"" . TB_CLS->ra_%d(%s)' % (i, cast(t, v)), show(t, v))
    decl += '  static method ra_all : double ($a : byte, $b : short, $c : int, $d : long, $e : float, $f : double, $g : string, $h : object, $i : int[]) { return $a * 1.0 + $b * 2.0 + $c * 3.0 + $d * 4.0 + $e * 5.0 + $f * 6.0 + length $g + (int)$h + $i->[1]; }\n'
    decl += '  static method ra_many : int (%s) { return %s; }\n' % (', '.join('$a%d : int' % i for i in range(40)), ' + '.join('%d * $a%d' % (i + 1, i) for i in range(40)))
    b.line('"" . TB_CLS->ra_all((byte)1, (short)2, 3, 4L, 5f, 6.0, "seven", (object)8, [9, 10])', '%g' % (1 + 4 + 9 + 16 + 25 + 36 + 5 + 8 + 10))
    b.line('"" . TB_CLS->ra_many(%s)' % ', '.join(str(i * i) for i in range(40)), str(sum((i + 1) * i * i for i in range(40))))
    b.decls = decl
    c = b.case(); out.append(c)
    # mulnum
    for m, (t, fs) in MUL.items():
        fs = list(fs)
        b = B('mulnum %s' % m)
        b.decls = ('  static method mp_{0} : {0} ($m : {0}, $k : int) {{ $m->{{{1}}} += ({2})$k; return $m; }}\n'
                   '  static method mr_{0} : void ($m : {0}*) {{ $m->{{{1}}} = ({2})(($m->{{{1}}}) + 3); }}\n').format(m, fs[-1], t)
        vs = [val(rng, t) if t in ('float', 'double') else rng.randrange(-50, 50) for _ in fs]
        b.do('my $v : %s; ' % m + ''.join('if ($v->{%s} != 0) { say "nz"; } ' % f for f in fs) + ''.join('$v->{%s} = %s; ' % (f, cast(t, x)) for f, x in zip(fs, vs)))
        sh = lambda v: '"" . ' + ' . "," . '.join('%s{%s}' % (v, f) for f in fs)
        st = lambda xs: ','.join(show(t, x) for x in xs)
        b.line(sh('$v->'), st(vs))
        b.do('my $w = $v; $w->{%s} = (%s)77;' % (fs[0], t)).line(sh('$v->'), st(vs)).line(sh('$w->'), st([77] + vs[1:]))
        r = vs[:-1] + [vs[-1] + 5]
        b.do('my $x = TB_CLS->mp_%s($v, 5);' % m).line(sh('$v->'), st(vs)).line(sh('$x->'), st(r))
        b.do('TB_CLS->mr_%s(\\$v);' % m); vs = vs[:-1] + [vs[-1] + 3]; b.line(sh('$v->'), st(vs))
        n = rng.randrange(1, 6)
        i = rng.randrange(n)
        b.do('my $a = new %s[%d]; $a->[%d] = $v; my $y = $a->[%d];' % (m, n, i, i)).line(sh('$y->'), st(vs)).line(sh('$a->[%d]' % i), st(vs))
        for j in range(n):
            if j != i: b.line(sh('$a->[%d]' % j), st([0] * len(fs)))
        b.do('$a->[%d]{%s} = (%s)9;' % (i, fs[0], t)); b.line(sh('$a->[%d]' % i), st([9] + vs[1:])).line(sh('$v->'), st(vs))
        b.do('$a->[%d]{%s} += (%s)2; $a->[%d]{%s}++;' % (i, fs[-1], t, i, fs[-1]))
        e = [9] + vs[1:]; e[-1] += 3
        b.line(sh('$a->[%d]' % i), st(e))
        for ix in BADIDX:
            ix = ix.replace('LEN', str(n))
            b.fault('my $z = $a->[%s]; say "got";' % ix, E_IDX).fault('$a->[%s] = $v;' % ix, E_IDX).fault('my $z = $a->[%s]{%s}; say "" . $z;' % (ix, fs[0]), E_IDX).fault('$a->[%s]{%s} = (%s)1;' % (ix, fs[-1], t), E_IDX)
        b.do('my $u = (%s[])undef;' % m)
        b.fault('my $z = $u->[0];', E_ARR).fault('$u->[0] = $v;', E_ARR).fault('my $z = $u->[0]{%s}; say "" . $z;' % fs[0], E_ARR).fault('$u->[0]{%s} = (%s)1;' % (fs[0], t), E_ARR)
        b.do('my $ref = \\$v; $ref->{%s} = (%s)11; my $d = $$ref;' % (fs[0], t)); vs = [11] + vs[1:]
        b.line(sh('$v->'), st(vs)).line(sh('$d->'), st(vs))
        b.do('$d->{%s} = (%s)12; $$ref = $d;' % (fs[0], t)).line(sh('$v->'), st([12] + vs[1:]))
        b.line(sh('$a->[%d]' % i), st(e))
        out.append(b.case())
    # numeric references
    for t in NUMT:
        b = B('reference %s' % t)
        b.decls = '  static method rr_{0} : void ($r : {0}*, $s : {0}*) {{ $$r = ({0})($$r + $$s); my $t = $$s; $$s = $$r; $$s += $t; $$r++; }}'.format(t)
        b.do('my $g1 = (%s)100; my $x = (%s)3; my $g2 = (%s)101; my $y = (%s)5; my $g3 = (%s)102; my $r = \\$x; my $s = \\$y;' % ((t,) * 5))
        b.do('$$r = (%s)4; $$s += (%s)2; $$s--;' % (t, t)).line('"" . $x . "," . $y . "," . $$r', '4,6,4')
        b.do('TB_CLS->rr_%s($r, $s);' % t).line('"" . $x . "," . $y . "," . $g1 . $g2 . $g3', '11,16,100101102')
        b.do('TB_CLS->rr_%s(\\$x, \\$x);' % t)
        # aliased: r=22; t=22; s=22; s=44; r++ = 45
        b.line('"" . $x', '45')
        out.append(b.case())
    for c in out:
        c.body = c.body.replace('TB_CLS', 'TB'); c.decls = c.decls.replace('TB_CLS', 'TB')
    return out

def class_vars(rng):
    b = B('class variables')
    b.do('ZAll->reset;')
    for n, t in (('B', 'byte'), ('S', 'short'), ('I', 'int'), ('L', 'long'), ('F', 'float'), ('D', 'double')):
        v = val(rng, t) if t in ('float', 'double') else rng.randrange(-50, 50)
        b.do('$ZAll::%s = %s; $ZAll::%s += (%s)2; $ZAll::%s++;' % (n, cast(t, v), n, t, n)).line('"" . $ZAll::%s' % n, show(t, v + 3))
    b.do('$ZAll::STR = "s" . 1; $ZAll::STR .= "t"; { $ZAll::O = ZNode->new(7); } { $ZAll::N = ZNode->new(8); } $ZAll::IA = [4, 5]; $ZAll::IA->[1]++;')
    b.do('{ say $ZAll::STR . ($ZAll::O isa ZNode) . $ZAll::N->{id} . $ZAll::IA->[1]; }'); b.tok.append('s1t186')
    b.fault('say "" . $ZAll::IA->[2];', E_IDX)
    b.do('$ZAll::N = undef; say "n";'); b.tok += ['~8', 'n']
    b.fault('$ZAll::N->{id} = 1;', E_FLD).fault('$ZAll::N->boom;', E_INV)
    b.do('ZAll->reset; say "r";'); b.tok += ['~7', 'r']
    b.fault('$ZAll::STR .= "x";', 'left operand').fault('say "" . $ZAll::IA->[0];', E_ARR)
    b.fault("$ZAll::MSTR->[0] = 'a';", E_ARR)
    return [b.case()]

def dies(rng):
    out = []
    b = B('die variants')
    b.fault('die "m1";', '^m1$').fault('die "";', '^$').fault('die;', '^Error$').fault('die 5, "five";', '^five$', 5).fault('die Error::System "sys";', '^sys$', 19)
    b.fault('die "a" . "b" . 3;', '^ab3$').fault('ZAll->thrower(0);', '^deep$').fault('ZAll->thrower(20);', '^deep$').fault('ZAll->thrower_id(77);', '^withid$', 77)
    b.fault('ZNode->new(-3)->boom;', '^boom-3$')
    b.fault('eval { die "in"; }; say "mid"; die "out";', '^out$', lines=['mid'])
    b.fault('my $n = ZNode->new(9); $n->boom;', '^boom9$', lines=['~9'])
    b.ok('eval { die 9, "in"; }; say "" . eval_error_id; eval { }; say "" . eval_error_id; if ($@) { say "set"; }', '9', '0')
    b.fault('eval { die 33, "in"; }; die eval_error_id, "again";', '^again$', 33)
    b.line('"" . eval_error_id', '33')
    b.do('eval { }; say "" . eval_error_id; if ($@) { say "set"; }'); b.tok.append('0')
    b.fault('my $z = 0; say "" . (1 / $z);', 'divided by 0').fault('my $z = 0L; say "" . (1L % $z);', 'divided by 0').fault('my $z = (byte)0; my $q = (byte)1; $q /= $z;', 'divided by 0')
    b.ok('my $z = 0.0; my $r = 1.0 / $z; if ($r > Fn->DOUBLE_MAX) { say "inf"; }', 'inf')
    out.append(b.case())
    b = B('type names and tests')
    for e, n in (('ZNode->new', 'ZNode'), ('"s"', 'string'), ('[1]', 'int[]'), ('(object)1', 'Int'), ('new ZNode[][2]', 'ZNode[][]'), ('new Z_3i[1]', 'Z_3i[]'), ('new object[1]', 'object[]')):
        b.line('type_name %s' % e, n)
    for e, n in (('1', 'int'), ('1L', 'long'), ('1.5', 'double'), ('1f', 'float'), ('(byte)1', 'byte'), ('"s"', 'string'), ('(object)1', 'object'), ('ZDer->new', 'ZDer'), ('(ZBase)ZDer->new', 'ZBase'), ('[1]', 'int[]')):
        b.line('compile_type_name %s' % e, n)
    b.do('my $u = (object)undef;')
    b.ok('my $t = type_name $u; if ($t) { say "t"; } else { say "undef"; }', 'undef')
    out.append(b.case())
    b = B('can')
    b.do('my $x = (ZBase)ZDer->new; my $u = (ZBase)undef;')
    for m, r in (('who', 1), ('only_base', 1), ('sum', 1)): b.line('"" . (!!($x can %s))' % m, str(r))
    b.do('my $f = (ZFace)ZImpl->new(1);').line('"" . (!!($f can face))', '1').line('"" . (!!($f can opt))', '0')
    out.append(b.case())
    return out

def recursion(rng):
    b = B('deep recursion', decls='  static method rec : int ($n : int) { my $o = ZNode->new(-1); return 1 + TB->rec($n + 1); }\n  static method rec2 : int ($n : int) { if ($n == 0) { return 0; } return 1 + TB->rec2($n - 1); }')
    b.line('"" . TB->rec2(400)', '400')
    b.do('eval { TB->rec(0); }; if ($@) { say "X" . eval_error_id; } say "" . TB->rec2(300);'); b.tok += [R(r'X\d+'), '300']
    return [b.case()]

def regress(rng):
    """defects found earlier, and their neighbourhood"""
    b = B('temporaries of conditions')
    b.do('my $i = 0; while (ZNode->new(5)->get_id > $i) { $i += 3; say "i$i"; } say "end";'); b.tok += ['i3', '~5', 'i6', '~5', '~5', 'end'] if False else []
    b.src.pop()
    b.do('for (my $k = 0; $k < 2000; $k++) { my $t = "x" . $k; }')
    b.do('my $c = (string)undef; { if ($c && length ("a" . $k2) > 0) { } }'.replace('$k2', '1'))
    b.do('my $late = "la" . 2; say $late;'); b.tok += ['la2']
    b.do('{ my $n = 0; while ($n < 3 && length ("q" . $n) > 0) { $n++; } say "" . $n; }'); b.tok += ['3']
    return [b.case()]

def conversions(rng):
    out = []
    b = B('string to number and back')
    import struct
    for t in NUMT:
        for _ in range(4):
            v = val(rng, t)
            b.line('"" . (%s)"%s"' % (t, show(t, v)), show(t, v))
        b.line('(string)%s' % cast(t, 7), '7')
    for s, i in (('abc', 0), ('', 0), ('12abc', 12), ('  9', 9), ('-5x', -5), ('99999999999', None)):
        if i is not None: b.line('"" . (int)"%s"' % s, str(i))
    b.ok('my $u = (string)undef; my $x = (int)$u; say "" . $x;', '0') if False else None
    out.append(b.case())
    return out

def output(rng):
    b = B('print say warn dump')
    b.do('print "a"; print "b\\n"; say "c"; say ""; print ""; my $u = (string)undef; print "d"; say "";'); b.tok += ['ab', 'c', '', 'd']
    b.do('say dump [1, 2];'); b.tok += [R(r'.*')] * 4
    b.src.pop(); b.tok = b.tok[:-4]
    return [b.case()]

def all_cases(rng, ck=None):
    r = random.Random(rng.random())
    out = arrays(r) + fields(r) + strings(r) + casts(r) + calls(r) + class_vars(r) + dies(r) + recursion(r) + regress(r) + conversions(r) + output(r)
    r.shuffle(out)
    return out

"""Native::MethodCall: random methods, called with boxed arguments (valid, or one thing wrong), judged against the documented conversions."""
import random, struct
import natmodel as nm
NUM = ['byte', 'short', 'int', 'long', 'float', 'double']; L = dict(zip(NUM, 'bsilfd'))
def lit(t, v):
    if t == 'long': return '%dL' % v if v != -(1 << 63) else '(-9223372036854775807L - 1L)'
    if t == 'int' and v == -(1 << 31): return '(-2147483647 - 1)'
    if t in ('float', 'double'): return ('%r' % v) + ('f' if t == 'float' else '')
    return '(%s)(%d)' % (t, v) if t in ('byte', 'short') else '%d' % v
def val(rng, t):
    if t in ('float', 'double'): return rng.choice([0.0, 1.5, -2.25, 1024.0, -0.5, 3.0])
    n = nm.BITS[L[t]]; return nm.wrap(L[t], rng.choice([0, 1, -1, 7, (1 << (n - 1)) - 1, -(1 << (n - 1)), rng.getrandbits(n)]))
MUL = {'MM_2b': 'byte', 'MM_3i': 'int', 'MM_2d': 'double', 'MM_4l': 'long', 'MM_1f': 'float', 'MM_2s': 'short'}
NF = {m: int(m[3]) for m in MUL}
OBJ = ['object', 'string', 'int[]', 'OA', 'OB', 'OI', 'object[]', 'OA[]', 'double[][]', 'Int']
def sv(t, v): return ('%d' % nm.bits(L[t], v))
def classes():
    c = {m: 'class %s : mulnum_t { %s }' % (m, ' '.join('has f%d : %s;' % (i, t) for i in range(NF[m]))) for m, t in MUL.items()}
    c['OI'] = 'class OI : interface_t { required method nm : string (); }'
    c['OA'] = 'class OA : public { interface OI; has id : public int; static method new : OA ($i : int) { my $s = new OA; $s->{id} = $i; return $s; } method nm : string () { return "OA"; } %INST% }'
    c['OB'] = 'class OB extends OA : public { static method new : OB ($i : int) { my $s = new OB; $s->{id} = $i; return $s; } method nm : string () { return "OB"; } }'
    sh = ''.join('    if ($o isa %s) { my $v = ((%s)$o)->value; print "%s %s\\n"; return; }\n' % (t.capitalize(), t.capitalize(), t.capitalize(), '$v' if t not in ('float', 'double') else '@') for t in [])
    body = []
    for t in NUM:
        e = {'float': 'Mon->float_bits(%s)', 'double': 'Mon->double_bits(%s)', 'byte': '(int)%s', 'short': '(int)%s'}.get(t, '%s'); C = t.capitalize()
        body.append('    if ($o isa %s) { my $v = %s; print " %s:$v"; return; }' % (C, e % ('((%s)$o)->value' % C), C))
        body.append('    if ($o is_type %s[]) { print " %s["; for my $x (@{(%s[])$o}) { my $v = %s; print "$v,"; } print "]"; return; }' % (t, t, t, e % '$x'))
    c['Sh'] = 'class Sh { use Mon; use OA; static method o : void ($o : object) { unless ($o) { print " undef"; return; }\n%s\n    if ($o isa string) { my $v = (string)$o; print " string:$v"; return; }\n    if ($o isa OA) { my $i = ((OA)$o)->{id}; my $n = ((OA)$o)->nm; print " $n:$i"; return; }\n    my $n = type_name $o; print " $n"; }\n%s }' % ('\n'.join(body), '\n'.join('  static method %s : void ($x : %s) { my $v = %s; print " $v"; }' % (L[t], t, {'float': 'Mon->float_bits($x)', 'double': 'Mon->double_bits($x)', 'byte': '(int)$x', 'short': '(int)$x'}.get(t, '$x')) for t in NUM))
    return c

class Meth:
    def __init__(s, rng, i):
        s.name = 'm%d' % i; s.inst = rng.random() < .35; s.args = []; opt = False
        for k in range(rng.choice([0, 1, 2, 3, 4, 6])):
            opt = opt or rng.random() < .2; kind = rng.choice(['n', 'n', 'm', 'r', 'R', 'o', 'o'])
            if opt: kind = rng.choice('no')
            t = rng.choice(NUM) if kind in 'nr' else rng.choice(list(MUL)) if kind in 'mR' else rng.choice(OBJ)
            d = None
            if opt: d = abs(val(rng, t)) if kind == 'n' else None
            if opt and kind == 'n' and t in NUM[:4]: d = min(d, 100)
            s.args.append((kind, t, opt, d))
        r = rng.choice(['void', 'arg', 'arg', 'arg', 'undef'])
        cand = [i for i, a in enumerate(s.args) if a[0] in 'nmo']
        s.ret = rng.choice(cand) if r == 'arg' and cand else None; s.rt = s.args[s.ret][1] if s.ret is not None else 'void' if r != 'undef' else 'OA'
        s.throws = rng.random() < .12
    def text(s):
        b = ['print "@Q %s";' % s.name]; a = []
        if s.inst: b.append('Sh->o($self);')
        for i, (k, t, o, d) in enumerate(s.args):
            n = '$a%d' % i
            a.append('%s : %s%s%s' % (n, t, '*' if k in 'rR' else '', ' = %s' % ('undef' if k == 'o' else lit(t, d) if t not in ('byte', 'short') else d) if o else ''))
            if k == 'n': b.append('Sh->%s(%s);' % (L[t], n))
            elif k == 'o': b.append('Sh->o(%s);' % n)
            elif k == 'r': b.append('Sh->%s($%s); $%s = (%s)($%s + 1);' % (L[t], n, n, t, n))
            else:
                for j in range(NF[t]): b.append('Sh->%s(%s->{f%d});' % (L[MUL[t]], n, j) + (' %s->{f%d} = (%s)(%s->{f%d} + %d);' % (n, j, MUL[t], n, j, j + 1) if k == 'R' else ''))
        b.append('print "\\n";')
        if s.throws: b.append('die "thrown-%s";' % s.name)
        if s.rt == 'void': pass
        elif s.ret is None: b.append('return undef;')
        else: b.append('return $a%d;' % s.ret)
        return '%smethod %s : %s (%s) { %s }' % ('' if s.inst else 'static ', s.name, s.rt, ', '.join(a), ' '.join(b))

def objval(rng, t):
    """(expression, shown)"""
    i = rng.randrange(100)
    any_ = [('(object)OA->new(%d)' % i, 'OA:%d' % i), ('(object)OB->new(%d)' % i, 'OB:%d' % i), ('(object)"s%d"' % i, 'string:s%d' % i), ('(object)[%d, 2]' % i, 'int[%d,2,]' % i), ('(object)Int->new(%d)' % i, 'Int:%d' % i), ('(object)new OA[2]', 'OA[]'), ('(object)new double[][2]', 'double[][]'), ('(object)new object[1]', 'object[]'), ('(object)new string[1]', 'string[]'), ('(object)new OB[1]', 'OB[]'), ('(object)new int[][1]', 'int[][]'), ('(object)[1.5]', 'double[%d,]' % nm.bits('d', 1.5))]
    ok = {'object': range(12), 'string': [2], 'int[]': [3], 'OA': [0, 1], 'OB': [1], 'OI': [0, 1], 'object[]': [5, 6, 7, 8, 9, 10], 'OA[]': [5], 'double[][]': [6], 'Int': [4]}[t]
    return any_, list(ok)
COV = {'OA[]': {9: None}}           # an array of a child class to an array of its parent: not judged

def arg(rng, k, t, bad):
    """expression, shown, after (None if not observable), error?"""
    if k == 'o':
        al, ok = objval(rng, t)
        if bad:
            c = [i for i in range(len(al)) if i not in ok and not (t == 'OA[]' and i == 9) and t != 'object']
            if c: e, s = al[rng.choice(c)]; return e, None, None, True
        if rng.random() < .15: return 'undef', 'undef', None, False
        e, s = al[rng.choice(ok)]; return e, s, None, False
    if k == 'n':
        v = val(rng, t)
        if bad:
            o = rng.choice([x for x in NUM if x != t]); w = val(rng, o)
            return rng.choice(['undef', '%s->new(%s)' % (o.capitalize(), lit(o, w)), '(object)"12"', '[%s]' % lit(t, v), '(object)OA->new(1)', 'new string[1]']), None, None, True
        return '%s->new(%s)' % (t.capitalize(), lit(t, v)), sv(t, v), None, False
    base = t if k == 'r' else MUL[t]; n = 1 if k == 'r' else NF[t]; vs = [val(rng, base) for _ in range(n)]
    mk = lambda b, v: '{my:%s:%s}' % (b, ','.join(lit(b, x) for x in v))
    if bad:
        c = rng.randrange(5); o = rng.choice([x for x in NUM if x != base])
        e = ['undef', mk(o, [val(rng, o) for _ in range(n)]), mk(base, vs + vs[:1]), mk(base, []), '%s->new(%s)' % (base.capitalize(), lit(base, vs[0]))][c]
        return e, None, None, True
    after = None
    if k in 'rR': after = '%s[%s]' % (base, ''.join(sv(base, nm.wrap(L[base], x + j + 1)) + ',' for j, x in enumerate(vs)))
    else: after = '%s[%s]' % (base, ''.join(sv(base, x) + ',' for x in vs))
    return mk(base, vs), ' '.join(sv(base, x) for x in vs), after, False

def build(seed, nm_, ncalls):
    """-> classes, list of expected lines per call"""
    rng = random.Random(seed); ms = [Meth(rng, i) for i in range(nm_)]
    cls = classes(); uses = ' '.join('use %s;' % x for x in list(MUL) + ['OI', 'OB', 'Sh', 'Mon', 'Int', 'Byte', 'Short', 'Long', 'Float', 'Double'])
    cls['OA'] = cls['OA'].replace('%INST%', uses + '\n' + '\n'.join(m.text() for m in ms))
    body, exp = [], []
    for c in range(ncalls):
        m = rng.choice(ms); bad = rng.random() < .35; why = rng.choice(['arg', 'arg', 'arg', 'few', 'many', 'name']) if bad else None
        args = list(m.args); n = len(args)
        while not bad and n and args[n - 1][2] and rng.random() < .5: n -= 1
        k = rng.randrange(n) if n else None
        if why == 'arg' and (k is None or args[k][0] == 'o' and args[k][1] == 'object'): why = 'many'
        if why == 'few' and not any(not a[2] for a in args): why = 'many'
        if why == 'few': n = max(0, len([a for a in args if not a[2]]) - 1)
        got = [arg(rng, a[0], a[1], why == 'arg' and i == k) for i, a in enumerate(args[:n])]
        pre, ex, aft = [], [], []
        for i, (e, s, a, er) in enumerate(got):
            if e.startswith('{my:'):
                _, b, v = e[1:-1].split(':', 2); vs = v.split(',') if v else []
                pre.append('my $r%d = new %s[%d]; %s' % (i, b, len(vs), ' '.join('$r%d->[%d] = %s;' % (i, j, x) for j, x in enumerate(vs)))); e = '$r%d' % i
                if not er: aft.append((i, a))
            if s is None and not er: raise AssertionError
            ex.append(e)
        if why == 'many': ex += ['undef'] * (len(args) - n) + ['(object)Int->new(1)']
        iv = rng.randrange(50); ic = rng.choice(['OA', 'OB']); inst = '%s->new(%d)' % (ic, iv)
        if m.inst: ex = [inst] + ex
        al = 'my $args = new object[%d]; %s' % (len(ex), ' '.join('$args->[%d] = %s;' % (i, x) for i, x in enumerate(ex) if x != 'undef'))
        name = m.name if why != 'name' else m.name + 'x'; eid = rng.random() < .5; er = '$eid' if eid else 'undef'
        st = rng.choice(['undef, undef', 'undef, $st', '$env, $st', '$env, undef'])
        how = rng.choice(['helper', 'obj', 'es', 'es'])
        if not m.inst: call = {'helper': 'Native::MethodCall->call_class_method("OA", "%s", $args, %s)', 'obj': 'Native::MethodCall->new_class_method("OA", "%s")->call($args, %s)', 'es': 'Native::MethodCall->new_class_method_with_env_stack(' + st + ', "OA", "%s")->call($args, %s)'}[how] % (name, er)
        elif rng.random() < .5: call = {'helper': 'Native::MethodCall->call_instance_method("%s", $args, %s)', 'obj': 'Native::MethodCall->new_instance_method($args->[0], "%s")->call($args, %s)', 'es': 'Native::MethodCall->new_instance_method_with_env_stack(' + st + ', $args->[0], "%s")->call($args, %s)'}[how] % (name, er)
        else: call = {'helper': 'Native::MethodCall->call_instance_method_static("OA", "%s", $args, %s)', 'obj': 'Native::MethodCall->new_instance_method_static("OA", "%s")->call($args, %s)', 'es': 'Native::MethodCall->new_instance_method_static_with_env_stack(' + st + ', "OA", "%s")->call($args, %s)'}[how] % (name, er)
        body.append('  static method t_%d : void () { print "@C %d\\n"; my $env = Native->get_current_env; my $st = $env->new_stack; my $eid = new int[1]; $eid->[0] = -7; %s %s my $ret : object; eval { $ret = %s; }; my $err = $@; if ($err) { my $e = $err->(string); my $k = Fn->index($e, "thrown-"); my $t = "other"; if ($k == 0) { $t = "thrown"; } print "@E $t\\n"; } else { print "@V"; Sh->o($ret); print "\\n"; } my $id = $eid->[0]; my $b = 0; if ($id == -7) { $b = 1; } elsif ($id == 0) { $b = 2; } print "@I $b\\n"; %s }'
            .replace('$err->(string)', '$err') % (c, c, ' '.join(pre), al, call, ' '.join('print "@P"; Sh->o($r%d); print "\\n";' % i for i, a in aft)))
        x = ['@C %d' % c]
        if bad: x += ['@E other', '@I 1'] + ['@P ' + sh for i, a in aft for sh in ['?']]
        else:
            shown = [s for e, s, a, er in got] + [('undef' if a[0] == 'o' else sv(a[1], a[3])) for a in args[n:]]
            x.append(' '.join(['@Q ' + m.name] + (['%s:%d' % (ic, iv)] if m.inst else []) + shown))
            if m.throws: x += ['@E thrown', '@I %d' % (0 if eid else 1)]
            else:
                if m.ret is None: r = 'undef'
                else:
                    k_, t_ = m.args[m.ret][:2]; s_ = shown[m.ret]
                    r = s_ if k_ == 'o' else '%s:%s' % (t_.capitalize(), s_) if k_ == 'n' else '%s[%s,]' % (MUL[t_], s_.replace(' ', ','))
                x += ['@V ' + r, '@I %d' % (2 if eid else 1)]
            x += ['@P ' + a for i, a in aft]
        exp.append((x, why))
    cls['T'] = 'class T { use Native; use Native::MethodCall; use Fn; use Sh; use OA; use OB; %s\n%s\n}' % (uses, '\n'.join(body))
    return cls, exp

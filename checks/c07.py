import sys, os, re; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vp, progcheck, stmts
from stmts import B, R
from spvmrun import Case, run_and_judge

FILES = dict(stmts.FILES)
FILES['XObj.spvm'] = '''class XObj : public { has id : int; has how : int;
  static method new : XObj ($id : int, $how : int = 0) { my $self = new XObj; $self->{id} = $id; $self->{how} = $how; return $self; }
  method DESTROY : void () {
    if ($self->{how} == 1) { eval { die 99, "inner"; }; }
    if ($self->{how} == 2) { eval { eval { die "a"; }; die "b" . $@; }; my $x = $@; }
    say "~" . $self->{id};
    if ($self->{how} == 3) { die "thrown in DESTROY"; }
  }
}
'''
FILES['XFace.spvm'] = 'class XFace : interface_t public { required method go : int ($n : int); }\n'
USES = stmts.USES + ' use XObj; use XFace;'

ROOT = [  # (statement, message regex, error id, trace lines of the library)
    ('die "m\\tsg";', 'm\tsg', 18, 0), ('die 7, "seven";', 'seven', 7, 0), ('die Error::System "sys";', 'sys', 19, 0), ('die;', 'Error', 18, 0), ('die "";', '', 18, 0),
    ('my $a = new int[2]; my $i = 2; $a->[$i] = 1;', 'index is out of range', 18, 0), ('my $a = (int[])undef; my $b = $a->[0];', 'array must be defined', 18, 0),
    ('my $o = (ZNode)undef; my $b = $o->{i};', 'invocant', 18, 0), ('my $z = $n - $n; my $q = 5 / $z;', 'divided by 0', 18, 0), ('my $z = 0L; my $q = 5L % $z;', 'divided by 0', 18, 0),
    ('my $o = (object)"s"; my $q = (int[])$o;', 'assignab|cast', 18, 0), ('my $o = (object)Int->new(3); my $q = (long)$o;', '', 18, 0), ('my $l = -1; my $q = new byte[$l];', 'non-negative|must be', 18, 0),
    ('my $o = (ZNode)undef; $o->get_id;', 'invocant|must be', 18, 0), ('my $u = (string)undef; my $q = "a" . $u;', 'operand', 18, 0), ('Fn->substr("abc", 5, 3);', '', 18, 1), ('Fn->to_int("zz");', '', 18, 1),
    ('my $oa = new object[1]; $oa->[1] = undef;', 'index is out of range', 18, 0), ('ZAll->thrower(0);', 'deep', 18, 1), ('ZAll->thrower_id(44);', 'withid', 44, 1), ('my $x = ZNode->new(-5); $x->boom;', 'boom-5', 18, 1), ('my $f = List->new; $f->get(0);', '', 18, 1),
    ('my $a = [(object)1]; my $q = (Long)$a->[0];', '', 18, 0), ('$@ = "x"; die 3, $@ . "y";', 'xy', 3, 0),
]

class Exc:
    def __init__(s, rx, eid, lib): s.rx, s.eid, s.trace = rx, eid, ['LIB'] * lib
class Match:
    """matches a printed exception: message, then exactly these frames"""
    def __init__(s, rx, trace, pre): s.rx, s.trace, s.pre = rx, list(trace), pre

def chain(rng, key, depth):
    P = 'X' + key.replace(' ', '_')
    ncls = rng.choice([1, 2, 3])
    cls = ['%s_%d' % (P, i) for i in range(ncls)]
    L = {c: ['class %s : public {' % c, '  use XObj; use XFace; use Fn; use Int; use Long; use List; use ZNode; use ZAll; use Error; use Error::System; %s' % ' '.join('use %s;' % d for d in cls if d != c),
             '  has f : public int;', '  interface XFace;', '  static method new : %s ($n : int = 0) { my $self = new %s; $self->{f} = $n; return $self; }' % (c, c)] for c in cls}
    frames = []
    oid = [0]
    off = {c: 0 for c in cls}
    def padding(S, c):
        """text that moves the line numbers"""
        for _ in range(rng.choice([0, 0, 1, 1, 2])):
            k = len(S)
            t = rng.choice(['=pod\n\n  x\n\n=cut', '=head1 a\n=cut', '=begin comment\n\n\n}\n\n=cut\n', "    my $h%d = <<'EOS';\nEOS" % k, "    my $h%d = <<'E';\na\n\nE" % k, '    my $z%d = "a\nb\n";' % k, "    my $z%d = q'\n\n';" % k,
                           '    # comment\n\n\n', '    if (1 <\n 2\n) {\n\n }', '#line', '    { my $c = method : int () {\n return 1;\n }; }'])
            if t == '#line':
                n = rng.choice([1, 5, 1000, 2147000000, len(S) + off[c] + 1]); S.append('#line %d' % n); off[c] = n - 1 - len(S)
            else: S.extend(t.split('\n'))
    for f in range(depth):
        c = rng.choice(cls)
        kind = rng.choice(['static', 'static', 'inst', 'anon'])
        frames.append(dict(c=c, kind=kind, name='m%d' % f, how=rng.choice(['plain', 'plain', 'swallow', 'rethrow', 'new', 'nested', 'loop', 'destroy', 'fin', 'ifelse']),
                           o=rng.random() < 0.5, oi=rng.random() < 0.5, dh=rng.choice([0, 0, 0, 1, 2, 3]), pad=rng.randrange(4)))
    root = rng.choice(ROOT) if rng.random() < 0.9 else None
    # emission
    for f, fr in enumerate(frames):
        c = fr['c']; S = L[c]
        fr['file'] = c + '.spvm'
        if fr['kind'] == 'static': S.append('  static method %s : int ($n : int) {' % fr['name']); fr['fn'] = '%s->%s' % (c, fr['name'])
        elif fr['kind'] == 'inst': S.append('  method %s : int ($n : int) {' % fr['name']); fr['fn'] = '%s->%s' % (c, fr['name'])
        else:
            S.append('  static method %s : int ($n : int) {' % fr['name'])
            S.append('    my $cap = $n * 2;')
            S.append('    my $cb = [$cap : int] method : int ($n : int) {')
            fr['fn'] = None
        padding(S, c)
        S.extend(rng.choice(['', '    # comment', '    my $p%d = "x\\n";' % len(S), '    { 1; }']) for _ in range(fr['pad']))
        if fr['o']: oid[0] += 1; fr['oid'] = oid[0]; S.append('    my $ob = XObj->new(%d, %d);' % (oid[0], fr['dh']))
        if fr['oi']: oid[0] += 1; fr['oiid'] = oid[0]
        inner = ' my $oi = XObj->new(%d);' % fr['oiid'] if fr['oi'] else ''
        if f + 1 < depth:
            nx = frames[f + 1]
            call = {'static': '%s->%s($n + 1)', 'anon': '%s->%s($n + 1)', 'inst': '%s->new->%s($n + 1)'}[nx['kind']] % (nx['c'], nx['name'])
            st = rng.choice(['my $r = %s;', 'my $r = 1 + %s;', 'my $r = 0; $r += %s;', 'my $r = Fn->abs(%s);', 'my $r = [%s]->[0];'.replace('[%s]->[0]', '%s'), 'my $r = 0; if (%s > 0) { $r = 1; }']) % call
        else: st = root[0] if root else 'my $r = 1;'
        how = fr['how']
        say = 'say "after %d";' % f
        if how in ('plain',): S.append('    {%s %s' % (inner, st)); fr['line'] = len(S) + off[c]; S.append('    %s }' % say)
        elif how == 'loop':
            S.append('    for (my $i = 0; $i < 3; $i++) {'); S.append('      if ($i == 0) { next; }%s %s' % (inner, st)); fr['line'] = len(S) + off[c]; S.append('      %s last; }' % say)
        elif how == 'ifelse':
            S.append('    if ($n >= 0 && $n + 1 > 0) { switch ($n - $n) { case 0: {%s %s' % (inner, st)); fr['line'] = len(S) + off[c]; S.append('      %s } default: { say "bad"; } } }' % say)
        elif how in ('swallow', 'rethrow', 'new', 'nested', 'fin', 'destroy'):
            if how == 'nested': S.append('    eval { die "before"; }; eval { eval { die "first"; }; if (1) { eval { die 5, "second"; }; } eval { };')
            S.append('    eval {%s %s' % (inner, st)); fr['line'] = len(S) + off[c]
            S.append('      %s };' % say)
            S.append('    my $id = eval_error_id; my $e = $@; say "E%d " . $id; if ($id) { say $e; } else { say "none"; }' % f)
            if how == 'nested': S.append('    if ($id) { die 21, "nest"; }'); fr['line2'] = len(S) + off[c]; S.append('    }; if (eval_error_id) { say "N" . eval_error_id; say $@; }')
            elif how == 'rethrow': S.append('    if ($id) { die $id, $e; }'); fr['line2'] = len(S) + off[c]
            elif how == 'new': S.append('    if ($id) { my $m = "new%d"; eval { $m .= "!"; }; die 30, $m; }' % f); fr['line2'] = len(S) + off[c]
            elif how == 'fin': S.append('    eval { }; if ($@) { say "bad"; } if (eval_error_id) { say "bad"; } say "fin";')
            elif how == 'destroy':
                oid[0] += 1; fr['did'] = oid[0]
                S.append('    { my $dd = XObj->new(%d, %d); } $@ = $e; { my $dd = XObj->new(%d, 2); } if ($@ eq $e) { say "kept"; }' % (oid[0], rng.choice([1, 2]), oid[0]))
        S.append('    return 1;')
        S.append('  }')
        if fr['kind'] == 'anon':
            S[-1] = '    };'
            S.append('    return $cb->($n);'); fr['aline'] = len(S) + off[c]
            S.append('  }')
    for c in cls:
        L[c].append('  method go : int ($n : int) { return $n; }'); L[c].append('}')
    # simulation
    out = []
    def leave(x):
        out.append('~%d' % x)
    def run(f):
        fr = frames[f]
        e = call(f)
        if fr['o']:
            if e and fr['oi'] and fr['how'] in ('plain', 'loop', 'ifelse') and out[-1] == '~%d' % fr['oiid']: out[-1] = {out[-1], '~%d' % fr['oid']}     # both leave with the method
            else: leave(fr['oid'])
        if fr['kind'] == 'anon' and e: e.trace.append('%s->%s at %s line %d' % (fr['c'], fr['name'], fr['file'], fr['aline']))
        return e
    def here(fr, ln):
        fn = fr['fn'] or '%s::anon_method::' % fr['c']
        return '%s%s at %s line %d' % (fn, '*' if fr['fn'] is None else '', fr['file'], ln)
    def call(f):
        fr = frames[f]
        if f + 1 < depth: e = run(f + 1)
        elif root: e = Exc(root[1], root[2], root[3])
        else: e = None
        if e: e.trace.append(here(fr, fr['line']))
        else: out.append('after %d' % f)
        if fr['oi']: leave(fr['oiid'])
        how = fr['how']
        if how in ('plain', 'loop', 'ifelse'): return e
        out.append('E%d %d' % (f, e.eid if e else 0))
        out.append(Match(e.rx, e.trace, '') if e else 'none')
        if how == 'nested':
            if e: out.append('N21'); out.append(Match('nest', [here(fr, fr['line2'])], ''))
            return None
        if how == 'rethrow' and e: e.trace.append(here(fr, fr['line2'])); return e
        if how == 'new' and e:
            n = Exc('new%d!' % f, 30, 0); n.trace = [here(fr, fr['line2'])]; return n
        if how == 'fin': out.append('fin')
        if how == 'destroy': leave(fr['did']); leave(fr['did']); out.append('kept')
        return None
    start = {'static': '%s->%s(1)', 'anon': '%s->%s(1)', 'inst': '%s->new->%s(1)'}[frames[0]['kind']] % (frames[0]['c'], frames[0]['name'])
    body = '    eval { %s; say "returned"; };\n    say "T" . eval_error_id; if (eval_error_id) { say $@; } else { say "none"; }\n    $@ = undef;' % start
    e = run(0)
    if not e: out.append('returned')
    out.append('T%d' % (e.eid if e else 0))
    out.append(Match(e.rx, e.trace + ['TOP'], '') if e else 'none')
    def judge(o):
        L, p = o.lines, 0
        for x in out:
            if isinstance(x, str):
                if p >= len(L) or L[p] != x: return 'line %d: got %r, model says %r' % (p, L[p] if p < len(L) else None, x)
                p += 1
                continue
            if isinstance(x, set):
                if set(L[p:p + len(x)]) != x: return 'line %d: got %r, model says %r in any order' % (p, L[p:p + len(x)], x)
                p += len(x)
                continue
            msg = L[p] if p < len(L) else None
            if msg is None or not re.search(x.rx, msg): return 'line %d: message %r does not match %r' % (p, msg, x.rx)
            p += 1
            fl = []
            while p < len(L) and re.match(r'  (?:  )?\S.* at .* line \d+$', L[p]): fl.append(L[p].strip()); p += 1
            want = list(x.trace)
            i = 0
            for w in want:
                if w == 'LIB':
                    if i >= len(fl): return 'line %d: missing frame of the library: %s' % (p, fl)
                    i += 1
                    # a library fault may have several frames of its own
                    while i < len(fl) and not any(fl[i].startswith(c) for c in cls) and not fl[i].startswith('TB'): i += 1
                    continue
                if w == 'TOP':
                    if i >= len(fl) or not re.match(r'TB->t_\d+ at \S*TB\.spvm line \d+$', fl[i]): return 'line %d: frame %d: got %r, expected the test method' % (p, i, fl[i:i + 1])
                    i += 1
                    continue
                got = re.sub(r' at \S*/(\w+\.spvm) line ', r' at \1 line ', fl[i]) if i < len(fl) else None
                if '*' in w: ok = got is not None and re.match(re.escape(w).replace(r'\*', r'\S*->\w*'), got) and got.split(' at ')[1] == w.split(' at ')[1]
                else: ok = got == w
                if not ok: return 'line %d: frame %d: got %r, model says %r (frames %s)' % (p, i, got, w, fl)
                i += 1
            if i != len(fl): return 'line %d: extra frames %s' % (p, fl[i:])
        return None if p == len(L) else 'extra line %r' % L[p]
    files = {c + '.spvm': '\n'.join(L[c]) + '\n' for c in cls}
    c = Case(key, body, judge, decls='  use %s;' % '; use '.join(cls), files=files)
    c.meta = (depth, root[0] if root else 'none', out)
    return c

def directed(rng):
    out = []
    b = B('an exception leaves every loop and block', decls='  static method f : int ($k : int) { my $o = ZNode->new($k); for (my $i = 0; $i < 4; $i++) { my $p = ZNode->new($k + 1); while (1) { my $two = [1, 2]; for my $x (@$two) { my $q = ZNode->new($k + 2); if ($i == 1) { die "mid"; } last; } last; } } return 1; }'.replace('@[1, 2]', '@{[1, 2]}'))
    b.fault('TB->f(10);', '^mid$', lines=["~12", "~11", R("~1[012]"), R("~1[012]"), R("~1[012]")])
    out.append(b.case())
    b = B('error id per frame', decls='  static method g : int () { eval { die 50, "g"; }; return eval_error_id; }\n  static method h : int () { return eval_error_id; }')
    b.do('eval { die 40, "x"; }; say "" . eval_error_id; say "" . TB->g; say "" . TB->h; say "" . eval_error_id; eval { }; say "" . eval_error_id;'); b.tok += ['40', '50', '0', '40', '0']
    out.append(b.case())
    b = B('error ids and classes')
    for cls, par in (('Error::System', 'Error'), ('Error', 'Error'), ('Error::NotSupported', 'Error'), ('Error::Compile', 'Error')):
        b.do('eval { die %s "m"; }; if (eval_error_id isa_error %s) { say "isa"; } if (eval_error_id is_error %s) { say "is"; } if (eval_error_id isa_error Error) { say "err"; } if (eval_error_id == basic_type_id %s) { say "id"; }' % (cls, par, cls, cls)); b.tok += ['isa', 'is', 'err', 'id']
    b.do('eval { die Error "m"; }; if (eval_error_id isa_error Error::System) { say "bad"; } if (eval_error_id is_error Error::System) { say "bad"; } eval { die Error::System "m"; }; if (eval_error_id is_error Error) { say "bad"; } if (eval_error_id is_error Error::Compile) { say "bad"; }')
    out.append(b.case())
    b = B('exception variable')
    b.do('$@ = "set"; say $@; eval { if ($@) { say "bad"; } }; if ($@) { say "bad"; } $@ = "again"; eval { $@ = "in"; }; say $@; eval { die "q"; }; $@ = undef; if ($@) { say "bad"; } say "end";'); b.tok += ['set', 'in', 'end']
    b.do('for (my $i = 0; $i < 3; $i++) { eval { if ($i == 1) { die "one"; } if ($i == 2) { next; } }; if ($@) { say "c$i"; } else { say "n$i"; } }'); b.tok += ['n0', 'c1']
    out.append(b.case())
    b = B('returning from eval', decls='  static method r : int ($k : int) { eval { my $o = ZNode->new($k); if ($k > 0) { return $k; } die "neg"; }; if ($@) { return -1; } return 0; }\n  static method s : string ($k : int) { for (my $i = 0; $i < 3; $i++) { eval { eval { if ($i == $k) { return "r" . $i; } die "x"; }; die "y"; }; } return "none"; }')
    b.do('say "" . TB->r(3); say "" . TB->r(0); say TB->s(1); say TB->s(7); eval { die "after"; }; if ($@) { say "caught"; }'); b.tok += ['~3', '3', '-1', 'r1', 'none', 'caught']
    out.append(b.case())
    # unbounded recursion through every kind of call
    for nm, decl, call in (('static', '  static method a : int ($n : int) { return TB->a($n + 1) + 1; }', 'TB->a(0)'), ('mutual', '  static method a : int ($n : int) { return TB->b($n + 1) + 1; }\n  static method b : int ($n : int) { my $o = ZNode->new(-1); return TB->a($n + 1) + 1; }', 'TB->a(0)'),
                           ('closure', '  static method a : int ($n : int) { my $c = method : int ($n : int) { return TB->a($n + 1); }; return $c->($n); }', 'TB->a(0)'),
                           ('caught at every level', '  static method a : int ($n : int) { my $r = 0; eval { $r = TB->a($n + 1); }; if ($@) { die "again"; } return $r; }', 'TB->a(0)'),
                           ('sort callback', '  static method a : int ($n : int) { my $x = [2, 1]; Sort->sort_int_asc($x); return TB->a($n + 1); }', 'TB->a(0)')):
        b = B('unbounded recursion: %s' % nm, decls=decl)
        b.fault('%s;' % call, '.')
        b.do('eval { %s; }; if ($@) { say "again"; } eval { %s; }; if ($@) { say "again"; }' % (call, call)); b.tok += ['again', 'again']
        b.line('"" . ZAll->w0', '0')
        out.append(b.case())
    b = B('destructor recursion', leak=None)
    b.do('{ my $h = ZNode->new(0); for (my $i = 0; $i < 3000; $i++) { my $n = ZNode->new(0); $n->{next} = $h; $h = $n; } } say "end";'); b.tok.append('end')
    out.append(b.case())
    return out

def check(ck):
    ck.rule = ('one evaluation = one generated call chain (1-9 frames of static, instance, interface and closure calls over 1-3 files; each frame passes, catches, rethrows, replaces or nests the exception; the root is a die, a run-time fault or a library exception), '
               'its log - order of destruction, error ids, message and every trace line - compared with the model; or one directed method; or one generated program; distinct = chain/method/program x engine')
    drv = vp.build_driver('asan')
    rng = ck.rng
    cases = [chain(rng, 'chain %d' % i, rng.choice([1, 2, 3, 4, 5, 7, 9])) for i in range(ck.n(260, 4000))]
    for c in cases: ck.count('frames', c.meta[0]); ck.count('caught', sum(1 for x in c.meta[2] if isinstance(x, Match)))
    ck.sample(list(cases[0].files.values())[0]); 
    cases += directed(rng) + stmts.dies(rng) + stmts.recursion(rng)
    run_and_judge(ck, drv, cases, per=13, modes=('vm', 'pre'), pre_every=ck.n(6, 2), uses=USES, files=FILES, pre_opt='-O0')
    progcheck.run_programs(ck, drv, ck.n(250, 4000), {'exc': 3.0, 'weak': 0.3, 'obj': 0.7, 'num': 0.6, 'size': 24, 'depth': 4}, modes=('vm',), prefix='exc')
    ck.assumptions = ['a multi-line expression is never used at a throwing call: the line of a frame is the line of the call', 'frames of bundled classes are matched by presence, not by line']

vp.main('C07', check)

import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vp, progcheck, stmts, scopes
from stmts import B, R
from spvmrun import run_and_judge

def directed(rng, ck):
    out = []
    N = ck.n(3000, 60000)
    # a reference through every kind of holder, released in every way
    holders = {
        'variable': ('my $h = %s;', '$h = undef;', '$h'), 'field': ('my $k = ZNode->new(-1); { $k->{o} = %s; }', '$k->{o} = undef;', '$k->{o}'),
        'element': ('my $k = new object[3]; { $k->[1] = %s; }', '$k->[1] = undef;', '$k->[1]'), 'class variable': ('{ $ZAll::O = %s; }', '$ZAll::O = undef;', '$ZAll::O'),
        'list': ('my $k = List->new; { $k->push(%s); }', '$k->pop;', '$k->get(0)'), 'nested array': ('my $k = new ZNode[][2]; { $k->[0] = new ZNode[2]; $k->[0][1] = %s; }', '$k->[0] = undef;', '$k->[0][1]'),
        'field of the first in a chain': ('my $k = ZNode->new(-1); { $k->{next} = ZNode->new(-1); $k->{next}->{next} = %s; }', '$k->{next} = undef;', '$k->{next}->{next}'),
        'hash': ('my $k = Hash->new; { $k->set("q", %s); }', '$k->delete("q");', '$k->get("q")')}
    for h, (put, drop, get) in holders.items():
        for how in ('drop', 'scope', 'replace', 'loop', 'die', 'copy'):
            if how in ('scope', 'loop', 'die') and h == 'class variable': continue
            if how == 'replace' and h in ('nested array', 'list', 'hash', 'field of the first in a chain'): continue
            b = B('%s holds, %s' % (h, how))
            b.do('Mon->blocks;')
            mk = 'ZNode->new(7)'
            if how == 'drop': b.do('{ { %s } say "held"; %s say "gone"; }' % (put % mk, drop) if h == 'class variable' else '{ %s say "held"; { %s } say "gone"; }' % (put % mk, drop)); b.tok += ['held', '~7', 'gone']
            elif how == 'scope': b.do('{ %s say "held"; } say "gone";' % (put % mk)); b.tok += ['held', '~7', 'gone']
            elif how == 'replace':
                b.do('{ %s { my $n = ZNode->new(8); %s } say "replaced"; %s }' % (put % mk, (get + ' = $n;'), drop)); b.tok += ['~7', 'replaced', '~8']
            elif how == 'loop':
                b.do('for (my $i = 0; $i < 3; $i++) { %s if ($i == 1) { next; } if ($i == 2) { last; } say "i$i"; } say "out";' % (put % mk)); b.tok += ['i0', '~7', '~7', '~7', 'out']
            elif how == 'die':
                b.do('eval { %s say "in"; die "x"; }; say "after";' % (put % mk)); b.tok += ['in', '~7', 'after']
            else:
                b.do('{ my $c = ZNode->new(9); { %s %s say "one"; } say "other"; } say "end";' % (put % '$c', drop)); b.tok += ['one', 'other', '~9', 'end']
            out.append(b.case())
    # self assignment and chains of reassignment
    b = B('self assignment')
    b.do('{ my $a = ZNode->new(1); $a = $a; say "still"; $a->{o} = $a->{o}; my $arr = [(object)$a]; $arr->[0] = $arr->[0]; say "still"; $a = (ZNode)$arr->[0]; $arr->[0] = undef; say "still"; }')
    b.tok += ['still', 'still', 'still', '~1']
    out.append(b.case())
    b = B('assigning a part of the overwritten value')
    b.do('{ my $a = ZNode->new(1); { $a->{next} = ZNode->new(2); $a->{next}->{next} = ZNode->new(3); } $a = $a->{next}; say "one gone"; $a = $a->{next}; say "two gone"; } say "end";'); b.tok += ['~1', 'one gone', '~2', 'two gone', '~3', 'end']
    b.do('{ my $a = ZNode->new(1); $a->{o} = new object[2]; ((object[])$a->{o})->[0] = ZNode->new(4); $a->{o} = ((object[])$a->{o})->[0]; say "array gone"; } say "end";'); b.tok += ['array gone', '~1', '~4', 'end']
    out.append(b.case())
    # destruction order inside DESTROY: fields are released after the method
    b = B('fields outlive DESTROY of their owner')
    b.do('{ my $a = ZNode->new(1); $a->{next} = ZNode->new(2); $a->{o} = ZNode->new(3); } say "end";'); b.tok += [R('~1'), R('~[23]'), R('~[23]'), 'end']
    out.append(b.case())
    # resurrection-free: DESTROY of long chains and wide arrays
    L = ck.n(400, 400)
    b = B('chain of %d' % L, decls='  static method mk : ZNode ($n : int) { my $h = (ZNode)undef; for (my $i = 0; $i < $n; $i++) { my $x = ZNode->new(0); $x->{next} = $h; $h = $x; } return $h; }')
    b.do('{ my $c = TB->mk(%d); } say "end";' % L); b.tok.append('end')
    out.append(b.case())
    b = B('wide array')
    b.do('{ my $a = new ZNode[%d]; for (my $i = 0; $i < @$a; $i++) { $a->[$i] = ZNode->new(0); } for (my $i = 0; $i < @$a; $i += 2) { $a->[$i] = undef; } } say "end";' % N); b.tok.append('end')
    out.append(b.case())
    # loops that make many temporaries must not keep them
    for k, (loop, end) in {'while': ('my $i = -1; while (++$i < %d && length ("ab" . $i) > 0) {', '}'), 'for': ('for (my $i = 0; $i < %d; $i++) {', '}'), 'foreach': ('for my $i (@{new int[%d]}) {', '}') }.items():
        for kk, body in {'temp': 'my $x = "q" . $i . "r";', 'next': 'my $x = ZNode->new(0); if ($i & 1) { next; } my $y = [$x, $x];', 'eval': 'eval { my $x = ZNode->new(0); die "q"; };', 'call': 'ZNode->new(0)->get_id; ZNode->new(0);', 'noscope': 'if ($i > 5 && length ("k" . $i) > 1) { next; }',
                         'cast': '((object)ZNode->new(0)); my $z = (string)$i;', 'array': 'my $a = [[1,2],[3]]; $a->[0] = new int[2];', 'boxed': 'my $o = (object)$i; my $j = (int)$o;', 'conv': 'my $s = (string)(byte[])("x" . $i);'}.items():
            b = B('%s loop of temporaries: %s' % (k, kk))
            lp = loop % N
            if '@{' in lp: lp = 'my $arr = new int[%d]; for my $i (@$arr) {' % N
            b.do('{ %s %s %s }' % (lp, body, end))
            # the peak is watched inside the loop as well
            b.do('{ my $b0 = Mon->blocks; my $max = 0; %s %s my $d = Mon->blocks - $b0; if ($d > $max) { $max = $d; } %s if ($max > 24) { say "grew $max"; } }' % (lp, body, end))
            b.line('"done"', 'done')
            out.append(b.case())
    # objects held by callers across calls
    b = B('arguments survive the callee', decls='  static method take : ZNode ($a : ZNode, $b : object) { $b = undef; my $t = $a; $a = undef; return $t; }\n  static method drop : void ($a : ZNode) { $a = undef; }\n  static method swap : ZNode[] ($a : ZNode[]) { my $t = $a->[0]; $a->[0] = $a->[1]; $a->[1] = $t; return $a; }')
    b.do('{ my $x = ZNode->new(1); my $y = TB->take($x, ZNode->new(2)); say "called"; TB->drop($x); say "dropped"; $x = undef; say "only y"; } say "end";'); b.tok += ['called', 'dropped', 'only y', '~1', '~2', 'end']
    out[-1:] = [out[-1]]
    c = b.case()
    # the temporary argument is held by the caller until the end of its scope: accept both documented moments
    c.expect = lambda o: None if [l for l in o.lines if l[0] != '~'] == ['called', 'dropped', 'only y', 'end'] and sorted(l for l in o.lines if l[0] == '~') == ['~1', '~2'] and o.lines[-1] == 'end' and o.lines.index('~1') > o.lines.index('only y') else 'log %r' % o.lines
    out.append(c)
    # a class variable set in DESTROY-free teardown: released at the end of the run
    b = B('deep scopes'); d = 120
    b.do(''.join('{ my $v%d = ZNode->new(%d); ' % (i, i + 1) for i in range(d)) + 'say "deep";' + '}' * d + ' say "out";'); b.tok += ['deep'] + ['~%d' % i for i in range(d, 0, -1)] + ['out']
    out.append(b.case())
    b = B('many objects in one scope')
    b.do('{' + ''.join('my $v%d = ZNode->new(%d); ' % (i, i + 1) for i in range(300)) + 'say "x"; } say "out";')
    c = b.case(); c.expect = lambda o: None if len(o.lines) == 302 and o.lines[0] == 'x' and o.lines[-1] == 'out' and len(set(o.lines)) == 302 else 'log %r' % o.lines[:20]
    out.append(c)
    b = B('mortal stack after method calls in conditions', decls='  static method t : ZNode ($i : int) { return ZNode->new(0); }\n  static method z : int ($i : int) { my $a = TB->t($i); if ($a && TB->t(1)->get_id == 0 && TB->t(2)->get_id == 0) { my $b = TB->t(3); return $b->get_id + 1; } return 0; }')
    b.do('my $n = 0; for (my $i = 0; $i < 2000; $i++) { $n += TB->z($i); my $k = ZNode->new(0); unless ($n && $k && TB->t(1)) { say "?"; } } say "" . $n;'); b.tok.append('2000')
    out.append(b.case())
    return out

def check(ck):
    ck.rule = ('one evaluation = one program of classes with DESTROY run on the sanitized runtime, its event log compared line by line with a reference-counting model (an object must be destroyed exactly once, '
               'never while reachable, and no later than the end of the scope), or a batch of 25 nests of control structures (11 constructs, depth to 5) around one object left in one of 13 ways, or one directed method (holder kind x release kind, loops of temporaries, chains); live block count must return to zero; distinct = program/method x engine')
    drv = vp.build_driver('asan')
    kinds = None
    run_and_judge(ck, drv, directed(ck.rng, ck), per=20, modes=('vm', 'pre'), pre_every=ck.n(2, 1), uses=stmts.USES, files=stmts.FILES, pre_opt='-O0', timeout=120)
    sc = scopes.cases(ck.rng, ck.n(1500, 20000))
    ck.count('scope nests', sum(c.meta for c in sc))
    run_and_judge(ck, drv, sc, per=12, modes=('vm',), uses=stmts.USES + ' use ZScope;', files=dict(stmts.FILES, **scopes.FILES))
    progcheck.run_programs(ck, drv, ck.n(500, 8000), {'obj': 2.0, 'weak': 0.3, 'exc': 1.2, 'clo': 0.7, 'num': 0.4, 'size': 24, 'depth': 4}, modes=('vm',), kinds=kinds, prefix='own')
    progcheck.run_programs(ck, drv, ck.n(16, 300), {'obj': 2.0, 'weak': 0.3, 'exc': 1.2, 'size': 20, 'depth': 4}, modes=('pre',), kinds=kinds, prefix='ownpre', per=2, opt='-O0')
    ck.assumptions = ['a temporary may be held until the end of the enclosing scope or loop iteration; the model accepts any moment in that window', 'AddressSanitizer watches for use of a released block']

vp.main('C05', check)

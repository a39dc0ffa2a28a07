import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import re, random
import vp, dispatch as dp
from dispatch import value, sh, ret_line, Thrown, KCH, TY, V, ZERO
from spvmrun import Case, run_and_judge

def calls(w, rng):
    out = []
    for c in w.cls:
        body, exp = [], []
        for j in range(w.npool):
            y = w.find(c, j)
            if not y: continue
            seen = []
            for x in w.chain(c):
                o = w.find(x, j)
                if o: seen.append((x, w.meth[o][j]))
            seen += [(i, w.ifsig(j)) for i in w.ifs if j in w.ifs[i] and w.sat(i, c)]
            for st, m in rng.sample(seen, min(3, len(seen))):
                a = w.pick_args(m)
                log = []
                e = '$o->m%d(%s)' % (j, ', '.join(v.expr for v in a)); t = w.meth[y][j]
                if rng.random() < .25 and st in w.meth and w.find(st, j) == st and st != c: e = '$o->%s::m%d(%s)' % (st, j, ', '.join(v.expr for v in a)); run = (st, w.meth[st][j])
                else: run = (y, t)
                try: w.run(run[0], run[1], 'm%d' % j, a, log, c); log.append('< %s' % (run[1].rtext if run[1].retv is not None else 'void'))
                except Thrown: log.append('ex')
                body.append('{ my $o : %s = %s->new; eval { %s }; if ($@) { say "ex"; } }' % (st, c, ret_line(run[1] if st in w.meth else t, e)))
                exp += log
            for st, m in seen[:2]:
                body.append('{ my $o : %s = %s->new; say "can " . ($o can m%d); }' % (st, c, j)); exp.append('can 1')
        a = w.pick_args(w.stat[c]); log = []
        w.run(c, w.stat[c], 's', a, log, None); log.append('< %s' % (w.stat[c].rtext if w.stat[c].retv is not None else 'void'))
        body.append(ret_line(w.stat[c], '%s->s(%s)' % (c, ', '.join(v.expr for v in a)))); exp += log
        out.append(Case('calls on a class at depth %d of %d, %d methods' % (len(list(w.chain(c))), len(w.cls), w.npool), '\n'.join(body), exp, meta=len(exp)))
    return out

def fields(w, rng):
    out = []
    for c in w.cls:
        fs = [(x, f, t, rw) for x in w.chain(c) for f, t, rw in w.fields[x]]
        if not fs: continue
        body = ['my $o = %s->new; my $q = %s->new;' % (c, c)]; exp = []; cur = {f: ZERO.get(t, 'undef') for x, f, t, rw in fs}
        def show(v):
            for x, f, t, rw in fs:
                if v == '$o': exp.append('%s %s' % (f, cur[f]))
                else: exp.append('%s %s' % (f, ZERO.get(t, 'undef')))
                if rw and rng.random() < .5: body.append('say "%s " . %s;' % (f, sh(t, ('(%s)%s->%s' % (t, v, f) if t in ('byte', 'short') else '%s->%s' % (v, f)))))
                else: body.append('say "%s " . %s;' % (f, sh(t, '%s->{%s}' % (v, f))))
        show('$o')
        for r in range(2):
            order = fs[:]; rng.shuffle(order)
            for x, f, t, rw in order:
                val = value(rng, t); cur[f] = val.text
                st = rng.choice([y for y in w.chain(c) if x in list(w.chain(y))])
                if rw and rng.random() < .5: body.append('{ my $v : %s = $o; $v->set_%s(%s); }' % (st, f, val.expr))
                else: body.append('{ my $v : %s = $o; $v->{%s} = %s; }' % (st, f, val.expr))
            show('$o')
        # one at a time: no neighbour changes
        for x, f, t, rw in rng.sample(fs, min(4, len(fs))):
            val = value(rng, t); cur[f] = val.text
            body.append('$o->{%s} = %s;' % (f, val.expr)); show('$o')
        show('$q')
        for x, f, t, rw in fs:
            if t in ('string', 'object', 'Int', 'int[]', 'ZKV') and rng.random() < .3: body.append('$o->{%s} = undef; say "has " . (exists $o->{%s} ? 1 : 0);'.replace(' say "has " . (exists $o->{%s} ? 1 : 0);', '') % f); cur[f] = 'undef'
        show('$o')
        out.append(Case('fields of %d types in %d classes' % (len({t for _, _, t, _ in fs}), len({x for x, _, _, _ in fs})), '\n'.join(body), exp, meta=len(exp)))
    return out

def cvars(w, rng):
    body, exp = [], []
    for n, c in enumerate(w.cls):
        body.append('say "%s " . $%s::%s_N . " " . $%s::%s_SEEN;' % (c, c, c, c, c)); exp.append('%s 1 %s' % (c, '1 ' * n))
        body.append('%s->INIT; say "" . $%s::%s_N;' % (c, c, c)) if 0 else None
        for v, t, rw, init in w.cvars[c]:
            body.append('say "%s " . %s;' % (v[1:], sh(t, '$%s::%s' % (c, v[1:])))); exp.append('%s %s' % (v[1:], w.init[v].text if init else ZERO.get(t, 'undef')))
    cur = {}
    for r in range(2):
        for c in w.cls:
            for v, t, rw, init in w.cvars[c]:
                val = value(rng, t); cur[v] = val.text
                body.append('$%s::%s = %s;' % (c, v[1:], val.expr) if not rw or rng.random() < .5 else '%s->SET_%s(%s);' % (c, v[1:], val.expr))
        for c in w.cls:
            for v, t, rw, init in w.cvars[c]:
                e = '$%s::%s' % (c, v[1:]) if not rw or rng.random() < .5 else ('(%s)%s->%s' % (t, c, v[1:]) if t in ('byte', 'short') else '%s->%s' % (c, v[1:]))
                body.append('say "%s " . %s;' % (v[1:], sh(t, e))); exp.append('%s %s' % (v[1:], cur[v]))
    # objects of class variables go back before the next case
    for c in w.cls:
        for v, t, rw, init in w.cvars[c]:
            if t not in ('byte', 'short', 'int', 'long', 'float', 'double'): body.append('$%s::%s = undef;' % (c, v[1:]))
    return [Case('class variables of %d classes' % len(w.cls), '\n'.join(body), exp, leak=None, meta=len(exp))]

CL_FILES = {'ZFn.spvm': 'class ZFn : interface_t { required method : string ($x : int, $y : string = undef); }'}
def closures(rng, n):
    out = []
    for i in range(n):
        k = rng.randint(1, 7); body, exp = [], []
        ts = [rng.choice(TY[:11]) for _ in range(k)]
        vals = [value(rng, t) for t in ts]
        for j, (t, v) in enumerate(zip(ts, vals)): body.append('my $v%d : %s = %s;' % (j, t, v.expr))
        cap, inner, names = [], [], []
        for j, t in enumerate(ts):
            how = rng.randrange(4)
            if how == 0: cap.append('$v%d : %s' % (j, t)); inner.append('$v%d' % j)
            elif how == 1: cap.append('has g%d : %s = $v%d' % (j, t, j)); inner.append('$self->{g%d}' % j)
            elif how == 2: cap.append('$z%d : %s = $v%d' % (j, t, j)); inner.append('$z%d' % j)
            else: cap.append('has g%d : %s' % (j, t)); inner.append('$self->{g%d}' % j); vals[j] = V(t, '', ZERO.get(t, 'undef'))
        mod = ''
        for j, t in enumerate(ts):
            if inner[j].startswith('$') and '{' not in inner[j] and rng.random() < .4: mod += ' %s = %s;' % (inner[j], value(rng, t).expr)
        txt = ' . " " . '.join(sh(t, e) for t, e in zip(ts, inner))
        body.append('my $cb = (ZFn)[%s] method : string ($x : int, $y : string = undef) { my $w = args_width; my $r = "x$x w$w " . %s . " " . %s;%s return $r; };' % (', '.join(cap), sh('string', '$y'), txt, mod))
        for j, t in enumerate(ts): body.append('$v%d = %s;' % (j, value(rng, t).expr))
        want = ' '.join(v.text for v in vals)
        for q in range(2):
            body.append('say $cb->(%d);' % q); exp.append("x%d w2 undef %s" % (q, want))
            body.append('say $cb->(%d, "y");' % q); exp.append("x%d w3 'y' %s" % (q, want))
        out.append(Case('closure over %s' % ' '.join(sorted(set(ts))), '\n'.join(body), exp, meta=len(exp)))
    def C(k, body, exp, decls=''): out.append(Case('closure ' + k, body, exp, decls=decls))
    m = rng.randint(3, 9)
    C('in a loop', 'my $l = new ZFn[%d]; for (my $i = 0; $i < %d; $i++) { $l->[$i] = [$i : int] method : string ($x : int, $y : string = undef) { return "" . ($i * 10 + $x); }; } for (my $i = 0; $i < %d; $i++) { say $l->[$i]->($i); }' % (m, m, m), ['%d' % (i * 11) for i in range(m)])
    C('nested', 'my $a = "A"; my $o = (ZFn)[$a : string] method : string ($x : int, $y : string = undef) { my $in = (ZFn)[$a : string, $x : int] method : string ($p : int, $q : string = undef) { return $a . $x . $p; }; $a = "B"; $x = 9; return $in->(5) . $a; }; say $o->(3); say $o->(4);', ['A35B', 'A45B'])
    C('in an instance', 'my $cb = (ZFn)TB->mkc("p"); my $cd = (ZFn)TB->mkc("q"); say $cb->(1); say $cd->(2); say $cb->(3);', ['p1', 'q2', 'p3'], 'static method mkc : object ($s : string) { return [$s : string] method : string ($x : int, $y : string = undef) { return $s . $x; }; }')
    C('class method of the outer class', 'my $cb = (ZFn)method : string ($x : int, $y : string = undef) { return &cm($x); }; say $cb->(4);', ['cm4'], 'static method cm : string ($x : int) { return "cm$x"; }')
    C('keeps what it captured alive', 'my $cb : ZFn; { my $s = "cap" . 7; my $arr = [1, 2, 3]; $cb = [$s : string, $arr : int[]] method : string ($x : int, $y : string = undef) { return $s . $arr->[$x]; }; $s = undef; $arr = undef; } say $cb->(1); say $cb->(2);', ['cap72', 'cap73'])
    C('recursive through an array', 'my $box = new object[1]; my $f = (ZFn)[$box : object[]] method : string ($x : int, $y : string = undef) { if ($x <= 0) { return "."; } my $g = (ZFn)$box->[0]; return $x . $g->($x - 1); }; $box->[0] = $f; say $f->(5); $box->[0] = undef;', ['54321.'])
    return out

def many_args(rng, n):
    out = []
    for i in range(n):
        k = rng.choice([1, 8, 17, 40, 64, 90, 128, 200, 255][:9])
        ts = []; wd = 0
        while len(ts) < k:
            t = rng.choice(TY + ['int*'])
            if wd + dp.width(t) > 254: break
            ts.append(t); wd += dp.width(t)
        req = rng.randint(0, len(ts)); 
        opt = [j >= req for j in range(len(ts))]
        for j, t in enumerate(ts):
            if opt[j] and t in ('Zm_3s', 'int*'): ts[j] = 'int'
        d = [value(rng, t, True) if o else None for t, o in zip(ts, opt)]
        st = rng.random() < .5
        name = 'ma'
        a = ', '.join('$a%d : %s%s' % (j, t, ' = ' + d[j].expr if d[j] is not None else '') for j, t in enumerate(ts))
        decl = '%smethod ma%d : string (%s) { my $w = args_width; my $L = "w$w"; %s return $L; }' % ('static ' if st else '', i, a, ' '.join('$L .= " " . %s;' % sh(t, '$a%d' % j) for j, t in enumerate(ts)))
        if not st: decl += ' static method nw%d : TB () { return new TB; }' % i
        body, exp = [], []
        for _ in range(3):
            g = rng.randint(req, len(ts)); vs = []; pre = ''
            for j, t in enumerate(ts[:g]):
                if t == 'int*': x = rng.randint(-99, 99); pre += 'my $n%d = %d; ' % (j, x); vs.append(V(t, '\\$n%d' % j, 'r%d' % x))
                else: vs.append(value(rng, t))
            body.append('{ %s %s say %s; }' % (pre, '' if st else 'my $o = TB->nw%d;' % i, ('&ma%d(%s)' if st else '$o->ma%d(%s)') % (i, ', '.join(v.expr for v in vs))))
            exp.append('w%d %s' % (sum(dp.width(v.t) for v in vs) + (not st), ' '.join([v.text for v in vs] + [d[j].text for j in range(g, len(ts))])))
            exp[-1] = exp[-1].rstrip()
        out.append(Case('%d arguments %s' % (len(ts), 'class' if st else 'instance'), '\n'.join(body), exp, decls=decl))
    return out

def directed(rng):
    out = []
    def C(k, body, exp, decls='', err=None): out.append(Case('directed ' + k, body, exp, err=err, decls=decls))
    C('recursion keeps its own variables', 'say "" . &fa(10); say "" . &ev(301); say &st(6);', ['3628800', '0', '6543210123456'], 'static method fa : int ($n : int) { if ($n <= 1) { return 1; } my $m = $n; my $r = &fa($n - 1); return $m * $r; } static method ev : int ($n : int) { if ($n == 0) { return 1; } return &od($n - 1); } static method od : int ($n : int) { if ($n == 0) { return 0; } return &ev($n - 1); } static method st : string ($n : int) { my $s = (string)$n; if ($n == 0) { return $s; } return $s . &st($n - 1) . $s; }')
    C('enum', 'say "" . TB->EA . " " . TB->EB . " " . TB->EC . " " . TB->ED;', ['0 5 6 -3'], 'enum { EA, EB = 5, EC, ED = -3 }')
    C('reference arguments', 'my $i = 1; my $d = 1.5; my $z : Zm_3s; &rf(\\$i, \\$d, \\$z); say "$i $d " . $z->{a} . $z->{b} . $z->{c}; my $j : byte = (byte)3; &rb(\\$j); say "$j";', ['43 2.5 123', '-4'], 'static method rf : void ($i : int*, $d : double*, $z : Zm_3s*) { $$i = 43; $$d = 2.5; $z->{a} = (short)1; $z->{b} = (short)2; $z->{c} = (short)3; } static method rb : void ($b : byte*) { $$b = (byte)-4; }')
    C('order of evaluation of arguments', 'say &o3(&lg(1), &lg(2), &lg(3));', ['l1', 'l2', 'l3', '123'], 'static method lg : int ($n : int) { say "l$n"; return $n; } static method o3 : string ($a : int, $b : int, $c : int) { return "" . $a . $b . $c; }')
    C('changing an argument does not change the variable', 'my $i = 1; my $s = "a"; my $z = ZSh->m3(4); &ch($i, $s, $z); say "$i $s " . ZSh->Zm_3s($z);', ['1 a (4,5,6)'], 'static method ch : void ($i : int, $s : string, $z : Zm_3s) { $i = 9; $s = "q"; $z->{a} = (short)9; }')
    C('can with the anonymous method', 'my $f = (ZFn)method : string ($x : int, $y : string = undef) { return ""; }; say "" . ($f can "");', ['1'])
    C('undefined invocant', 'my $o : ZKV; eval { my $v = $o->{v}; say "?"; }; if ($@) { say "ex"; } my $f : ZFn; eval { $f->(1); say "?"; }; if ($@) { say "ex"; }', ['ex', 'ex'])
    C('call depth', 'eval { &dp(0); say "?"; }; if ($@) { say "ex"; } say "" . &dq(0);', ['ex', '900'], 'static method dp : int ($n : int) { return &dp($n + 1); } static method dq : int ($n : int) { if ($n == 900) { return $n; } return &dq($n + 1); }')
    return out

def main(ck):
    rng = ck.rng
    drv = vp.build_driver('asan')
    N = ck.n(60, 1200); per = 6
    for b in range(0, N, per):
        files = dict(dp.FILES, **CL_FILES); cases = []; uses = dp.USES + ' use ZFn;'
        for i in range(b, min(N, b + per)):
            w = dp.World(rng, 'W%d' % i)
            files.update(w.files()); uses += ' ' + ' '.join('use %s;' % c for c in w.cls) + ' ' + ' '.join('use %s;' % c for c in w.ifs)
            cases += calls(w, rng) + fields(w, rng) + cvars(w, rng)
            ck.count('worlds')
        ck.jobs = getattr(ck, 'jobs', []) + [(files, uses, cases)]
    def one(j, mode): return mode, __import__('spvmrun').run_batch(ck, drv, [Case(c.key, c.body, c.expect, c.err, c.decls, c.leak, c.files, c.meta) for c in j[2]], uses=j[1], mode=mode, files=j[0], tag=mode, pre_opt='-O0')
    jobs = [(j, 'vm') for j in ck.jobs] + [(j, 'pre') for i, j in enumerate(ck.jobs) if ck.tier != 'quick' or i % 3 == 0]
    import spvmrun
    for mode, res in vp.pmap(lambda x: one(*x), jobs, 8):
        ck.count('cases_' + mode, len(res)); spvmrun.judge(ck, res, mode)
    rest = closures(rng, ck.n(60, 1500)) + many_args(rng, ck.n(40, 600)) + directed(rng)
    run_and_judge(ck, drv, rest, per=25, modes=('vm', 'pre'), uses=dp.USES + ' use ZFn;', files=dict(dp.FILES, **CL_FILES), pre_opt='-O0')
    ck.rule = 'a distinct case is a shape of class world (depth, classes, methods, field types), a set of captured types, or an argument list length'
    ck.assumptions = ['a call through a super class or an interface uses the default values of the method that runs']

vp.main('C10', main)

import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import re, random
import vp, tymodel as ty
from tymodel import *
from spvmrun import Case, run_and_judge

BASE = (dict(ty.FILES), list(ty.CLASSES), dict(ty.SUPER), list(ty.IFACES), set(ty.SAT))
def world(rng):
    """a random class tree with interfaces that are satisfied by what is defined or inherited"""
    n, m, k = rng.randint(3, 8), rng.randint(1, 4), rng.randint(2, 6)
    cl = ['Q%s%d' % (chr(65 + i), rng.randrange(100)) for i in range(n)]; ifs = ['P%s%d' % (chr(65 + i), rng.randrange(100)) for i in range(m)]
    sup = {}; own = {}; files = {}
    req = {i: set(rng.sample(range(k), rng.randint(1, min(3, k)))) for i in ifs}
    for i, c in enumerate(cl):
        if i and rng.random() < .75: sup[c] = cl[rng.randrange(max(0, i - 3), i)]
        own[c] = set(rng.sample(range(k), rng.randint(0, min(k, 3))))
    have = {}
    for c in cl: have[c] = own[c] | (have[sup[c]] if c in sup else set())
    sat = {(i, c) for i in ifs for c in cl if req[i] <= have[c]} | {(i, j) for i in ifs for j in ifs if i != j and req[i] <= req[j]}
    for i in ifs: files[i] = 'class %s : interface_t { %s }' % (i, ' '.join('required method r%d : int ($x : int);' % j for j in req[i]))
    for c in cl:
        decl = [i for i in ifs if (i, c) in sat and rng.random() < .4]
        files[c] = 'class %s%s : public { %s %s static method new : %s () { return new %s; } %s }' % (c, ' extends ' + sup[c] if c in sup else '', ('use %s; ' % sup[c] if c in sup else '') + ' '.join('use %s; interface %s;' % (i, i) for i in decl), 'has f%s : int;' % c.lower(), c, c, ' '.join('method r%d : int ($x : int) { return $x + %d; }' % (j, j) for j in own[c]))
    for z in ('Zx_2i', 'Zy_2i', 'Zx_2d', 'IM'): files[z] = BASE[0][z]
    return files, cl, sup, ifs, sat

def setw(w): ty.FILES, ty.CLASSES, ty.SUPER, ty.IFACES, ty.SAT = w; 

def dyn(rng):
    """(type, read only?, expression that makes a value whose run-time type is the type)"""
    L = [('undef', 0, 'undef'), ('string', 1, '"lit"'), ('mutable string', 0, 'new_string_len 3'), ('string', 1, '&ro'), ('mutable string', 0, 'copy "cp"'), ('mutable string', 0, '("a" . "b")')]
    L += [(b, 0, '%s->new((%s)7)' % (b, u)) for b, u in UNBOX.items()]
    cl, ifs = ty.CLASSES, ty.IFACES
    L += [(c, 0, 'new %s' % c) for c in cl]
    for e in ['byte', 'short', 'int', 'long', 'float', 'double', 'Zx_2i', 'Zy_2i', 'Zx_2d', 'string', 'object', 'Int', 'Long', 'IM'] + cl + ifs: L.append((e + '[]', 0, 'new %s[2]' % e))
    for e in ['byte', 'int', 'double', 'Zx_2i', 'string', 'Int'] + cl + ifs: L.append((e + '[][]', 0, 'new %s[][2]' % e))
    for e in ['int', rng.choice(cl), rng.choice(ifs), 'string']: L.append((e + '[][][]', 0, 'new %s[][][2]' % e))
    return L
def targets(rng):
    cl, ifs = ty.CLASSES, ty.IFACES
    return ['string', 'mutable string', 'object', 'object[]', 'IM'] + BOX + cl + ifs + [e + '[]' for e in ['byte', 'int', 'long', 'double', 'Zx_2i', 'Zy_2i', 'string', 'Int'] + cl + ifs] + [e + '[][]' for e in ['byte', 'int', 'Zx_2i', 'string', 'Int'] + cl + ifs] + [e + '[][][]' for e in ['int', rng.choice(cl), rng.choice(ifs)]]

def run_assign(T, D, ro=False):
    """does a value of the run-time type D fit a variable of the type T; None: not specified"""
    if D == 'undef': return True
    if T == 'mutable string': return D == 'mutable string' and not ro
    d = 'string' if D == 'mutable string' else D
    if T in ('IM', 'IM[]') and d != T: return True if False else d == T
    return bool(can_assign(T, d))

def value_cases(rng, part):
    out = []
    D = dyn(rng); T = targets(rng)
    for d, ro, e in D:
        stat = ['object']
        dn = 'string' if d == 'mutable string' else d
        if d == 'undef': stat += [rng.choice(T) for _ in range(3)] + ['object[]']
        else: stat += [t for t in T if t != 'object' and t != 'mutable string' and can_assign(t, dn) and rng.random() < .6][:5]
        if d == 'mutable string': stat.append('mutable string')
        for s in stat:
            probes = []; exp = []
            def P(k, code, want):
                probes.append(code); exp.append('%s %s' % (k, want))
            for t in T:
                if rng.random() > part and not (dn == t): continue
                cc = can_cast(t, s)
                if cc:
                    same = not (is_str(s) and t == 'byte[]' or s == 'byte[]' and is_str(t)) and not (is_box(t) and not is_obj(s))
                    if same:
                        static = can_assign(t, s) and not t == 'mutable string'
                        okr = True if static else run_assign(t, d, ro)
                        if t == 'IM': okr = None if d in ty.CLASSES else okr
                        if okr is not None:
                            how = rng.randrange(4)
                            cast = '(%s)$s' % t if how else '$s->(%s)' % t
                            if how == 2: P('arg ' + t, 'eval { &take_%s(%s); say "arg %s ok"; }; if ($@) { say "arg %s ex"; }' % (ident(t), cast, t, t), 'ok' if okr else 'ex'); need.add(t)
                            else: P('cast ' + t, '{ my $t : %s; eval { $t = %s; say "cast %s " . ($t == $s ? 1 : 0); }; if ($@) { say "cast %s ex" . ((object)$t == undef); } }'.replace('($t == $s ? 1 : 0)', '(&i((object)$t == (object)$s))').replace('((object)$t == undef)', '&i((object)$t == undef)') % (t, cast, t, t), '1' if okr else 'ex1')
                if t in ('object',): continue
                if t != 'mutable string' and t not in ('IM', 'object[]'):
                    if d != 'undef' and d != 'IM': P('isa ' + t, 'say "isa %s " . ($s isa %s);' % (t, t), int(run_assign(t, d)))
                    if d != 'undef': P('is ' + t, 'say "is %s " . ($s is_type %s);' % (t, t), int(dn == t))
            for t in rng.sample(T, 3) + [s]: 
                if t not in ('object', 'mutable string') and not (is_str(t) and s == 'mutable string'): P('ct ' + t, 'say "ct %s " . ($s is_compile_type %s);' % (t, t), int(t == s))
            P('ctn', 'say "ctn " . compile_type_name $s;', s)
            P('tn', 'my $tn = type_name $s; if ($tn) { say "tn $tn"; } else { say "tn none"; }', 'none' if d == 'undef' else dn)
            if s == 'object':
                for b, u in UNBOX.items():
                    okr = d == b
                    P('unbox ' + u, 'eval { my $n = (%s)$s; say "unbox %s $n"; }; if ($@) { say "unbox %s ex"; }' % (u, u, u), '7' if okr else 'ex')
                    P('unboxi ' + u, 'eval { my $n : %s = $s; say "unboxi %s $n"; }; if ($@) { say "unboxi %s ex"; }' % (u, u, u), '7' if okr else 'ex')
            if is_box(s):
                P('unbox', 'eval { my $n = (%s)$s; say "unbox $n"; }; if ($@) { say "unbox ex"; }' % UNBOX[s], '7' if d == s else 'ex')
            order = list(range(len(probes))); rng.shuffle(order)
            out.append(Case('value of %s in %s' % (d + (' ro' if ro and d == 'string' else ''), s), 'my $s : %s = %s;\n' % (s, e if s != 'mutable string' else '(mutable string)' + e) + '\n'.join(probes[i] for i in order), [exp[i] for i in order], meta=len(probes)))
    return out

def store_cases(rng, part):
    out = []
    D = dyn(rng)
    arrs = []
    cl, ifs = ty.CLASSES, ty.IFACES
    real = ['string', 'object', 'Int', 'Double', 'IM', 'int[]', 'string[]', 'object[]'] + cl + ifs + [c + '[]' for c in cl + ifs]
    real = [r for r in real if r != 'object[]']
    def mk(r): return 'new %s[2]' % r if not r.endswith('[]') else 'new %s[2]' % (r[:-2] + '[]')
    for b in real:
        B = b + '[]'
        for A in {B, 'object[]'} | {a + '[]' for a in real if a != b and can_assign(a + '[]', B)}:
            for d, ro, e in D:
                if d not in ('undef',) and rng.random() > part: continue
                el = A[:-2] if A != 'object[]' else 'object'
                dn = 'string' if d == 'mutable string' else d
                if d != 'undef' and not can_assign(el, dn): continue
                statics = [el] + [x for x in ['object'] if el == 'object']
                ok = run_assign(b, d) if b != 'object' else True
                if b == 'IM': ok = None
                if ok is None: continue
                s = rng.choice(statics)
                alloc = 'new %s[2]' % b if not b.endswith('[]') else 'new %s[][2]' % b[:-2]
                out.append(Case('store %s into %s seen as %s' % (d, B, A),
                    'my $a : %s = %s; my $v : %s = %s;\neval { $a->[1] = $v; say "stored"; }; if ($@) { say "ex"; }\nsay "" . &i((object)$a->[1] == (object)$v) . &i((object)$a->[0] == undef);' % (A, alloc, s, e),
                    ['stored', '11'] if ok else ['ex', '01']))
                if d != 'undef' and rng.random() < .3:   # over an element that is there
                    out.append(Case('store %s over an element of %s seen as %s' % (d, B, A),
                        'my $b = %s; $b->[0] = %s; my $a : %s = $b; my $old = (object)$b->[0]; my $v : %s = %s;\neval { $a->[0] = $v; say "stored"; }; if ($@) { say "ex"; }\nsay "" . &i((object)$b->[0] == (object)$v) . &i((object)$b->[0] == $old);' % (alloc, make(b, rng), A, s, e),
                        ['stored', '10'] if ok else ['ex', '01']))
    return out
def make(b, rng):
    for d, ro, e in dyn(rng):
        if d == b: return e
    for c in ty.CLASSES:
        if can_assign(b, c): return 'new %s' % c
    return 'undef'

def string_cases(rng):
    out = []
    def C(k, body, exp): out.append(Case('string ' + k, body, exp))
    C('literal to mutable', 'eval { my $s = (mutable string)"abc"; $s->[0] = \'X\'; say "changed"; }; if ($@) { say "ex"; } say "abc";', ['ex', 'abc'])
    C('literal through object', 'my $o : object = "abd"; eval { my $s = (mutable string)$o; $s->[0] = \'X\'; say "changed"; }; if ($@) { say "ex"; } say (string)$o;', ['ex', 'abd'])
    C('literal through an array', 'my $o : object[] = ["abe", "x"]; eval { my $s = (mutable string)$o->[0]; $s->[0] = \'X\'; say "changed"; }; if ($@) { say "ex"; } say (string)$o->[0]; say "abe";', ['ex', 'abe', 'abe'])
    C('copy of a literal', 'my $s = (mutable string)copy "abf"; $s->[0] = \'X\'; say $s; say "abf";', ['Xbf', 'abf'])
    C('byte[] of a literal', 'my $b = (byte[])"abg"; $b->[0] = \'X\'; say "abg" . " " . (string)$b;', ['abg Xbg'])
    C('string of a byte[]', 'my $b = new byte[2]; $b->[0] = \'p\'; $b->[1] = \'q\'; my $s = (string)$b; $b->[0] = \'X\'; say $s;', ['pq'])
    C('concatenation is mutable', 'my $l = "ab"; my $s = (mutable string)($l . "c"); $s->[0] = \'X\'; say $s; say $l;', ['Xbc', 'ab'])
    C('number string is mutable', 'my $s = (mutable string)(string)12; $s->[0] = \'9\'; say $s; say 12;', ['92', '12'])
    C('substr result', 'my $l = "abcdef"; my $s = (mutable string)Fn->substr($l, 0, 3); $s->[0] = \'X\'; say $s; say $l;', ['Xbc', 'abcdef'])
    C('make_read_only', 'my $s = new_string_len 2; my $m = (mutable string)$s; $m->[0] = \'a\'; say "" . is_read_only $s; make_read_only $s; say "" . is_read_only $s; eval { my $q = (mutable string)$s; say "cast"; }; if ($@) { say "ex"; } say "" . ($m->[0]);', ['0', '1', 'ex', '97'])
    C('literals of every kind are read-only', 'say "" . is_read_only "" . is_read_only "a";', ['11'])
    C('exception message', 'eval { die "zzz"; }; my $e = $@; eval { my $m = (mutable string)$e; say "ok"; }; say "zzz";', None)
    C('the same literal twice', 'my $a = "same"; my $b = "same"; my $c = (mutable string)copy $a; $c->[0] = \'S\'; say "$a $b $c"; say "same";', ['same same Same', 'same'])
    C('literal in a loop', 'for (my $i = 0; $i < 3; $i++) { my $s = "loop"; my $o : object = $s; eval { my $m = (mutable string)$o; $m->[0] = \'X\'; }; say $s; }', ['loop'] * 3)
    C('literal default argument', 'for (my $i = 0; $i < 2; $i++) { my $s = &dflt; eval { my $m = (mutable string)$s; $m->[0] = \'X\'; }; say $s; }', ['dflt'] * 2)
    C('literal of a field', 'my $h = {"key" => "val"}; for my $o (@$h) { eval { my $m = (mutable string)$o; $m->[0] = \'X\'; }; } say (string)$h->[0] . (string)$h->[1];', ['keyval'])
    C('join and list', 'my $l = ["a", "b"]; my $j = (mutable string)Fn->join(",", $l); $j->[0] = \'X\'; say $j; say $l->[0];', ['X,b', 'a'])
    for c in (r'"a\n"', r'"\x41"', '""', '"a$"', '"$n"', "<<'EOS';\nhere\nEOS\n"):
        if 'EOS' in c: C('here document', 'my $n = 1; my $s = %smy $o : object = $s; eval { my $m = (mutable string)$o; $m->[0] = \'X\'; say "changed"; }; if ($@) { say "ex"; }' % c, ['ex'])
        elif '$n' in c: C('interpolated ' + c, 'my $n = "1"; my $s = (mutable string)("$n" . "x"); $s->[0] = \'2\'; say $s; say "$n";', ['2x', '1'])
        elif c != '"a$"': C('literal ' + c, 'my $o : object = %s; eval { my $m = (mutable string)$o; if (length $m) { $m->[0] = \'X\'; } say "changed"; }; if ($@) { say "ex"; } say "" . ((string)$o eq %s);' % (c, c), ['ex', '1'])
    return out

def error_cases(rng):
    out = []
    cls = [c for c in ty.CLASSES] + ['Error', 'Error::System', 'Error::Compile', 'Error::NotSupported', 'Int']
    sup = dict(ty.SUPER); sup.update({'Error::System': 'Error', 'Error::Compile': 'Error', 'Error::NotSupported': 'Error'})
    def chain(c):
        r = [c]
        while r[-1] in sup: r.append(sup[r[-1]])
        return r
    body = []; exp = []
    for a in cls:
        for b in cls:
            body.append('say "%s %s " . (basic_type_id %s isa_error %s) . (basic_type_id %s is_error %s);' % (a, b, a, b, a, b))
            exp.append('%s %s %d%d' % (a, b, b in chain(a), a == b))
    body.append('say "none " . (eval_error_id isa_error Error);'); exp.append('none 0')
    for bad in ('-1', '100000', '0'):
        pass
    out.append(Case('error ids', '\n'.join(body), exp))
    for a in [c for c in cls if c.startswith('Error')]:
        out.append(Case('thrown ' + a, 'eval { die %s "m"; }; say "" . (eval_error_id is_error %s) . (eval_error_id isa_error Error);' % (a, a) + ' '.join('say "" . (eval_error_id isa_error %s);' % b for b in cls), ['11'] + [str(int(b in chain(a))) for b in cls]))
    return out

def ident(t): return t.replace('[]', '_A').replace(' ', '_').replace('::', '_')
need = set()
ALWAYS = 'static method i : int ($x : int) { return $x; } static method ro : string () { my $s = copy "ro"; make_read_only $s; return $s; } static method dflt : string ($s : string = undef) { $s = "dflt"; return $s; }'

def main(ck):
    rng = ck.rng
    drv = vp.build_driver('asan')
    global need
    W = [BASE] + [world(rng) for _ in range(ck.n(5, 60))]
    for wi, w in enumerate(W):
        setw(w); need = set()
        cases = value_cases(rng, ck.n(.35, 1)) + store_cases(rng, ck.n(.2, 1))
        if wi == 0: cases += string_cases(rng) + error_cases(rng)
        else: cases += error_cases(rng)
        rng.shuffle(cases)
        help_ = ALWAYS + ' ' + ' '.join('static method take_%s : void ($x : %s) { }' % (ident(t), t) for t in sorted(need))
        uses = ' '.join('use %s;' % k for k in ty.FILES) + ' use Fn; use Error; use Error::System; use Error::Compile; use Error::NotSupported; ' + help_
        pre = cases if ck.tier != 'quick' else rng.sample(cases, min(len(cases), 120 if wi == 0 else 40))
        files = {k + '.spvm': v for k, v in ty.FILES.items()}
        ck.count('worlds')
        run_and_judge(ck, drv, cases, per=80, modes=('vm',), uses=uses, files=files, prefix='')
        run_and_judge(ck, drv, pre, per=20, modes=('pre',), uses=uses, files=files, prefix='', pre_opt='-O0')
    ck.rule = 'a distinct case is a value of a run-time type held in a compile-time type, put to every run-time check; or an element store; in the interpreter and precompiled'
    ck.assumptions = ['undef isa TYPE and isa with an interface without a method name are not specified']

vp.main('C09', main)

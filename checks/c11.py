import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import re, random
import vp, session as se, tymodel as ty
from tymodel import *

class Case:
    """body: one statement to judge, on a line of its own; ok: True, False or None (not specified: only memory safety is judged)"""
    def __init__(s, key, ok, stmt, setup='', decls='', files=(), cls=None, line=None, attr=' : public', ext='', raw=None, file=None, grp=None):
        s.key, s.ok, s.stmt, s.setup, s.decls, s.files, s.cls, s.attr, s.ext, s.raw = key, ok, stmt, setup, decls, files, cls, attr, ext, raw
        s.line, s.file, s.grp = line or (2 if not stmt else 5), file, grp or key.split(' ')[0]

USE = ' '.join('use %s;' % k for k in FILES) + ' use Mon;'
def source(c, n):
    if c.raw is not None: return c.raw.replace('TX', n)
    return 'class %s%s%s { %s\n%s\nstatic method m : void () {\n%s\n%s\n} }' % (n, c.ext, c.attr, USE, c.decls.replace('TX', n), c.setup.replace('TX', n), c.stmt.replace('TX', n))

def decl(v, t):
    if t.endswith('*'): return 'my $b_%s : %s; my %s : %s = \\$b_%s;' % (v[1:], t[:-1], v, t, v[1:])
    return 'my %s : %s;' % (v, t)
def src(rng, t):
    """(declarations, set-up, expression of the type t)"""
    if t == 'undef': return '', '', 'undef'
    if t == 'void': return 'static method sv : void () { }', '', '&sv'
    k = rng.randrange(6)
    if k == 1 and not is_ref(t): return 'static method sr : %s () { my $r : %s; return $r; }' % (t, t), '', '&sr'
    if k == 2 and not is_ref(t) and not is_mul(t): return 'has sf : %s;' % t, 'my $o = new TX;', '$o->{sf}'
    if k == 3 and not is_ref(t) and not is_mul(t): return 'our $SC : %s;' % t, '', '$SC'
    if k == 4 and not is_ref(t) and 'mutable' not in t and not t.startswith('object['): return '', 'my $a_s = new %s[1];' % t, '$a_s->[0]'
    if k == 5: return '', decl('$s', t), '($s)'
    return '', decl('$s', t), '$s'

# ---- assignment in every place that assigns
def assign_cases(rng, part):
    for a in TYPES:
        for b in TYPES + ['undef', 'void']:
            ok = can_assign(a, b)
            if b == 'void': ok = False
            places = ['init', 'set', 'arg', 'iarg', 'optarg']
            if not is_ref(a): places += ['ret']
            if not is_ref(a) and not is_mul(a): places += ['field', 'cvar', 'capture', 'setter', 'efield']
            if not is_ref(a) and 'mutable' not in a and a != 'object[]': places += ['elem']
            if a in NUM: places += ['deref', 'mulfield']
            if a == 'string': places += ['exc', 'init_list']
            for p in places:
                if part < 1 and rng.random() > part: continue
                d, s, e = src(rng, b)
                st = None
                if p == 'init': st = 'my $t : %s = %s;' % (a, e)
                elif p == 'set': s += ' ' + decl('$t', a); st = '$t = %s;' % e
                elif p == 'arg': d += ' static method f : void ($x : %s) { }' % a; st = '&f(%s);' % e
                elif p == 'iarg': d += ' method f : void ($y : int, $x : %s) { }' % a; s += ' my $i = new TX;'; st = '$i->f(1, %s);' % e
                elif p == 'optarg':
                    if is_mul(a) or is_ref(a): continue
                    d += ' static method f : void ($y : int, $x : %s = %s) { }' % (a, '0' if is_num(a) else 'undef'); st = '&f(1, %s);' % e
                elif p == 'ret':
                    yield Case('%s %s=%s' % (p, a, b), ok, ' return %s; } static method m2 : void () {' % e, s, d + ' static method z : void () { }').ret(a); continue
                elif p == 'field': d += ' has tf : %s;' % a; s += ' my $i = new TX;'; st = '$i->{tf} = %s;' % e
                elif p == 'efield':
                    d += ' has tf : %s;' % a; s += ' my $i = new TX[1]; $i->[0] = new TX;'; st = '$i->[0]{tf} = %s;' % e
                elif p == 'cvar': d += ' our $TC : %s;' % a; st = '$TC = %s;' % e
                elif p == 'capture': st = 'my $cb = [has cf : %s = %s] method : void () { };' % (a, e)
                elif p == 'setter':
                    d += ' has tf : rw %s;' % a; s += ' my $i = new TX;'; st = '$i->set_tf(%s);' % e
                    if a in ('byte', 'short'): yield Case('%s %s=%s' % (p, a, b), b != 'void' and can_assign('int', b), st, s, d); continue
                elif p == 'elem': s += ' my $t = new %s[1];' % a; st = '$t->[0] = %s;' % e
                elif p == 'deref': s += ' my $n : %s; my $t = \\$n;' % a; st = '$$t = %s;' % e
                elif p == 'mulfield':
                    if a not in ('int', 'double'): continue
                    s += ' my $t : %s;' % {'int': 'Zx_2i', 'double': 'Zx_2d'}[a]; st = '$t->{%s} = %s;' % ({'int': 'y', 'double': 'im'}[a], e)
                elif p == 'exc': st = '$@ = %s;' % e
                elif p == 'init_list': continue
                yield Case('%s %s=%s' % (p, a, b), ok, st, s, d)
def _ret(s, a): s.attr_ret = a; s.rt = a; return s
Case.ret = _ret
Case.rt = 'void'

def cast_cases(rng, part):
    for a in TYPES + ['void']:
        for b in TYPES + ['undef', 'void']:
            if part < 1 and rng.random() > part: continue
            d, s, e = src(rng, b)
            if a == 'void': ok = False
            else: ok = can_cast(a, b) if b != 'void' else False
            how = rng.choice(['my $t = (%s)%s;', 'my $t = (%s)%s;', '(%s)%s;'])
            if a in MUL and '$t' not in how: how = 'my $t = (%s)%s;'
            yield Case('cast (%s)%s' % (a, b), ok, how % (a, e), s, d)

def literal_cases(rng):
    lim = {'byte': 7, 'short': 15, 'int': 31, 'long': 63}
    vals = sorted({x + d for b in (7, 15, 31, 63) for x in (1 << b, -(1 << b)) for d in (-1, 0, 1)} | {0, 1, -1, 255, 65535, 4294967295})
    for v in vals:
        if not -(1 << 63) <= v < 1 << 63: continue
        for suf in ('', 'L'):
            if suf == '' and not -(1 << 31) <= v < 1 << 31: continue
            lit = '%d%s' % (v, suf) if v >= 0 else '-%d%s' % (-v, suf)
            b = 'long' if suf else 'int'
            if v == -(1 << 31) and not suf or v == -(1 << 63): lit = lit  # the most negative value of the type
            for a in NUM:
                ok = can_assign(a, b, v if v >= 0 else None)
                if v < 0 and not ok: ok = None if can_assign(a, b, v) else False
                for st in ('my $t : %s = %s;' % (a, lit),):
                    yield Case('literal %s=%s' % (a, lit), ok, st)
                if v >= 0:
                    yield Case('literal arg %s=%s' % (a, lit), can_assign(a, b, v), '&f(%s);' % lit, '', 'static method f : void ($x : %s) { }' % a)
                    yield Case('literal default %s=%s' % (a, lit), can_assign(a, b, v), '', '', 'static method f : void ($x : %s = %s) { }' % (a, lit))
    for lit, b in (('1.5', 'double'), ('1.5f', 'float'), ('0.0', 'double'), ("'a'", 'byte'), ('"a"', 'string'), ('true', 'Bool'), ('undef', 'undef')):
        for a in NUM + BOX + ['string', 'mutable string', 'object', 'KA', 'int[]', 'object[]']:
            if b == 'Bool': ok = True if a == 'object' else False
            elif b == 'double': ok = can_assign(a, b, 'f')
            else: ok = can_assign(a, b)
            yield Case('literal %s=%s' % (a, lit), ok, 'my $t : %s = %s;' % (a, lit))

# ---- operands of operators
OPT = NUM + ['Int', 'Double', 'Zx_2i', 'string', 'mutable string', 'object', 'object[]', 'KA', 'KB', 'IA', 'byte[]', 'int[]', 'string[]', 'Zx_2i[]', 'KA[]', 'IA[]', 'int[][]', 'int*', 'Zx_2i*', 'undef', 'void']
num = lambda t: t in NUM
integ = lambda t: t in INTEG
inint = lambda t: t in ('byte', 'short', 'int')
strb = lambda t: is_str(t) or t == 'byte[]'
isobj = lambda t: is_obj(t)
cond = lambda t: t not in ('void',) and not is_mul(t)
UN = [
 ('+%s', num), ('-%s', num), ('~%s', integ), ('!%s', cond), ('!!%s', cond), ('length %s', is_str), ('scalar @{%s}', None), ('@$x', None),
 ('new_string_len %s', inint), ('make_read_only %s', is_str), ('is_read_only %s', is_str), ('print %s', None), ('say %s', None), ('warn %s', lambda t: None if num(t) else isobj(t)),
 ('new int[%s]', inint), ('new KA[%s]', inint), ('new int[][%s]', inint), ('copy %s', lambda t: is_str(t) or t in ('byte[]', 'int[]', 'Zx_2i[]')),
 ('dump %s', isobj), ('type_name %s', isobj), ('%s isa KA', isobj), ('%s isa string', isobj), ('%s isa int[]', isobj), ('%s is_type KA', isobj), ('%s isa_error Error', inint), ('%s is_error Error', inint),
 ('basic_type_id KA', lambda t: True), ('%s isa object', lambda t: False), ('%s is_type object', lambda t: False),
]
def op_cases(rng, part):
    for t in OPT:
        def one(op, ok, tmpl, force=None):
            d, s, e = src(rng, t) if not force else force
            return Case('operator %s on %s' % (op, t), ok, tmpl % e, s, d)
        for op, p in UN:
            if p is None or '%s' not in op: continue
            ok = p(t)
            if t == 'undef' and op in ('dump %s', 'type_name %s', 'warn %s', 'copy %s', 'length %s', 'make_read_only %s', 'is_read_only %s') or t == 'undef' and 'is' in op: ok = None
            if t == 'undef' and op in ('!%s', '!!%s'): ok = True
            x = op % '%s'
            for st in ('my $r = %s;' % x, '%s;' % x):
                if x.startswith(('warn', 'make_read')): st = '%s;' % x
                yield one(op, ok, st)
        for op in ('print', 'say'): yield one(op, True if is_str(t) or num(t) else False if not t in ('undef', 'byte[]', 'object') else None, op + ' %s;')
        for st, p in (('if (%s) { }', cond), ('unless (%s) { }', cond), ('while (%s) { last; }', cond), ('for (; %s;) { last; }', cond), ('my $r = 1 && %s;', cond), ('my $r = %s || 1;', cond), ('if (0) { } elsif (%s) { }', cond)):
            ok = cond(t) if t != 'undef' else True
            if is_mul(t): ok = False
            yield one('condition ' + st, ok, st)
        yield one('switch', inint(t), 'switch (%s) { case 1: { } }')
        yield one('die', True if is_str(t) else None if t in ('undef', 'object') or is_obj(t) or num(t) else False, 'die %s;')
        if t not in ('undef', 'void'):
            yield one('for-each', is_arr(t), 'for my $v (@%s) { }', ('', decl('$s', t), '$s'))
            for dt in NUM + ['string', 'KA', 'object']: yield one('for-each with the type %s' % dt, None if is_arr(t) else False, 'for my $v : '+dt+' (@%s) { }', ('', decl('$s', t), '$s'))
        if t not in ('undef', 'void'):
            yield one('scalar @', is_arr(t), 'my $r = scalar @%s;', ('', decl('$s', t), '$s'))
            yield one('element access', is_arr(t) or is_str(t), 'my $r = %s->[0];')
            yield one('element store', None if is_str(t) and 'mutable' not in t or t in ('string[]', 'object[]') else (is_arr(t) and t[:-2] in NUM) or t == 'mutable string', '%s->[0] = 1;', ('', decl('$s', t), '$s'))
            yield one('dereference', is_ref(t), 'my $r = $$s;' + '#%s', ('', decl('$s', t), '$s'))
            yield one('reference', num(t) or is_mul(t), 'my $r = \\%s;', ('', decl('$s', t), '$s'))
            yield one('index', inint(t), 'my $a = new int[1]; my $r = $a->[%s];')
            yield one('string index', inint(t), 'my $a = "abc"; my $r = $a->[%s];')
            yield one('increment', num(t), '%s++;', ('', decl('$s', t), '$s'))
            yield one('decrement', num(t), '--%s;', ('', decl('$s', t), '$s'))
            yield one('can', t in ('KA', 'KB', 'IA') or (None if is_box(t) else False), 'my $r = %s can ma;' if t != 'IA' else 'my $r = %s can m1;')
            yield one('method call', t in ('KA', 'KB'), 'my $r = %s->ma(1);')
            yield one('interface call', t in ('IA', 'KB'), 'my $r = %s->m1;')
            yield one('field access', t in ('KA', 'KB'), 'my $r = %s->{fi};')
            yield one('mulnum field access', t in ('Zx_2i', 'Zx_2i*'), 'my $r = %s->{x};')
            yield one('SUPER call', False, 'my $r = %s->SUPER::ma(1);') if t != 'KB' and not t == 'KA' else None
        yield one('static instance call', None if t == 'void' else t in ('KA', 'KB'), 'my $r = %s->KA::ma(1);')
    B = [('+', num, num), ('-', num, num), ('*', num, num), ('/', num, num), ('%', integ, integ), ('&', integ, integ), ('|', integ, integ), ('^', integ, integ),
         ('<<', integ, inint), ('>>', integ, inint), ('>>>', integ, inint), ('<', num, num), ('<=', num, num), ('>', num, num), ('>=', num, num), ('<=>', num, num),
         ('eq', strb, strb), ('ne', strb, strb), ('gt', strb, strb), ('ge', strb, strb), ('lt', strb, strb), ('le', strb, strb), ('cmp', strb, strb),
         ('.', lambda t: strb(t) or num(t), lambda t: strb(t) or num(t)),
         ('div_uint', lambda t: t == 'int', lambda t: t == 'int'), ('mod_uint', lambda t: t == 'int', lambda t: t == 'int'), ('div_ulong', lambda t: t == 'long', lambda t: t == 'long'), ('mod_ulong', lambda t: t == 'long', lambda t: t == 'long')]
    def eq(a, b):
        if 'void' in (a, b) or is_mul(a) or is_mul(b): return False
        if num(a): return num(b)
        if is_ref(a): return is_ref(b)
        return is_obj(b) or b == 'undef'
    for a in OPT:
        for b in OPT:
            if a == 'undef' and b == 'undef': continue
            ops = B + [('==', None, None), ('!=', None, None)]
            for op, p, q in (rng.sample(ops, max(1, int(len(ops) * part))) if part < 1 else ops):
                ok = eq(a, b) if p is None else bool(p(a) and q(b))
                if p is not None and ok and not (num(a) and num(b)) and 0: ok = None
                d, s, e = src(rng, a); d2, s2, e2 = src(random.Random(9) if 0 else rng, b)
                d2, s2, e2 = [re.sub(r'\b(sf|SC|sr|sv|a_s|o|s|b_s)\b', r'\1_2', x) for x in (d2, s2, e2)]
                if op in ('==', '!=') and is_ref(a) and is_ref(b) and a != b: ok = None
                yield Case('operator %s %s %s' % (a, op, b), ok, 'my $r = %s %s %s;' % (e, op, e2), s + s2, d + ' ' + d2)
    # compound assignment: as TARGET = (type of TARGET)(TARGET op VALUE)
    for a in NUM + ['string', 'mutable string', 'KA', 'int[]', 'object', 'Zx_2i']:
        for b in OPT:
            for op, p, q in B[:11] + [('.', is_str, lambda t: strb(t) or num(t))]:
                if part < 1 and rng.random() > part: continue
                ok = bool(p(a) and q(b))
                if a == 'mutable string' and ok: ok = None
                d, s, e = src(rng, b)
                yield Case('compound %s %s= %s' % (a, op, b), ok, '$t %s= %s;' % (op, e), s + ' ' + decl('$t', a), d)

# ---- who may use what
def access_cases():
    OWN = 'class ACX%s%s : %s { use TX; %s %s}'
    kinds = {
     'new': lambda acc: ('', '', acc or None, 'my $o = new {C};'),
     'method': lambda acc: ('', '%s static method sm : int () { return 1; }' % acc, 'public', 'my $r = {C}->sm;'),
     'imethod': lambda acc: ('', '%s method im : int () { return 1; }' % acc, 'public', 'my $o = {C}->mk; my $r = $o->im;'),
     'stimethod': lambda acc: ('', '%s method im : int () { return 1; }' % acc, 'public', 'my $o = {C}->mk; my $r = $o->{C}::im;'),
     'field': lambda acc: ('', 'has fd : %s int;' % acc, 'public', 'my $o = {C}->mk; my $r = $o->{fd};'),
     'field store': lambda acc: ('', 'has fd : %s int;' % acc, 'public', 'my $o = {C}->mk; $o->{fd} = 1;'),
     'field compound': lambda acc: ('', 'has fd : %s int;' % acc, 'public', 'my $o = {C}->mk; $o->{fd} += 1;'),
     'field weaken': lambda acc: ('', 'has fd : %s {C};' % acc, 'public', 'my $o = {C}->mk; weaken $o->{fd};'),
     'class var': lambda acc: ('', 'our $CV : %s int;' % acc, 'public', 'my $r = ${C}::CV;'),
     'class var store': lambda acc: ('', 'our $CV : %s int;' % acc, 'public', '${C}::CV = 1;'),
     'enum': lambda acc: ('', '%s enum { EN }' % acc, 'public', 'my $r = {C}->EN;'),
    }
    default = {'new': 'private', 'method': 'public', 'imethod': 'public', 'stimethod': 'public', 'enum': 'public'}
    n = 0
    for k, f in kinds.items():
        for acc in ('', 'private', 'protected', 'public'):
            eff = acc or default.get(k, 'private')
            _, mem, cattr, st = f(acc)
            for who in ('own', 'own anon', 'other', 'child', 'grandchild', 'allowed', 'other anon', 'parent', 'child of allowed', 'allowed by other', 'child anon'):
                n += 1
                C = 'ACX%d' % n
                mem2 = mem.replace('{C}', C); st2 = st.replace('{C}', C)
                cat = (acc if k == 'new' else 'public')
                head = ' : %s' % cat if cat else ''
                mk = 'static method mk : %s () { return new %s; }' % (C, C)
                anon = 'my $cb = method : int () { %s return 1; };' % st2
                ok = eff == 'public' or who.startswith('own') or eff == 'protected' and who in ('child', 'grandchild', 'child anon') or who == 'allowed'
                key = 'access %s %s by %s' % (eff, k, who)
                ex = [] 
                if who == 'own': yield Case(key, ok, '', raw='class TX%s { %s %s\nstatic method m : void () {\n\n%s\n} }' % (head, mem2.replace(C, 'TX'), mk.replace(C, 'TX'), st2.replace(C, 'TX')), grp='access'); continue
                if who == 'own anon': yield Case(key, ok, '', raw='class TX%s { %s %s\nstatic method m : void () {\n\n%s\n} }' % (head, mem2.replace(C, 'TX'), mk.replace(C, 'TX'), anon.replace(C, 'TX')), grp='access'); continue
                if who in ('child', 'grandchild', 'child anon'):
                    ex = [(C, 'class %s%s { %s %s }' % (C, head, mem2, mk))]
                    par = C
                    if who == 'grandchild': par = C + 'm'; ex.append((par, 'class %s extends %s%s { use %s; }' % (par, C, head, C)))
                    # a child of a class that only it may create
                    yield Case(key, ok, anon if who == 'child anon' else st2, files=ex, ext=' extends ' + par, decls='use %s; use %s;' % (C, par), grp='access'); continue
                if who == 'parent':   # the class of which the owner is a child
                    ex = [(C, 'class %s extends TXP%s { use TXP; %s %s }' % (C, head, mem2, mk))]
                    yield Case(key, ok, '', raw='class TX : public { use %s; use %sP;\nstatic method m : void () {\n\n%s\n} }' % (C, C, st2), files=[(C, 'class %s extends %sP%s { use %sP; %s %s }' % (C, C, head, C, mem2, mk)), (C + 'P', 'class %sP : public { use %s; static method x : void () {\n\n\n%s } }' % (C, C, st2))], file=C + 'P', line=4, grp='access') if 0 else None
                    continue
                if who == 'allowed': ex = [(C, 'class %s%s { use TX; allow TX; %s %s }' % (C, head, mem2, mk))]
                elif who == 'allowed by other': ex = [(C, 'class %s%s { %s %s }' % (C, head, mem2, mk)), (C + 'o', 'class %so { use TX; allow TX; }' % C)]
                elif who == 'child of allowed': ex = [(C, 'class %s%s { use KA; allow KA; %s %s }' % (C, head, mem2, mk))]; yield Case(key, ok, st2, files=ex, ext=' extends KA', decls='use %s;' % C, grp='access'); continue
                else: ex = [(C, 'class %s%s { %s %s }' % (C, head, mem2, mk))]
                yield Case(key, ok, anon if 'anon' in who else st2, files=ex, decls=' '.join('use %s;' % x[0] for x in ex), grp='access')

# ---- names, definitions, calls, attributes: (accepted, declarations in the class, statements of the method)
def directed():
    T, F, N = True, False, None
    L = [
     # variables
     ('undeclared variable', F, '', '$nope = 1;'), ('undeclared variable read', F, '', 'my $x = $nope;'), ('use before declaration', F, '', '$x = 1; my $x = 2;'),
     ('redeclaration', F, '', 'my $x = 1; my $x = 2;'), ('shadowing in a block', T, '', 'my $x = 1; { my $x = "s"; }'), ('out of scope', F, '', '{ my $x = 1; $x; } $x = 2;'),
     ('loop variable out of scope', F, '', 'for (my $i = 0; $i < 1; $i++) { } $i = 1;'), ('for-each variable out of scope', F, '', 'for my $e (@{new int[1]}) { } $e = 1;'), ('if variable out of scope', F, '', 'if (my $x = 1) { } $x = 2;'),
     ('argument redeclared', F, 'static method f : void ($x : int) { my $x = 1; }', ''), ('duplicate argument', F, 'static method f : void ($x : int, $x : long) { }', ''), ('argument shadowed', T, 'static method f : void ($x : int) { { my $x = "s"; } }', ''),
     ('type not resolved', F, '', 'my $x;'), ('undef inferred', F, '', 'my $x = undef;'), ('void inferred', F, 'static method f : void () { }', 'my $x = &f;'),
     ('variable of unknown class', F, '', 'my $x : Nope;'), ('void variable', F, '', 'my $x : void;'), ('initialised from itself', F, '', 'my $x : int = $x;'), ('anon does not see locals', F, '', 'my $x = 1; my $m = method : void () { $x = 2; };'),
     ('anon with capture', T, '', 'my $x = 1; my $m = [$x : int] method : void () { $x = 2; };'), ('capture of undeclared', F, '', 'my $m = [$x : int] method : void () { $x = 2; };'), ('capture with value', T, '', 'my $m = [$x : int = 3] method : void () { $x = 2; };'), ('capture of another type', F, '', 'my $x = "s"; my $m = [$x : int] method : void () { };'),
     # fields
     ('unknown field', F, '', 'my $o = KA->new; $o->{nope} = 1;'), ('unknown mulnum field', F, '', 'my $o : Zx_2i; $o->{z} = 1;'), ('duplicate field', F, 'has a : int; has a : int;', ''), ('duplicate field of two types', F, 'has a : int; has a : string;', ''),
     ('mulnum field type', F, 'has a : Zx_2i;', ''), ('reference field', F, 'has a : int*;', ''), ('void field', F, 'has a : void;', ''), ('field of unknown class', F, 'has a : Nope;', ''), ('field and method of a name', T, 'has a : int; method a : int () { return 1; }', ''),
     ('two access controls', F, 'has a : public private int;', ''), ('ro and rw', F, 'has a : ro rw int;', ''), ('ro and wo', F, 'has a : ro wo int;', ''), ('all field attributes', T, 'has a : public ro int; has b : protected wo int; has c : private rw int;', ''),
     ('ro setter', F, 'has a : ro int;', 'my $o = new TX; $o->set_a(1);'), ('wo getter', F, 'has a : wo int;', 'my $o = new TX; $o->a;'), ('rw both', T, 'has a : rw int;', 'my $o = new TX; $o->set_a(1); my $r = $o->a;'), ('no accessor', F, 'has a : int;', 'my $o = new TX; $o->a;'), ('getter with argument', F, 'has a : rw int;', 'my $o = new TX; $o->a(1);'), ('setter without argument', F, 'has a : rw int;', 'my $o = new TX; $o->set_a;'),
     ('getter of a byte is int', T, 'has a : rw byte;', 'my $o = new TX; my $r : int = $o->a; $o->set_a(300);'), ('getter of a byte is not byte', F, 'has a : rw byte;', 'my $o = new TX; my $r : byte = $o->a;'),
     ('static attribute on a field', F, 'has a : static int;', ''), ('unknown attribute on a field', F, 'has a : nope int;', ''),
     # class variables
     ('duplicate class variable', F, 'our $A : int; our $A : int;', ''), ('mulnum class variable', F, 'our $A : Zx_2i;', ''), ('reference class variable', F, 'our $A : int*;', ''), ('unknown class variable', F, '', '$TX::NOPE = 1;'), ('class variable of unknown class', F, '', '$Nope::A = 1;'), ('class variable of super class', N, 'our $A : int;', '$A = 1;'),
     ('class variable with ::', F, 'our $TX::A : int;', ''), ('ro class variable setter', F, 'our $A : ro int;', 'TX->SET_A(1);'), ('rw class variable', T, 'our $A : rw int;', 'TX->SET_A(1); my $r = TX->A;'), ('wo class variable getter', F, 'our $A : wo int;', 'TX->A;'), ('local hides class variable', T, 'our $A : int;', 'my $A = "s"; $A = "t";'), ('two controls on a class variable', F, 'our $A : public private int;', ''),
     # methods
     ('duplicate method', F, 'static method f : void () { } static method f : void () { }', ''), ('duplicate class and instance method', F, 'static method f : void () { } method f : void () { }', ''), ('mulnum return type', T, 'static method f : Zx_2i () { my $x : Zx_2i; return $x; }', ''), ('reference return type', F, 'static method f : int* ($x : int*) { return $x; }', ''), ('void argument', F, 'static method f : void ($x : void) { }', ''), ('reference argument', T, 'static method f : void ($x : int*) { }', ''),
     ('method named INIT', F, 'static method INIT : void () { }', ''), ('no block', F, 'static method f : void ();', ''), ('required outside an interface', F, 'required method f : void () { }', ''), ('native with a block', F, 'native static method f : void () { }', ''), ('two controls on a method', F, 'public private static method f : void () { }', ''), ('native and precompile', F, 'native precompile static method f : void ();', ''),
     ('optional before required', F, 'static method f : void ($x : int = 1, $y : int) { }', ''), ('optional last', T, 'static method f : void ($x : int, $y : int = 1) { }', '&f(1); &f(1, 2);'), ('default of another type', F, 'static method f : void ($x : int = "a") { }', ''), ('default undef for int', F, 'static method f : void ($x : int = undef) { }', ''), ('default undef for string', T, 'static method f : void ($x : string = undef) { }', '&f;'), ('default out of range', F, 'static method f : void ($x : byte = 128) { }', ''),
     ('destructor with argument', F, 'method DESTROY : void ($x : int) { }', ''), ('destructor with a return type', F, 'method DESTROY : int () { return 1; }', ''), ('static destructor', F, 'static method DESTROY : void () { }', ''), ('destructor', T, 'method DESTROY : void () { }', ''),
     ('return value from void', F, 'static method f : void () { return 1; }', ''), ('no return value', F, 'static method f : int () { return; }', ''), ('return in void', T, 'static method f : void () { return; }', '&f;'), ('self in a class method', F, 'static method f : void () { $self; }', ''), ('self in an instance method', T, 'method f : TX () { return $self; }', ''), ('assign to self', N, 'method f : void () { $self = undef; }', ''),
     # calls
     ('unknown method', F, '', '&nope;'), ('unknown class method', F, '', 'KA->nope;'), ('unknown instance method', F, '', 'my $o = KA->new; $o->nope;'), ('method of unknown class', F, '', 'Nope->new;'), ('too few', F, 'static method f : void ($x : int) { }', '&f;'), ('too many', F, 'static method f : void ($x : int) { }', '&f(1, 2);'), ('too many for none', F, 'static method f : void () { }', '&f(1);'),
     ('too few instance', F, 'method f : void ($x : int) { }', 'my $o = new TX; $o->f;'), ('too many instance', F, 'method f : void ($x : int) { }', 'my $o = new TX; $o->f(1, 2);'), ('instance method as class method', F, 'method f : void () { }', 'TX->f;'), ('instance method by &', F, 'method f : void () { }', '&f;'), ('class method as instance method', F, 'static method f : void () { }', 'my $o = new TX; $o->f;'),
     ('call on undef', F, '', 'undef->ma;'), ('void as an argument', F, 'static method v : void () { } static method f : void ($x : object) { }', '&f(&v);'), ('class method of the parent through the child', F, '', 'KC->nope;'), ('parent instance method', T, '', 'my $o = KC->new; $o->ma;'), ('static instance call of the parent', T, '', 'my $o = KC->new; $o->KB::m1; $o->KA::ma;'), ('static instance call of a stranger', F, '', 'my $o = KC->new; $o->KF::m1;'), ('static instance call of a child', F, '', 'my $o = KA->new; $o->KB::m1;'), ('SUPER in a class without a parent', F, 'method g : void () { $self->SUPER::g; }', ''),
     ('call on an interface', T, '', 'my $o : IA = KB->new; my $r = $o->m1;'), ('unknown method of an interface', F, '', 'my $o : IA = KB->new; $o->ma;'), ('interface class method', F, '', 'IA->m1;'), ('new of an interface', F, '', 'new IA;'), ('new of mulnum', F, '', 'new Zx_2i;'), ('new of a number', F, '', 'new int;'), ('new of string', F, '', 'new string;'), ('new of object', F, '', 'new object;'), ('new of unknown', F, '', 'new Nope;'), ('array of unknown', F, '', 'new Nope[1];'), ('array of void', F, '', 'new void[1];'), ('two-dimensional object array', F, '', 'my $x : object[][];'), ('new object[][]', F, '', 'new object[1][];'),
     # statements
     ('last outside', F, '', 'last;'), ('next outside', F, '', 'next;'), ('break outside', F, '', 'break;'), ('last in a loop', T, '', 'while (1) { last; }'), ('break in switch', T, '', 'switch (1) { case 1: { break; } }'), ('last in switch', F, '', 'switch (1) { case 1: { last; } }'), ('duplicate case', F, '', 'switch (1) { case 1: { } case 1: { } }'), ('two defaults', F, '', 'switch (1) { default: { } default: { } }'), ('case long', F, '', 'switch (1) { case 1L: { } }'), ('case string', F, '', 'switch (1) { case "a": { } }'), ('case variable', F, '', 'my $x = 1; switch (1) { case $x: { } }'), ('case character', T, '', "switch (97) { case 'a': { } }"), ('same case by another literal', F, '', "switch (1) { case 97: { } case 'a': { } }"), ('negative case', T, '', 'switch (1) { case -1: { } case 1: { } }'), ('case enum', T, 'enum { E1 }', 'switch (1) { case TX->E1: { } }'), ('case method', F, 'static method f : int () { return 1; }', 'switch (1) { case TX->f: { } }'),
     ('assignment to a literal', F, '', '1 = 2;'), ('assignment to a call', F, 'static method f : int () { return 1; }', '&f = 1;'), ('increment of a literal', F, '', '1++;'), ('increment of a call', F, 'static method f : int () { return 1; }', '&f++;'), ('reference to a field', F, '', 'my $o = KA->new; my $r = \\$o->{fi};'), ('reference to an element', F, '', 'my $a = new int[1]; my $r = \\$a->[0];'), ('reference to an object', F, '', 'my $o = KA->new; my $r = \\$o;'),
     ('weaken a number', F, 'has a : int;', 'my $o = new TX; weaken $o->{a};'), ('weaken a variable', F, '', 'my $o = KA->new; weaken $o;'), ('weaken an element', F, '', 'my $o = new KA[1]; weaken $o->[0];'), ('weaken an object', T, 'has a : TX;', 'my $o = new TX; weaken $o->{a}; isweak $o->{a}; unweaken $o->{a};'),
     ('array of mixed numbers', N, '', 'my $a = [1, 2L];'), ('array from undef', F, '', 'my $a = [undef, 1];'), ('empty array literal', N, '', 'my $a = [];'), ('array literal mismatch', F, '', 'my $a = [1, "a"];'), ('string array literal of ints', T, '', 'my $a = ["a", 1];'), ('odd key-value', F, '', 'my $a = {"a" => 1, "b"};'), ('key-value', T, '', 'my $a = {"a" => 1, b => "x"};'), ('array literal of objects', T, '', 'my $a : KA[] = [KA->new, KA->new];'), ('array literal of a stranger', F, '', 'my $a = [KA->new, KD->new];'),
     ('die with class', T, '', 'eval { die Error "x"; }'), ('die with unknown class', F, '', 'die Nope "x";'), ('die with id', T, '', 'eval { die basic_type_id Error, "x"; }'), ('die with a string id', F, '', 'die "a", "x";'), ('isa_error of unknown', F, '', 'my $r = 1 isa_error Nope;'), ('isa of unknown', F, '', 'my $o : object; my $r = $o isa Nope;'), ('cast to unknown', F, '', 'my $o : object; my $r = (Nope)$o;'), ('basic_type_id of unknown', F, '', 'my $r = basic_type_id Nope;'),
     ('anon static', F, '', 'my $m = static method : int () { return 1; };'), ('anon with a name', F, '', 'my $m = method foo : int () { return 1; };'), ('anon to interface', T, 'use Comparator;', 'my $m = (Comparator)method : int ($x1 : object, $x2 : object) { return 1; };'), ('anon of other arguments', F, 'use Comparator;', 'my $m = (Comparator)method : int ($x1 : int, $x2 : int) { return 1; };'), ('anon of another return type', F, 'use Comparator;', 'my $m = (Comparator)method : string ($x1 : object, $x2 : object) { return "a"; };'), ('anon with more arguments', F, 'use Comparator;', 'my $m = (Comparator)method : int ($x1 : object, $x2 : object, $x3 : object) { return 1; };'), ('anon with an optional argument', T, 'use Comparator;', 'my $m = (Comparator)method : int ($x1 : object, $x2 : object, $x3 : object = undef) { return 1; };'), ('anon with less arguments', T, 'use Comparator;', 'my $m = (Comparator)method : int ($x1 : object) { return 1; };'),
     # class level
     ('unknown class used', F, 'use Nope;', ''), ('duplicate use', T, 'use KA; use KA;', ''), ('alias', T, 'alias KA as Q;', 'my $o = Q->new;'), ('alias of unknown', F, 'alias Nope as Q;', ''), ('allow unknown', F, 'allow Nope;', ''), ('interface of a class', F, 'interface KA;', ''), ('interface unknown', F, 'interface Nope;', ''), ('interface not satisfied', F, 'interface IA;', ''), ('interface satisfied', T, 'interface IA; method m1 : int () { return 1; }', ''), ('interface by a class method', F, 'interface IA; static method m1 : int () { return 1; }', ''), ('interface with a wrong return type', F, 'interface IA; method m1 : string () { return "a"; }', ''), ('interface with a narrower return type', F, 'interface IA; method m1 : byte () { return (byte)1; }', ''), ('interface with an argument', F, 'interface IA; method m1 : int ($x : int) { return 1; }', ''), ('interface with an optional argument', T, 'interface IA; method m1 : int ($x : int = 1) { return 1; }', ''), ('interface with a wrong argument', F, 'interface IB; method m2 : string ($x : long) { return "a"; }', ''), ('interface without argument', T, 'interface IB; method m2 : string () { return "a"; }', ''), ('interface with a wider argument', F, 'interface IB; method m2 : string ($x : object) { return "a"; }', ''), ('both interfaces', T, 'interface IA; interface IB; method m1 : int () { return 1; } method m2 : string ($x : int) { return "a"; }', ''),
     ('enum', T, 'enum { A1, A2 = 5, A3, }', 'my $r = TX->A3;'), ('enum duplicate', F, 'enum { A1, A1 }', ''), ('enum long', F, 'enum { A1 = 5L }', ''), ('enum string', F, 'enum { A1 = "a" }', ''), ('enum and method', F, 'enum { A1 } static method A1 : int () { return 1; }', ''), ('enum float', F, 'enum { A1 = 1.0 }', ''), ('enum negative', T, 'enum { A1 = -3, A2 }', ''), ('enum byte range', N, "enum { A1 = 'a' }", ''),
     ('INIT', T, 'our $A : int; INIT { $A = 3; } INIT { $A = 4; }', ''), ('return in INIT', N, 'INIT { return; }', ''), ('return value in INIT', F, 'INIT { return 1; }', ''), ('version', T, 'version "1.001";', ''), ('two versions', F, 'version "1.001"; version "1.002";', ''), ('bad version', F, 'version "abc";', ''), ('version with two points', F, 'version "1.0.1";', ''), ('version with two decimals', F, 'version "1.01";', ''),
    ]
    for k, ok, d, st in L: yield Case('rule ' + k, ok, st, decls=d, line=-1 if k in ('interface not satisfied', 'interface with an argument') else (5 if st and (not d or re.search(r'^(our|has|static|method|use|enum)', d)) else 2) if ok is False else None, grp='rule')
    R = [   # whole sources
     ('two classes in a file', F, 'class TX { }\nclass TY { }', 2), ('name and file', F, 'class Other { }', 1), ('interface with a field', F, 'class TX : interface_t {\nhas a : int;\n}', 2), ('interface with a class variable', F, 'class TX : interface_t {\nour $A : int;\n}', 2), ('two categories', F, 'class TX : interface_t mulnum_t {\n}', 1), ('pointer interface', F, 'class TX : interface_t pointer {\n}', 1), ('two controls', F, 'class TX : public private {\n}', 1), ('unknown attribute', F, 'class TX : nope {\n}', 1),
     ('extends itself', F, 'class TX extends TX {\n}', 1), ('extends unknown', F, 'class TX extends Nope {\n}', 1), ('extends an interface', F, 'class TX extends IA {\nuse IA;\n}', 1), ('extends mulnum', F, 'class TX extends Zx_2i {\nuse Zx_2i;\n}', 1), ('extends', T, 'class TX extends KA : public {\nuse KA;\n}', 1), ('extends twice', T, 'class TX extends KC : public {\nuse KC;\n}', 1),
     ('field of the super class', F, 'class TX extends KA : public {\nuse KA; has fi : string;\n}', 2), ('override', T, 'class TX extends KA : public {\nuse KA; method ma : int ($x : int = 3) { return 2; }\n}', 2), ('override with another type', F, 'class TX extends KA : public {\nuse KA; method ma : string ($x : int = 3) { return "a"; }\n}', 2), ('override with another argument', F, 'class TX extends KA : public {\nuse KA; method ma : int ($x : string = undef) { return 1; }\n}', 2), ('override with more arguments', F, 'class TX extends KA : public {\nuse KA; method ma : int ($x : int, $y : int) { return 1; }\n}', None), ('override with an optional argument', T, 'class TX extends KA : public {\nuse KA; method ma : int ($x : int = 1, $y : int = 2) { return 1; }\n}', 2), ('override by a class method', F, 'class TX extends KA : public {\nuse KA; static method ma : int ($x : int = 3) { return 1; }\n}', 2),
     ('override in the grandchild', F, 'class TX extends KC : public {\nuse KC; method ma : string ($x : int = 3) { return "a"; }\n}', 2), ('override breaks the interface of the parent', F, 'class TX extends KB : public {\nuse KB; method m1 : string () { return "a"; }\n}', 2), ('SUPER', T, 'class TX extends KC : public {\nuse KC; method m1 : int () { return $self->SUPER::m1 + 1; } method ma : int ($x : int = 3) { return $self->SUPER::ma(1); }\n}', 2), ('SUPER unknown', F, 'class TX extends KC : public {\nuse KC; method m1 : int () { return $self->SUPER::nope; }\n}', 2), ('SUPER class method', F, 'class TX extends KC : public {\nuse KC; method m1 : int () { $self->SUPER::new; return 1; }\n}', 2),
     ('mulnum', T, 'class TX_2i : mulnum_t {\nhas x : int; has y : int;\n}', 2), ('mulnum of two types', F, 'class TX_2i : mulnum_t {\nhas x : int; has y : long;\n}', 2), ('mulnum with a method', N, 'class TX_2i : mulnum_t {\nhas x : int; has y : int; static method f : void () { }\n}', 2), ('mulnum with an object', F, 'class TX_2i : mulnum_t {\nhas x : string; has y : string;\n}', 2), ('mulnum of a wrong length', F, 'class TX_3i : mulnum_t {\nhas x : int; has y : int;\n}', 1), ('mulnum of a wrong suffix', F, 'class TX_2l : mulnum_t {\nhas x : int; has y : int;\n}', 1), ('mulnum without a suffix', F, 'class TX : mulnum_t {\nhas x : int; has y : int;\n}', 1), ('mulnum empty', F, 'class TX_0i : mulnum_t {\n}', 1), ('mulnum with a class variable', F, 'class TX_1i : mulnum_t {\nhas x : int; our $A : int;\n}', 1),
     ('interface with required', T, 'class TX : interface_t {\nrequired method f : int ();\n}', 2), ('interface method with a body', T, 'class TX : interface_t {\nmethod f : int () { return 1; }\n}', 2), ('class method in an interface', N, 'class TX : interface_t {\nstatic method f : int () { return 1; }\n}', 2), ('interface extends', N, 'class TX extends KA : interface_t {\nuse KA;\n}', 1), ('precompile class', T, 'class TX : precompile {\nstatic method m : void () { }\n}', 1), ('pointer class', T, 'class TX : pointer {\n}', 1), ('syntax error', F, 'class TX {\nstatic method f : void () { my $x = ; }\n}', 2), ('unclosed', F, 'class TX {\nstatic method f : void () { \n', None), ('no class', F, '\n', None), ('nothing', F, '', None), ('lower-case class', F, 'class lower {\n}', None),
    ]
    for k, ok, s, line in R:
        if k.startswith('mulnum'): yield Case('rule ' + k, ok, '', raw=s, line=line, cls=re.search(r'TX\w*', s).group(0), grp='rule')
        else: yield Case('rule ' + k, ok, '', raw=s, line=line or -1, grp='rule')
    F2 = [  # two files
     ('circular inheritance', F, [('QA', 'class QA extends QB { use QB; }'), ('QB', 'class QB extends QA { use QA; }')], 'use QA;', ''),
     ('a class that uses its user', T, [('QC', 'class QC { use TX; static method f : int () { return TX->g; } }')], 'use QC; static method g : int () { return 3; }', 'QC->f;'),
     ('error in a used class', F, [('QD', 'class QD {\n\nstatic method f : int () { return "a"; }\n}')], 'use QD;', ''),
     ('missing method of a used class', F, [('QE', 'class QE { }')], 'use QE;', 'QE->f;'),
     ('unsatisfied interface of a parent', F, [('QF', 'class QF { use IA; interface IA; }')], 'use QF;', ''),
     ('required through the parent', T, [('QG', 'class QG extends KA : public { use KA; use IA; interface IA; method m1 : int () { return 5; } }'), ('QH', 'class QH extends QG : public { use QG; static method new : QH () { return new QH; } }')], 'use QH;', 'my $i : IA = QH->new; $i->m1;'),
    ]
    for k, ok, fs, d, st in F2: yield Case('rule ' + k, ok, st, decls=d, files=fs, file=None if ok or k in ('missing method of a used class',) else fs[0][0], line=-1 if not ok and k in ('circular inheritance', 'unsatisfied interface of a parent') else 3 if 'error in' in k else 5, grp='rule')

def main(ck):
    rng = ck.rng
    drv = vp.build_driver('asan')
    q = ck.tier == 'quick'
    cases = [c for g in (assign_cases(rng, .25 if q else 1), cast_cases(rng, 1), literal_cases(rng), op_cases(rng, .25 if q else 1), access_cases(), directed()) for c in g if c]
    if not q:
        for _ in range(3): cases += [c for g in (assign_cases(rng, 1), cast_cases(rng, 1), op_cases(rng, 1)) for c in g if c]
    rng.shuffle(cases)
    per = 60; items = []
    for i in range(0, len(cases), per):
        ops = [se.new(1)] + [se.src(1, k, v) for k, v in FILES.items()] + [se.src(1, 'W', 'class W : public { %s static method m : void () { my $x : IA = KC->new; my $n = $x->m1 + KA->new->ma(4); say "sum $n"; } }' % USE), se.comp(1, 'W')]
        ix = []
        for j, c in enumerate(cases[i:i + per]):
            n = 'T%d' % (i + j)
            c.name = c.cls.replace('TX', n) if c.cls else n
            c.source = source(c, n)
            if c.rt != 'void': c.source = c.source.replace('static method m : void () {', 'static method m : %s () {' % c.rt, 1)
            for k, v in c.files: ops.append(se.src(1, k, v.replace('TX', n)))
            ops.append(se.src(1, c.name, c.source)); ops.append(se.comp(1, c.name)); a = len(ops) - 1
            r = None
            if c.rt == 'void' and 'static method m : void' in c.source and c.ok is not False and 'while' not in c.key: ops.append(se.call(1, c.name, 'm')); r = len(ops) - 1
            ix.append((c, a, r))
        ops.append(se.call(1, 'W', 'm')); can = len(ops) - 1
        ops.append(se.free(1))
        items.append(se.Item('%d' % i, ops, (ix, can)))
    done = se.run_all(drv, items, per=2, wd=60)
    n = 0
    def files(c): return dict([(k + '.spvm', v) for k, v in FILES.items()] + [(k + '.spvm', v.replace('TX', c.name)) for k, v in c.files] + [(c.name + '.spvm', c.source)])
    for it in done:
        ix, can = it.meta
        if it.kind == 'missing': ck.inconclusive.append('%s: %s' % (it.key, it.detail[:200])); continue
        if it.kind in ('crash', 'hang'):
            last = [c for c, a, r in ix if it.ops[a].rc is not None]
            c = next((c for c, a, r in ix if it.at in (a, r) or it.ops[a].rc is None), ix[-1][0]) if hasattr(it, 'at') else None
            m = re.search(r'operation \w+ \d+ (T\d+)', it.detail)
            c = next((c for c, a, r in ix if m and c.name == m.group(1)), ix[0][0])
            rep = vp.san_report(it.detail.encode('latin1')) or ('assert', (re.search(r": (\w+): Assertion|in (\w+)", it.detail) or ['?'])[0])
            ck.violation('%s/%s/%s' % (it.kind, c.grp, rep[1]), '%s: %s\n%s' % (c.key, it.kind, it.detail), files(c)); continue
        for c, a, r in ix:
            o = it.ops[a]
            got = o.rc == 0
            n += 1
            ck.count('accepted' if got else 'rejected')
            ck.seen(c.key)
            if c.ok is None: ck.count('not specified'); continue
            if got != c.ok:
                ck.violation('%s/%s' % (c.key if c.grp in ('rule', 'access') else c.grp + ' ' + re.sub(r'[\w\[\]*]+$', '', c.key), 'accepted' if got else 'rejected'), '%s: the compiler %s it; the documented rules %s it\n%s\n%s' % (c.key, 'accepts' if got else 'rejects', 'accept' if c.ok else 'reject', c.source, o.msgs[:3]), files(c)); continue
            if not got:
                pos = [(m.group(1), int(m.group(2))) for x in o.msgs for m in re.finditer(r'\bat (\S+) line (\d+)', x)] + [(m.group(1), int(m.group(2))) for x in o.msgs for m in re.finditer(r'(\S+\.spvm)\D* line (\d+)', x)]
                f = (c.file or c.name).replace('TX', c.name) + '.spvm'
                if not o.msgs: ck.violation('no message/%s' % c.key, '%s: rejected without a message\n%s' % (c.key, c.source), files(c))
                elif c.line > 0 and not any(p == (f, c.line) for p in pos): ck.violation('position/%s' % (c.key if c.grp in ('rule', 'access') else c.grp), '%s: no message names %s line %s: %r\n%s' % (c.key, f, c.line, o.msgs, c.source), files(c))
        if 'sum ' not in str(it.ops[can].out): ck.violation('canary', '%s: afterwards the first class gives %r' % (it.key, it.ops[can].out), {})
    ck.sample('%d programs judged' % n)

vp.main('C11', main, rule='a distinct case is a construct with the types of its operands, or a rule of the language')

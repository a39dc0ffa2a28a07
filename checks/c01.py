import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vp, num, math
from num import *
from spvmrun import Case, run_and_judge

BOX = {'byte': 'Byte', 'short': 'Short', 'int': 'Int', 'long': 'Long', 'float': 'Float', 'double': 'Double'}

def fill(name, t, vals):
    return 'my $%s = Mon->arr_%s("%s");\n' % (name, t, ' '.join(show_val(v, t) for v in vals))

HOLD_F = ''.join('has f_%s : public %s; our $V_%s : public %s;' % (t, t, t.upper(), t) for t in NUMS)
HOLD = 'class H : public { %s static method new : H () { return new H; } static method id_int : int ($v : int) { return $v; } %s }' % (
    HOLD_F, ''.join('static method id_%s : %s ($v : %s) { return $v; }' % (t, t, t) for t in ('byte', 'short', 'long', 'float', 'double')))

def place(rng, nm, t):
    """(setup from expression X, operand expression, is lvalue)"""
    k = rng.randrange(7)
    if k == 0: return 'my $%s : %s; $%s = %%s;' % (nm, t, nm), '$%s' % nm
    if k == 1: return 'my $%so = H->new; $%so->{f_%s} = %%s;' % (nm, nm, t), '$%so->{f_%s}' % (nm, t)
    if k == 2: return 'my $%sa = new %s[3]; $%sa->[1] = %%s;' % (nm, t, nm), '$%sa->[1]' % nm
    if k == 3 and nm == 'x': return '$H::V_%s = %%s;' % t.upper(), '$H::V_%s' % t.upper()
    if k == 4: return 'my $%sv : %s = %%s; my $%sr = \\$%sv;' % (nm, t, nm, nm), '$$%sr' % nm
    if k == 5: return 'my $%sv = %%s;' % nm, '(%s)$%sv' % (t, nm)
    return 'my $%s : %s = %%s;' % (nm, t), '$%s' % nm

def binop_case(rng, op, t1, t2, n, place_ok=True):
    if op in ('<<', '>>', '>>>'):
        tt = promote(t1)
        b = BITS[tt]
        A = interesting(t1, rng, n)
        B = [0, 1, 2, 7, 8, b // 2, b - 2, b - 1] + [rng.randrange(b) for _ in range(max(0, n - 8))]
        B = B[:n]
    else:
        tt = promote(t1, t2)
        A, B = interesting(t1, rng, n), interesting(t2, rng, n)
    rt = 'int' if op in ('==', '!=', '<', '<=', '>', '>=', '<=>') else tt
    zero = op in ('/', '%') and tt in INTS or op[:5] in ('div_u', 'mod_u')
    s1, e1 = place(rng, 'x', t1)
    s2, e2 = place(rng, 'y', t2)
    expr = '%s %s %s' % (e1, op, e2)
    sh = 'say "" . %s;' % show_expr('$r', rt)
    body = fill('A', t1, A) + fill('B', t2, B)
    body += 'for (my $i = 0; $i < @$A; $i++) { for (my $j = 0; $j < @$B; $j++) {\n %s %s\n' % (s1 % '$A->[$i]', s2 % '$B->[$j]')
    if zero:
        body += ' my $ok = 0; eval { my $r = %s; %s $ok = 1; } if ($@) { say "E"; if ($ok) { say "late"; } }\n' % (expr, sh)
    else:
        body += ' my $r = %s; %s\n' % (expr, sh)
    body += '} }'
    exp = []
    for a in A:
        for b in B:
            if op in ('<<', '>>', '>>>'):
                exp.append(show_val(arith(op, conv(a, t1, tt), b, tt), tt)); continue
            x, y = conv(a, t1, tt), conv(b, t2, tt)
            if rt == 'int' and op in ('==', '!=', '<', '<=', '>', '>=', '<=>'):
                exp.append(str(compare(op, x, y)))
            else:
                try: exp.append(show_val(arith(op, x, y, tt), tt))
                except DivZero: exp.append('E')
    return Case('bin %s %s %s' % (op, t1, t2), body, exp, meta=len(exp))

def cast_case(rng, t1, t2, n, how):
    A = interesting(t1, rng, n)
    if t1 in FLOATS and t2 in INTS:
        b = BITS[t2]
        A = A + [float(rng.randrange(-(1 << (b - 1)), 1 << (b - 1))) * rng.random() for _ in range(n)] + [2.0 ** (b - 1) - 1 if b < 53 else 2.0 ** 62, -2.0 ** (b - 1), 1.999, -1.999, -0.5, 0.999999]
        if t1 == 'float': A = [f32(a) for a in A]
        A = [a for a in A if conv(a, t1, t2) is not None]
    s1, e1 = place(rng, 'x', t1)
    if how == 'cast': e = 'my $r = (%s)%s;' % (t2, e1)
    elif how == 'assign': e = 'my $r : %s = %s;' % (t2, e1)
    elif how == 'arg': e = 'my $r = H->id_%s(%s);' % (t2, e1)
    elif how == 'field': e = 'my $h = H->new; $h->{f_%s} = %s; my $r = $h->{f_%s};' % (t2, e1, t2)
    elif how == 'elem': e = 'my $h = new %s[3]; $h->[1] = %s; my $r = $h->[1]; if ($h->[0] != 0 || $h->[2] != 0) { say "neighbour"; }' % (t2, e1)
    elif how == 'box': e = 'my $o : %s = (%s)%s; my $o2 : object = $o; my $r = (%s)$o2;' % (BOX[t1], BOX[t1], e1, t1)
    elif how == 'boxnew': e = 'my $o = %s->new(%s); my $o2 : object = $o; my $r = $o2->(%s)->value;' % (BOX[t1], e1, BOX[t1])
    body = fill('A', t1, A) + 'for (my $i = 0; $i < @$A; $i++) { %s %s say "" . %s; }' % (s1 % '$A->[$i]', e, show_expr('$r', t2))
    return Case('%s %s %s' % (how, t1, t2), body, [show_val(conv(a, t1, t2), t2) for a in A])

def unary_case(rng, op, t, n):
    A = interesting(t, rng, n)
    s1, e1 = place(rng, 'x', t)
    tt = promote(t)
    exp = []
    for a in A:
        v = conv(a, t, tt)
        if op == '-': r = wt(-v, tt) if tt in INTS else -v
        elif op == '+': r = v
        elif op == '~': r = wt(~v, tt)
        elif op == '!': r = 0 if v else 1
        if op == '!': exp.append(str(r))
        else: exp.append(show_val(r, tt))
    if op == '!': tt = 'int'
    body = fill('A', t, A) + 'for (my $i = 0; $i < @$A; $i++) { %s my $r = %s%s; say "" . %s; }' % (s1 % '$A->[$i]', op, e1, show_expr('$r', tt))
    return Case('un %s %s' % (op, t), body, exp)

LV = [('my $x : %T = %s;', '$x'), ('my $xo = H->new; $xo->{f_%T} = %s;', '$xo->{f_%T}'), ('my $xa = new %T[3]; $xa->[1] = %s;', '$xa->[1]'),
      ('$H::V_%U = %s;', '$H::V_%U'), ('my $xv : %T = %s; my $xr = \\$xv;', '$$xr')]

def incdec_case(rng, op, post, t, n, lv):
    A = interesting(t, rng, n)
    s, e = [p.replace('%T', t).replace('%U', t.upper()) for p in LV[lv]]
    exp = []
    for a in A:
        tt = promote(t)
        r = arith('+' if op == '++' else '-', conv(a, t, tt), 1 if tt in INTS else 1.0, tt)
        r = conv(r, tt, t)
        exp += [show_val(a if post else r, t), show_val(r, t)]
    ex = e + op if post else op + e
    body = fill('A', t, A) + 'for (my $i = 0; $i < @$A; $i++) { %s my $r = %s; say "" . %s; say "" . %s; }' % (
        s.replace('%s', '$A->[$i]'), ex, show_expr('$r', t), show_expr(e, t))
    return Case('incdec %s %s %s lv%d' % (op, 'post' if post else 'pre', t, lv), body, exp)

def assign_case(rng, op, t1, t2, n, lv):
    shift = op in ('<<', '>>', '>>>')
    A = interesting(t1, rng, n)
    B = interesting(t2, rng, n)
    if shift:
        B = [rng.randrange(min(BITS[promote(t1)], 127)) for _ in range(n)]
    s, e = [p.replace('%T', t1).replace('%U', t1.upper()) for p in LV[lv]]
    tt = promote(t1) if shift else promote(t1, t2)
    exp, pa, pb = [], [], []
    for a in A:
        for b in B:
            try:
                r = arith(op, conv(a, t1, tt), b if shift else conv(b, t2, tt), tt)
                r = conv(r, tt, t1)
                if r is None: continue
                r = show_val(r, t1)
            except DivZero:
                r = 'E'
            pa.append(a); pb.append(b); exp.append(r)
    if not exp: return None
    zero = op in ('/', '%') and tt in INTS
    body = fill('A', t1, pa[:n * n]) + fill('B', t2, pb[:n * n])
    st = '%s %s= $B->[$i]; say "" . %s;' % (e, op, show_expr(e, t1))
    if zero: st = 'eval { %s } if ($@) { say "E"; }' % st
    body += 'for (my $i = 0; $i < @$A; $i++) { %s %s }' % (s.replace('%s', '$A->[$i]'), st)
    return Case('opassign %s= %s %s lv%d' % (op, t1, t2, lv), body, exp)

def literal_cases(rng, n):
    out = []
    for k in range(n):
        body, exp = '', []
        for _ in range(12):
            t1, t2 = rng.choice(('int', 'long', 'double')), rng.choice(('int', 'long', 'double'))
            op = rng.choice(['+', '-', '*', '<', '<=', '>', '>=', '==', '!=', '<=>', '&', '|', '^', '/', '%'])
            if op in ('&', '|', '^', '%') : t1, t2 = [('int' if t == 'double' else t) for t in (t1, t2)]
            a, b = rng.choice(interesting(t1, rng, 24)), rng.choice(interesting(t2, rng, 24))
            def l(v, t):
                if t == 'double':
                    if v != v or math.isinf(v): v = 1.5
                    v = float('%.6g' % max(-1e20, min(1e20, v)))
                    s = repr(v)
                    if '.' not in s and 'e' in s: s = s.replace('e', '.0e')
                    return v, s
                return v, lit(v, t)
            (a, la), (b, lb) = l(a, t1), l(b, t2)
            tt = promote(t1, t2)
            if op in ('/', '%') and tt in INTS and b == 0: b, lb = 1, lit(1, t2)
            x, y = conv(a, t1, tt), conv(b, t2, tt)
            if op in ('<', '<=', '>', '>=', '==', '!=', '<=>'): r, rt = compare(op, x, y), 'int'
            else: r, rt = arith(op, x, y, tt), tt
            body += 'say "" . %s;\n' % show_expr('%s %s %s' % (la, op, lb), rt)
            exp.append(show_val(r, rt))
        out.append(Case('literal %d %s' % (k, body[:60]), body, exp))
    return out

def check(ck):
    ck.rule = ('one case = one operator/conversion at one operand type pair in one operand position (variable, field, element, class variable, '
               'reference, literal); it is executed over the product of boundary and random operand values and every printed result is compared '
               'bit-exactly with the reference arithmetic; distinct = operator x types x position')
    drv = vp.build_driver('asan')
    rng = ck.rng
    n = ck.n(12, 30)
    cases = []
    R = ck.n(1, 3)
    for rep in range(R):
        for t1 in NUMS:
            for t2 in NUMS:
                for op in ('+', '-', '*', '/', '==', '!=', '<', '<=', '>', '>=', '<=>'):
                    cases.append(binop_case(rng, op, t1, t2, n))
                if t1 in INTS and t2 in INTS:
                    for op in ('%', '&', '|', '^'): cases.append(binop_case(rng, op, t1, t2, n))
                    if t2 != 'long':
                        for op in ('<<', '>>', '>>>'): cases.append(binop_case(rng, op, t1, t2, n))
                cases.append(cast_case(rng, t1, t2, n * 3, 'cast'))
                if ORDER[t1] <= ORDER[t2]:
                    for how in ('assign', 'arg', 'field', 'elem'): cases.append(cast_case(rng, t1, t2, n * 3, how))
            cases.append(cast_case(rng, t1, t1, n * 3, 'box'))
            cases.append(cast_case(rng, t1, t1, n * 3, 'boxnew'))
            for op in ('-', '+', '!') + (('~',) if t1 in INTS else ()): cases.append(unary_case(rng, op, t1, n * 3))
            for op in ('++', '--'):
                for post in (0, 1):
                    for lv in range(5): cases.append(incdec_case(rng, op, post, t1, n * 3, lv))
            for t2 in NUMS:
                for op in ('+', '-', '*', '/', '%', '&', '|', '^', '<<', '>>', '>>>'):
                    if op in ('%', '&', '|', '^', '<<', '>>', '>>>') and (t1 in FLOATS or t2 in FLOATS): continue
                    if op in ('<<', '>>', '>>>') and t2 == 'long': continue
                    c = assign_case(rng, op, t1, t2, 6, rng.randrange(5))
                    if c: cases.append(c)
        for op in ('div_uint', 'mod_uint'): cases.append(binop_case(rng, op, 'int', 'int', n * 2))
        for op in ('div_ulong', 'mod_ulong'): cases.append(binop_case(rng, op, 'long', 'long', n * 2))
        cases += literal_cases(rng, ck.n(40, 200))
    rng.shuffle(cases)
    for c in cases[:4]: ck.sample('%s => %d values, first %s' % (c.key, len(c.expect), c.expect[:3]))
    run_and_judge(ck, drv, cases, per=60, modes=('vm', 'pre'), uses='use H; use Byte; use Short; use Int; use Long; use Float; use Double;', files={'H.spvm': HOLD}, pre_every=1)
    ck.assumptions = ['float-to-integer casts are exercised only where C defines them', 'shift counts are within the width, as C requires',
                      'built with -fwrapv, as Perl builds the runtime']

vp.main('C01', check)

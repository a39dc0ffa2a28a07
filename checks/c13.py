import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import re, random, struct, ctypes
import vp, session as se
from spvmrun import Case, run_and_judge
libc = ctypes.CDLL(None); libc.strtof.restype = ctypes.c_float; libc.strtod.restype = ctypes.c_double
wrap = lambda v, n: ((v + (1 << n - 1)) & ((1 << n) - 1)) - (1 << n - 1)
dbits = lambda v: struct.unpack('<q', struct.pack('<d', v))[0]
fbits = lambda v: struct.unpack('<i', struct.pack('<f', v))[0]

# ---- numeric literals: (text, type, value or None when out of range)
def under(rng, s):
    """underscores at positions after the first digit"""
    if rng.random() < .6 or s == '0': return s
    o = s[0]
    for c in s[1:]:
        if rng.random() < .25: o += '_' * rng.choice([1, 1, 2])
        o += c
    return o + ('_' if rng.random() < .1 else '')
def case(rng, s): return ''.join(rng.choice([c.lower(), c.upper()]) for c in s)
EDGE = [0, 1, 7, 8, 9, 10, 15, 16, 127, 128, 255, 256, 32767, 32768, 65535] + [x + d for x in (1 << 31, 1 << 32, 1 << 63, 1 << 64, 10 ** 9, 10 ** 18) for d in (-2, -1, 0, 1)] + [1 << 65, 10 ** 25, (1 << 64) + 5, (1 << 32) * 3]
def int_lit(rng):
    neg = rng.random() < .35; l = rng.random() < .5; n = 64 if l else 32
    v = rng.choice(EDGE) if rng.random() < .6 else rng.getrandbits(rng.choice([4, 8, 16, 31, 32, 33, 62, 63, 64, 65]))
    k = rng.randrange(4)
    sfx = rng.choice('Ll') if l else ''
    sg = '-' if neg else ''
    if k == 0:
        s = sg + under(rng, str(v)) + sfx; x = -v if neg else v
        return s, 'Ll'[0] if l else 'i', (x if -(1 << n - 1) <= x < 1 << n - 1 else None)
    z = '0' * rng.choice([0, 0, 0, 1, 3])
    if k == 1: s = '0' + rng.choice('xX') + rng.choice(['', '', '_']) + under(rng, z + case(rng, '%x' % v))
    elif k == 2: s = '0' + rng.choice('bB') + rng.choice(['', '', '_']) + under(rng, z + bin(v)[2:])
    else: s = '0' + rng.choice(['', '', '_']) + under(rng, z + '%o' % v)
    if v >= 1 << n: x = None
    else: x = wrap(-wrap(v, n) if neg else v, n)
    return sg + s + sfx, 'L' if l else 'i', x
def float_lit(rng):
    f = rng.random() < .4; neg = rng.random() < .3
    digs = lambda a, b: ''.join(rng.choice('0123456789') for _ in range(rng.randrange(a, b)))
    xd = lambda a, b: case(rng, ''.join(rng.choice('0123456789abcdef') for _ in range(rng.randrange(a, b))))
    if rng.random() < .65:
        k = rng.randrange(3)
        s = under(rng, rng.choice('123456789') + digs(0, rng.choice([2, 6, 18])) if rng.random() < .9 else '0')
        if k in (0, 2): s += '.' + rng.choice('0123456789') + under(rng, '0' + digs(0, rng.choice([2, 8, 20])))[1:]
        if k in (1, 2): s += rng.choice('eE') + rng.choice(['', '+', '-']) + str(rng.choice([0, 1, 2, 3, 10, 22, 23, 30, 37, 38, 39, 44, 45, 46, 300, 307, 308, 309, 323, 324, 330]))
        sfx = rng.choice('fF') if f else rng.choice(['', '', 'd', 'D'])
        if rng.random() < .08: s = under(rng, rng.choice('123456789') + digs(0, 12)); sfx = sfx or 'd'
    else:
        s = '0' + rng.choice('xX') + rng.choice(['', '', '_']) + under(rng, xd(1, rng.choice([2, 6, 14])))
        if rng.random() < .6: s += '.' + xd(1, rng.choice([2, 6, 14]))
        s += rng.choice('pP') + rng.choice(['', '+', '-']) + str(rng.choice([0, 1, 2, 3, 10, 24, 52, 100, 126, 149, 1000, 1022, 1074, 1100]))
        sfx = rng.choice('fF') if f else rng.choice(['', 'd', 'D'])
    b = s.replace('_', '').encode()
    v = libc.strtof(ctypes.c_char_p(b), None) if f else libc.strtod(ctypes.c_char_p(b), None)
    return ('-' if neg else '') + s + sfx, 'f' if f else 'd', (fbits if f else dbits)(-v if neg else v)

TN = {'i': 'int', 'L': 'long', 'f': 'float', 'd': 'double', 'c': 'byte', 's': 'string'}
def show(t, e): return {'i': 'say "" . %s;', 'L': 'say "" . %s;', 'f': 'say Mon->float_bits(%s);', 'd': 'say Mon->double_bits(%s);', 'c': 'say (int)%s;', 's': 'say Mon->hex(%s);'}[t] % e
def say(e): return 'say "" . %s;' % e
# the same literal in every kind of place
def place(rng, i, s, t):
    """(body, declarations) that shows the literal s of the type t"""
    T = TN[t]; k = rng.randrange(9)
    S = lambda e: {'i': 'say "" . %s;', 'L': 'say "" . %s;', 'f': 'say "" . Mon->float_bits(%s);', 'd': 'say "" . Mon->double_bits(%s);', 'c': 'say "" . (int)%s;', 's': 'say Mon->hex(%s);'}[t] % e
    if k == 0: return '{ my $x = %s; say type_name (object)$x; %s }' % (s, S('$x')) if t != 's' else '{ my $x = %s; say type_name $x; %s }' % (s, S('$x')), ''
    if k == 1: return '{ my $x : %s = %s; %s }' % (T, s, S('$x')), ''
    if k == 2: return S('&id%s(%s)' % (t, s)), ''
    if k == 3: return '{ my $a = [%s, %s]; %s }' % (s, s, S('$a->[1]')), ''
    if k == 4: return S('&dv%d()' % i), 'static method dv%d : %s ($x : %s = %s) { return $x; }\n' % (i, T, T, s) if t != 's' else 'static method dv%d : %s () { return %s; }\n' % (i, T, s)
    if k == 5: return S('&ret%d()' % i), 'static method ret%d : %s () { return %s; }\n' % (i, T, s)
    if k == 6 and t in 'id': return S('(%s+ %s)' % (s, '0' if t == 'i' else '0.0') if not s.startswith('-') or t == 'i' else s), ''
    if k == 7 and t == 's': return '{ my $x = "" . %s; %s }' % (s, S('$x')), ''
    if k == 8: return '{ my $o = new TQ; $o->{f%s} = %s; %s }' % (t, s, S('$o->{f%s}' % t)), ''
    return '{ my $x : %s; $x = %s; %s }' % (T, s, S('$x')), ''
DECL = ''.join('static method id%s : %s ($x : %s) { return $x; }\n' % (k, v, v) for k, v in TN.items())
FILES = {'TQ.spvm': 'class TQ : public {\n%s\nour $CV : public string;\nour $CI : public int;\nstatic method mk : TQ () { return new TQ; }\n}' % '\n'.join('has f%s : public %s;' % (k, v) for k, v in TN.items()) + '\n',
         'TR.spvm': 'class TR : public { has s : public string; has n : public int; has a : public string[]; has i : public int[]; has o : public TR; has l : public long; }\n'}

# ---- characters and strings: (text, bytes or None when it is rejected)
NAMED = {'a': 7, 't': 9, 'n': 10, 'f': 12, 'r': 13, '"': 34, "'": 39, '\\': 92}
def num_escape(rng, nxt):
    """(text, byte or None); nxt: whether digits may follow"""
    b = rng.choice([0, 1, 7, 8, 10, 63, 64, 65, 127, 128, 255, rng.randrange(256)]); k = rng.randrange(5)
    if k == 0: return '\\%03o' % b, b
    if k == 1: return '\\o{%s}' % rng.choice(['%o', '%03o'] if b > 7 else ['%o', '%02o', '%03o']) % b, b
    if k == 2: return '\\x%s' % case(rng, '%02x' % b), b
    if k == 3: return '\\x{%s}' % case(rng, rng.choice(['%x', '%02x']) % b), b
    if nxt or b > 63: return '\\x%s' % case(rng, '%02x' % b), b
    return ('\\%o' % b, b) if b < 64 else ('\\x%x' % (b & 15), b & 15)
BADNUM = ['\\400', '\\777', '\\o{400}', '\\o{}', '\\o{1234}', '\\o{8}', '\\o{12', '\\o{1', '\\o1', '\\o', '\\xg', '\\x', '\\x{}', '\\x{123}', '\\x{g}', '\\x{1', '\\x{12', '\\xG0']
def char_lit(rng):
    k = rng.randrange(4)
    if k == 0:
        c = rng.randrange(32, 127)
        if c in (39, 92): return "'\\%c'" % c, c
        return "'%c'" % c, c
    if k == 1: c = rng.choice(list(NAMED)); return "'\\%s'" % c, NAMED[c]
    s, b = num_escape(rng, False)
    return "'%s'" % s, wrap(b, 8)
BADCHAR = ["''", "'ab'", "'\\q'", "'\\s'", "'\\$'", "'a", "'\\'", "'\\a", "'\u3042'"] + ["'%s'" % b for b in BADNUM] + ["'\\0000'", "'\\x123'"]
RAW = [c for c in '!#%&()*+,-./:;<=>?@ABDGHKPRSVWXZ[]^_`bdghkpsvwz{|}~'] + ['N']
UNI = [0, 0x41, 0x7f, 0x80, 0x7ff, 0x800, 0x3042, 0xd7ff, 0xe000, 0xfffd, 0xffff, 0x10000, 0x1f600, 0x10ffff]
BADUNI = ['d800', 'dfff', 'dbff', '110000', 'ffffffff', '', 'g', '100000000', '10000000000000041', '3042', '41 ']
def str_piece(rng, last):
    """(text, bytes): one piece of a string literal"""
    k = rng.randrange(10)
    if k < 3:
        s = ''.join(rng.choice('abcxyzABC019 .,;:!?()[]{}<>=+-*/%&|^~#@`\'_') for _ in range(rng.randrange(1, 6)))
        return s, s.encode()
    if k == 3: c = rng.choice(list(NAMED) + ['$']); return '\\' + c, bytes([NAMED.get(c, 36)])
    if k == 4:
        s, b = num_escape(rng, True); return s, bytes([b])
    if k == 5: c = rng.choice(UNI + [rng.randrange(0xd800), rng.randrange(0xe000, 0x110000)]); return '\\N{U+%s}' % (rng.choice(['%x', '%X', '%04X', '%06x']) % c), chr(c).encode()
    if k == 6:
        c = rng.choice(RAW)
        if c == 'N': return '\\N', b'\\N'
        return '\\' + c, b'\\' + c.encode()
    if k == 7: s = rng.choice(['\u3042\u3044', '\u00e9', '\U0001f600', '\u07ff']); return s, s.encode()
    if k == 8: return '\n', b'\n'
    return rng.choice([('/* x */', b'/* x */'), ('# no comment', b'# no comment'), ('=pod', b'=pod'), ('__END__', b'__END__'), ("q'x'", b"q'x'"), ("<<'EOS';", b"<<'EOS';"), ('{', b'{'), ('}', b'}')])
def str_lit(rng):
    o, b = '', b''
    for _ in range(rng.choice([0, 1, 1, 2, 3, 5, 9, 20])):
        s, x = str_piece(rng, False)
        if o.endswith('\\N') and s.startswith('{'): continue
        if re.search(r'\\x[0-9a-fA-F]$|\\[0-7]{1,2}$', o) and s[0] in '0123456789abcdefABCDEF': continue
        o += s; b += x
    return '"%s"' % o, b
BADSTR = ['"\\%s"' % c for c in 'qceijlmuyCEFIJLMOQTUY'] + ['"%s"' % b for b in BADNUM] + ['"x\\N{U+%s}"' % c for c in BADUNI if c not in ('3042',)] + ['"\\N{U+3042"', '"abc', '"abc\\"', '"', '"$"x"']
def q_lit(rng):
    o, b = '', b''
    for _ in range(rng.choice([0, 1, 2, 3, 7])):
        s, x = rng.choice([("\\'", b"'"), ('\\\\', b'\\'), ('$x', b'$x'), ('"', b'"'), ('${y}', b'${y}'), ('$o->{x}', b'$o->{x}'), ('\u3042', '\u3042'.encode()), ('\n', b'\n'), ('abc', b'abc'), (' ', b' '), ('#', b'#'), ('@', b'@'), ('{', b'{')])
        o += s; b += x
    return "q'%s'" % o, b
BADQ = ["q'abc", "q'\\n'", "q'\\x41'", "q'\\q'", "q'\\$'", "q'abc\\'", "q'\\"]
def here(rng, i):
    """(name, text) of a here document"""
    nm = rng.choice(['EOS', 'A', '_', 'a1', 'End_Of_It', 'X%d' % i, 'if', '_E_9'])
    ls = []
    for _ in range(rng.choice([0, 1, 1, 2, 4, 8])):
        ls.append(rng.choice(['Hello', '', ' ' + nm, nm + ';', nm + ' ', nm + 'x', "'" + nm, '$x ${y} $o->{x}', '\\n \\x41 \\q \\', '"', "'", '\u3042\u3044', '#comment', '#line 7', '=pod', '=cut', '__END__', '<<\'%s\';' % nm, '}', '{ my $x = 1;', '\t x', '"; say "no', nm[:-1], nm.lower() + nm]))
    ls = [l for l in ls if l != nm]
    return nm, ''.join(l + '\n' for l in ls)
BADHERE = ["<<'EOS' ;\nx\nEOS\n", "<< 'EOS';\nx\nEOS\n;", "<<'1A';\nx\n1A\n", "<<'A__B';\nx\nA__B\n", "<<'';\nx\n\n", "<<'EOS';\nx\n EOS\n", "<<'EOS'; \nx\nEOS\n", "<<'E-S';\nx\nE-S\n", "<<'EOS';\nx\nEOSX\n"]

# ---- interpolation
IV = {'$s': 'str', '$n': '-12', '$l': '5000000000', '$b': '-7', '$d': '1.5', '$u': '', '$CV': 'cvar', '$CI': '31', '$$r': '77', '$TQ::CV': 'qcv', '$o->{s}': 'fs', '$o->{n}': '8', '$o->{a}[1]': 'a1', '$o->{a}->[0]': 'a0', '$o->{i}[2]': '33', '$o->{o}{s}': 'oos', '$o->{o}->{s}': 'oos', '$ar->[0]': 'z0', '$ar->[1]': 'z1', '$ia->[1]': '22', '$oa->[0]{s}': 'e0', '$oa->[0]->{n}': '9', '$@': 'exc', '$$': None, '$oo->[0][1]': 'm1', '$long_name_9': 'ln'}
INIT = ('my $s = "str"; my $n = -12; my $l = 5000000000L; my $b = (byte)-7; my $d = 1.5; my $u = ""; $CV = "cvar"; $CI = 31; my $rv = 77; my $r = \\$rv; $TQ::CV = "qcv"; my $o = new TR; $o->{s} = "fs"; $o->{n} = 8; $o->{a} = ["a0", "a1"]; '
        '$o->{i} = [1, 2, 33]; $o->{o} = new TR; $o->{o}{s} = "oos"; my $ar = ["z0", "z1"]; my $ia = [21, 22]; my $oa = [new TR]; $oa->[0]{s} = "e0"; $oa->[0]{n} = 9; $@ = "exc"; my $oo = [["m0", "m1"]]; my $long_name_9 = "ln";')
def interp(rng):
    o, b, prev = '', b'', ''
    for _ in range(rng.choice([1, 2, 3, 5, 8])):
        if rng.random() < .5:
            v = rng.choice([k for k, x in IV.items() if x is not None])
            t = v
            if re.match(r'\$\w+$', v) and rng.random() < .4: t = '${%s}' % v[1:]
            o += t; b += IV[v].encode(); prev = t
        else:
            if prev:
                s = rng.choice([' ', '.', ',', '!', '=', '/', '(', ')', '+', '\\n', '\\$', '%', '|', ';', '\\\\', '\\x41', '#', '*', '\u3042', "'"])
                if prev.startswith('${') and rng.random() < .4: s = rng.choice(['abc', '_x', '9'])
                elif rng.random() < .3: s = rng.choice([' ', '.', ',', '!']) + rng.choice(['abc', '-', '->', '[0]', '{x}', '::', ':', '>'])
            else: s, _b = rng.choice([('ab', 0), (' ', 0), ('-', 0), ('[', 0), ('{', 0), ('$', 1), ('->', 0), ('\\$s', 0), ('@', 0)])
            if s == '$':
                continue
            o += s; prev = ''
            b += s.replace('\\n', '\n').replace('\\$', '$').replace('\\\\', '\\').replace('\\x41', 'A').encode()
    if rng.random() < .1 and not re.search(r'\$$', o): o += '$'; b += b'$'
    return '"%s"' % o, b

# ---- precedence and associativity
PREC = {'||': 1, '&&': 2, '|': 3, '^': 3, '&': 4, '==': 5, '!=': 5, 'eq': 5, 'ne': 5, '>': 6, '>=': 6, '<': 6, '<=': 6, 'gt': 6, 'lt': 6, 'ge': 6, 'le': 6, '<=>': 6, 'cmp': 6, '<<': 7, '>>': 7, '>>>': 7, '+': 8, '-': 8, '.': 8, '*': 9, '/': 9, '%': 9}
NON = (5, 6); UN = 10
class N:
    def __init__(s, op, k, v, t): s.op, s.k, s.v, s.t = op, k, v, t
def tr(a, b):
    q = abs(a) // abs(b); return q if (a < 0) == (b < 0) else -q
sgn = lambda a, b: (a > b) - (a < b)
def gen(rng, t, d, env):
    if d == 0 or rng.random() < .08:
        if t == 'i':
            if rng.random() < .3: v = rng.choice([1, 2, 3, 5, 7, 31]); return N(str(v), [], v, 'i')
            n = rng.choice(['$a', '$b', '$c', '$o->{n}', '$o->{o}{n}', '@$ia', '$ia->[1]', 'TB_F(2)', '(int)$bt']); return N(n, [], env[n], 'i')
        n = rng.choice(['$s', '$t', '"x"', '$o->{s}', '$ar->[0]']); return N(n, [], env[n], 's')
    while 1:
        if t == 'i':
            op = rng.choice(list(PREC) + ['neg', 'pos', '~', '!', 'length', 'scalar'])
            if op == '.': continue
            if op in ('neg', 'pos', '~', '!', 'scalar'):
                if op == 'scalar': return N('scalar @$ia', [], env['@$ia'], 'i')
                x = gen(rng, 'i', d - 1, env); v = x.v
                return N({'neg': '-', 'pos': '+'}.get(op, op), [x], {'neg': wrap(-v, 32), 'pos': v, '~': ~v, '!': int(not v)}[op], 'i')
            if op == 'length': x = gen(rng, 's', d - 1, env); return N('length', [x], len(x.v), 'i')
            at = 's' if op in ('eq', 'ne', 'gt', 'lt', 'ge', 'le', 'cmp') else 'i'
            x, y = gen(rng, at, d - 1, env), gen(rng, at, d - 1, env); a, b = x.v, y.v
            if op in '/%' and (b == 0 or (a, b) == (-1 << 31, -1)): continue
            if op in ('<<', '>>', '>>>') and not 0 <= b < 32: continue
            if op in ('eq', 'ne', 'gt', 'lt', 'ge', 'le', 'cmp'): a, b = a.encode(), b.encode()
            v = {'||': lambda: (a if a else b), '&&': lambda: (b if a else 0), '|': lambda: a | b, '^': lambda: a ^ b, '&': lambda: a & b, '==': lambda: int(a == b), '!=': lambda: int(a != b), 'eq': lambda: int(a == b), 'ne': lambda: int(a != b),
                 '>': lambda: int(a > b), '>=': lambda: int(a >= b), '<': lambda: int(a < b), '<=': lambda: int(a <= b), 'gt': lambda: int(a > b), 'lt': lambda: int(a < b), 'ge': lambda: int(a >= b), 'le': lambda: int(a <= b),
                 '<=>': lambda: sgn(a, b), 'cmp': lambda: sgn(a, b), '<<': lambda: wrap(a << b, 32), '>>': lambda: a >> b, '>>>': lambda: wrap((a & 0xffffffff) >> b, 32), '+': lambda: wrap(a + b, 32), '-': lambda: wrap(a - b, 32), '*': lambda: wrap(a * b, 32), '/': lambda: tr(a, b), '%': lambda: a % b}[op]()
            return N(op, [x, y], v, 'i')
        x, y = gen(rng, 's', d - 1, env), gen(rng, rng.choice('sssi'), d - 1, env)
        if y.t == 'i' and rng.random() < .5: x, y = y, x
        if len(str(x.v)) + len(str(y.v)) > 200: return x if x.t == 's' else y
        return N('.', [x, y], str(x.v) + str(y.v), 's')
def prec(n): return 20 if not n.k else UN if len(n.k) == 1 else PREC[n.op]
def text(rng, n, full):
    """the expression with every parenthesis or only the needed ones"""
    if not n.k: return n.op.replace('TB_F', '&fi')
    def sub(x, need):
        s = text(rng, x, full)
        return '(' + s + ')' if need or (full and x.k) or (not full and rng.random() < .03) else s
    sp = lambda: rng.choice([' ', ' ', ' ', '\n', '  ', ' # c > < (\n', '\t'])
    if len(n.k) == 1:
        s = sub(n.k[0], prec(n.k[0]) < UN)
        if n.op in '+-~!' and not full and not (n.op in '+-' and (s[0] in '+-' or s[0].isdigit())): return n.op + s
        return n.op + ' ' + s if n.op != '-' or not s[0].isdigit() else n.op + ' ' + s
    p = PREC[n.op]; a, b = n.k
    pa, pb = prec(a), prec(b)
    l = sub(a, pa < p or (pa == p and p in NON)); r = sub(b, pb <= p)
    tight = n.op in ('||', '&&', '|', '^', '==', '!=', '>', '>=', '<', '<=', '<=>', '<<', '>>', '>>>', '*', '/', '%', '+') and not full and rng.random() < .3
    if tight and not (r[0] in "-+&'" or (n.op == '+' and l[-1] == '+') or (n.op == '&' and r[0] == '&') or (n.op in '/%*' and r[0] in '*=') or (n.op == '%' and False)): return l + n.op + r
    return l + sp() + n.op + sp() + r
PINIT = 'my $a = %d; my $b = %d; my $c = %d; my $bt = (byte)%d; my $s = "q"; my $t = "rs"; my $o = new TR; $o->{n} = 6; $o->{s} = "uvw"; $o->{o} = new TR; $o->{o}{n} = -9; my $ia = [4, 11, 6]; my $ar = ["k"];\n'
BADPREC = ['$a == $b == $c', '$a < $b < $c', '$a <=> $b <=> $c', '$a != $b == $c', '$a > $b <= $c', '$s eq $s ne $s', '$a + $b = 3', '-$a = 3', '$a ++ ++', '$s . $a + $b', '$a +', '* $a', '$a $b', '$a = = $b', '($a', '$a)', '$a & & $b', '$a < = $b', '$a + * $b', '!', '$a && || $b']
ASSIGN = [('$a = $b = 5; ', '$a . "," . $b', '5,5'), ('$a = 1; $b = 2; $a += $b += 3;', '$a . "," . $b', '6,5'), ('$a = $b += $c = 4;', '$a . "," . $b . "," . $c', None), ('$a = 10; $a -= 2 * 3;', '$a', '4'), ('$a = 3; $b = $a++ * 2;', '$a . "," . $b', '4,6'), ('$a = 3; $b = ++$a * 2;', '$a . "," . $b', '4,8'),
          ('$a = 3; $b = - $a++;', '$a . "," . $b', '4,-3'), ('$a = 3; $b = -$a--;', '$a . "," . $b', '2,-3'), ('$a = 0; $b = !$a == 1;', '$b', '1'), ('$a = 5; $b = !$a + 1;', '$b', '1'), ('$b = -$o->{n} * 2;', '$b', '-12'), ('$b = ~$ia->[0] & 7;', '$b', '3'), ('$b = (int)$bt + 1;', '$b', None), ('$b = (byte)300 + 1;', '$b', '45'),
          ('$b = length $s + 1;', '$b', '2'), ('$b = length $s . $t;', '', None), ('$b = @$ia + 1;', '$b', '4'), ('$b = scalar @$ia * 2;', '$b', '6'), ('$b = $o isa TR == 1;', '$b', '1'), ('$b = !$o isa TR;', '', None), ('$a = 7; $a <<= 1 + 1;', '$a', '28'), ('$s .= "a" . 1 + 0;', '', None), ('$a = 6; $a |= 1 ^ 1 & 3;', '$a', '6'),
          ('my $z = $o->{n} += 2; $b = $z;', '$b . "," . $o->{n}', '8,8'), ('$ia->[1] = $ia->[0] -= 1;', '$ia->[0] . "," . $ia->[1]', '3,3'), ('$a = 1 <2; $b = 3> 4;', '$a . "," . $b', '1,0'), ('$a=2;$b=$a<3;', '$b', '1'), ('$a=2;$b=$a>3;', '$b', '0'), ('$a=2;$b=$a<1;if($a>1){$b=9;}', '$b', '9')]

def here_file(rng): pass

# ---- __LINE__, __FILE__, __PACKAGE__ and the directives
def position(rng, i):
    """a class whose lines are known: (source, expected output)"""
    nm = 'TL%d' % i; src = []; want = []; line = 1
    fname = nm + '.spvm'
    if rng.random() < .4:
        if rng.random() < .4: src.append('#!/usr/bin/env spvm')
        fname = rng.choice(['/x/y z.spvm', 'a.spvm', 'dir/\u3042.spvm'])
        src.append('#file "%s"' % fname)
        line = None
    cur = [1 if not src else None]
    out = []
    out += src; ln = [len(src) + 1]
    def put(s):
        out.append(s); ln[0] += s.count('\n') + 1
    put('class %s : public {' % nm); put('  use Mon;')
    put('  static method base : string ($f : string) { my $l = Mon->split("/", $f); return $l->[@$l - 1]; }')
    put('  static method m : void () {'); FILE = '__FILE__' if src else '&base(__FILE__)'
    if src:  # the line after a file directive is the next line of the text: check relatively
        put('#line 100'); ln[0] = 100
    for j in range(rng.randrange(3, 12)):
        k = rng.randrange(13)
        if k == 0: v = rng.choice([2000 * (j + 1), 2147400000 + 100 * j]); put('#line %s%d' % (' ' * rng.randrange(3), v)); ln[0] = v
        elif k == 1: put('    # a comment #line 5')
        elif k == 2: put('    my $x%d = "%s";' % (j, rng.choice(['a\nb\n', '\n', '\n\n', '\\n\nx', '\\$ \n', '\\\\\n\\\\'])))
        elif k == 3: put("    my $h%d = <<'EOS';\n%sEOS" % (j, rng.choice(['', '\n', '\n\n', 'x\n', '#line 4\nx\n', 'x\n\n', 'EOSX\n'])))
        elif k == 4: put(rng.choice(['=pod\n\n  text __LINE__ "\n\n=cut', '=head1 X\n=cut', '=begin x\n\n\n\n\n=cut', '=a\nb\n =cut\n=cu\n\n=cut', '=pod\n\n=head2 y\n\n#line 3\n\n=cut']))
        elif k == 5: put('\n\n')
        elif k == 6: put("    my $q%d = q'\n\n';" % j)
        elif k == 7: want.append('%d' % (ln[0] + 1)); put('    say ""\n . __LINE__;')
        elif k == 8: want.append('%d' % ln[0]); put('    { my $c = method : int () { return __LINE__; }; say "" . $c->(); }')
        elif k == 9: want.append(nm); put('    { my $c = method : string () { return __PACKAGE__; }; say $c->(); say %s; }' % FILE); want.append(fname)
        elif k == 10: want.append('%d-%d' % (ln[0], ln[0] + 2)); put('    say __LINE__ .\n"-" .\n__LINE__;')
        elif k == 11: put('    if (1 <\n 2 && 3 >\n2) { }')
        else: want.append('%d' % ln[0]); put('    say "" . __LINE__;')
    want.append(nm); want.append(fname); put('    say __PACKAGE__; say %s;' % FILE)
    want.append('X%d %s' % (ln[0], fname)); put('    eval { die "e"; }; my $w = Mon->split(" ", Mon->split("\\n", $@)->[1]); say "X" . $w->[@$w - 1] . " " . %s;' % FILE)
    put('  }'); put('}')
    if rng.random() < .3: put(rng.choice(['__END__\nclass { syntax error', '=pod\n\nend', '# end', '=head1 X\n\n=cut']))
    return nm, '\n'.join(out) + '\n', [w.encode().decode('latin1') for w in want]

# ---- fat commas, booleans
SYM = ['foo', 'Foo', 'a1', '_x', 'if', 'class', 'int', 'my', 'say', 'undef', 'true', 'q', 'x', 'eq', 'method', 'return', 'length', 'isa', 'static', 'new', 'f', 'e1', 'L']
def lists(rng):
    items = []; want = []
    for _ in range(rng.randrange(1, 5)):
        if rng.random() < .6:
            k = rng.choice(SYM); v = rng.choice(SYM); items.append('%s%s=>%s"%s"' % (k, rng.choice(['', ' ', '  ', '\n']), rng.choice(['', ' ', '\n']), v)); want += [k, v]
        else: v = rng.choice(SYM); items.append('"%s"' % v); want.append(v)
    return '[' + rng.choice([', ', ' => ', ','] if all('=>' not in i for i in items) else [', ', ',']).join(items) + rng.choice(['', ',', ' => ' if False else '']) + ']', want

def numeric_case(rng, i):
    body = decl = ''; want = []; decl = DECL.replace('static method id', 'static method id')
    for j in range(12):
        k = rng.random()
        if k < .45: s, t, v = int_lit(rng)
        elif k < .8: s, t, v = float_lit(rng)
        else: s, v = char_lit(rng); t = 'c'
        if v is None: continue
        b, d = place(rng, i * 100 + j, s, t)
        if 'type_name' in b: want.append({'i': 'Int', 'L': 'Long', 'f': 'Float', 'd': 'Double', 'c': 'Byte'}[t])
        body += '    ' + b + '\n'; decl += d; want.append(str(v))
    return Case('numeric %d' % i, body, want, decls=decl)
def string_case(rng, i):
    body = ''; want = []; decl = ''
    for j in range(8):
        if rng.random() < .7: s, b = str_lit(rng)
        else: s, b = q_lit(rng)
        x, d = place(rng, i * 100 + j, s, 's')
        if 'type_name' in x: want.append('string')
        body += '    ' + x + '\n'; decl += d; want.append(b.hex())
    for j in range(2):
        n, t = here(rng, j); body += "    { my $h = <<'%s';\n%s%s\n say Mon->hex($h); Mon->nul_terminated($h); }\n" % (n, t, n); want.append(t.encode().hex())
    l, w = lists(rng)
    body += '    for my $e (@{%s}) { say $e; }\n' % l if False else '    { my $l = %s; for my $e (@$l) { say $e; } }\n' % l; want += w
    body += '    { my $b = %s; say type_name $b; say "" . $b->value; }\n' % ('true' if i & 1 else 'false'); want += ['Bool', str(i & 1)]
    return Case('string %d' % i, body, want, decls=DECL + decl)
def interp_case(rng, i):
    body = '    ' + INIT + '\n'; want = []
    for _ in range(8):
        s, b = interp(rng); body += '    say Mon->hex(%s);\n' % s; want.append(b.hex())
    return Case('interpolation %d' % i, body + '    $@ = undef; $CV = undef; $TQ::CV = undef;\n', want, decls='our $CV : string; our $CI : int;')
def prec_case(rng, i):
    a, b, c, bt = [rng.choice([1, 2, 3, -1, -5, 17, 0, 100, 2147483647, -2147483648]) for _ in range(3)] + [rng.choice([-128, 5, 127])]
    env = {'$a': a, '$b': b, '$c': c, '(int)$bt': bt, '$o->{n}': 6, '$o->{o}{n}': -9, '@$ia': 3, '$ia->[1]': 11, 'TB_F(2)': 21, '$s': 'q', '$t': 'rs', '"x"': 'x', '$o->{s}': 'uvw', '$ar->[0]': 'k'}
    body = '    ' + PINIT % (a, b, c, bt); want = []
    for _ in range(6):
        n = gen(rng, rng.choice('iiis'), rng.choice([2, 3, 3, 4, 5]), env)
        for full in (False, True):
            body += '    say "" . (%s);\n' % text(rng, n, full); want.append(str(n.v))
    for _ in range(2):
        st, e, w = rng.choice([x for x in ASSIGN if x[2]])
        body += '    { %s my $a = 1; my $b = 2; my $c = 3; %s say "" . %s; }\n' % ('my $o = new TR; $o->{n} = 6; my $ia = [4, 11, 6];', st, e); want.append(w)
    return Case('precedence %d' % i, body, want, decls='static method fi : int ($x : int) { return $x * 10 + 1; }')
def pos_case(rng, i):
    nm, src, want = position(rng, i)
    return Case('position %d' % i, '    %s->m;' % nm, want, files={nm + '.spvm': src}, decls='use %s;' % nm)

def rejects(rng, n):
    out = []
    def add(k, s, body, ok=False): out.append((k, s, body, ok))
    for s in BADCHAR: add('char', s, 'my $x = %s;' % s)
    for s in BADSTR: add('string', s, 'my $x = %s;' % s)
    for s in BADQ: add('single-quoted', s, 'my $x = %s;' % s)
    for s in BADHERE: add('here document', s, 'my $x = %s' % s)
    for s in BADPREC: add('operators', s, 'my $a = 1; my $b = 2; my $c = 3; my $s = "x"; my $z = %s;' % s)
    for st, e, w in ASSIGN:
        if w is None and not e: add('operators', st, 'my $a = 1; my $b = 2; my $s = "a"; my $t = "b"; my $o = new TA; ' + st)
    for s in ['0x', '0b', '0x_', '0b_', '0bL', '0b__L', '-0b', '0b2', '08', '09', '0b12', '1__', '0x1g', '1.5.5', '1.5L', '1.5l', '0xFFp', '1e', '1e+', '0x1.8', '078', '0x1p', '1.2e3.4', '12ab', '0b1e3']:
        if s in ('1__', '0x1.8', '1.5.5'): continue
        add('number', s, 'my $x = %s;' % s)
    for s in ['#line', '#line 0', '#line -1', '#line 2147483648', '#line a', ' #line 5', '#line 5x', '#lib ""', ' #lib "x"', '#lib "x', '#file "x"']: add('directive', s, '\n%s\n' % s, ok=None if s in (' #line 5', '#line') else False)
    for _ in range(n):
        s, t, v = int_lit(rng); add('integer', s, 'my $x = %s; my $y : %s = %s;' % (s, TN[t], s), v is not None)
    return out

def main(ck):
    drv = vp.build_driver('asan')
    rng = ck.rng
    cases = []
    n = ck.n(60, 1500)
    for i in range(n):
        cases += [numeric_case(rng, i), string_case(rng, i), interp_case(rng, i), prec_case(rng, i)]
        if i % 2 == 0: cases.append(pos_case(rng, i))
    run_and_judge(ck, drv, cases, per=40, modes=('vm', 'pre'), uses='use TQ; use TR;', files=FILES)

    # what must be rejected, and what at the limits must not
    items = []
    rj = rejects(rng, ck.n(600, 20000))
    for k, s, body, ok in rj:
        src = 'class TA { has n : int; static method m : void () { %s\n } }' % body
        items.append(se.Item('%s %s' % (k, s), [se.new(1), se.src(1, 'TA', src), se.comp(1, 'TA'), se.free(1)], meta=(k, s, ok, src)))
    for it in se.run_all(drv, items, per=60, wd=10):
        if it.kind == 'missing': ck.inconclusive.append(it.key + ' ' + it.detail[:100]); continue
        k, s, ok, src = it.meta; f = {'TA.spvm': src}
        if it.kind == 'hang': ck.violation('hang/' + k, '%s: the compilation does not end' % it.key, f); continue
        if it.kind == 'crash': ck.violation('crash/' + k + '/' + str(vp.san_report(it.detail.encode('latin1')) or ''), '%s: %s' % (it.key, it.detail[:1500]), f); continue
        rc = it.ops[2].rc; ck.count('rejected' if rc else 'accepted at the limit'); ck.seen('lit %s %s' % (k, s[:12]))
        if ok is None: continue
        if bool(rc) == bool(ok): ck.violation('%s/%s' % ('accepted' if not rc else 'rejected', k if k == 'integer' else k + ' ' + s), '%s: expected to be %s, but rc %s %r' % (it.key, 'accepted' if ok else 'rejected', rc, it.ops[2].msgs[:1]), f)
    ck.rule = 'a distinct case is a kind of program, or a literal that is judged at its limits'

vp.main('C13', main)

"""Literals of every numeric type and strings of arbitrary bytes, with their values as an independent model computes them."""
import struct
from spvmrun import Case

def dbits(v): return struct.unpack('<q', struct.pack('<d', v))[0]
def fbits(v): return struct.unpack('<i', struct.pack('<f', v))[0]

def rdouble(rng):
    while True:
        v = struct.unpack('<d', struct.pack('<Q', rng.getrandbits(64)))[0]
        if v == v and abs(v) < 1e308 and abs(v) > 1e-300: return v
def rfloat(rng):
    while True:
        v = struct.unpack('<f', struct.pack('<I', rng.getrandbits(32)))[0]
        if v == v and 1e-35 < abs(v) < 1e38: return v

def num_lits(rng, n):
    """(expression text, show expression, expected text)"""
    out = []
    for _ in range(n):
        t = rng.randrange(7)
        if t == 0:
            v = rng.choice([rdouble(rng), rng.uniform(-1, 1), rng.uniform(-1e6, 1e6), 0.1, 0.3, 1e22, 1e23, 2.0 ** 53 + 1, 1 / 3, 2 ** -1022, 1.7976931348623157e308, 9007199254740993.0, 0.0, 123456789.125])
            s = repr(abs(v))
            if rng.random() < .3: s = '%.*e' % (rng.choice([16, 17, 20, 25]), abs(v))
            if '.' not in s and 'e' not in s: s += '.0'
            v = float(s)
            if rng.random() < .4: s, v = '-' + s, -v
            out.append((s, 'Mon->double_bits($x)', str(dbits(v))))
        elif t == 1:
            v = abs(rfloat(rng)); s = '%.*g' % (rng.choice([9, 9, 12]), v)
            if rng.random() < .3: s = rng.choice(['0.1', '16777217.0', '3.4028234e38', '1.17549435e-38', '0.333333343', '8388609.5'])
            if '.' not in s and 'e' not in s: s += '.0'
            out.append((s + 'f', 'Mon->float_bits($x)', str(fbits(struct.unpack('<f', struct.pack('<f', float(s)))[0]))))
        elif t == 2:
            v = rng.choice([2147483647, 0, 1, 255, 65535, 2147483646, rng.getrandbits(31)])
            s = rng.choice(['%d' % v, '0x%x' % v, '0X%X' % v if False else '0x%X' % v, '0b' + bin(v)[2:], '0%o' % v])
            if rng.random() < .4 and v: s, v = '-' + s, -v
            out.append((s, '"" . $x', str(v)))
        elif t == 3:
            v = rng.choice([9223372036854775807, 0, 4294967296, 2147483648, rng.getrandbits(63)])
            s = rng.choice(['%dL' % v, '0x%xL' % v, '0b%sL' % bin(v)[2:]])
            if rng.random() < .4 and v: s, v = '-' + s, -v
            out.append((s, '"" . $x', str(v)))
        elif t == 4: out.append(('-2147483648', '"" . $x', '-2147483648'))
        elif t == 5: out.append(('-9223372036854775808L', '"" . $x', '-9223372036854775808'))
        else:
            c = rng.choice([('\'a\'', 97), ("'\\n'", 10), ("'\\0'", 0), ("'\\x7f'", 127), ("'\\xff'", -1), ("'\\''", 39), ("'\"'", 34), ("'\\\\'", 92)])
            out.append((c[0], '"" . (int)$x', str(c[1])))
    return out

def str_lit(rng):
    n = rng.choice([0, 1, 2, 3, 5, 17, 60, 300]); s, b = '', b''
    for _ in range(n):
        c = rng.choice([rng.randrange(256), rng.randrange(32, 127), rng.randrange(48, 58), rng.choice(b'abcdefABCDEF?/\\"\'%$@{}')])
        b += bytes([c])
        if 48 <= c < 58 or 97 <= c < 123 or 65 <= c < 91 or c in b' ?/%.,;:()[]<>=!*~^&#': s += chr(c)
        elif c == 34: s += '\\"'
        elif c == 92: s += '\\\\'
        elif c == 36: s += '\\$'
        elif c == 10: s += '\\n'
        elif c == 9: s += '\\t'
        else: s += '\\x{%02X}' % c if False else '\\x%02X' % c
    return s, b

def cases(rng, n):
    out = []
    for i in range(n):
        body, want = '', []
        for e, show, w in num_lits(rng, 12):
            body += '    { my $x = %s; say %s; }\n' % (e, show); want.append(w)
        for _ in range(5):
            s, b = str_lit(rng)
            body += '    say Mon->hex("%s");\n' % s; want.append(b.hex())
        s, b = str_lit(rng); s2, b2 = str_lit(rng)
        body += '    { my $s = "%s" . "%s"; Mon->nul_terminated($s); say Mon->hex($s) . " " . length $s; }\n' % (s, s2); want.append((b + b2).hex() + ' %d' % len(b + b2))
        def f(o, want=want, body=body):
            got = [l.lower() for l in o.lines]
            for j, w in enumerate(want):
                if j >= len(got) or got[j] != w.lower(): return 'line %d: got %r, expected %r for %s' % (j, got[j] if j < len(got) else None, w, body.split('\n')[j])
        c = Case('literals %d' % i, body, f); out.append(c)
    return out

"""Reference arithmetic: two's complement integers and IEEE floats."""
import struct, math
INTS = ('byte', 'short', 'int', 'long')
FLOATS = ('float', 'double')
NUMS = INTS + FLOATS
BITS = {'byte': 8, 'short': 16, 'int': 32, 'long': 64}
ORDER = {'byte': 0, 'short': 1, 'int': 2, 'long': 3, 'float': 4, 'double': 5}

def wrap(v, bits):
    v &= (1 << bits) - 1
    return v - (1 << bits) if v >> (bits - 1) else v

def wt(v, t):
    return wrap(v, BITS[t])

def f32(x):
    """float -> nearest float32 (as a Python float)"""
    if x != x or x in (math.inf, -math.inf): return x
    try:
        return struct.unpack('<f', struct.pack('<f', x))[0]
    except OverflowError:
        return math.copysign(math.inf, x)

def i2d(n):
    return float(n)

def i2f(n):
    """int -> float32 with a single rounding"""
    a = abs(n)
    if a < (1 << 53): return f32(float(n))
    sh = a.bit_length() - 53
    top, rest = a >> sh, a & ((1 << sh) - 1)
    if rest: top |= 1                      # round to odd, then round once
    r = f32(math.ldexp(float(top), sh))
    return -r if n < 0 else r

def promote(a, b=None):
    """binary numeric conversion"""
    m = a if b is None or ORDER[a] >= ORDER[b] else b
    return 'int' if ORDER[m] < ORDER['int'] else m

def conv(v, frm, to):
    """value of a numeric cast; None where C leaves it undefined"""
    if to in INTS:
        if frm in INTS: return wt(v, to)
        if v != v or v in (math.inf, -math.inf): return None
        t = int(v)
        b = BITS[to]
        if not (-(1 << (b - 1)) <= t < (1 << (b - 1))): return None
        return t
    if to == 'float': return i2f(v) if frm in INTS else f32(v)
    return i2d(v) if frm in INTS else v

def dbits(d):
    if d != d: return 0x7ff8000000000000
    return struct.unpack('<q', struct.pack('<d', d))[0]
def fbits(d):
    if d != d: return 0x7fc00000
    return struct.unpack('<i', struct.pack('<f', d))[0]

class DivZero(Exception):
    pass

def fdiv(a, b):
    if b == 0:
        if a != a or a == 0: return math.nan
        s = math.copysign(1, a) * math.copysign(1, b)
        return s * math.inf
    try:
        return a / b
    except OverflowError:
        return math.copysign(math.inf, a) * math.copysign(1, b)

def fmul(a, b):
    return a * b

def arith(op, a, b, t):
    """a and b already of the (promoted) type t"""
    if t in INTS:
        if op == '+': return wt(a + b, t)
        if op == '-': return wt(a - b, t)
        if op == '*': return wt(a * b, t)
        if op in ('/', '%'):
            if b == 0: raise DivZero()
            q = abs(a) // abs(b)
            if (a < 0) != (b < 0): q = -q
            if op == '/': return wt(q, t)
            return wt(a % b, t)            # floored, as documented
        m = (1 << BITS[t]) - 1
        if op.startswith('div_u') or op.startswith('mod_u'):
            if b == 0: raise DivZero()
            return wt((a & m) // (b & m) if op.startswith('div') else (a & m) % (b & m), t)
        if op == '&': return wt(a & b, t)
        if op == '|': return wt(a | b, t)
        if op == '^': return wt(a ^ b, t)
        if op == '<<': return wt(a << b, t)
        if op == '>>': return wt(a >> b, t)
        if op == '>>>': return wt((a & m) >> b, t)
    else:
        r = {'+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b, '/': lambda: fdiv(a, b)}[op]()
        return f32(r) if t == 'float' else r
    raise KeyError(op)

def compare(op, a, b):
    return {'==': a == b, '!=': a != b, '<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b,
            '<=>': (1 if a > b else -1 if a < b else 0)}[op] * 1

def lit(v, t):
    """SPVM expression of type t with the value v"""
    if t == 'byte' or t == 'short': return '(%s)%d' % (t, v)
    if t == 'int': return '%d' % v
    if t == 'long': return '%dL' % v
    if t == 'float': return 'Mon->bits_float(%d)' % fbits(v)
    return 'Mon->bits_double(%dL)' % dbits(v)

def show_expr(e, t):
    """SPVM expression printing the value e of type t bit-exactly"""
    if t == 'float': return 'Mon->float_bits(%s)' % e
    if t == 'double': return 'Mon->double_bits(%s)' % e
    return '(%s)' % e

def show_val(v, t):
    if t == 'float': return str(fbits(v))
    if t == 'double': return str(dbits(v))
    return str(v)

def interesting(t, rng, n):
    """n values of type t: boundaries first, then random of varied magnitude"""
    if t in INTS:
        b = BITS[t]
        lo, hi = -(1 << (b - 1)), (1 << (b - 1)) - 1
        base = [0, 1, -1, lo, hi, lo + 1, hi - 1, 2, -2, 3, -3, 7, -7, 10, -128, 127, 128, 255, 256, -129, 32767, -32768,
                65535, 65536, 2147483647, -2147483648, 2147483648, 4294967295, 4294967296, 1 << 53, (1 << 53) + 1, 16777217, -16777217]
        base = [x for x in dict.fromkeys(base) if lo <= x <= hi]
        must = base[:9]
        rest = base[9:]
        rng.shuffle(rest)
        out = must + rest
        out = out[:max(9, n * 2 // 3)]
        while len(out) < n:
            out.append(wrap(rng.getrandbits(64) >> rng.randrange(64), b))
        return out[:n]
    def rnd():
        e = rng.choice([1, 4, 10, 30, 60])
        x = (rng.random() - 0.5) * 2.0 ** rng.randrange(-e, e + 1)
        return f32(x) if t == 'float' else x
    big = 3.4028234663852886e38 if t == 'float' else 1.7976931348623157e308
    tiny = 1.401298464324817e-45 if t == 'float' else 5e-324
    base = [0.0, -0.0, 1.0, -1.0, 0.5, -1.5, math.inf, -math.inf, math.nan, big, -big, tiny, -tiny, 2.0, 3.0, 1e10, 16777216.0, 2147483648.0, -2147483648.0, 9.007199254740992e15]
    if t == 'float': base = [f32(x) for x in base]
    must, rest = base[:9], base[9:]
    rng.shuffle(rest)
    out = (must + rest)[:max(9, n * 2 // 3)]
    while len(out) < n: out.append(rnd())
    return out[:n]

import sys, os, ctypes; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vp
from spvmrun import Case, run_and_judge

FILES = {'XF.spvm': '''class XF : public {
  use Mon; use Fn; use Error::Unicode::InvalidUTF8;
  static method h : string ($s : string) { unless ($s) { return "undef"; } unless (Mon->nul_terminated($s)) { return "terminator"; } return "h" . Mon->hex($s); }
  static method a : string ($a : string[]) { unless ($a) { return "undef"; } my $r = "" . @$a; for (my $i = 0; $i < @$a; $i++) { $r .= " " . &h($a->[$i]); } return $r; }
  static method ai : string ($a : int[]) { unless ($a) { return "undef"; } my $r = "" . @$a; for (my $i = 0; $i < @$a; $i++) { $r .= " " . $a->[$i]; } return $r; }
  static method u : string ($s : string) { return Mon->unhex($s); }
  static method m : mutable string ($s : string) { return (mutable string)copy Mon->unhex($s); }
  static method us : string[] ($s : string) { my $l = Mon->split(",", $s); my $r = new string[@$l]; for (my $i = 0; $i < @$l; $i++) { unless ($l->[$i] eq "-") { $r->[$i] = Mon->unhex($l->[$i]); } } return $r; }
  static method cp : string ($s : string, $o : int) { my $c = Fn->get_code_point($s, \\$o); return "$c $o"; }
  static method lcp : string ($s : string, $o : int) { my $c = Fn->look_code_point($s, \\$o); return "$c $o"; }
  static method x : string ($id : int) { if ($id == basic_type_id Error::Unicode::InvalidUTF8) { return "XU"; } return "X"; }
  static method mask : string ($c : int) {
    my $r = "" . Fn->is_alnum($c) . Fn->is_alpha($c) . Fn->is_cntrl($c) . Fn->is_digit($c) . Fn->is_graph($c) . Fn->is_hex_digit($c) . Fn->is_lower($c) . Fn->is_perl_space($c) . Fn->is_perl_word($c) . Fn->is_print($c) . Fn->is_punct($c) . Fn->is_space($c) . Fn->is_upper($c) . Fn->is_xdigit($c);
    return $r . " " . Fn->to_lower($c) . " " . Fn->to_upper($c); }
  static method rt : string ($from : int, $to : int) {
    for (my $c = $from; $c < $to; $c++) {
      my $s = Fn->chr($c);
      my $sv = $c >= 0 && $c <= 0x10FFFF && !($c >= 0xD800 && $c <= 0xDFFF);
      if ($sv) {
        unless ($s) { return "no character for " . $c; }
        my $n = 4; if ($c < 0x80) { $n = 1; } elsif ($c < 0x800) { $n = 2; } elsif ($c < 0x10000) { $n = 3; }
        unless (length $s == $n && Fn->ord($s) == $c) { return "not inverse at " . $c; }
      }
      elsif ($s) { return "character for " . $c; }
    }
    return "ok";
  }
  static method rand : string ($seed : int, $n : int) { my $r = ""; for (my $i = 0; $i < $n; $i++) { $r .= Fn->crand(\\$seed) . " "; } return $r . $seed; }
  static method rand2 : string ($seed : int, $n : int, $max : int) { for (my $i = 0; $i < $n; $i++) { my $v = Fn->rand(\\$seed, $max); unless ($v >= 0 && $v < $max) { return "out of range"; } } return "ok"; }
}
'''}
libc = ctypes.CDLL(None, use_errno=True)
for f, t in (('strtod', ctypes.c_double), ('strtof', ctypes.c_float)):
    getattr(libc, f).restype = t; getattr(libc, f).argtypes = [ctypes.c_char_p, ctypes.POINTER(ctypes.c_char_p)]
libc.strtoll.restype = ctypes.c_longlong; libc.strtoll.argtypes = [ctypes.c_char_p, ctypes.POINTER(ctypes.c_char_p), ctypes.c_int]

class U(Exception): pass       # invalid UTF-8
class X(Exception): pass

def hx(b): return '"%s"' % b.hex()
def u(b): return '(string)undef' if b is None else 'XF->u(%s)' % hx(b)
def show(b): return 'undef' if b is None else 'h' + b.hex()
def lst(l): return ' '.join([str(len(l))] + [show(x) for x in l])

def decode(b):
    try: return [ord(c) for c in b.decode('utf-8')]
    except UnicodeDecodeError: raise U()

def cint(i): return '%d' % i
def wrap(v, bits):
    v &= (1 << bits) - 1
    return v - (1 << bits) if v >> (bits - 1) else v

def conv(fn, b, base=None, lo=None, hi=None):
    if b is None: raise X()
    buf = ctypes.create_string_buffer(b)
    end = ctypes.c_char_p()
    p = ctypes.cast(buf, ctypes.c_char_p)
    ctypes.set_errno(0)
    endp = ctypes.c_void_p()
    f = getattr(libc, fn)
    a = [ctypes.cast(buf, ctypes.c_void_p), ctypes.byref(endp)]
    f.argtypes = [ctypes.c_void_p, ctypes.POINTER(ctypes.c_void_p)] + ([ctypes.c_int] if base else [])
    v = f(*(a + ([base] if base else [])))
    used = endp.value - ctypes.addressof(buf)
    if used == 0 or used != len(b) or ctypes.get_errno() == 34: raise X()
    if lo is not None and not lo <= v <= hi: raise X()
    return v

ALPH = [b'abc', b'aA zZ', b'\n\r\t \x0b\x0c', b'\x00a', 'aé日😀'.encode(), bytes(range(256)), b'ab', b'0123456789abcdefABCDEF']

def rbytes(rng, maxlen=20):
    a = rng.choice(ALPH)
    return bytes(rng.choice(a) for _ in range(rng.choice([0, 1, 2, 3, rng.randrange(maxlen + 1)])))

CPS = [0, 1, 0x41, 0x7F, 0x80, 0x7FF, 0x800, 0xFFF, 0x1000, 0xD7FF, 0xE000, 0xFFFD, 0xFFFF, 0x10000, 0x3FFFF, 0x40000, 0xFFFFF, 0x100000, 0x10FFFF]
def rcp(rng):
    while True:
        c = rng.choice([rng.choice(CPS), rng.randrange(0x80), rng.randrange(0x800), rng.randrange(0x10000), rng.randrange(0x110000)])
        if not 0xD800 <= c <= 0xDFFF: return c
def rutf8(rng, maxlen=8, bad=0.35):
    b = b''.join(chr(rcp(rng)).encode() for _ in range(rng.randrange(maxlen + 1)))
    if rng.random() < bad:
        k = rng.randrange(8)
        i = rng.randrange(len(b) + 1)
        if k == 0: b = b[:i]                                  # truncated
        elif k == 1: b = b[:i] + bytes([rng.randrange(128, 256)]) + b[i:]
        elif k == 2: b = b[:i] + b[i + 1:]
        elif k == 3: b += rng.choice([b'\xc0\x80', b'\xc1\xbf', b'\xe0\x80\x80', b'\xe0\x9f\xbf', b'\xf0\x80\x80\x80', b'\xf0\x8f\xbf\xbf'])       # overlong
        elif k == 4: b += rng.choice([b'\xed\xa0\x80', b'\xed\xbf\xbf', b'\xed\xa0\x80\xed\xb0\x80'])                                             # surrogates
        elif k == 5: b += rng.choice([b'\xf4\x90\x80\x80', b'\xf5\x80\x80\x80', b'\xf8\x88\x80\x80\x80', b'\xff', b'\xfe', b'\xf7\xbf\xbf\xbf'])
        elif k == 6: b = b[:i] + bytes([rng.randrange(0xc0, 0x100)]) + bytes(rng.choice([0x7f, 0x80, 0xbf, 0xc0, 0, rng.randrange(256)]) for _ in range(rng.randrange(4)))
        else: b = bytes(rng.randrange(256) for _ in range(rng.randrange(6)))
    return b

def up(b): return bytes(c - 32 if 97 <= c <= 122 else c for c in b)
def lo(b): return bytes(c + 32 if 65 <= c <= 90 else c for c in b)
def chomp(b): return b[:-2] if b.endswith(b'\r\n') else b[:-1] if b.endswith(b'\n') else b

def index(s, t, b, e):
    """positions b..e (inclusive end) as documented"""
    if not 0 <= b <= len(s): raise X()
    if e < 0: e = len(s)
    if e > len(s) or e < b: raise X()
    if not t: return b
    if e == len(s): e -= 1
    for i in range(b, e + 2 - len(t)):
        if s[i:i + len(t)] == t: return i
    return -1
def rindex(s, t, e, b):
    if not 0 <= b <= len(s): raise X()
    if e < 0: e = len(s)
    if e > len(s) or e < b: raise X()
    if not t: return e
    if e == len(s): e -= 1
    for i in range(e + 1 - len(t), b - 1, -1):
        if s[i:i + len(t)] == t: return i
    return -1

def substr(s, o, n):
    if o < 0: raise X()
    if n < 0: n = len(s) - o
    if n < 0 or o + n > len(s): raise X()
    return s[o:o + n], n

def split(sep, s, lim):
    if not sep: raise X()
    r = s.split(sep, lim - 1) if lim > 0 else s.split(sep)
    if lim == 0:
        while r and not r[-1]: r.pop()
    return r

def edge(rng, n):
    return rng.choice([0, n, max(0, n - 1), n + 1, -1, rng.randrange(0, n + 2), rng.randrange(0, n + 1), 2147483647, -2147483648, n + 7])

def gen(rng, f):
    """one call: (expression giving a string, function giving the expected text or raising)"""
    if f in ('uc', 'lc', 'ucfirst', 'lcfirst', 'trim', 'chompr', 'copy_string'):
        b = rbytes(rng) if rng.random() < .97 else None
        if f == 'chompr' and b is not None: b += rng.choice([b'', b'\n', b'\r\n', b'\r', b'\n\n', b'\n\r'])
        if f == 'trim' and b is not None:
            sp = lambda: bytes(rng.choice(b' \t\n\r\x0b\x0c') for _ in range(rng.randrange(4)))
            b = sp() + b + sp()
        fn = {'uc': up, 'lc': lo, 'ucfirst': lambda b: up(b[:1]) + b[1:], 'lcfirst': lambda b: lo(b[:1]) + b[1:], 'trim': lambda b: b.strip(b' \t\n\r\x0b\x0c'), 'chompr': chomp, 'copy_string': lambda b: b}[f]
        def ex():
            if b is None:
                if f == 'copy_string': return 'undef'
                raise X()
            return show(fn(b))
        return 'XF->h(Fn->%s(%s))' % (f, u(b)), ex
    if f in ('chomp', 'shorten_null_char', 'shorten', 'replace_chars', 'init_string', 'memset_char'):
        b = rbytes(rng); n = len(b)
        if f == 'chomp': b += rng.choice([b'', b'\n', b'\r\n', b'\r']); call, r = 'Fn->chomp($m);', lambda: chomp(b)
        elif f == 'shorten_null_char': call, r = 'Fn->shorten_null_char($m);', lambda: b.split(b'\0')[0]
        elif f == 'shorten':
            k = edge(rng, n); call = 'Fn->shorten($m, %d);' % k
            def r():
                if k < 0: raise X()
                return b[:k]
        elif f == 'replace_chars':
            x, y = rng.choice([97, 65, 0, 32, rng.randrange(128)]), rng.randrange(256); call, r = 'Fn->replace_chars($m, %d, %d);' % (x, y), lambda: b.replace(bytes([x]), bytes([y]))
        else:
            c, o, k = rng.randrange(256), edge(rng, n), edge(rng, n)
            call = 'Fn->%s($m, %d, %d, %d);' % (f, c, o, k)
            def r():
                kk = n - o if k < 0 else k
                if f == 'init_string' and o < 0: raise X()
                if o < 0 or kk < 0 and f == 'memset_char' and False: raise X()
                if o + kk > n: raise X()
                if kk < 0: raise X() if f == 'memset_char' and o > n and False else X()
                return b[:o] + bytes([c]) * kk + b[o + kk:]
            if o > n and k < 0 or (o < 0 and f == 'init_string'): return gen(rng, f)   # unspecified
        return 'XF->h($m)', lambda: show(r()), 'my $m = XF->m(%s); eval { %s };' % (hx(b), call), lambda: show(b)
    if f in ('index', 'rindex', 'contains'):
        a = rng.choice([b'ab', b'aab', b'abc', b'\0a', b'a'])
        s = bytes(rng.choice(a) for _ in range(rng.randrange(0, 14))); t = bytes(rng.choice(a) for _ in range(rng.choice([0, 1, 1, 2, 2, 3, 5])))
        n = len(s)
        q = rng.random()
        b = rng.randrange(0, n + 1) if q < .85 else edge(rng, n)
        e = rng.choice([-1, rng.randrange(0, n) if n else -1]) if q < .85 else edge(rng, n)
        if e == n: e = n + 1
        if f == 'rindex':
            k = rng.randrange(3)
            if k == 0: return 'XF->h("" . Fn->rindex(%s, %s))' % (u(s), u(t)), lambda: show(str(rindex(s, t, -1, 0)).encode())
            return 'XF->h("" . Fn->rindex(%s, %s, %d, %d))' % (u(s), u(t), e, b), lambda: show(str(rindex(s, t, e, b)).encode())
        k = rng.randrange(3)
        args = '' if k == 0 else ', %d' % b if k == 1 else ', %d, %d' % (b, e)
        bb, ee = (0, -1) if k == 0 else (b, -1) if k == 1 else (b, e)
        v = (lambda: index(s, t, bb, ee)) if f == 'index' else (lambda: int(index(s, t, bb, ee) >= 0))
        return 'XF->h("" . Fn->%s(%s, %s%s))' % (f, u(s), u(t), args), lambda: show(str(v()).encode())
    if f == 'substr':
        s = rbytes(rng); o, n = edge(rng, len(s)), edge(rng, len(s))
        k = rng.randrange(3)
        if k == 0: return 'XF->h(Fn->substr(%s, %d))' % (u(s), o), lambda: show(substr(s, o, -1)[0])
        if k == 1: return 'XF->h(Fn->substr(%s, %d, %d))' % (u(s), o, n), lambda: show(substr(s, o, n)[0])
        r = rbytes(rng)
        def ex():
            _, nn = substr(s, o, n)
            return show(s[:o] + r + s[o + nn:])
        return 'XF->h(Fn->substr(%s, %d, %d, %s))' % (u(s), o, n, u(r)), ex
    if f == 'split':
        sep = rng.choice([b',', b'ab', b'aa', b'a', b'\0', b', ', b'']) if rng.random() < .95 else b'xyz'
        s = b''.join(rng.choice([sep, b'a', b'b', b'x', b'', b'\0', b',']) for _ in range(rng.randrange(0, 14)))
        lim = rng.choice([-1, -1, 0, 0, 1, 2, 3, 9, -5, 2147483647])
        if not s: s = b'z'
        return 'XF->a(Fn->split(%s, %s, %d))' % (u(sep), u(s), lim), lambda: lst(split(sep, s, lim))
    if f == 'join':
        sep = rng.choice([b'', b',', b', ', b'\0']); l = [rng.choice([rbytes(rng), b'', None]) for _ in range(rng.randrange(1, 7))]
        return 'XF->h(Fn->join(%s, XF->us("%s")))' % (u(sep), ','.join('-' if x is None else x.hex() for x in l)), lambda: show(sep.join(x or b'' for x in l))
    if f == 'repeat':
        s, k = rbytes(rng), rng.choice([0, 1, 2, 5, 40, -1])
        def ex():
            if k < 0: raise X()
            return show(s * k)
        return 'XF->h(Fn->repeat(%s, %d))' % (u(s), k), ex
    if f == 'hex':
        s = bytes(rng.choice(b'0123456789abcdefABCDEF') for _ in range(rng.choice([0, 1, 2, 4, 7, 8, 8, 9])))
        if rng.random() < .15 and s: i = rng.randrange(len(s)); s = s[:i] + bytes([rng.choice(b'gG/:@`\0 -x')]) + s[i + 1:]
        def ex():
            if not 1 <= len(s) <= 8 or any(c not in b'0123456789abcdefABCDEF' for c in s): raise X()
            return show(str(wrap(int(s, 16), 32)).encode())
        return 'XF->h("" . Fn->hex(%s))' % u(s), ex
    if f == 'equals_string_range':
        a = bytes(rng.choice(b'ab') for _ in range(rng.randrange(8))); b = bytes(rng.choice(b'ab') for _ in range(rng.randrange(8)))
        if rng.random() < .5: b = rng.choice([b'', b'x', b'ab']) + a + rng.choice([b'', b'y'])
        o1, o2 = (rng.randrange(len(x) + 1) for x in (a, b))
        n = rng.choice([0, 1, 2, rng.randrange(9), len(a) - o1, 2147483647])
        if rng.random() < .08: o1 = rng.choice([-1, 2147483647, 9])
        if rng.random() < .08: o2 = rng.choice([-1, 2147483647, 9])
        if n == 0: o1, o2 = max(0, min(o1, len(a))), max(0, min(o2, len(b)))
        def ex():
            if o1 < 0 or o2 < 0: raise X()
            if o1 + n > len(a) or o2 + n > len(b): return show(b'0')
            return show(b'%d' % (a[o1:o1 + n] == b[o2:o2 + n]))
        return 'XF->h("" . Fn->equals_string_range(%s, %d, %s, %d, %d))' % (u(a), o1, u(b), o2, n), ex
    if f in ('to_int', 'to_long', 'to_int_with_base', 'to_long_with_base', 'to_float', 'to_double'):
        isf = f in ('to_float', 'to_double')
        k = rng.randrange(6)
        if isf:
            s = rng.choice(['%r' % rng.uniform(-1e3, 1e3), '%e' % (rng.uniform(-10, 10) * 10.0 ** rng.randrange(-50, 45)), '1e308', '1e309', '3.4028235e38', '3.5e38', '1e-400', '0', '-0', '.5', '5.', '0x1p3', 'inf', '-nan', 'infinity', '1e', '', ' ', ' 1', '1 ', '+3', '--3', '1,5', '1.5\0', '1.5\0' + '9', 'abc', str(rng.randrange(10**18))])
            b = s.encode()
            def ex():
                v = conv('strtod' if f == 'to_double' else 'strtof', b)
                import struct
                if v != v: return 'nan'
                return str(struct.unpack('<q', struct.pack('<d', v))[0] if f == 'to_double' else struct.unpack('<i', struct.pack('<f', v))[0])
            if 'nan' in s: return gen(rng, f)
            return ('"" . Mon->double_bits(Fn->to_double(%s))' if f == 'to_double' else '"" . Mon->float_bits(Fn->to_float(%s))') % u(b), ex
        bits = 32 if 'int' in f else 64
        base = 10 if 'base' not in f else rng.choice([2, 8, 10, 16, 16, 10, 3, 0, 36, -1])
        M = 2 ** (bits - 1)
        v = rng.choice([0, 1, -1, M - 1, -M, M, -M - 1, 2 * M, 10 ** 30, rng.randrange(-M, M), rng.randrange(-999, 999)])
        d = {2: 'b', 8: 'o', 16: 'x'}.get(base, 'd')
        s = format(v, d)
        r = rng.random()
        if r < .1: s = rng.choice(['', ' ', '+', '-', 'abc', '12x', '0x1f', '0b1', '1.5', '9\0', '9\0z', '٣', '1e3', 'ffff', '08', '7 '])
        elif r < .2: s = rng.choice(['+', ' ', '\n\t', '0', '00']) + s
        elif r < .25: s = s.upper()
        b = s.encode()
        def ex():
            if base not in (2, 8, 10, 16): raise X()
            return str(conv('strtoll', b, base, -M, M - 1))
        return '"" . Fn->%s(%s%s)' % (f, u(b), '' if 'base' not in f else ', %d' % base), ex
    if f in ('powi', 'powl'):
        b = rng.choice([0, 1, -1, 2, -2, 3, 10, -7, rng.randrange(-100, 100), 2147483647]); e = rng.choice([0, 1, 2, 3, 5, 9, 31, 32, 63, 64, 100, -1])
        def ex():
            if e < 0 or (b == 0 and e == 0): raise X()
            return str(wrap(b ** e, 32 if f == 'powi' else 64))
        return '"" . Fn->%s(%d, %d)' % (f, b, e), ex
    if f in ('abs', 'labs'):
        M = 2 ** (31 if f == 'abs' else 63)
        v = rng.choice([0, 1, -1, M - 1, -M + 1, rng.randrange(-M + 1, M)])
        return '"" . Fn->%s(%s)' % (f, ('%d' % v) + ('L' if f == 'labs' else '')), lambda: str(abs(v))
    if f in ('ord', 'get_code_point', 'look_code_point'):
        b = rutf8(rng, 4); o = 0 if f == 'ord' else rng.choice([0, rng.randrange(0, len(b) + 1), edge(rng, len(b))])
        def ex():
            if not 0 <= o < len(b): raise X()
            for n in (1, 2, 3, 4):
                try: c = b[o:o + n].decode('utf-8')
                except UnicodeDecodeError: continue
                if len(b[o:o + n]) == n: return '%d' % ord(c) + ('' if f == 'ord' else ' %d' % (o + n if f == 'get_code_point' else o))
            raise U()
        return {'ord': '"" . Fn->ord(%s)' % u(b), 'get_code_point': 'XF->cp(%s, %d)' % (u(b), o), 'look_code_point': 'XF->lcp(%s, %d)' % (u(b), o)}[f], ex
    if f == 'chr':
        c = rng.choice([rcp(rng), rcp(rng), -1, 0xD800, 0xDFFF, 0x110000, 2147483647, -2147483648, 0xD800 + rng.randrange(2048)])
        return 'XF->h(Fn->chr(%d))' % c, lambda: show(chr(c).encode() if 0 <= c < 0x110000 and not 0xD800 <= c <= 0xDFFF else None)
    if f in ('to_code_points', 'to_utf8_chars', 'utf8_length'):
        b = rutf8(rng)
        if f == 'to_code_points': return 'XF->ai(Fn->to_code_points(%s))' % u(b), lambda: ' '.join(map(str, [len(decode(b))] + decode(b)))
        if f == 'to_utf8_chars': return 'XF->a(Fn->to_utf8_chars(%s))' % u(b), lambda: lst([chr(c).encode() for c in decode(b)])
        return '"" . Fn->utf8_length(%s)' % u(b), lambda: str(len(decode(b)))
    if f == 'utf8_substr':
        b = rutf8(rng, 8, 0); L = b.decode()
        o, n = edge(rng, len(L)), edge(rng, len(L))
        def ex():
            if o < 0: raise X()
            if n >= 0 and o + n > len(L): raise X()
            return show(L[o:].encode() if n < 0 else L[o:o + n].encode())
        if n < 0 and o > len(L): return gen(rng, f)
        return 'XF->h(Fn->utf8_substr(%s, %d, %d))' % (u(b), o, n), ex
    if f == 'tr':
        b = rutf8(rng, 10, .1)
        lo_ = rcp(rng) if rng.random() < .3 else rng.choice([97, 48, 0x3042, 0xFF10])
        w = rng.randrange(0, 12); to = rng.choice([65, 48, 0x100, 0xFF10, 0x1F600])
        if 0xD7F0 <= lo_ <= 0xDFFF or lo_ > 0x10FFF0: lo_ = 97
        if rng.random() < .8: b += b''.join(chr(rng.randrange(lo_, lo_ + w + 2)).encode() for _ in range(rng.randrange(6)))
        pat = chr(lo_) + ('-' + chr(lo_ + w) if w else ''); rep = chr(to) + ('-' + chr(to + w) if w else '')
        def ex():
            return show(''.join(chr(c - lo_ + to) if lo_ <= c <= lo_ + w else chr(c) for c in decode(b)).encode())
        return 'XF->h(Fn->tr(%s, %s, %s))' % (u(b), u(pat.encode()), u(rep.encode())), ex
    if f == 'mask':
        c = rng.choice([rng.randrange(0, 128), rng.randrange(-3, 260), rng.randrange(-2**31, 2**31), 0x3042])
        def ex():
            a = 0 <= c < 128; ch = chr(c) if a else '\x80'
            D, L, Up, H = ch in '0123456789' , 'a' <= ch <= 'z', 'A' <= ch <= 'Z', a and ch in '0123456789abcdefABCDEF'
            D = a and D
            sp = a and ch in ' \t\n\r\f'
            m = [D or L or Up, L or Up, a and (c < 32 or c == 127), D, a and 0x21 <= c <= 0x7e, H, L, sp, D or L or Up or ch == '_', a and 0x20 <= c <= 0x7e, a and 0x21 <= c <= 0x7e and not (D or L or Up), sp or (a and c == 11), Up, H]
            return ''.join('%d' % x for x in m) + ' %d %d' % (c + 32 if Up else c, c - 32 if L else c)
        return 'XF->mask(%d)' % c, ex
    if f == 'rand':
        s = rng.randrange(-2**31, 2**31)
        def ex():
            x, out = s & 0xffffffff, []
            for _ in range(20):
                x = (x * 1103515245 + 12345) & 0xffffffff; r = (x // 65536) % 2048
                x = (x * 1103515245 + 12345) & 0xffffffff; r = (r << 10) ^ ((x // 65536) % 1024)
                x = (x * 1103515245 + 12345) & 0xffffffff; r = (r << 10) ^ ((x // 65536) % 1024)
                out.append(str(r))
            return ' '.join(out) + ' %d' % wrap(x, 32)
        if rng.random() < .5: return 'XF->rand2(%d, 200, %d)' % (s, rng.choice([1, 2, 10, 1000000])), lambda: 'ok'
        return 'XF->rand(%d, 20)' % s, ex

FUNCS = ['uc', 'lc', 'ucfirst', 'lcfirst', 'trim', 'chompr', 'copy_string', 'chomp', 'shorten_null_char', 'shorten', 'replace_chars', 'init_string', 'memset_char', 'index', 'rindex', 'contains', 'substr', 'split', 'join', 'repeat',
         'hex', 'equals_string_range', 'to_int', 'to_long', 'to_int_with_base', 'to_long_with_base', 'to_float', 'to_double', 'powi', 'powl', 'abs', 'labs', 'ord', 'get_code_point', 'look_code_point', 'chr', 'to_code_points', 'to_utf8_chars',
         'utf8_length', 'utf8_substr', 'tr', 'mask', 'rand']

def case(rng, f, i, n):
    body, want = [], []
    for _ in range(n):
        g = gen(rng, f)
        if len(g) == 2:
            expr, ex = g
            try: w = ex()
            except U: w = 'XU'
            except X: w = 'X'
            body.append('    eval { say %s; }; if (eval_error_id) { say XF->x(eval_error_id); }' % expr)
            want.append(w)
        else:
            expr, ex, pre, same = g      # in place: the string must be unchanged after an exception
            try: w = [ex()]
            except X: w = ['X', same()]
            body.append('    { %s if (eval_error_id) { say "X"; } say %s; }' % (pre, expr))
            want += w
    src = '\n'.join(body) + '\n    $@ = undef;'
    lines = src.split('\n')
    def judge(o):
        if o.lines == want: return None
        for k, (a, w) in enumerate(zip(o.lines + ['(end)'], want)):
            if a != w: return 'output %d (near %s): got %r, reference says %r' % (k, lines[min(k, len(lines) - 1)][:300], a, w)
        return 'more output than calls: %r' % o.lines[len(want):][:3]
    c = Case('%s %d' % (f, i), src, judge)
    c.meta = n
    return c

def check(ck):
    ck.rule = ('one evaluation = 25 calls of one Fn function on generated byte strings, code points, numbers and ranges (boundary, NUL-containing, invalid UTF-8), each result or exception compared with an independent reference; distinct = call batch x engine')
    drv = vp.build_driver('asan')
    rng = ck.rng
    cases = []
    for i in range(ck.n(10, 250)):
        for f in FUNCS: cases.append(case(rng, f, i, 25))
    # every code point: chr and ord are inverse
    step = 0x2000
    for a in range(-0x2000, 0x112000, step):
        cases.append(Case('chr and ord from %d' % a, '    say XF->rt(%d, %d);' % (a, a + step), ['ok']))
    # every byte string of 1 or 2 bytes, and all 3- and 4-byte strings over the boundary bytes, through ord
    B = [0x00, 0x41, 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xc1, 0xc2, 0xdf, 0xe0, 0xe1, 0xec, 0xed, 0xee, 0xef, 0xf0, 0xf1, 0xf3, 0xf4, 0xf5, 0xf7, 0xf8, 0xff]
    seqs = [bytes([a, b]) for a in range(0x80, 256) for b in B] + [bytes([a, b, c]) for a in B[9:] for b in B[2:12] for c in B[2:12]] + [bytes([a, b, c, d]) for a in B[19:] for b in B[2:12] for c in (0x7f, 0x80, 0xbf, 0xc0) for d in (0x7f, 0x80, 0xbf, 0xc0)]
    if ck.tier == 'thorough': seqs += [bytes([a, b, c, d]) for a in range(0xe0, 256) for b in range(0x7f, 0xc2) for c in (0x7f, 0x80, 0xbf, 0xc0) for d in (0x7f, 0x80, 0xbf, 0xc0)]
    for i in range(0, len(seqs), 400):
        part = seqs[i:i + 400]
        want = []
        for s in part:
            w = 'XU'
            for n in (1, 2, 3, 4):
                try: w = str(ord(s[:n].decode('utf-8'))); break
                except (UnicodeDecodeError, TypeError): pass
            want.append(w)
        body = '    my $l = XF->us("%s");\n    for (my $i = 0; $i < @$l; $i++) { eval { say "" . Fn->ord($l->[$i]); }; if (eval_error_id) { say XF->x(eval_error_id); } }\n    $@ = undef;' % ','.join(x.hex() for x in part)
        cases.append(Case('UTF-8 sequences %d' % i, body, want))
    # is_blank: known finding (an existing test expects the present behaviour), anything else it may do is a violation
    pts = [-2**31, -3, -1] + list(range(0, 300)) + [0x3000, 0x3042, 2**31 - 1]
    doc = ''.join('%d' % (c in (9, 32)) for c in pts); now = ''.join('%d' % (c >= 32 or c <= 9) for c in pts)
    body = '    my $r = ""; ' + ' '.join('$r .= Fn->is_blank(%d);' % c for c in pts) + ' say $r;'
    cases.append(Case('is_blank is 1 for other characters than space and tab', body, lambda o: None if o.lines != [now] else 'got 1 for characters that are neither space nor tab, as before'))
    cases.append(Case('is_blank', body, lambda o: None if o.lines in ([doc], [now]) else 'got %r' % o.lines))
    ck.count('calls', sum(c.meta or 400 for c in cases))
    ck.sample(cases[0].body[:1200])
    run_and_judge(ck, drv, cases, per=40, modes=('vm',), uses='use XF; use Fn;', files=FILES)
    run_and_judge(ck, drv, [c for c in cases if c.meta][:ck.n(len(FUNCS), len(FUNCS) * 20)], per=ck.n(len(FUNCS), 90), modes=('pre',), uses='use XF; use Fn;', files=FILES, pre_opt='-O1')
    ck.assumptions = ['strtod/strtof/strtoll of the C library are the reference for numbers in strings', 'the sandbox locale is C']

vp.main('D04', check)

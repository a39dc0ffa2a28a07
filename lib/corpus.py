"""Class sources found in the repository (its tests and its library) and mutations of them."""
import re, glob, os
import vp

def _unq(s): return s.replace("\\'", "'").replace('\\\\', '\\')

def test_sources():
    """[[(class, source)...]] from the single-quoted sources of t/01_syntax"""
    out = []
    for f in sorted(glob.glob(vp.REPO + '/t/01_syntax/*.t')):
        t = open(f, encoding='utf-8', errors='surrogateescape').read()
        for m in re.finditer(r"my \$source = ('(?:[^'\\]|\\.)*'|\[(?:\s*'(?:[^'\\]|\\.)*'\s*,?)*\s*\])\s*;", t, re.S):
            ss = [_unq(x) for x in re.findall(r"'((?:[^'\\]|\\.)*)'", m.group(1), re.S)]
            g = []
            for s in ss:
                c = re.search(r'\bclass\s+([\w:]+)', s)
                if c: g.append((c.group(1), s))
            if g and len(g) == len(ss): out.append(g)
    return out

def file_sources(limit=6000, dirs=('t/02_vm/lib/SPVM', 'lib/SPVM')):
    out = []
    for d in dirs:
        for f in sorted(glob.glob(vp.REPO + '/' + d + '/**/*.spvm', recursive=True)):
            if os.path.getsize(f) <= limit:
                cls = os.path.relpath(f, vp.REPO + '/' + d)[:-5].replace('/', '::')
                out.append([(cls, open(f, encoding='utf-8', errors='surrogateescape').read())])
    return out

TOK = re.compile(r'''\s+|\#[^\n]*\n|"(?:[^"\\]|\\.)*"|'(?:[^'\\]|\\.)*'|[\$@&]?\{?[A-Za-z_][\w]*(?:::\w+)*\}?|0[xXbB][\w]+|\d[\w.]*|->|<=>|<<=|>>>=|>>=|>>>|<<|>>|\+\+|--|&&|\|\||==|!=|<=|>=|\+=|-=|\*=|/=|%=|&=|\|=|\^=|\.=|=>|\.\.\.|.''', re.S)
def toks(s): return TOK.findall(s)

WORDS = '''alias allow as basic_type_id break byte can case cmp class class_id compile_type_name copy default die divui divul double dump elsif else enum eq error_code error eval eval_error_id extends false float for ge gt has if interface int interface_t is_compile_type is_type is_read_only isa isa_error isweak length lt le last long make_read_only modui modul my mulnum_t method mutable native ne next new new_string_len of our object print private protected public precompile pointer read_only ref remui remul return required rw ro say static switch string short true type_name undef unless unweaken use version version_from void warn while weaken wo INIT DESTROY self __END__ __PACKAGE__ __FILE__ __LINE__ numeric object[] any_object args_width outmost error_id
-> ; , ( ) [ ] { } { } ( ) + - * / % ++ -- = == != < > <= >= <=> && || ! ~ ^ & | << >> >>> . .= += -= *= /= %= \\ @ @$x $x $y $_ $@ $. $$ $self $self->{x} & &m %x => : :: ... .. ? # " ' \\n \\0 \\x
0 1 -1 2147483647 2147483648 9223372036854775807L 0x 0b 0b2 0xG 08 1e 1e999 1.0f 3.4e39f 1_0 __ 1__ 99999999999999999999 0x1p3 1L 1.5 .5 5. 'a' 'ab' '' '\\x' "" "a" "\\x{110000}" "\\N{U+D800}" "\\xZ" "\\q" "@{[1]}" "${x}" "$x->{a}[0]{b}" "@" "$" "\\$" <<EOS <<'EOS' <<"EOS" <<~EOS
int[] int[][] string[] object[] Point Point[] Complex_2d int* Complex_2d* Hash List Int TA Nosuch void string mutable Stringable Fn::x SUPER SUPER::m Fn->INT_MAX A::B::C _ A__B a aB $A::B $A::_'''.split()

def mutate(rng, s, other, corpus_toks, kind=None):
    kind = kind or rng.choice(['tok', 'tok', 'tok', 'tok', 'tok', 'swaptype', 'swaptype', 'bytes', 'cut', 'splice', 'nest', 'long', 'many', 'block'])
    t = toks(s)
    if not t: return 'empty', s
    if kind == 'tok':
        for _ in range(rng.choice([1, 1, 1, 2, 3, 6])):
            i = rng.randrange(len(t))
            op = rng.randrange(5)
            if op == 0: del t[i]
            elif op == 1: t.insert(i, t[i])
            elif op == 2: j = rng.randrange(len(t)); t[i], t[j] = t[j], t[i]
            elif op == 3: t.insert(i, ' ' + rng.choice(WORDS) + ' ')
            else: t[i] = rng.choice([rng.choice(WORDS), rng.choice(corpus_toks)])
            if not t: t = ['']
        return kind, ''.join(t)
    if kind == 'swaptype':
        ids = [i for i, x in enumerate(t) if re.match(r'[\$@&]?[A-Za-z_]|\d|["\']', x)]
        for _ in range(rng.choice([1, 1, 2, 3])):
            if len(ids) < 2: break
            i = rng.choice(ids); cl = t[i][0]
            same = [x for x in (t if rng.random() < .6 else corpus_toks) if x[:1] == cl or (x[:1].isalpha() and cl.isalpha())]
            if same: t[i] = rng.choice(same)
        return kind, ''.join(t)
    if kind == 'bytes':
        b = bytearray(s.encode('utf-8', 'surrogateescape'))
        for _ in range(rng.choice([1, 1, 2, 5, 20])):
            if not b: break
            i = rng.randrange(len(b)); op = rng.randrange(4)
            if op == 0: b[i] = rng.randrange(256)
            elif op == 1: b[i] ^= 1 << rng.randrange(8)
            elif op == 2: b.insert(i, rng.choice([0, 10, 13, 34, 39, 36, 64, 92, 123, 125, 35, 0x80, 0xff, 0xc3, 61]))
            else: del b[i]
        return kind, bytes(b)
    if kind == 'cut':
        i = rng.randrange(len(s) + 1)
        return kind, s[:i] if rng.random() < .7 else s[:i] + s[min(len(s), i + rng.randrange(1, 60)):]
    if kind == 'splice':
        u = toks(other); i = rng.randrange(len(t)); j = rng.randrange(len(u) or 1)
        return kind, ''.join(t[:i] + u[j:j + rng.randrange(1, 40)] + t[i:])
    if kind == 'nest':
        n = rng.choice([20, 200, 900, 3000]); a, b = rng.choice([('(', ')'), ('{', '}'), ('[', ']'), ('!', ''), ('-', ''), ('~', ''), ('if (1) {', '}'), ('eval {', '};'), ('"@{[', ']}"'), ('(int)', ''), ('\\', ''), ('$$', ''), ('&', ''), ('1+(', ')'), ('method : void () {', '}'), ('->[', ']'), ('->{', '}'), ('copy ', ''), ('1 + ', ''), ('1 . ', ''), ('$x = ', ''), ('for (;;) {', '}'), ('switch (1) { case 1: {', '}}'), ('1 && ', ''), ('[]', ''), ('A::', '')])
        i = rng.randrange(len(t))
        mid = rng.choice(['1', '', t[i]])
        if rng.random() < .3: b = ''
        return kind + ' ' + a, ''.join(t[:i]) + a * n + mid + b * n + ''.join(t[i:])
    if kind == 'long':
        n = rng.choice([100, 255, 256, 1000, 70000]); c = rng.choice(['a', 'A', '1', '_', '$', '::', 'x0', '\\n', '\xe3\x81\x82', '#'])
        i = rng.randrange(len(t)); pre = rng.choice(['', '$', '"', "'", '0x', 'A', '->', '&', '<<'])
        return kind + ' ' + c, ''.join(t[:i]) + pre + c * n + pre[-1:] * (pre in '"\'') + ''.join(t[i:])
    if kind == 'many':
        n = rng.choice([64, 255, 256, 257, 1000]); x = rng.choice(['$a%d : int,', 'my $a%d = %d;', 'static method m%d : void () {}', 'has f%d : int;', '%d,', '"%d".', 'case %d: break;', 'my $a%d : Complex_2d;', 'our $V%d : int;', 'use Fn;', 'enum { E%d }', 'my $a%d = "s%d";', 'interface Stringable;', 'if (1) { my $a%d = "x"; }'])
        i = rng.randrange(len(t))
        return kind + ' ' + x, ''.join(t[:i]) + ' '.join(re.sub('%d', str(k), x) for k in range(n)) + ''.join(t[i:])
    # block: remove, repeat or move the text of a brace group
    op = [i for i, x in enumerate(t) if x == '{']
    if op:
        i = rng.choice(op); d, j = 0, i
        while j < len(t):
            d += (t[j] == '{') - (t[j] == '}'); j += 1
            if d == 0: break
        seg = t[i:j]; r = rng.randrange(4)
        if r == 0: t = t[:i] + t[j:]
        elif r == 1: t = t[:j] + seg + t[j:]
        elif r == 2: k = rng.randrange(len(t)); t = t[:k] + seg + t[k:]
        else: t = t[:i] + ['{'] + toks(other)[5:30] + ['}'] + t[j:]
    return kind, ''.join(t)

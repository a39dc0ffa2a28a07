"""Random programs that the compiler accepts, full of hostile values: undef, indices and lengths around and far outside the
bounds, extreme numbers, invalid strings, wrong run-time types, random calls of every bundled class."""
import re, glob, random
import vp, stmts

NUM = ['byte', 'short', 'int', 'long', 'float', 'double']
BOX = {'byte': 'Byte', 'short': 'Short', 'int': 'Int', 'long': 'Long', 'float': 'Float', 'double': 'Double'}
SKIP_CLS = {'Sync::Mutex', 'Native::Stack', 'Native::API', 'Native::Env', 'Native::MethodCall', 'Fn::Resource'}
SKIP_M = {'set_pointer', 'get_pointer', 'set_no_free', 'new_with_pointer', 'DESTROY', 'crand', 'get_time', 'time', 'get_memory_blocks_count', 'get_seed', 'to_address', 'rand', 'shuffle', 'destroy_runtime_permanent_vars',
          'print_stderr', 'say_stderr', 'destroy_class_vars', 'call_init_methods', 'set_stdout', 'set_stderr', 'set_stdin'}

class M:
    __slots__ = ('cls', 'static', 'name', 'args', 'ret')
    def __init__(s, *a): s.cls, s.static, s.name, s.args, s.ret = a; 

def strip_pod(t):
    t = re.sub(r'"(?:[^"\\]|\\.)*"', '""', t)
    return re.sub(r'#[^\n]*', '', t)

def parse_args(a):
    out = []
    for x in a.split(','):
        m = re.match(r'\s*\$(\w+)\s*:\s*(.+?)\s*(?:=\s*(.+?)\s*)?$', x, re.S)
        if m: out.append((re.sub(r'\bof [\w:\[\]|]+', '', m.group(2)).strip(), m.group(3) is not None))
    return out

def library():
    """(methods by class, interfaces: class -> required method, parents)"""
    meths, ifaces, par = [], {}, {}
    for f in sorted(glob.glob(vp.REPO + '/lib/SPVM/**/*.spvm', recursive=True)):
        t = strip_pod(open(f, encoding='utf-8').read())
        m = re.search(r'\bclass\s+([\w:]+)(?:\s+extends\s+([\w:]+))?\s*(?::\s*([\w ]+?))?\s*\{', t)
        if not m: continue
        c, at = m.group(1), m.group(3) or ''
        par[c] = m.group(2)
        if 'mulnum_t' in at: continue
        for mm in re.finditer(r'((?:\b(?:static|native|precompile|private|protected|public|required)\s+)*)method\s+(\w*)\s*:\s*([\w:\[\]\s]+?)\s*\(([^()]*)\)\s*([{;])', t):
            at2, name, ret, args = mm.group(1).split(), mm.group(2), mm.group(3), mm.group(4)
            ret = re.sub(r'\s*\bof\s.*', '', ret).strip()
            if 'interface_t' in at:
                if 'required' in at2: ifaces[c] = (ret, parse_args(args), name)
                continue
            if 'private' in at2 or 'protected' in at2 or name in SKIP_M or name.startswith('_') or c in SKIP_CLS: continue
            if name: meths.append(M(c, 'static' in at2, name, parse_args(args), ret))
    return meths, ifaces, par

INTS = ['0', '1', '-1', '2', '3', '5', '7', '8', '-2', '100', '127', '128', '255', '256', '65535', '2147483647', '(-2147483647 - 1)', '-2147483647', '1073741824', '536870912']
SMALL = ['0', '1', '2', '3', '4', '5', '-1', '8']
LONGS = ['0L', '1L', '-1L', '9223372036854775807L', '(-9223372036854775807L - 1L)', '4294967296L', '2147483648L', '-2147483649L']
DBLS = ['0.0', '-0.0', '1.5', '-2.5', '1e300', '1e-300', '(0.0 / 0.0)', '(1.0 / 0.0)', '(-1.0 / 0.0)', '2147483648.0', '-1e10', '1e20', '3.5e38']
FLTS = ['0.0f', '-0.5f', '3.4e38f', '(0.0f / 0.0f)', '(1.0f / 0.0f)', '1e-40f', '-3e9f']
STRS = ['""', '"a"', '"abc"', '"0"', '"-12"', '"9999999999"', '"1e400"', '"\\0"', '"a\\0b"', '"\\xFF\\xC3"', '"\\x{E3}\\x81"', '"\\N{U+3042}x\\N{U+1F600}"', '"%s%d%f%%"', '"%"', '"%5.3d %-08lx"', '"a,b,,c"', '"  x y\\t\\n"', '"(x2)C<*i3"', '"a3Z*l>2"', '"-z"', '"a-z"', '"Int"', '"Nosuch"', '"TA"', '"new"', '"x"', '"int[]"', '"name"', '("ab" . "c")', 'undef']
DOC = {}

CORE = {'ZNode', 'ZBase', 'ZDer', 'ZDer2', 'ZImpl', 'ZOther', 'Int', 'Long', 'Byte', 'Short', 'Float', 'Double', 'Bool', 'Point', 'Error'}

class G:
    def __init__(s, rng, lib, focus=None, lib_rate=.3):
        s.rng, s.meths, s.ifaces, s.par = rng, lib[0], lib[1], lib[2]
        s.byret = {}
        ms = [m for m in s.meths if focus is None or m.cls in focus]
        s.ms = ms
        for m in ms: s.byret.setdefault(m.ret.replace('mutable ', ''), []).append(m)
        s.uses, s.lib_rate = set(), lib_rate
        s.vars = {}                      # type -> [names]
        s.n = 0; s.loop = 0; s.infn = 0
        s.decl = []
        s.budget = 0
    def r(s, l): return s.rng.choice(l)
    def use(s, c):
        b = re.match(r'[\w:]+', c).group(0)
        if b[0].isupper(): s.uses.add(b)

    # ---- a value of the type t
    def e(s, t, d=3):
        rng = s.rng
        s.budget -= 1
        if s.budget < 0: d = 0
        t = t.strip()
        vs = s.vars.get(t)
        if vs and rng.random() < (.35 if d > 0 else .6): return rng.choice(vs)
        if t in NUM: return s.num(t, d)
        if t in ('string', 'mutable string'): return s.string(t, d)
        if t == 'object': return s.obj(d)
        if t.endswith('*'):
            b = t[:-1].strip()
            vs = s.vars.get(b)
            if vs: return '\\' + rng.choice(vs)
            return '\\' + s.newvar(b)
        if t.endswith('[]'): return s.arr(t, d)
        if re.search(r'_\d+[bsilfd]$', t) or t in ('Complex_2d', 'Complex_2f'):
            if vs: return rng.choice(vs)
            return s.newvar(t)
        return s.cls(t, d)
    def newvar(s, t):
        s.n += 1; v = '$v%d' % s.n
        s.use(t.replace('mutable ', ''))
        if t in NUM or re.search(r'_\d+[bsilfd]$', t) or t in ('Complex_2d', 'Complex_2f'): s.decl.append('my %s : %s;' % (v, t))
        elif t.endswith('*'): s.decl.append('my %s : %s = \\%s;' % (v, t, s.pick(t[:-1])))
        else: s.decl.append('my %s : %s = undef;' % (v, t))
        s.vars.setdefault(t, []).append(v)
        return v
    def num(s, t, d):
        rng = s.rng; k = rng.random()
        if d <= 0 or k < .15:
            v = rng.choice({'int': INTS, 'long': LONGS + INTS, 'byte': INTS, 'short': INTS, 'float': FLTS, 'double': DBLS}[t])
            return '(%s)%s' % (t, v) if t in ('byte', 'short') else v
        if k < .35:
            if t in ('byte', 'short'): return '(%s)(%s)' % (t, s.e('int', d - 1))
            a = s.e(t, d - 1); b = s.e(rng.choice([t] + ['byte', 'short', 'int'][:{'int': 3, 'long': 3, 'float': 3, 'double': 3}[t]]), d - 1)
            ops = ['+', '-', '*', '/'] + (['%', '&', '|', '^', 'div_u', 'mod_u'] if t in ('int', 'long') else [])
            op = rng.choice(ops)
            if op in ('div_u', 'mod_u'): op += t[0:1] and ('int' if t == 'int' else 'long')
            if op[:3] in ('div', 'mod'): b = s.e(t, d - 1)
            return '(%s %s %s)' % (a, op, b)
        if k < .40: return '(%s)(%s)' % (t, s.e(rng.choice(NUM), d - 1))
        if k < .46: return '%s->[%s]' % (s.prim(t + '[]', d - 1), s.idx(d))
        if k < .49: return '(%s)(%s)' % (t, s.prim(rng.choice(['object', BOX[t], 'object']), d - 1))
        if k < .52 and t in ('byte', 'short', 'int', 'long', 'float', 'double'): return '%s->{%s}' % (s.prim('ZNode', d - 1), t[0])
        if k < .54: return '$ZAll::%s' % t[0].upper()
        if k < .56: v = s.pick('%s*' % t); return '$' + v
        if t == 'byte' and k < .62: return '%s->[%s]' % (s.prim('string', d - 1), s.idx(d))
        if t == 'int':
            c = rng.randrange(12)
            if c == 0: return '(length (string)%s)' % s.par_(s.e('string', d - 1))
            if c == 1: return '(scalar @%s)' % s.pick(rng.choice(['int[]', 'byte[]', 'string[]', 'object[]', 'ZNode[]', 'double[]', 'int[][]']))
            if c == 2: return '(%s isa %s)' % (s.pick(rng.choice(['object', 'object', 'object', 'object'])), rng.choice(['Int', 'ZNode', 'ZDer', 'string', 'int[]', 'object[]', 'ZNode[]', 'ZFace', 'Stringable', 'double[]']))
            if c == 3: return '(%s %s %s)' % (s.e('string', d - 1), rng.choice(['eq', 'ne', 'gt', 'lt', 'ge', 'le', 'cmp']), s.e('string', d - 1))
            if c == 4: a = rng.choice(NUM); return '(%s %s %s)' % (s.e(a, d - 1), rng.choice(['==', '!=', '<', '>', '<=', '>=', '<=>']), s.e(a, d - 1))
            if c == 5: return '(%s %s %s)' % (s.e('object', d - 1), rng.choice(['==', '!=']), s.e('object', d - 1))
            if c == 6: return rng.choice(['eval_error_id', 'args_width', 'error_code' if 0 else '__LINE__', '(basic_type_id Int)', '(outmost_x)' if 0 else '0'])
            if c == 7: return '(is_read_only %s)' % s.pick('string')
            if c == 8: return '(isweak %s->{weaknext})' % s.pick('ZNode')
            if c == 9: return '(%s %s (%s))' % (s.e('int', d - 1), rng.choice(['<<', '>>', '>>>']), rng.choice(['0', '1', '5', '31']))
            if c == 10: return rng.choice(['(!%s)', '(!!%s)', '(~%s)', '(-%s)']) % s.e('int', d - 1)
            if c == 11: return '(can %s only_der)' % s.pick('ZBase') if 0 else '(%s is_type %s)' % (s.pick('object'), rng.choice(['Int', 'string', 'int[]', 'ZNode', 'object[]']))
        return s.call(t, d) or s.num(t, d - 1)
    def idx(s, d):
        rng = s.rng; k = rng.random()
        if k < .5: return rng.choice(SMALL)
        if k < .65: return s.pick('int')
        if k < .8: return rng.choice(INTS)
        return s.e(rng.choice(['int', 'int', 'byte', 'short']), d - 1)
    def ln(s, d):
        k = s.rng.random()
        if k < .6: return s.r(['0', '1', '2', '3', '5', '8', '20'])
        if k < .75: return s.r(['-1', '(-2147483647 - 1)', '100', '65537', '-5'])
        if k < .8: return s.r(['2147483647', '1073741824', '536870911'])
        return '(%s %% 50)' % s.e('int', d - 1)
    def pick(s, t):
        vs = s.vars.get(t)
        return s.rng.choice(vs) if vs else s.newvar(t)
    def prim(s, t, d):
        """something that can stand before ->"""
        if s.rng.random() < .6 or d <= 0: return s.pick(t)
        x = s.e(t, d)
        if x == 'undef' or t in BOX.values() or not x.startswith('$') : return s.pick(t) if x == 'undef' else '((%s)%s)' % (t, x) if not x.startswith('((') else x
        return x
    def string(s, t, d):
        rng = s.rng; k = rng.random()
        if t == 'mutable string':
            if d <= 0 or k < .2: return rng.choice(['undef', '(mutable string)(new_string_len %s)' % s.ln(d)]) if rng.random() < .3 else '(mutable string)(copy %s)' % rng.choice(STRS[:-1])
            if k < .5: return '(mutable string)(copy %s)' % s.pick('string')
            if k < .8: return '(mutable string)(new_string_len %s)' % s.ln(d)
            return '(mutable string)%s' % s.pick('string')
        if d <= 0 or k < .25: return rng.choice(STRS)
        if k < .33: return '(%s . %s)' % (s.e('string', d - 1), s.e(rng.choice(['string', 'string', 'int', 'double', 'long', 'byte', 'float']), d - 1))
        if k < .37: return '(copy %s)' % s.pick('string')
        if k < .40: return '(new_string_len %s)' % s.ln(d)
        if k < .44: return '%s->[%s]' % (s.prim('string[]', d - 1), s.idx(d))
        if k < .47: return '%s->{str}' % s.prim('ZNode', d - 1)
        if k < .49: return '$ZAll::STR'
        if k < .52: return '(string)%s' % s.par_(s.e(rng.choice(NUM), d - 1))
        if k < .55: return '(string)%s' % s.par_(s.e('byte[]', d - 1))
        if k < .58: return '(string)%s' % s.pick('object')
        if k < .60: return '(type_name %s)' % s.pick('object')
        if k < .62: return '(dump %s)' % s.pick(rng.choice(['object', 'ZNode', 'object[]', 'string[]', 'int[]', 'string']))
        if k < .63: return '$@'
        if k < .65: return '"<%s>"' % rng.choice([s.pick('int'), s.pick('string'), s.pick('double')])
        if k < .66: return rng.choice(['__FILE__', '__PACKAGE__', '(compile_type_name %s)' % s.pick('object')])
        return s.call('string', d) or s.string(t, d - 1)
    def par_(s, x): return x if re.fullmatch(r'\$?\w+|\(.*\)|".*"', x) else '(%s)' % x
    def obj(s, d):
        rng = s.rng; k = rng.random()
        if d <= 0 or k < .15: return rng.choice(['undef', s.pick('object')])
        if k < .35: return s.e(rng.choice(['string', 'int[]', 'object[]', 'ZNode', 'ZDer', 'ZImpl', 'byte[]', 'string[]', 'int[][]', 'ZNode[]', 'Z_3i[]', 'double[]', 'Point', 'mutable string', 'float[]']), d - 1)
        if k < .55: t = rng.choice(NUM); return '(object)%s' % s.par_(s.e(t, d - 1))
        if k < .62: return '%s->[%s]' % (s.prim('object[]', d - 1), s.idx(d))
        if k < .66: return '%s->{o}' % s.prim('ZNode', d - 1)
        if k < .70: return '(copy %s)' % s.pick(rng.choice(['int[]', 'double[]', 'string', 'byte[]']))
        if k < .76: return s.cls(rng.choice(sorted(s.ifaces)), d - 1)
        return s.call('object', d) or s.anyobj(d)
    def anyobj(s, d):
        m = s.r(s.ms) if s.ms else None
        if m and m.ret[:1].isupper(): return s.callm(m, d)
        return s.e('ZNode', d - 1)
    def arr(s, t, d):
        rng = s.rng; b = t[:-2]; k = rng.random()
        if k < .1 or d < -1: return 'undef'
        if b not in ('object',) : s.use(b)
        if re.search(r'_\d+[bsilfd]$', b) or b in ('Complex_2d', 'Complex_2f'):
            return 'new %s[%s]' % (b, s.ln(d)) if k < .7 else 'undef'
        if k < .45 or d <= 0: return '(%s)(new %s[%s])' % (t, b, s.ln(d)) if b != 'any' else 'undef'
        if k < .7:
            if b in NUM: return '[%s]' % ', '.join('(%s)%s' % (b, s.par_(s.e(b, d - 1))) for _ in range(rng.choice([1, 2, 3, 5])))
            if b == 'string': return '[%s]' % ', '.join(['"q"'] + [s.e(b, d - 1) for _ in range(rng.choice([0, 1, 3]))])
            if b == 'object': return '[%s]' % ', '.join(['(object)1'] + ['(object)%s' % s.par_(s.e(rng.choice(['string', 'int', 'double', 'object', 'ZNode', 'int[]', 'string', 'long']), d - 1)) for _ in range(rng.choice([0, 1, 2, 3]))])
        if k < .8 and '[]' not in b: return '(%s)%s' % (t, s.pick('object'))
        if k < .85 and b in NUM + ['string', 'object', 'ZNode']: return '(copy %s)' % s.pick(t) if b in NUM else s.pick(t)
        return s.call(t, d) or 'undef'
    def anon(s, iface, d):
        ret, args, name = s.ifaces[iface]
        if s.infn > 0 or s.rng.random() < .1: return 'undef'
        s.use(iface)
        save, sl, sd = dict((k, list(v)) for k, v in s.vars.items()), s.loop, s.decl
        outer = [(k, v) for k, l in s.vars.items() for v in l if not k.endswith('*') and not re.search(r'_\d+[bsilfd]$', k)]
        caps = s.rng.sample(outer, min(len(outer), s.rng.choice([0, 0, 1, 2])))
        s.vars = {}; s.loop = 0; s.decl = []; s.infn += 1
        for k, v in caps: s.vars.setdefault(k, []).append(v)
        for i, (t, _) in enumerate(args): s.vars.setdefault(t, []).append('$a%d' % i)
        body = [s.stmt(d - 1) for _ in range(s.rng.choice([0, 0, 1, 2]))]
        if ret != 'void': body.append('return %s;' % s.e(ret, min(d - 1, 2)))
        elif s.rng.random() < .2: body.append('die "cb";')
        if s.rng.random() < .1: body.insert(0, 'if (%s) { die "cb2"; }' % s.e('int', 1))
        txt = '%smethod : %s (%s) { %s %s }' % ('[%s] ' % ', '.join('%s : %s' % (v, k) for k, v in caps) if caps else '', ret, ', '.join('$a%d : %s' % (i, t) for i, (t, _) in enumerate(args)), ' '.join(s.decl), ' '.join(body))
        s.vars, s.loop, s.decl = save, sl, sd; s.infn -= 1
        return '((%s)%s)' % (iface, txt)
    def cls(s, t, d):
        rng = s.rng
        s.use(t)
        k = rng.random()
        if k < .07 or d < -1: return 'undef'
        if t in ('Cloneable', 'Stringable', 'Comparable', 'EqualityCheckable'): s.use('ZCmp'); return rng.choice(['ZCmp->new(%s)' % s.e('int', d - 1), '(%s)%s' % (t, s.pick('object'))])
        if t in s.ifaces: return s.anon(t, d)
        if t in BOX.values():
            b = [x for x in BOX if BOX[x] == t][0]
            if k < .7: return '(%s)%s' % (t, s.par_(s.e(b, d - 1)))
        if t in BOX.values(): return rng.choice(['(%s)%s' % (t, s.pick('object')), s.pick(t)])
        if k < .15 and d > 0: return '(%s)%s' % (t, s.pick('object'))
        if t == 'ZNode':
            if k < .3 and d > 0: return '%s->{%s}' % (s.prim('ZNode', d - 1), rng.choice(['next', 'weaknext']))
            if k < .4 and d > 0: return '%s->[%s]' % (s.prim('ZNode[]', d - 1), s.idx(d))
            return 'ZNode->new'
        if t in ('ZBase', 'ZDer', 'ZDer2', 'ZOther'): return rng.choice(['ZDer->new', 'ZDer2->new', 'ZBase->new']) if t == 'ZBase' else '%s->new' % t
        if t == 'ZImpl': return 'ZImpl->new(%s)' % s.e('int', d - 1)
        if t == 'Point': return 'Point->new(%s)' % s.e('int', d - 1)
        if t == 'Error': return '(Error)undef'
        ms = [m for m in s.byret.get(t, []) if m.static]
        if not ms: ms = [m for m in s.meths if m.ret == t and m.static]
        if ms and d > -2: return s.callm(rng.choice(ms), d)
        return '(%s)undef' % t
    def call(s, t, d):
        if d <= 0 or s.rng.random() > s.lib_rate * 2: return None
        ms = s.byret.get(t)
        return s.callm(s.r(ms), d) if ms else None
    def callm(s, m, d):
        s.use(m.cls)
        n = len(m.args)
        req = len([a for a in m.args if not a[1]])
        k = s.rng.randint(req, n)
        if any(re.search(r'\bvoid\b', a[0]) for a in m.args): return 'undef'
        a = []
        for t, _ in m.args[:k]:
            if t == 'int' and s.rng.random() < .5: a.append(s.idx(d))
            else: a.append(s.e(t, d - 1 if len(m.args) < 4 else 0))
        inv = m.cls if m.static else s.prim(m.cls, d - 1)
        return '%s->%s(%s)' % (inv, m.name, ', '.join(a)) if a or s.rng.random() < .5 else '%s->%s' % (inv, m.name)
    # ---- statements
    def lval(s, d):
        rng = s.rng; k = rng.randrange(12)
        if k < 4:
            ts = [t for t in s.vars if not t.endswith('*') and not re.search(r'_\d+[bsilfd]$', t)]
            if ts: t = rng.choice(ts); return t, rng.choice(s.vars[t])
        if k == 4: t = rng.choice(NUM); return t, '%s->[%s]' % (s.pick(t + '[]'), s.idx(d))
        if k == 5: t = rng.choice(['string', 'object', 'ZNode']); return t, '%s->[%s]' % (s.pick(t + '[]'), s.idx(d))
        if k == 6: f, t = rng.choice([('b', 'byte'), ('s', 'short'), ('i', 'int'), ('l', 'long'), ('f', 'float'), ('d', 'double'), ('str', 'string'), ('o', 'object'), ('ia', 'int[]'), ('oa', 'object[]')]); return t, '%s->{%s}' % (s.pick('ZNode'), f)
        if k == 7: return 'ZNode', '%s->{%s}' % (s.pick('ZNode'), rng.choice(['next', 'weaknext']))
        if k == 8: f, t = rng.choice([('B', 'byte'), ('I', 'int'), ('L', 'long'), ('D', 'double'), ('STR', 'string'), ('O', 'object'), ('N', 'ZNode'), ('IA', 'int[]')]); return t, '$ZAll::' + f
        if k == 9: return 'byte', '%s->[%s]' % (s.pick('mutable string'), s.idx(d))
        if k == 10: return 'int', '%s->[%s][%s]' % (s.pick('int[][]'), s.idx(d), s.idx(d))
        if k == 11: t = rng.choice(['int', 'double', 'byte', 'long']); return t, '$' + s.pick(t + '*')
        t = rng.choice(NUM); return t, s.pick(t)
    def block(s, d, n=2):
        save = {k: list(v) for k, v in s.vars.items()}; sd = s.decl; s.decl = []
        b = [s.stmt(d) for _ in range(s.rng.randint(1, n))]
        out = '{ %s %s }' % (' '.join(s.decl), ' '.join(b))
        s.vars, s.decl = save, sd
        return out
    def stmt(s, d=3):
        s.budget = 25
        rng = s.rng; k = rng.random()
        if k < .34 or d <= 0:
            t, l = s.lval(d)
            if t in NUM and rng.random() < .3:
                if t in ('byte', 'short') : return rng.choice(['%s++;', '--%s;', '++%s;']) % l if not l.startswith('$$') else '%s = (%s)1;' % (l, t)
                return '%s %s= %s;' % (l, rng.choice(['+', '-', '*']), s.e(t, d - 1)) if rng.random() < .7 or l.startswith('$$') else '%s++;' % l
            if t == 'string' and rng.random() < .2: return '%s .= %s;' % (l, s.e('string', d - 1))
            return '%s = %s;' % (l, s.e(t, d))
        if k < .62:
            ms = s.ms
            if ms and rng.random() < .85:
                m = rng.choice(ms); c = s.callm(m, d)
                return c + ';' if c != 'undef' else ';'
            return 'say (%s);' % s.e('string', d) if 0 else 'ZAll->w2(%s, %s);' % (s.e('int', d), s.e('string', d))
        if k < .68: return 'eval %s; $@ = undef;' % s.block(d - 1, 3).replace('{', '{', 1)
        if k < .73:
            c = s.e(rng.choice(['int', 'string', 'object', 'double', 'long', 'float', 'byte']), 2)
            x = '%s (%s) %s' % (rng.choice(['if', 'unless']), c, s.block(d - 1))
            return x + (' else %s' % s.block(d - 1) if rng.random() < .4 else '')
        if k < .78:
            s.n += 1; v = '$i%d' % s.n
            s.vars.setdefault('int', []).append(v); s.loop += 1
            b = s.block(d - 1, 2)
            s.loop -= 1; s.vars['int'].remove(v)
            c = '$c%d' % s.n; s.decl.append('my %s = 0;' % c)
            return 'for (my %s = %s; %s < %s; %s++) { if (++%s > 6) { last; } %s }' % (v, rng.choice(['0', '-2', '1']), v, rng.choice(['3', '5', s.pick('int')]), v, c, b[1:-1])
        if k < .80 and s.loop: return rng.choice(['last;', 'next;', 'if (%s) { last; }' % s.e('int', 1), 'if (%s) { next; }' % s.e('int', 1)])
        if k < .82: return 'if (%s) { return%s; }' % (s.e('int', 1), '') if not s.infn else ';'
        if k < .84: return 'if (%s) { die %s%s; }' % (s.e('int', 1), rng.choice(['', '', '%s, ' % s.e('int', 1), 'basic_type_id Error, ' if 0 else '']), s.e('string', 2))
        if k < .86: v = s.pick('ZNode'); return '%s %s->{%s};' % (rng.choice(['weaken', 'unweaken']), v, rng.choice(['weaknext', 'weaknext', 'next', 'o', 'str', 'ia', 'oa']))
        if k < .88: return 'make_read_only %s;' % s.pick(rng.choice(['string', 'mutable string']))
        if k < .91:
            t = rng.choice(['int', 'double', 'string', 'ZNode', 'byte', 'object']); s.n += 1; v = '$e%d' % s.n
            s.vars.setdefault(t, []).append(v); b = s.block(d - 1, 2); s.vars[t].remove(v)
            c = '$c%d' % s.n; s.decl.append('my %s = 0;' % c)
            return 'for my %s (@%s) { if (++%s > 6) { last; } %s }' % (v, s.pick(t + '[]'), c, b[1:-1])
        if k < .93: return 'switch (%s) { case 0: { %s } case 1: %s case 2147483647: { } default: %s }' % (s.e('int', 2), s.stmt(d - 1), s.block(d - 1), s.block(d - 1))
        if k < .96:
            m = s.pick('Z_3i'); f = rng.choice('xyz')
            return rng.choice(['%s->{%s} = %s;' % (m, f, s.e('int', d - 1)), '%s = %s->[%s];' % (m, s.pick('Z_3i[]'), s.idx(d)), '%s->[%s] = %s;' % (s.pick('Z_3i[]'), s.idx(d), m), '%s->[%s]{%s} = %s;' % (s.pick('Z_3i[]'), s.idx(d), f, s.e('int', d - 1)), '%s = %s->[%s]{%s};' % (s.pick('int'), s.pick('Z_3i[]'), s.idx(d), f)])
        t = rng.choice(['ZNode', 'object', 'string', 'int[]', 'object[]', 'string[]', 'mutable string', 'byte[]', 'double[]', 'ZNode[]', 'int[][]'])
        return '%s = %s;' % (s.pick(t), s.e(t, d))

def program(rng, lib, focus=None, nst=None, show=True):
    """a class source TA with t_0 and the classes used"""
    g = G(rng, lib, focus)
    for t in ('int', 'double', 'long', 'byte', 'string', 'mutable string', 'object', 'ZNode', 'int[]', 'object[]', 'byte[]', 'string[]', 'ZNode[]', 'int[][]', 'Z_3i', 'Z_3i[]', 'double[]'):
        for _ in range(rng.choice([1, 1, 2])): g.newvar(t)
    if focus:
        for c in focus:
            if any(m.cls == c and not m.static for m in g.ms): g.newvar(c)
    body = []
    for t, vs in list(g.vars.items()):
        for v in vs:
            if t not in ('Z_3i',) and rng.random() < .7: g.budget = 10; body.append('eval { %s = %s; };' % (v, g.e(t, 2)))
    for _ in range(nst or rng.choice([4, 8, 15])):
        if rng.random() < .75: body.append('eval { %s };' % g.stmt(3))
        else: body.append(g.stmt(3))
        if show and rng.random() < .4:
            t = rng.choice(['int', 'string', 'double', 'long', 'byte'])
            body.append('say ">" . %s;' % g.pick(t))
            body.append('if ($@) { say "E" . eval_error_id . $@; $@ = undef; }')
    body.append('$@ = undef; ZAll->reset; say "end";')
    return '\n    '.join(g.decl) + '\n    ' + '\n    '.join(body), sorted(g.uses)

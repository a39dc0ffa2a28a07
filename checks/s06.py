import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import re, random, struct, tempfile, shutil
import vp, session as se

NUM = ['byte', 'short', 'int', 'long', 'float', 'double']
CAT = {'num': 3, 'mulnum': 4, 'class': 6, 'interface': 7}
class K:
    """a declared class"""
    def __init__(s, name, kind): s.name, s.kind, s.parent, s.version, s.ifs, s.fields, s.vars, s.methods, s.anons, s.pointer, s.src, s.nanon = name, kind, None, None, [], [], [], {}, [], 0, "", 0  #''
class M:
    def __init__(s, name, ret, args, cls=1, native=0, pre=0, enum=0): s.name, s.ret, s.args, s.cls, s.native, s.pre, s.enum = name, ret, args, cls, native, pre, enum

def norm(t):
    """type -> name^dimension/flag"""
    fl = 0
    if t.startswith('mutable '): fl |= 2; t = t[8:]
    if t.endswith('*'): fl |= 1; t = t[:-1]
    d = t.count('[]'); t = t.replace('[]', '')
    return '%s^%d/%d' % (t, d, fl)
def bits(t, v):
    if t == 'float': return struct.unpack('<I', struct.pack('<f', v))[0]
    if t == 'double': return struct.unpack('<Q', struct.pack('<d', v))[0]
    return v & {'byte': 0xff, 'short': 0xffff, 'int': 0xffffffff}.get(t, (1 << 64) - 1)
MASK = {'byte': 8, 'short': 16, 'int': 32, 'float': 32, 'long': 64, 'double': 64}

def world(rng, n):
    """classes with every kind of member; a class may only name what was made before it"""
    P = 'W%d' % n
    mul = K(rng.choice([P + 'Mul_%d%s', P + '::Mul_%d%s']), 'mulnum'); t = rng.choice(NUM); nf = rng.randrange(1, 5)
    mul.name = mul.name % (nf, {'byte': 'b', 'short': 's', 'int': 'i', 'long': 'l', 'float': 'f', 'double': 'd'}[t])
    mul.fields = [('m%d' % i if rng.random() < .5 else 'q_%d' % (9 - i), t, None) for i in range(nf)]
    mul.src = 'class %s : mulnum_t { %s }' % (mul.name, ' '.join('has %s : %s;' % f[:2] for f in mul.fields))
    ks = [mul]
    order = rng.sample(['I', 'I', 'C', 'C', 'C', 'C', 'C'], rng.randrange(3, 8))
    obj = lambda: rng.choice(['string', 'mutable string', 'object', 'int[]', 'string[]', 'object[]', 'double[][]', 'byte[][][]', 'Int', mul.name + '[]'] + [k.name for k in ks if k.kind != 'mulnum'] + [k.name + '[]' for k in ks if k.kind != 'mulnum'])
    anyt = lambda: rng.choice(NUM) if rng.random() < .45 else obj()
    seen = set()
    def name(up=False):
        while 1:
            x = rng.choice(['a', 'b', 'foo', 'Bar', 'x9', '_u', 'get', 'long_name_of_a_member', 'zz', 'A', 'n', 'o_k', 'E', 'method_x', 'Z'])
            x = x + (str(rng.randrange(60)) if rng.random() < .7 else '')
            if up: x = x.upper()
            if x.lower() not in seen and x not in ('get', 'E') and '__' not in x and not (up and x.startswith('_')): seen.add(x.lower()); return x
    def args(inst, k):
        out = []; opt = False
        for i in range(rng.choice([0, 0, 1, 2, 3, 5])):
            opt = opt or rng.random() < .25
            nm = '$' + name().lower()
            if opt:
                t = anyt()
                if t.endswith('*') or t == mul.name: t = 'int'
                if t in ('float', 'double'): v = rng.choice([0.0, 1.5, 3.0, 1e10]); out.append((nm, t, 'opt', v, repr(v) + ('f' if t == 'float' else '')))
                elif t in NUM: v = rng.choice([0, 1, 100, 127]); v = v if t != 'long' else rng.choice([0, 1 << 40, 7]); out.append((nm, t, 'opt', v, '%d%s' % (v, 'L' if t == 'long' else '')))
                else: out.append((nm, t, 'opt', None, 'undef'))
            else:
                t = rng.choice([anyt(), anyt(), mul.name, rng.choice(NUM) + '*', mul.name + '*'])
                out.append((nm, t, None, None, None))
        return out
    sig = lambda a: ', '.join('%s : %s%s' % (n, t, ' = %s' % d if o else '') for n, t, o, v, d in a)
    for c, o in enumerate(order):
        k = K('%s%s' % (P, rng.choice(['%s', '::%s', '::Sub::%s']) % ('K%d' % c)), 'interface' if o == 'I' else 'class')
        seen = {'new'}
        self_t = k.name
        body = []; methods = k.methods; pre = int(k.kind == 'class' and rng.random() < .3)
        attrs = []
        if k.kind == 'interface':
            a = args(1, k); r = rng.choice(['void', anyt()]); nm = name().lower()
            methods[nm] = M(nm, r, [('$self', self_t, None, None, None)] + a, 0); body.append('required method %s : %s (%s);' % (nm, r, sig(a)))
            k.req = (nm, r, a); attrs.append('interface_t')
        else:
            cl = [x for x in ks if x.kind == 'class' and not x.pointer]
            if cl and rng.random() < .5: k.parent = rng.choice(cl)
            if rng.random() < .4: k.version = '%d.%03d' % (rng.randrange(20), rng.randrange(1000)); body.append('version "%s";' % k.version)
            if rng.random() < .15 and not k.parent: k.pointer = 1; attrs.append('pointer')
            if rng.random() < .3: attrs.append('public')
            if pre: attrs.append('precompile')
            if k.parent: seen |= {f[0].lower() for f in k.parent.allf}; seen |= {m.lower() for x in chain(k.parent) for m in x.methods}
            for _ in range(rng.choice([0, 1, 3, 6])):
                nm = name(True); t = anyt(); at = rng.choice(['', 'ro', 'rw', 'wo']); ac = rng.choice(['', 'public', 'private', 'protected'])
                k.vars.append(('$' + nm, t)); body.append('our $%s : %s %s %s;' % (nm, at, ac, t)); T = 'int' if t in ('byte', 'short') else t
                if at in ('ro', 'rw'): methods[nm] = M(nm, T, [], 1, 0, pre)
                if at in ('wo', 'rw'): methods['SET_' + nm] = M('SET_' + nm, 'void', [('?', T, None, None, None)], 1, 0, pre)
            for _ in range(rng.choice([0, 1, 3, 6, 12])) if not k.pointer else range(0):
                nm = name(); t = anyt(); at = rng.choice(['', 'ro', 'rw', 'wo']); ac = rng.choice(['', 'public', 'private', 'protected'])
                k.fields.append((nm, t, None)); body.append('has %s : %s %s %s;' % (nm, at, ac, t)); T = 'int' if t in ('byte', 'short') else t
                if at in ('ro', 'rw'): methods[nm] = M(nm, T, [('$self', self_t, None, None, None)], 0, 0, pre)
                if at in ('wo', 'rw'): methods['set_' + nm] = M('set_' + nm, 'void', [('$self', self_t, None, None, None), ('?', T, None, None, None)], 0, 0, pre)
            for _ in range(rng.choice([0, 1, 2, 5])):
                nm = name(); inst = rng.random() < .5; a = args(inst, k); r = rng.choice(['void', anyt(), mul.name]); nat = int(rng.random() < .25)
                methods[nm] = M(nm, r, ([('$self', self_t, None, None, None)] if inst else []) + a, int(not inst), nat, int(pre and not nat))
                q = 'my $r : %s; return $r;' % r if r != 'void' else ''
                body.append('%s %s%smethod %s : %s (%s)%s' % (rng.choice(['', 'public', 'private']) if 1 else '', '' if inst else 'static ', 'native ' if nat else '', nm, r, sig(a), ';' if nat else ' { %s }' % q))
            if rng.random() < .4:
                en = [name(True) for _ in range(rng.randrange(1, 5))]; body.append('enum { %s }' % ', '.join(e + rng.choice(['', ' = %d' % rng.randrange(100)]) for e in en))
                for e in en: methods[e] = M(e, 'int', [], 1, 0, 0, 1)
            if rng.random() < .3: body.append('INIT { }')
            if rng.random() < .3: body.append('method DESTROY : void () { }'); methods['DESTROY'] = M('DESTROY', 'void', [('$self', self_t, None, None, None)], 0, 0, pre)
            fs = [x for x in ks if x.kind == 'interface' and x.req[0].lower() not in seen and x.req[0].lower() not in {m.lower() for m in methods}]
            if fs and rng.random() < .6:
                i = rng.choice(fs); k.ifs.append(i); body.append('interface %s;' % i.name); nm, r, a = i.req
                methods[nm] = M(nm, r, [('$self', self_t, None, None, None)] + a, 0, 0, pre)
                body.append('method %s : %s (%s) { %s }' % (nm, r, sig(a), '' if r == 'void' else 'my $r : %s; return $r;' % r))
            ka = rng.choice([0, 0, 1, 3])
            if ka:
                nm = name(); methods[nm] = M(nm, 'void', [], 1, 0, pre); seen.add(nm)
                body.append(('static method %s : void () {' % nm) + ''.join('\nmy $c%d = method : int () { return %d; };' % (i, i) for i in range(ka)) + '\n}')
            k.nanon = ka
        k.allf = (k.parent.allf if k.parent else []) + k.fields
        methods.setdefault('INIT', M('INIT', 'void', [], 1, 0, 0))
        rng.shuffle(body) if False else None
        k.src = 'class %s%s%s {\n%s\n%s\n}' % (k.name, ' extends ' + k.parent.name if k.parent else '', ' : ' + ' '.join(attrs) if attrs else '', 'use Int; ' + ' '.join('use %s;' % x.name for x in ks), '\n'.join(body))
        ks.append(k)
    mul.nanon = 0; mul.allf = mul.fields; mul.methods['INIT'] = M('INIT', 'void', [], 1, 0, 0)
    return ks
def chain(k):
    while k: yield k; k = k.parent

def check_dump(k, out, ks):
    """compares the dump through the C API with the declaration"""
    T = {}
    w = lambda **a: None
    if not out or out[0] == '@D none': return 'the class is not known'
    g = re.match(r'@D class (\S+) id (-?\d+) cat (\d+) parent (\S+) version (.*?) file (\S+) rel (\S+) dir (\S+) anon (\d) pointer (\d)$', out[0])
    if not g: return 'unexpected ' + out[0]
    rel = k.name + '.spvm'  # as the driver names a source given in memory
    exp = (k.name, str({'mulnum': 4, 'class': 6, 'interface': 7}[k.kind]), k.parent.name if k.parent else '-', k.version or '-', rel, '0', str(k.pointer))
    got = (g[1], g[3], g[4], g[5], g[7], g[9], g[10])
    if got != exp: return 'class: got %r, declared %r' % (got, exp)
    if out[1] != '@D byid 1 cur 1': return out[1]
    vs = [l for l in out if l.startswith('@D var')]
    ev = ['@D var %d %s %s byname 1 cur 1' % (i, n, norm(t)) for i, (n, t) in enumerate(k.vars)]
    if vs != ev: return 'class variables: got %r, declared %r' % (vs, ev)
    fs = [re.sub(r' offset \d+', '', l) for l in out if l.startswith('@D field')]
    ef = ['@D field %d %s %s byname 1 cur %s' % (i, f[0], norm(f[1]), k.name) for i, f in enumerate(k.allf)]
    if fs != ef: return 'fields: got %r, declared %r' % (fs, ef)
    offs = [int(x) for l in out if l.startswith('@D field') for x in re.findall(r'offset (\d+)', l)]
    if k.kind == 'class' and len(set(offs)) != len(offs): return 'two fields have one offset: %r' % offs
    ms = []; i = 0
    for l in out:
        if l.startswith('@D method'): ms.append([l])
        elif l.startswith('@D arg'): ms[-1].append(l)
    if len(ms) != len(k.methods): return 'methods: got %r, declared %r' % (sorted(m[0].split()[3] for m in ms), sorted(k.methods))
    for i, m in enumerate(ms):
        nm = m[0].split()[3]; d = k.methods.get(nm)
        if not d: return 'method %s is not declared' % nm
        e = '@D method %d %s %s args %d required %d class %d anon 0 native %d precompile %d enum %d byname 1 cur 1' % (i, nm, norm(d.ret), len(d.args), sum(1 for a in d.args if not a[2]), d.cls, d.native, d.pre, d.enum)
        if m[0] != e: return 'method: got %r, declared %r' % (m[0], e)
        if len(m) != 1 + len(d.args): return 'method %s: %d arguments' % (nm, len(m) - 1)
        st = 0
        for j, (l, a) in enumerate(zip(m[1:], d.args)):
            g = re.match(r'@D arg (\d+) (\S+) (\S+) optional (\d) stack (\d+) cur 1 default (-?\d+)$', l)
            if not g: return 'argument %r' % l
            df = int(g[6]) & ((1 << MASK.get(a[1], 64)) - 1)
            got = (int(g[1]), g[2] if a[0] != '?' else '?', g[3], int(g[4]), int(g[5]), df); e = (j, a[0], norm(a[1]), int(bool(a[2])), st, bits(a[1], a[3]) if a[2] and a[3] is not None else 0)
            if got != e: return 'method %s: argument got %r, declared %r' % (nm, got, e)
            mul = ks[0]; st += len(mul.fields) if a[1] == mul.name else 1
    an = [l for l in out if l.startswith('@D anon')]
    if len(an) != k.nanon: return 'anonymous classes: %r' % an
    rest = [l for l in out[2:] if not re.match(r'@D (var|field|method|arg|anon) ', l)]
    e = sorted(['@D has_interface %s' % x.name for x in (k.ifs + [i for p in chain(k.parent) for i in p.ifs] + ([k] if k.kind == 'interface' else []))] + ['@D super %s' % p.name for p in chain(k.parent)])
    if sorted(set(rest)) != sorted(set(e)): return 'super classes and interfaces: got %r, declared %r' % (rest, e)

# the same through the Native:: classes
RD = r'''class RD : public {
use Native::Compiler; use Native::ClassFile; use Native::Runtime; use Native::BasicType; use Native::Method; use Native::Field; use Native::ClassVar; use Native::Arg; use Mon; use Fn; use Address;
static method t : string ($b : Native::BasicType, $d : int, $f : int) { return $b->get_name . "^" . $d . "/" . $f; }
static method rt : void ($v : object, $b : Native::BasicType) {
  my $s = dump $v; my $i = Fn->index($s, "runtime => ", 0);
  if ($i >= 0) { unless (Fn->index($s, "runtime => Native::Runtime ", 0) == $i) { say "@D the runtime of a " . type_name $v . " is a " . Fn->substr($s, $i + 11, 20); } } }
static method d : string ($s : string) { if ($s) { return $s; } return "-"; }
static method dump : void ($rt : Native::Runtime, $name : string) {
  my $b = $rt->get_basic_type_by_name($name);
  my $parent = $b->get_parent; my $p = "-"; if ($parent) { $p = $parent->get_name; }
  say "@D class " . $b->get_name . " id " . $b->get_id . " cat " . $b->get_category . " parent $p version " . &d($b->get_version_string) . " file x rel " . &d($b->get_class_rel_file) . " dir " . &d($b->get_class_dir) . " anon " . $b->is_anon . " pointer " . $b->is_pointer;
  my $same = $rt->get_basic_type_by_id($b->get_id);
  say "@D byid " . ($same->get_name eq $name) . " cur 1";
  for my $v (@{$b->get_class_vars}) { my $n = $b->get_class_var_by_name($v->get_name); &rt($v, $b); say "@D var " . $v->get_index . " " . $v->get_name . " " . &t($v->get_basic_type, $v->get_type_dimension, $v->get_type_flag) . " byname " . ($n->get_index == $v->get_index) . " cur " . ($v->get_current_basic_type->get_id == $b->get_id); }
  for my $v (@{$b->get_fields}) { my $n = $b->get_field_by_name($v->get_name); &rt($v, $b); say "@D field " . $v->get_index . " " . $v->get_name . " " . &t($v->get_basic_type, $v->get_type_dimension, $v->get_type_flag) . " byname " . ($n->get_index == $v->get_index) . " cur " . $v->get_current_basic_type->get_name; }
  for my $m (@{$b->get_methods}) {
    my $n = $b->get_method_by_name($m->get_name);
    say "@D method " . $m->get_index . " " . $m->get_name . " " . &t($m->get_return_basic_type, $m->get_return_type_dimension, $m->get_return_type_flag) . " args " . $m->get_args_length . " required " . $m->get_required_args_length . " class " . $m->is_class_method . " anon " . $m->is_anon . " native " . $m->is_native . " precompile " . $m->is_precompile . " enum " . $m->is_enum . " byname " . ($n->get_index == $m->get_index) . " cur " . ($m->get_current_basic_type->get_id == $b->get_id);
    for (my $i = 0; $i < $m->get_args_length; $i++) {
      my $a = $m->get_arg_by_index($i); my $v = 0L; my $bt = $a->get_basic_type->get_name; my $num = !$a->get_type_dimension;
      if ($a->is_optional && $num) {
        if ($bt eq "byte") { $v = $a->get_default_value_byte; } elsif ($bt eq "short") { $v = $a->get_default_value_short; } elsif ($bt eq "int") { $v = $a->get_default_value_int; } elsif ($bt eq "long") { $v = $a->get_default_value_long; }
        elsif ($bt eq "float") { $v = Mon->float_bits($a->get_default_value_float); } elsif ($bt eq "double") { $v = Mon->double_bits($a->get_default_value_double); } else { if ($a->get_default_value_object) { $v = -1; } }
      }
      say "@D par " . $a->get_index . " " . &t($a->get_basic_type, $a->get_type_dimension, $a->get_type_flag) . " optional " . $a->is_optional . " default " . $v;
    }
  }
  for (my $i = 0; $i < $b->get_anon_basic_types_length; $i++) { say "@D anon $i " . $b->get_anon_basic_type_by_index($i)->get_name; }
  my $r : object; for my $bad (@{["", "nosuch", "$", "\$nosuch", "::", "new::", $name]}) {
    $r = undef; eval { $r = $b->get_method_by_name($bad); }; if ($r) { say "@D found method $bad"; } $r = undef; eval { $r = $b->get_field_by_name($bad); }; if ($r) { say "@D found field $bad"; } $r = undef; eval { $r = $b->get_class_var_by_name($bad); }; if ($r) { say "@D found class var $bad"; }
  }
  for my $ix (@{[-1, 1000000, $b->get_methods_length, 2147483647, (int)-2147483648]}) { $r = undef; eval { $r = $b->get_method_by_index($ix); }; if ($r) { say "@D found method $ix"; } }
  for my $ix (@{[-1, 1000000, $b->get_fields_length]}) { $r = undef; eval { $r = $b->get_field_by_index($ix); }; if ($r) { say "@D found field $ix"; } }
  for my $ix (@{[-1, 1000000, $b->get_class_vars_length]}) { $r = undef; eval { $r = $b->get_class_var_by_index($ix); }; if ($r) { say "@D found class var $ix"; } }
  $r = undef; eval { $r = $rt->get_basic_type_by_name($name . "::"); }; if ($r) { say "@D found " . $name . "::"; }
}
static method types : void ($rt : Native::Runtime) {
  my $n = $rt->get_basic_types_length; my $bs = $rt->get_basic_types; my $u = 0;
  for (my $i = 0; $i < $n; $i++) { my $b = $rt->get_basic_type_by_id($i); unless ($b) { say "@T missing $i"; next; } unless ($b->get_id == $i) { say "@T id $i"; } my $c = $rt->get_basic_type_by_name($b->get_name); unless ($c) { say "@T name " . $b->get_name; next; } unless ($c->get_id == $i) { say "@T name " . $b->get_name; } }
  my $r : object; eval { $r = $rt->get_basic_type_by_id(-1); }; if ($r) { say "@T found -1"; } $r = undef; eval { $r = $rt->get_basic_type_by_id($n); }; if ($r) { say "@T found n"; }
  say "@T " . ($n == @$bs);
}
static method classes : void ($rt : Native::Runtime, $pre : string) {
  my $s = ""; for my $b (@{$rt->get_basic_types({category => [6]})}) { if (Fn->index($b->get_name, $pre, 0) == 0 && !$b->is_anon) { $s .= $b->get_name . " "; } } say "@C " . $s;
  $s = ""; for my $b (@{$rt->get_basic_types({category => [7, 4], is_anon => 0})}) { if (Fn->index($b->get_name, $pre, 0) == 0) { $s .= $b->get_name . " "; } } say "@C " . $s;
  my $k = 0; for my $b (@{$rt->get_basic_types({is_anon => 1})}) { if (Fn->index($b->get_name, $pre, 0) == 0) { $k++; } unless ($b->is_anon) { say "@C not anon " . $b->get_name; } } say "@C $k";
}
}'''

def to_native(lines):
    """what the Native:: classes can show of the C dump"""
    out = []
    for l in lines:
        if l.startswith('@D class'): out.append(re.sub(r' id -?\d+', ' id N', re.sub(r' file \S+', ' file x', re.sub(r' dir .* anon', ' dir D anon', re.sub(r' rel (\S+)\.spvm', lambda g: ' rel %s.spvm' % g[1].replace('::', '/'), l)))))
        elif l.startswith('@D field'): out.append(re.sub(r' offset \d+', '', l))
        elif l.startswith('@D arg'):
            g = re.match(r'@D arg (\d+) \S+ (\S+) optional (\d) .* default (-?\d+)$', l); out.append('@D par %s %s optional %s default %s' % (g[1], g[2], g[3], g[4]))
        elif re.match(r'@D (byid|var|method|anon) ', l): out.append(l)
    return out
def sign(l):
    """the default value as a signed number of its type"""
    g = re.match(r'(@D par \d+ (\w+)\^0/0 .* default )(-?\d+)$', l)
    if not g or g[2] not in MASK: return l
    n = MASK[g[2]]; v = int(g[3]) & ((1 << n) - 1); return g[1] + str(v - (1 << n) if v >> n - 1 else v)

def main(ck):
    drv = vp.build_driver('asan'); rng = ck.rng; ck.rule = 'a distinct case is the shape of a declared member: kind, type category, attributes'
    tmp = tempfile.mkdtemp(prefix='vp-S06-'); items = []
    try:
        os.mkdir(tmp + '/std'); open(tmp + '/std/RD.spvm', 'w').write(RD)
        for n in range(ck.n(60, 1500)):
            ks = world(rng, n); d = '%s/w%d' % (tmp, n)
            for k in ks:
                f = '%s/%s.spvm' % (d, k.name.replace('::', '/')); os.makedirs(os.path.dirname(f), exist_ok=True); open(f, 'w').write(k.src)
            names = [k.name for k in ks]; sub = rng.random() < .5
            prog = 'class TA : public { use RD; use Native::Compiler; use Native::Runtime; static method m : void () {\n my $c = Native::Compiler->new; %s\n' % ''.join('$c->add_include_dir("%s"); ' % x for x in [d, vp.REPO + '/lib/SPVM'])
            order = rng.sample(names, len(names))
            prog += ''.join(' $c->compile("%s");\n' % x for x in order) + ' my $rt = $c->get_runtime;\n' + ''.join(' say "@W %s"; RD->dump($rt, "%s");\n' % (x, x) for x in order) + ' RD->types($rt); RD->classes($rt, "W%d"); } }' % n
            ops = [se.new(1)] + [se.src(1, k.name, k.src) for k in ks] + [se.comp(1, x) for x in rng.sample(names, len(names))] + [se.refl(1, x) for x in names] + [se.free(1)]
            ops += [se.new(2), se.src(2, 'TA', prog), se.comp(2, 'TA'), se.call(2, 'TA', 'm'), se.free(2)]
            items.append(se.Item('world %d' % n, ops, meta=ks))
        se.run_all(drv, items, per=4, wd=30, incs=[tmp + '/std', vp.REPO + '/lib/SPVM'])
    finally: shutil.rmtree(tmp, ignore_errors=True)
    for it in items:
        ks = it.meta; f = {k.name.replace('::', '/') + '.spvm': k.src for k in ks}
        if it.kind == 'missing': ck.inconclusive.append('%s: %s' % (it.key, it.detail[:300])); continue
        if it.kind in ('crash', 'hang'): ck.violation('%s/%s' % (it.kind, str(vp.san_report(it.detail.encode('latin1')) or '')), '%s: %s' % (it.key, it.detail[:3000]), f); continue
        bad = [o for o in it.ops if o.rc]
        if bad: ck.violation('compile', '%s: %r' % (it.key, [(o.line[:40], o.msgs) for o in bad]), f); continue
        dumps = {}
        for k, o in zip(ks, [o for o in it.ops if o.line.startswith('D ')]):
            dumps[k.name] = o.out; ck.count('reflected classes'); ck.count('events', len(o.out))
            why = check_dump(k, o.out, ks)
            if why: ck.violation('api/' + why.split(':')[0][:40], '%s %s: %s\n%s\n%s' % (it.key, k.name, why, k.src, '\n'.join(o.out)), f); break
            for m in k.methods.values(): ck.seen('%s %s %s %s' % (k.kind, norm(m.ret)[-4:], m.cls, [norm(a[1])[-4:] + str(bool(a[2])) for a in m.args][:2]))
        out = [o for o in it.ops if o.line.startswith('R 2')][0].out; cur = None; nat = {}; tail = []
        for l in out:
            if l.startswith('@W '): cur = l[3:]; nat[cur] = []
            elif l[:2] in ('@T', '@C'): tail.append(l)
            elif cur and not l.startswith('@K'): nat[cur].append(l)
        for k in ks:
            e = [sign(re.sub(r'^(@D class \S+) id -?\d+', r'\1 id N', x)) for x in to_native(dumps[k.name])]
            g = [sign(re.sub(r' dir .* anon', ' dir D anon', re.sub(r'^(@D class \S+) id -?\d+', r'\1 id N', x))) for x in nat.get(k.name, [])]
            if g != e:
                d = [(a, b) for a, b in zip(g + [None] * 99, e + [None] * 99) if a != b][:2]
                ck.violation('Native/' + str(d[0][0] or d[0][1]).split(' ')[1], '%s %s: the Native classes and the declaration differ: %r\n%s' % (it.key, k.name, d, k.src), f); break
            ck.count('classes through Native'); ck.count('events', len(g))
        pre = it.key.replace('world ', 'W'); nm = lambda kinds: sorted(k.name for k in ks if k.kind in kinds)
        e = ['@T 1', nm(('class',)), nm(('interface', 'mulnum')), 0]
        g = [tail[0] if tail else None] + ([sorted(x for x in tail[1][3:].split() if '::anon_method::' not in x), sorted(tail[2][3:].split()), int(tail[3][3:])] if len(tail) == 4 else tail)
        if g != e: ck.violation('types', '%s: basic types: got %r, declared %r' % (it.key, g, e), f)
vp.main('S06', main)

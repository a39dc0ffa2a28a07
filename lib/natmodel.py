"""Model of native API scripts (drv/nat/nat.c): generates a script and its expected events in lock step."""
import struct, random
import vp

NT = 'bsilfd'
BITS = {'b': 8, 's': 16, 'i': 32, 'l': 64}
TN = {'b': 'byte', 's': 'short', 'i': 'int', 'l': 'long', 'f': 'float', 'd': 'double', 'S': 'string'}
def wrap(t, v):
    if t in BITS:
        n = BITS[t]; v &= (1 << n) - 1
        return v - (1 << n) if v >> (n - 1) else v
    if t == 'f':
        try: return struct.unpack('<f', struct.pack('<f', v))[0]
        except OverflowError: return float('inf') if v > 0 else float('-inf')
    return float(v)
def bits(t, v):
    if t == 'f': return struct.unpack('<i', struct.pack('<f', v))[0]
    if t == 'd': return struct.unpack('<q', struct.pack('<d', v))[0]
    return v

SRC = '''class NM_2i : mulnum_t { a : int; b : int; }
'''
CLASSES = {
'NI': 'class NI : interface_t { required method name : string (); }',
'NM_2i': 'class NM_2i : mulnum_t { has a : int; has b : int; }',
'NP': 'class NP : public pointer { use Fn; our $LOG : int; method DESTROY : void () { print "@N P\\n"; } }',
'NA': '''class NA : public {
  use Nat; use NI; use NM_2i; use NP; use Mon; use Error::System; use Fn;
  interface NI;
  our $VB : byte; our $VS : short; our $VI : int; our $VL : long; our $VF : float; our $VD : double; our $VO : object; our $VT : string; our $VN : NA;
  has fb : public byte; has fs : public short; has fi : public int; has fl : public long; has ff : public float; has fd : public double;
  has fo : public object; has ft : public string; has fn : public NA; has fa : public int[]; has id : public int;
  static method new : NA ($id : int) { my $self = new NA; $self->{id} = $id; return $self; }
  method DESTROY : void () { my $id = $self->{id}; print "@N D $id\\n"; }
  static method addb : byte ($a : byte, $b : byte) { return (byte)($a + $b); }
  static method adds : short ($a : short, $b : short) { return (short)($a + $b); }
  static method addi : int ($a : int, $b : int) { return $a + $b; }
  static method addl : long ($a : long, $b : long) { return $a + $b; }
  static method addf : float ($a : float, $b : float) { return $a + $b; }
  static method addd : double ($a : double, $b : double) { return $a + $b; }
  static method opt : long ($a : int, $b : int = 5, $c : long = 7L, $d : byte = 3) { return $a + 10 * $b + 100 * $c + 1000 * $d; }
  static method mix : double ($a : byte, $b : double, $o : object, $c : short, $d : float, $e : long) { my $r = (double)$a + $b + $c + $d + $e; if ($o) { $r += 1000; } return $r; }
  static method cat : string ($a : string, $b : string) { return $a . $b; }
  static method thrower : void ($m : string) { die $m; }
  static method thrower_obj : NA ($m : string, $id : int) { my $x = NA->new($id); die $m; return $x; }
  static method sys : int ($m : string) { die Error::System $m; }
  static method sysid : int () { return basic_type_id Error::System; }
  static method mul : NM_2i ($a : int, $b : int) { my $m : NM_2i; $m->{a} = $a; $m->{b} = $b; return $m; }
  static method swap : NM_2i ($m : NM_2i) { my $r : NM_2i; $r->{a} = $m->{b}; $r->{b} = $m->{a}; return $r; }
  static method ident : object ($o : object) { return $o; }
  static method none : NA () { return undef; }
  static method ints : int[] ($n : int) { my $r = new int[$n]; for (my $i = 0; $i < $n; $i++) { $r->[$i] = $i * $i; } return $r; }
  static method link : NA ($id : int, $n : NA) { my $x = NA->new($id); $x->{fn} = $n; return $x; }
  static method cb : object ($s : string, $a : object = undef) { return Nat->run($s, $a); }
  static method catch : string ($s : string, $a : object = undef) { my $r : object; eval { $r = Nat->run($s, $a); }; if ($@) { return "E"; } return "ok"; }
  static method deep : object ($n : int, $s : string, $a : object) { if ($n > 0) { my $t = NA->new(9000 + $n); return NA->deep($n - 1, $s, $a); } return Nat->run($s, $a); }
  static method clear : void () { $VO = undef; $VT = undef; $VN = undef; eval { }; }
  static method sum : long ($a : int[]) { my $r = 0L; for my $x (@{$a}) { $r += $x; } return $r; }
  method name : string () { return "NA"; }
  method getid : int () { return $self->{id}; }
  method self : NA () { return $self; }
  method setfn : void ($x : NA) { $self->{fn} = $x; }
  method getfn : NA () { return $self->{fn}; }
  method kill : void () { $self->{fn} = undef; $self->{fo} = undef; $self->{ft} = undef; $self->{fa} = undef; }
  method icb : object ($s : string, $a : object) { my $t = NA->new(8000); return Nat->run($s, $a); }
}''',
'NB': '''class NB extends NA : public { use NA;
  has gl : public long; has go : public object;
  static method new : NB ($id : int) { my $self = new NB; $self->{id} = $id; return $self; }
  method name : string () { return "NB"; }
  method extra : long ($a : long) { return $a + $self->{gl}; }
}'''}

class Ob:
    __slots__ = ('k', 'rc', 'n', 'o', 'w', 'dead', 'data', 'ro', 'back', 'ptr', 'nofree')
    def __init__(s, k):
        s.k, s.rc, s.n, s.o, s.w, s.dead, s.data, s.ro, s.back, s.ptr, s.nofree = k, 0, {}, {}, set(), False, None, False, [], 0, 0
OF = {'NA': ['fo', 'ft', 'fn', 'fa'], 'NB': ['fo', 'ft', 'fn', 'fa', 'go']}
NF = {'NA': {'fb': 'b', 'fs': 's', 'fi': 'i', 'fl': 'l', 'ff': 'f', 'fd': 'd', 'id': 'i'}}
NF['NB'] = dict(NF['NA'], gl='l')
VARS = {'$VB': 'b', '$VS': 's', '$VI': 'i', '$VL': 'l', '$VF': 'f', '$VD': 'd'}
ERR, SYS = 18, 19

class World:
    """objects, class variables and events of one runtime"""
    def __init__(s, rng): s.rng, s.ev, s.cv, s.cvo, s.nid, s.kinds = rng, [], {k: 0 for k in VARS}, {'$VO': None, '$VT': None, '$VN': None}, 0, {}
    def inc(s, o):
        if o is not None: o.rc += 1
    def dec(s, o):
        if o is None: return
        o.rc -= 1
        if o.rc <= 0 and not o.dead and not o.nofree: s.free(o)
    def free(s, o):
        if o.k in OF: s.ev.append('D %d' % o.n['id'])
        elif o.k == 'NP': s.ev.append('P')
        o.dead = True
        for h, f in list(o.back):
            if f in h.w and h.o.get(f) is o: h.o[f] = None; h.w.discard(f)
        o.back = []
        if o.k in OF:
            for f in OF[o.k]:
                v = o.o[f]
                if v is not None and f not in o.w: s.dec(v)
                if f in o.w: v.back.remove((o, f)); o.w.discard(f)
                o.o[f] = None
        elif isinstance(o.data, list) and o.k[0] == 'O':
            for v in o.data: s.dec(v)
    def setf(s, h, f, v):
        s.inc(v); old = h.o[f]; weak = f in h.w
        h.o[f] = v
        if weak: h.w.discard(f); old.back.remove((h, f))
        else: s.dec(old)
    def reach(s, a, b):
        """whether b is reachable from a by strong references (weak counted too: they may be strengthened)"""
        seen, st = set(), [a]
        while st:
            x = st.pop()
            if x is None or id(x) in seen: continue
            if x is b: return True
            seen.add(id(x)); st += list(x.o.values()) if x.k in OF else (x.data if x.k[0] == 'O' else [])
        return False
    def obj(s, k, i=0):
        o = Ob(k)
        if k in OF: o.n = {f: 0 for f in NF[k]}; o.n['id'] = i; o.o = {f: None for f in OF[k]}
        return o
    def string(s, b, ro=False): o = Ob('str'); o.data = bytearray(b); o.ro = ro; return o
    def alive(s, exc):
        """memory blocks held by the class variables and the exception; one more per object with weak references to it"""
        seen, st, n = set(), list(s.cvo.values()) + [exc if isinstance(exc, Ob) else None], 0
        while st:
            x = st.pop()
            if x is None or id(x) in seen: continue
            seen.add(id(x)); n += 1 + len(x.back); st += list(x.o.values()) if x.k in OF else (x.data if x.k[0] == 'O' else [])
        return n + (1 if isinstance(exc, tuple) else 0)
    def new_id(s): s.nid += 1; return s.nid

class Stack:
    def __init__(s, w): s.w, s.mortal, s.exc, s.depth = w, [], None, 0
    def push(s, o):
        if o is not None: s.mortal.append(o); o.rc += 1
    def leave(s, top):
        i = top
        while i < len(s.mortal): o = s.mortal[i]; s.mortal[i] = None; s.w.dec(o); i += 1
        del s.mortal[top:]
    def setexc(s, v):
        """v: None, Ob, or ('text', prefix, func, line)"""
        old = s.exc
        if isinstance(v, Ob): v.rc += 1
        s.exc = v
        if isinstance(old, Ob): s.w.dec(old)

class Thrown(Exception):
    def __init__(s, rc): s.rc = rc

def hx(b): return bytes(b).hex() or '-'

class Gen:
    """one run of a script"""
    def __init__(g, w, st, arg, depth, size, only=None):
        g.w, g.st, g.r, g.depth, g.size, g.lines, g.scopes = w, st, [arg] + [None] * 31, depth, size, [], []
        g.rng = w.rng
    def ev(g, *a): g.w.ev.append(' '.join(str(x) for x in a))
    def live(g, f=None):
        out = []
        for i, o in enumerate(g.r):
            if o is not None and not o.dead and (f is None or f(o)): out.append(i)
        return out
    def pick(g, f=None):
        l = g.live(f); return g.rng.choice(l) if l else None
    def dst(g): return g.rng.randrange(1, 32)
    def err(g, rc, prefix, op):
        g.st.setexc(('text', prefix, op, len(g.lines)))
        g.ev('error', rc, '~' + hx(prefix.encode('latin1')) + '~' + hx(('\n    %s at S line %d' % (op, len(g.lines))).encode()))
        if g.lines[-1].endswith('!'): raise Thrown(rc)
    def emit(g, line, op=None):
        g.lines.append(line); g.w.kinds[line.split()[0]] = g.w.kinds.get(line.split()[0], 0) + 1
    def run(g):
        """-> (rc, returned object); the caller handles the scope of the native method"""
        rc, ret = 0, None
        try:
            n = g.rng.randrange(g.size // 2, g.size + 1)
            while len(g.lines) < n:
                x = g.step()
                if x == 'ret':
                    i = g.pick()
                    if i is None: g.emit('und 1'); g.ev('und'); g.r[1] = None; i = 1
                    g.emit('ret %d' % i); g.ev('ret'); ret = g.r[i]; break
        except Thrown as e: rc = e.rc
        return rc, ret
    def script(g): return ';'.join(g.lines)
    def val(g, t):
        r = g.rng
        if t in BITS: n = BITS[t]; return wrap(t, r.choice([0, 1, -1, 2, 100, -(1 << (n - 1)), (1 << (n - 1)) - 1, r.getrandbits(n), r.randrange(-128, 128)]))
        v = r.choice([0.0, 1.5, -2.25, 1e10, -1e-3, 3.0, 12345.0, r.uniform(-1e6, 1e6)]); return wrap(t, v)
    def small(g, o): return o.k in OF
    def step(g):
        r = g.rng; f = r.choice(g.OPS); return f(g)
    # ---- creation
    def o_str(g):
        b = bytes(g.rng.choice([0, 65, 66, 97, 0xe3, 0xff, 10, 37]) for _ in range(g.rng.choice([0, 1, 3, 8, 40])))
        d = g.dst(); k = g.rng.choice(['ns', 'nsn', 'nsm'])
        if k == 'nsn': b = b.replace(b'\0', b'z')
        o = g.w.string(b); g.emit('%s %d %s' % (k, d, hx(b))); g.ev(k)
        if k == 'nsm': g.emit('pm %d' % d); g.ev('pm', 0); o.rc += 0
        g.st.push(o); g.r[d] = o
    def o_arr(g):
        t = g.rng.choice(NT + 'S'); n = g.rng.choice([0, 1, 2, 5, 17]); d = g.dst(); g.emit('na %d %s %d' % (d, t, n)); g.ev('na')
        o = Ob(('O' if t == 'S' else 'N') + '%s^1' % TN[t]); o.data = [None if t == 'S' else 0] * n; g.st.push(o); g.r[d] = o
    def o_no(g):
        c = g.rng.choice(['NA', 'NB', 'NA', 'NP', 'Nope', 'NI', 'NM_2i', 'int', 'string', 'object', 'NA::X']); d = g.dst(); bang = g.bang()
        if g.rng.random() < .2 and c in ('NA', 'NB', 'NP', 'Nope'):
            g.emit('noi %d %s' % (d, c)); g.ev('noi', int(c != 'Nope'))
            if c == 'Nope': return
        else:
            g.emit('no %d %s%s' % (d, c, bang)); g.ev('no')
            if c not in ('NA', 'NB', 'NP'):
                return g.err(ERR, 'The "%s" class is not found.' % c if c in ('Nope', 'NA::X') else 'The creation of the object of the "%s" class failed.' % c, 'no')
        o = g.w.obj(c); g.st.push(o); g.r[d] = o
    def o_noa(g):
        c = g.rng.choice(['NA', 'NB', 'NI', 'object', 'string', 'Nope', 'NA']); n = g.rng.choice([0, 1, 3, 7]); d = g.dst(); k = g.rng.random(); bang = g.bang()
        if k < .6: g.emit('noa %d %s %d%s' % (d, c, n, bang)); g.ev('noa'); dim = 1; op = 'noa'
        else: dim = g.rng.choice([2, 3]); c = g.rng.choice([c, 'int', 'double']); g.emit('nma %d %s %d %d%s' % (d, c, dim, n, bang)); g.ev('nma'); op = 'nma'
        if c == 'Nope': return g.err(ERR, 'The "Nope" class is not found.', op)
        if c == 'object' and dim > 1: return g.err(ERR, 'The creation of the multi-dimensional array of the "object" class', op)
        o = Ob('O%s^%d' % (c, dim)); o.data = [None] * n; g.st.push(o); g.r[d] = o
    def o_nmn(g):
        n = g.rng.choice([0, 1, 4]); d = g.dst(); c = g.rng.choice(['NM_2i', 'NM_2i', 'Nope']); bang = g.bang(); g.emit('nmn %d %s %d%s' % (d, c, n, bang)); g.ev('nmn')
        if c == 'Nope': return g.err(ERR, '', 'nmn')
        o = Ob('M%s^1' % c); o.data = [0] * (2 * n); g.st.push(o); g.r[d] = o
    def o_proto(g):
        n = g.rng.choice([0, 2, 5, -1]); d = g.dst(); s = g.pick(lambda o: True if g.rng.random() < .2 else '^' in o.k)
        if s is None: s = 31; 
        v = g.r[s]
        if v is not None and v.dead: return
        if g.rng.random() < .6:
            g.emit('nap %d %d %d' % (d, s, n)); g.ev('nap'); o = None
            if v is not None and '^' in v.k and n >= 0: o = Ob(v.k); o.data = [None if v.k[0] == 'O' else 0] * (n * (2 if v.k[0] == 'M' else 1))
        else:
            g.emit('nape %d %d %d' % (d, s, n)); g.ev('nape'); o = None
            if v is not None and n >= 0:
                b, dim = g.tdim(v); o = Ob('O%s^%d' % (b, dim + 1)); o.data = [None] * n
        g.st.push(o); g.r[d] = o
    def o_np(g):
        d = g.dst(); v = g.rng.randrange(1 << 40); c = g.rng.choice(['NP', 'NP', 'NP', 'Nope']); bang = g.bang(); g.emit('np %d %s %d%s' % (d, c, v, bang)); g.ev('np')
        if c == 'Nope': return g.err(ERR, 'The "Nope" class is not found.', 'np')
        o = g.w.obj('NP'); o.ptr = v; g.st.push(o); g.r[d] = o
    def o_ptr(g):
        s = g.pick(lambda o: o.k == 'NP')
        if s is None: return g.o_np()
        o = g.r[s]; k = g.rng.random()
        if k < .3: o.ptr = g.rng.randrange(1 << 40); g.emit('sp %d %d' % (s, o.ptr)); g.ev('sp')
        elif k < .6: g.emit('gp %d' % s); g.ev('gp', o.ptr)
        elif k < .8: o.ptr and 0; g.emit('nf %d' % s); g.ev('nf', o.data or 0)
        else: o.data = g.rng.randrange(2); g.emit('snf %d %d' % (s, o.data)); g.ev('snf')
    def tdim(g, o):
        if o.k == 'str': return 'string', 0
        if '^' in o.k: b, d = o.k[1:].split('^'); return b, int(d)
        return o.k, 0
    def bang(g): return ' !' if g.depth and g.rng.random() < .15 else ''
    # ---- queries
    def o_q(g):
        s = g.pick()
        if s is None: return
        o = g.r[s]; b, d = g.tdim(o); k = g.rng.choice(['q', 'tn', 'isa', 'ist', 'rc', 'len', 'isa'])
        if k == 'q':
            fl = [o.k == 'str', o.k in ('NA', 'NB', 'NP'), o.k == 'NP', d > 0, o.k[0] == 'O' and d > 0, d > 0 and o.k[0] == 'N', d > 0 and o.k[0] == 'M']
            g.emit('q %d' % s); a = ['q', ''.join(str(int(x)) for x in fl)]
            if d: a.append(8 if o.k[0] in 'MO' else {'byte': 1, 'short': 2, 'int': 4, 'long': 8, 'float': 4, 'double': 8}[b])
            g.ev(*a)
        elif k == 'tn': g.emit('tn %d' % s); g.ev('tn', b + '[]' * d, b, d, 'same')
        elif k == 'rc': g.emit('rc %d' % s); g.ev('rc', o.rc)
        elif k == 'len':
            if d or o.k == 'str': g.emit('len %d' % s); g.ev('len', len(o.data) // (2 if o.k[0] == 'M' else 1))
        else:
            c = g.rng.choice(['NA', 'NB', 'NI', 'NP', 'string', 'object', 'int', 'NM_2i', b, b]); n = g.rng.choice([0, 0, 1, 2, d, d])
            if c == 'int' and n == 0 or c == 'NM_2i' and n == 0: return
            g.emit('%s %d %s %d' % (k, s, c, n))
            if k == 'ist': g.ev('ist', int(c == b and n == d))
            else: g.ev('isa', g.isa(b, d, c, n))
    def isa(g, b, d, c, n):
        if c == 'object' and n == 0: return 1
        if c == 'object' and n == 1: return int(d >= 1 and (d > 1 or b not in ('byte', 'short', 'int', 'long', 'float', 'double', 'NM_2i')))
        if d != n: return 0
        if b == c: return 1
        return int((b, c) in (('NB', 'NA'), ('NA', 'NI'), ('NB', 'NI'))) 
    def o_find(g):
        k = g.rng.random()
        if k < .5:
            c = g.rng.choice(['NA', 'NB', 'NP', 'NI', 'Nope']); m = g.rng.choice(['new', 'addi', 'name', 'extra', 'gl', 'fi', 'zip', 'getid', 'DESTROY', 'fo'])
            if c == 'Nope': return
            own = {'NA': (['new', 'addi'], ['name', 'getid', 'DESTROY'], ['fi', 'fo']), 'NB': (['new'], ['name', 'extra'], ['gl']), 'NP': ([], ['DESTROY'], []), 'NI': ([], ['name'], [])}[c]
            fm = m in own[0] + own[1]
            fields = own[2] + (['fi', 'fo'] if c == 'NB' else [])
            g.emit('fm %s %s' % (c, m)); g.ev('fm', '%s %d' % (''.join(str(int(x)) for x in [fm, m in own[0], m in own[1], m in fields, 1]), 1))
        else:
            s = g.pick(lambda o: o.k in ('NA', 'NB', 'NP'))
            if s is None: return
            m = g.rng.choice(['new', 'addi', 'name', 'extra', 'getid', 'zip', 'DESTROY']); k = g.r[s].k
            inst = {'NA': ['name', 'getid', 'DESTROY'], 'NB': ['name', 'getid', 'DESTROY', 'extra'], 'NP': ['DESTROY']}[k]
            g.emit('fi %d %s' % (s, m)); g.ev('fi', int(m in inst))
    def o_ctn(g):
        b, d, f = g.rng.choice([('NA', 0, 0), ('NA', 2, 0), ('int', 0, 1), ('string', 0, 2), ('string', 1, 0), ('double', 3, 0), ('string', 1, 2), ('NM_2i', 0, 1)])
        g.emit('ctn %s %d %d' % (b, d, f)); g.ev('ctn', ('mutable ' if f & 2 else '') + b + '[]' * d + ('*' if f & 1 else ''))
    # ---- fields and class variables
    def o_gf(g):
        s = g.pick(lambda o: g.rng.random() < .1 or o.k in OF); bang = g.bang()
        if s is None or g.rng.random() < .04: s = next(i for i in range(31, -1, -1) if g.r[i] is None) if None in g.r else None
        if s is None: return
        o = g.r[s]; fs = ['fb', 'fs', 'fi', 'fl', 'ff', 'fd', 'id', 'gl', 'fo', 'ft', 'nope']; f = g.rng.choice(fs); t = g.rng.choice(NT)
        if o is not None and o.k in OF and f in NF[o.k] and g.rng.random() < .5: t = NF[o.k][f]
        get = g.rng.random() < .5; op = 'gf' if get else 'sf'; v = g.val(t)
        g.emit('gf %s %d %s%s' % (t, s, f, bang) if get else 'sf %s %d %s %d%s' % (t, s, f, bits(t, v), bang)); 
        if o is None: e = 'The object must be defined.'
        elif o.k not in OF and o.k != 'NP': e = 'The type of the invocant must be a class type.'
        elif o.k == 'NP' or f not in NF[o.k] and f not in OF[o.k]: e = 'The "%s" field is not found in the "%s" class or its super class.' % (f, o.k)
        else:
            ft = NF[o.k].get(f)
            if ft and get and NT.index(ft) <= NT.index(t): g.ev('gf', bits(t, wrap(t, o.n[f]))); return
            if ft and not get and NT.index(ft) >= NT.index(t): g.ev('sf'); o.n[f] = wrap(ft, v); return
            e = 'The type of the field must be %s' % TN[t]
        g.ev(op); g.err(ERR, e, op)
    def o_gfx(g):
        s = g.pick(lambda o: o.k in OF)
        if s is None: return
        o = g.r[s]; f = g.rng.choice(list(NF[o.k])); g.emit('gfx %s %d %s' % (NF[o.k][f], s, f)); g.ev('gfx', 1, bits(NF[o.k][f], o.n[f]))
    def o_fo(g):
        s = g.pick(lambda o: g.rng.random() < .08 or o.k in OF); bang = g.bang()
        if s is None or g.rng.random() < .04: s = next((i for i in range(31, -1, -1) if g.r[i] is None), None)
        if s is None: return
        o = g.r[s]; f = g.rng.choice(['fo', 'ft', 'fn', 'fn', 'fa', 'go', 'fi', 'nope']); k = g.rng.choice(['gfo', 'sfo', 'sfo', 'gsc']); d = g.dst(); v = None; vi = None
        if k == 'gsc': f = g.rng.choice(['ft', 'ft', 'ft', 'nope'])
        if k == 'sfo':
            c = g.live(lambda x: {'fo': True, 'go': True, 'ft': x.k == 'str', 'fn': x.k in OF, 'fa': x.k == 'Nint^1'}.get(f, True) and (o is None or o is not x and not g.w.reach(x, o)))
            if c and g.rng.random() < .8: vi = g.rng.choice(c); v = g.r[vi]
            else:
                n = [i for i in range(32) if g.r[i] is None]
                if not n: return
                vi = g.rng.choice(n)
            g.emit('sfo %d %s %d%s' % (s, f, vi, bang))
        elif k == 'gfo': g.emit('gfo %d %d %s%s' % (d, s, f, bang))
        else: g.emit('gsc %d %s%s' % (s, f, bang))
        if o is None: e = 'The object must be defined.' if k != 'gsc' else ''
        elif o.k not in OF and o.k != 'NP': e = 'The type of the invocant must be a class type.' if k != 'gsc' else ''
        elif o.k == 'NP' or f not in NF[o.k] and f not in OF[o.k]: e = 'The "%s" field is not found' % f
        elif f in NF[o.k]: e = 'The type of the field must be an object type.'
        else:
            if k == 'gfo': g.r[d] = o.o[f]; g.ev('gfo', int(o.o[f] is not None))
            elif k == 'gsc': x = o.o[f]; g.ev('gsc', 'undef' if x is None else hx(bytes(x.data).split(b'\0')[0]))
            else: g.ev('sfo'); g.w.setf(o, f, v)
            return
        g.ev(k); g.err(ERR, e, k)
    def o_var(g):
        r = g.rng; c = r.choice(['NA', 'NA', 'NA', 'NA', 'NB', 'Nope']); bang = g.bang()
        if r.random() < .6:
            n = r.choice(list(VARS) + ['$VN', '$NO']); t = r.choice(NT)
            if n in VARS and r.random() < .6: t = VARS[n]
            get = r.random() < .5; op = 'gv' if get else 'sv'; v = g.val(t)
            g.emit('gv %s %s %s%s' % (t, c, n, bang) if get else 'sv %s %s %s %d%s' % (t, c, n, bits(t, v), bang))
            if c == 'NA' and n in VARS:
                vt = VARS[n]
                if get and NT.index(vt) <= NT.index(t): g.ev('gv', bits(t, wrap(t, g.w.cv[n]))); return
                if not get and NT.index(vt) >= NT.index(t): g.ev('sv'); g.w.cv[n] = wrap(vt, v); return
        else:
            n = r.choice(['$VO', '$VT', '$VN', '$VN', '$VI', '$NO']); d = g.dst()
            if r.random() < .5:
                op = 'gvo'; g.emit('gvo %d %s %s%s' % (d, c, n, bang))
                if c == 'NA' and n in g.w.cvo: g.r[d] = g.w.cvo[n]; g.ev('gvo', int(g.r[d] is not None)); return
            else:
                op = 'svo'; l = g.live(lambda x: {'$VT': x.k == 'str', '$VN': x.k in OF}.get(n, True)); nn = [i for i in range(32) if g.r[i] is None]
                i = r.choice(l) if l and r.random() < .7 or not nn else r.choice(nn) if nn else None
                if i is None or (i in nn) is False and i not in l: return
                g.emit('svo %s %s %d%s' % (c, n, i, bang))
                if c == 'NA' and n in g.w.cvo: g.ev('svo'); old = g.w.cvo[n]; g.w.inc(g.r[i]); g.w.cvo[n] = g.r[i]; g.w.dec(old); return
        g.ev(op); g.err(ERR, 'The "%s" class is not found.' % c if c == 'Nope' else 'The "%s" class variable in the "%s" class is not found.' % (n, c) if c == 'NB' or n == '$NO' else 'The type of the class variable must be', op)
    # ---- elements
    def o_el(g):
        s = g.pick(lambda o: o.k[0] in 'NM' and '^1' in o.k and o.data)
        if s is None: return g.o_arr()
        o = g.r[s]; t = 'i' if o.k[0] == 'M' else [x for x in TN if TN[x] == o.k[1:-2]][0]; i = g.rng.randrange(len(o.data))
        if g.rng.random() < .6: v = g.val(t); o.data[i] = v; g.emit('se %s %d %d %d' % (t, s, i, bits(t, v))); g.ev('se')
        else: g.emit('ge %s %d %d' % (t, s, i)); g.ev('ge', bits(t, o.data[i]))
    def o_eo(g):
        s = g.pick(lambda o: o.k[0] == 'O' and '^' in o.k and o.data)
        if s is None: return g.o_noa()
        o = g.r[s]; i = g.rng.randrange(len(o.data)); b, d = g.tdim(o); k = g.rng.random()
        if k < .35: x = g.dst(); g.emit('geo %d %d %d' % (x, s, i)); g.r[x] = o.data[i]; g.ev('geo', int(g.r[x] is not None))
        else:
            c = g.live(lambda x: g.isa(*g.tdim(x), b, d - 1) and x is not o and not g.w.reach(x, o))
            if k > .85:
                e = g.pick()
                if e is not None: g.emit('eisa %d %d' % (s, e)); g.ev('eisa', g.isa(*g.tdim(g.r[e]), b, d - 1))
                return
            n = [j for j in range(32) if g.r[j] is None]
            if not c or g.rng.random() < .2:
                if not n: return
                j = g.rng.choice(n)
            else: j = g.rng.choice(c)
            g.emit('seo %d %d %d' % (s, i, j)); g.ev('seo'); v = g.r[j]; old = o.data[i]; g.w.inc(v); o.data[i] = v; g.w.dec(old)
    # ---- strings
    def o_st(g):
        s = g.pick(lambda o: o.k == 'str')
        if s is None: return g.o_str()
        o = g.r[s]; k = g.rng.choice(['chars', 'chars', 'cat', 'sh', 'mro', 'iro', 'cp'])
        if k == 'chars': g.emit('chars %d' % s); g.ev('chars', len(o.data), hx(o.data + b'\0'))
        elif k == 'cat':
            t = g.pick(lambda o: o.k == 'str'); d = g.dst()
            if len(o.data) + len(g.r[t].data) > 2000: return
            g.emit('cat %d %d %d' % (d, s, t)); g.ev('cat'); n = g.w.string(o.data + g.r[t].data); g.st.push(n); g.r[d] = n
        elif k == 'sh':
            n = g.rng.choice([0, 1, 5, 100, -1, len(o.data)]); g.emit('sh %d %d' % (s, n)); g.ev('sh')
            if not o.ro and 0 <= n < len(o.data): del o.data[n:]
        elif k == 'mro': g.emit('mro %d' % s); o.ro = True; g.ev('mro')
        elif k == 'iro': g.emit('iro %d' % s); g.ev('iro', int(o.ro))
        else: g.o_cp()
    def o_cp(g):
        s = g.pick(lambda o: o.k == 'str' or o.k[0] in 'NM' and '^' in o.k)
        if s is None: return
        o = g.r[s]; d = g.dst(); g.emit('cp %d %d' % (d, s)); g.ev('cp'); n = Ob(o.k); n.data = type(o.data)(o.data); g.st.push(n); g.r[d] = n
    def o_sterr(g):
        import os
        e = g.rng.choice([2, 22, 13, 1]); n = g.rng.choice([0, 128, 64, 5, 1, 30]); m = os.strerror(e).encode(); g.emit('sterr %d %d' % (e, n)); 
        g.ev('sterr', hx(m) if n == 0 or n > len(m) else '?*')
    # ---- weak references
    def o_wk(g):
        s = g.pick(lambda o: o.k in OF and o.o['fn'] is not None)
        if s is None: return
        o = g.r[s]; k = g.rng.choice(['wk', 'wk', 'uw', 'iw']); g.emit('%s %d fn' % (k, s)); v = o.o['fn']
        if k == 'iw': g.ev('iw', int('fn' in o.w))
        elif k == 'wk':
            g.ev('wk')
            if 'fn' not in o.w:
                if v.rc == 1: o.o['fn'] = None; g.w.dec(v)
                else: o.w.add('fn'); v.back.append((o, 'fn')); v.rc -= 1
        else:
            g.ev('uw')
            if 'fn' in o.w: o.w.discard('fn'); v.back.remove((o, 'fn')); v.rc += 1
    # ---- scopes, registers
    def o_en(g):
        if len(g.scopes) < 20: g.emit('en'); g.ev('en'); g.scopes.append(len(g.st.mortal))
    def o_lv(g):
        if not g.scopes: return
        g.emit('lv'); g.ev('lv'); g.st.leave(g.scopes.pop()); g.ev('end')
    def o_pm(g):
        s = g.pick()
        if s is not None: g.emit('pm %d' % s); g.ev('pm', 0); g.st.push(g.r[s])
    def o_mv(g):
        s = g.pick(); d = g.dst()
        if g.rng.random() < .3: g.emit('und %d' % d); g.ev('und'); g.r[d] = None
        elif s is not None: g.emit('mv %d %d' % (d, s)); g.ev('mv'); g.r[d] = g.r[s]
    def o_nb(g):
        g.emit('nb %d' % g.rng.choice([1, 8, 100])); g.ev('nb', 1); g.emit('fb'); g.ev('fb')
    def o_tb(g): g.emit('tb'); g.ev('tb')
    # ---- exceptions
    def o_exc(g):
        k = g.rng.random()
        if k < .5:
            g.emit('exc'); x = g.st.exc
            g.ev('exc', 'undef' if x is None else hx(x.data) if isinstance(x, Ob) else '~%s~%s' % (hx(x[1].encode('latin1')), hx(('\n    %s at S line %d' % x[2:]).encode()) if x[2] else '-'))
        elif k < .7: g.emit('cex'); g.ev('cex'); g.st.setexc(None)
        else:
            s = g.pick(lambda o: o.k == 'str')
            if s is not None: g.emit('sexc %d' % s); g.ev('sexc'); g.st.setexc(g.r[s])
    def o_die(g):
        if not g.depth or g.rng.random() < .5: return
        if g.rng.random() < .7: m = g.rng.choice(['boom', 'x y %d %s', 'a\nb', 'é' * 3]); g.emit('die %s' % hx(m.encode('latin1'))); op = 'die'
        else: m = 'tag--5-x-1.500-1099511627776'; g.emit('dief tag'); op = 'dief'
        g.ev(op); g.st.setexc(('text', m, op, len(g.lines))); raise Thrown(ERR)
    # ---- calls
    def call(g, op, ret, cls, m, args, d, bang, fn):
        """args: tokens; fn(g) -> ('v'|...,) value or raises Thrown / returns an error tuple ('E', rc, prefix)"""
        g.emit('%s %s %d %s %s %s%s' % (op, ret, d, cls, m, ' '.join(args), bang)); g.ev(op)
        g.st.depth += 1
        try: v = fn()
        except Thrown as e: v = ('E', e.rc, '')
        finally: g.st.depth -= 1
        if isinstance(v, tuple) and v and v[0] == 'E':
            x = g.st.exc; p = v[2] or (x[1] if isinstance(x, tuple) else ''); return g.err(v[1], p, op)
        if ret == 'o':
            if v is not None: v.rc += 0
            g.st.push(v); g.r[d] = v; g.ev('=', int(v is not None))
        elif ret == 'v': pass
        elif ret == 'm': g.ev('=', *v)
        else: g.ev('=', bits(ret, v))
    def A(g, i): return 'o:%d' % i
    def o_cc(g):
        r = g.rng; d = g.dst(); bang = g.bang(); k = r.choice(['new', 'new', 'newb', 'add', 'add', 'opt', 'mix', 'cat', 'throw', 'sys', 'mul', 'swap', 'ident', 'none', 'ints', 'sum', 'link', 'bad', 'throwobj', 'undef'])
        C = lambda ret, m, args, fn, cls='NA': g.call('cc', ret, cls, m, args, d, bang, fn)
        if k in ('new', 'newb'):
            i = g.w.new_id(); c = 'NA' if k == 'new' else 'NB'; return C('o', 'new', ['i:%d' % i], lambda: g.w.obj(c, i), c)
        if k == 'add':
            t = r.choice(NT); a, b = g.val(t), g.val(t)
            return C(t, 'add' + t, ['%s:%d' % (t, bits(t, a)), '%s:%d' % (t, bits(t, b))], lambda: wrap(t, a + b))
        if k == 'opt':
            n = r.randrange(1, 5); a = [g.val('i'), g.val('i'), g.val('l'), g.val('b')]; tok = ['i:%d' % a[0], 'i:%d' % a[1], 'l:%d' % a[2], 'b:%d' % a[3]][:n]; a = a[:n] + [0, 5, 7, 3][n:]
            return C('l', 'opt', tok, lambda: wrap('l', wrap('i', a[0] + 10 * a[1]) + 100 * a[2] + wrap('i', 1000 * a[3])))
        if k == 'mix':
            a = [r.randrange(-100, 100) for _ in range(5)]; s = g.pick(); o = 'o:u' if s is None or r.random() < .3 else g.A(s)
            return C('d', 'mix', ['b:%d' % a[0], 'd:%d' % bits('d', float(a[1])), o, 's:%d' % a[2], 'f:%d' % bits('f', float(a[3])), 'l:%d' % a[4]], lambda: float(sum(a) + (1000 if o != 'o:u' else 0)))
        if k == 'cat':
            s, t = g.pick(lambda o: o.k == 'str'), g.pick(lambda o: o.k == 'str')
            if s is None or len(g.r[s].data) + len(g.r[t].data) > 2000: return
            return C('o', 'cat', [g.A(s), g.A(t)], lambda: g.w.string(g.r[s].data + g.r[t].data))
        if k in ('throw', 'sys', 'throwobj'):
            m = bytes(r.choice([65, 37, 10, 0xe9, 115]) for _ in range(r.choice([1, 5, 200]))); e = g.fresh(m)
            def fn(rc):
                if k == 'throwobj': g.ev('D %d' % i)
                g.st.setexc(('text', m.decode('latin1'), None, 0)); return ('E', rc, m.decode('latin1'))
            if k == 'throw': return C('v', 'thrower', [g.A(e)], lambda: fn(ERR))
            if k == 'sys': return C('i', 'sys', [g.A(e)], lambda: fn(SYS))
            i = g.w.new_id(); return C('o', 'thrower_obj', [g.A(e), 'i:%d' % i], lambda: fn(ERR))
        if k == 'mul': a, b = g.val('i'), g.val('i'); return C('m', 'mul', ['i:%d' % a, 'i:%d' % b], lambda: (a, b))
        if k == 'swap': a, b = g.val('i'), g.val('i'); return C('m', 'swap', ['i:%d' % a, 'i:%d' % b], lambda: (b, a))
        if k == 'ident':
            s = g.pick()
            if s is not None: return C('o', 'ident', [g.A(s)], lambda: g.r[s])
        if k == 'none': return C('o', 'none', [], lambda: None)
        if k == 'ints':
            n = r.randrange(6)
            def fn(): o = Ob('Nint^1'); o.data = [x * x for x in range(n)]; return o
            return C('o', 'ints', ['i:%d' % n], fn)
        if k == 'sum':
            s = g.pick(lambda o: o.k == 'Nint^1')
            if s is not None: return C('l', 'sum', [g.A(s)], lambda: wrap('l', sum(g.r[s].data)))
        if k == 'link':
            s = g.pick(lambda o: o.k in OF); i = g.w.new_id()
            def fn():
                o = g.w.obj('NA', i)
                if s is not None: g.w.setf(o, 'fn', g.r[s])
                return o
            return C('o', 'link', ['i:%d' % i, 'o:u' if s is None else g.A(s)], fn)
        if k == 'undef':
            e = g.fresh(b'ab')
            def fn(): g.st.setexc(('text', '', None, 0)); return ('E', ERR, '')
            return C('o', 'cat', r.choice([['o:u', g.A(e)], [g.A(e), 'o:u']]), fn)
        if k == 'bad':
            cls, m = r.choice([('Nope', 'new'), ('NA', 'nope'), ('NA', 'getid'), ('NB', 'addi'), ('NI', 'name')])
            e = 'The "Nope" class is not found.' if cls == 'Nope' else 'The "%s" method in the "%s" class must be a class method.' % (m, cls) if m in ('getid', 'name') else 'The "%s" method in the "%s" class is not found.' % (m, cls)
            return C('v', m, [], lambda: ('E', ERR, e), cls)
    def fresh(g, b):
        d = g.dst(); o = g.w.string(b); g.emit('ns %d %s' % (d, hx(b))); g.ev('ns'); g.st.push(o); g.r[d] = o; return d
    def o_ci(g):
        r = g.rng; s = g.pick(lambda o: r.random() < .08 or o.k in OF); bang = g.bang(); d = g.dst()
        if s is None: return
        o = g.r[s]; op = r.choice(['ci', 'ci', 'cs'])
        cls = 'NA' if op == 'ci' else r.choice(['NA', 'NA', o.k if o.k in OF else 'NB'])
        m = r.choice(['name', 'getid', 'self', 'setfn', 'getfn', 'kill', 'extra', 'nope', 'addi'] + (['name'] if op == 'ci' else []))
        tok = [g.A(s)]; ret = {'name': 'o', 'getid': 'i', 'self': 'o', 'getfn': 'o', 'extra': 'l'}.get(m, 'v'); v = None
        if m == 'setfn':
            c = g.live(lambda x: x.k not in OF and r.random() < .05 or x.k in OF and x is not o and not g.w.reach(x, o))
            if c and r.random() < .8: v = r.choice(c); tok.append(g.A(v))
            else: tok.append('o:u')
        if m == 'extra': x = g.val('l'); tok.append('l:%d' % x)
        own = {'NA': ['name', 'getid', 'self', 'setfn', 'getfn', 'kill'], 'NB': ['name', 'extra']}
        def fn():
            if op == 'ci':
                if '^' in o.k: return ('E', ERR, 'The type dimension of the invocant must be equal to 0.')
                have = own['NA'] + (['extra'] if o.k == 'NB' else []) if o.k in OF else []
                if m not in have: return ('E', ERR, 'The "%s" instance method in the "%s" class is not found' % (m, g.tdim(o)[0]))
            else:
                if m == 'addi' and cls == 'NA': return ('E', ERR, 'The "addi" method in the "NA" class must be an instance method.')
                if m not in own[cls]: return ('E', ERR, 'The "%s" method in the "%s" class is not found.' % (m, cls))
                if not g.isa(*g.tdim(o), cls, 0): return ('E', ERR, 'The invocant must be assigned to the "%s" class.' % cls)
            if m == 'name': return g.w.string((o.k if op == 'ci' else cls).encode(), True)
            if m == 'getid': return o.n['id']
            if m == 'self': return o
            if m == 'getfn': return o.o['fn']
            if m == 'extra': return wrap('l', x + o.n['gl'])
            if m == 'setfn':
                if v is not None and g.r[v].k not in OF: g.st.setexc(('text', '', None, 0)); return ('E', ERR, 'The object given in the 1th argument must be assigned')
                g.w.setf(o, 'fn', g.r[v] if v is not None else None); return None
            if m == 'kill':
                for f in ('fn', 'fo', 'ft', 'fa'): g.w.setf(o, f, None)
        return g.call(op, ret, cls, m, tok, d, bang, fn)
    def o_inv(g):
        n = [i for i in range(32) if g.r[i] is None]
        if not n: return
        s = g.rng.choice(n); op = g.rng.choice(['ci', 'cs']); return g.call(op, 'i', 'NA', 'getid', [g.A(s)], g.dst(), g.bang(), lambda: ('E', ERR, 'The invocant must be defined.'))
    def o_cb(g):
        """a native method that calls SPVM code that runs another script"""
        if g.depth >= 3: return
        r = g.rng; k = r.choice(['cb', 'cb', 'catch', 'deep', 'icb', 'st'])
        a = g.pick(); arg = None if a is None or r.random() < .3 or k == 'st' else g.r[a]
        inv = g.pick(lambda o: o.k in OF) if k == 'icb' else None
        if k == 'icb' and inv is None: k = 'cb'
        # the text of the script is only known after it was generated: its events go to a place of their own
        w = g.w; out = w.ev; d0 = g.dst(); d = g.dst(); bang = g.bang() if k != 'st' else ''
        if k == 'st':
            sub_st = Stack(w); g.emit('PLACE'); g.ev('st'); sub = Gen(w, sub_st, None, g.depth + 1, g.size // 2)
            rc, ret = sub.run(); sub_st.leave(0); g.lines[-1] = 'st ' + hx(sub.script().encode('latin1'))
            if len(g.lines[-1]) > 16000: raise RuntimeError('long')
            g.ev('stack', rc, int(sub_st.exc is not None), 1); sub_st.setexc(None); return
        strob = w.string(b''); g.emit('PLACE'); pos = len(g.lines) - 1; g.ev('ns'); g.st.push(strob)
        if r: g.r[d0] = strob
        if a is not None and a == d0: a = None; arg = None
        if inv is not None and inv == d0: k = 'cb'; inv = None
        if arg is None: a = None
        n = r.randrange(1, 4); at = 'o:u' if a is None else g.A(a)
        def fn():
            if k == 'catch': g.st.setexc(None)
            sub = Gen(w, g.st, arg, g.depth + 1, g.size // 2)
            # the SPVM method and its callees hold their arguments
            frames = n + 1 if k == 'deep' else 1
            for o in [strob, arg] * frames: w.inc(o)
            if inv is not None: w.inc(g.r[inv]); iv = g.r[inv]
            top = len(g.st.mortal); rc, ret = sub.run()
            if ret is not None and not rc: ret.rc += 1
            g.st.leave(top)
            strob.data = bytearray(sub.script().encode('latin1')); g.lines[pos] = 'ns %d %s' % (d0, hx(strob.data))
            if len(g.lines[pos]) > 16000: raise RuntimeError('long')
            if k != 'catch' and rc and isinstance(g.st.exc, tuple): g.st.exc = ('text', g.st.exc[1], None, 0)
            elif k != 'catch' and rc and isinstance(g.st.exc, Ob): g.st.setexc(('text', bytes(g.st.exc.data).decode('latin1'), None, 0))
            if inv is not None: w.dec(iv)
            for i in range(frames):
                w.dec(strob); w.dec(arg)
                if k == 'deep' and i: g.ev('D %d' % (9000 + i))
                if k == 'icb': g.ev('D 8000')
            if k == 'catch':
                if rc and isinstance(g.st.exc, tuple): g.st.exc = ('text', g.st.exc[1], None, 0)
                elif rc and isinstance(g.st.exc, Ob): g.st.setexc(('text', bytes(g.st.exc.data).decode('latin1'), None, 0))
                if ret is not None and not rc: w.dec(ret)
                return w.string(b'E' if g.st.exc is not None else b'ok', True)
            if rc: return ('E', rc, '')
            if ret is not None: ret.rc -= 1
            return ret
        tok = {'cb': [g.A(d0), at], 'catch': [g.A(d0), at], 'deep': ['i:%d' % n, g.A(d0), at], 'icb': [g.A(inv) if inv is not None else '', g.A(d0), at]}[k]
        return g.call('ci' if k == 'icb' else 'cc', 'o', 'NA', k, tok, d, bang, fn)
Gen.OPS = [Gen.o_str, Gen.o_str, Gen.o_arr, Gen.o_no, Gen.o_noa, Gen.o_nmn, Gen.o_proto, Gen.o_np, Gen.o_ptr, Gen.o_q, Gen.o_q, Gen.o_q, Gen.o_find, Gen.o_ctn, Gen.o_gf, Gen.o_gf, Gen.o_gf, Gen.o_gfx, Gen.o_fo, Gen.o_fo, Gen.o_fo, Gen.o_var, Gen.o_var, Gen.o_el, Gen.o_el, Gen.o_eo, Gen.o_eo, Gen.o_st, Gen.o_st, Gen.o_cp, Gen.o_sterr, Gen.o_wk, Gen.o_wk, Gen.o_en, Gen.o_lv, Gen.o_lv, Gen.o_pm, Gen.o_mv, Gen.o_nb, Gen.o_tb, Gen.o_exc, Gen.o_die, Gen.o_cc, Gen.o_cc, Gen.o_cc, Gen.o_cc, Gen.o_cc, Gen.o_ci, Gen.o_ci, Gen.o_ci, Gen.o_inv, Gen.o_cb, Gen.o_cb, lambda g: 'ret' if g.depth and g.rng.random() < .3 else None]

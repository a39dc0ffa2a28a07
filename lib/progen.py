"""Random SPVM programs with a reference interpreter built along with them.

Every generated construct is a pair (source text, Python closure).  The interpreter runs in lockstep with the event
log of the real program: output lines must match; DESTROY events ("D id ...") are consumed when the model says the
object is not strongly reachable, and must have been seen once nothing - variables, fields, elements, class variables
or temporaries of the active scopes - can hold the object."""
import random, re, struct
from num import wt, arith, compare, conv, dbits, fbits, lit, show_val, show_expr, DivZero, promote, f32

class Violation(Exception):
    def __init__(self, kind, msg):
        self.kind, self.msg = kind, msg
class Budget(Exception):
    pass
class NextX(Exception):
    pass
class LastX(Exception):
    pass
class BreakX(Exception):
    pass
class RetX(Exception):
    def __init__(self, v): self.v = v
class DieX(Exception):
    def __init__(self, lines, eid, fault=False):
        self.lines, self.eid, self.fault = lines, eid, fault   # lines[0] is the message; None: a runtime fault

class Obj:
    __slots__ = ('cls', 'id', 'f', 'alive', 'weak', 'L')
    def __init__(self, cls, id, fields):
        self.cls, self.id, self.f, self.alive, self.weak, self.L = cls, id, fields, True, set(), cls.level
class Arr:
    __slots__ = ('t', 'e')
    def __init__(self, t, e): self.t, self.e = t, e
class Clo:
    __slots__ = ('fn', 'caps')
    def __init__(self, fn, caps): self.fn, self.caps = fn, caps
class Box:
    __slots__ = ('t', 'v')
    def __init__(self, t, v): self.t, self.v = t, v

def kids(o):
    if isinstance(o, Obj):
        return [v for k, v in o.f.items() if isinstance(v, (Obj, Arr, Clo)) and k not in o.weak]
    if isinstance(o, Arr):
        return [v for v in o.e if isinstance(v, (Obj, Arr, Clo))] if o.t not in ('int', 'long', 'double', 'string', 'byte') else ()
    if isinstance(o, Clo):
        return [v for v in o.caps if isinstance(v, (Obj, Arr, Clo))]
    return ()

def reach(roots):
    seen, st = set(), [r for r in roots if isinstance(r, (Obj, Arr, Clo))]
    while st:
        o = st.pop()
        if id(o) in seen: continue
        seen.add(id(o))
        st.extend(kids(o))
    return seen

class Scope:
    __slots__ = ('uids', 'temps')
    def __init__(self): self.uids, self.temps = [], []

class Frame:
    __slots__ = ('vars', 'scopes', 'm', 'eid')
    def __init__(self, m): self.vars, self.scopes, self.m, self.eid = {}, [Scope()], m, 0

class Machine:
    """Execution state of the model plus the position in the actual log."""
    def __init__(self, log=None, budget=60000):
        self.log, self.pos, self.frames, self.objs, self.cv = log, 0, [], {}, {}
        self.pending, self.live, self.nextid, self.steps, self.budget = [], {}, 1, 0, budget
        self.out, self.stat = [], {'prints': 0, 'destroys': 0, 'weakreads': 0, 'weakdead': 0, 'dies': 0, 'faults': 0, 'calls': 0, 'objects': 0}
        self.exc = None
        self.retval = []
        self.used = set()

    def step(self):
        self.steps += 1
        if self.steps > self.budget: raise Budget()

    def strict(self):
        r = list(self.cv.values()) + self.pending + self.retval
        for f in self.frames: r.extend(f.vars.values())
        return r
    def maybe(self):
        r = []
        for f in self.frames:
            for s in f.scopes: r.extend(s.temps)
        return r

    def kill(self, o):
        o.alive = False
        self.live.pop(o.id, None)
        self.stat['destroys'] += 1
        for p in self.objs.values():
            if p.alive and p.weak:
                for k in list(p.weak):
                    if p.f.get(k) is o:
                        p.f[k] = None
                        p.weak.discard(k)
        # strong references held by the dead object go away
        o.f = {k: (v if not isinstance(v, (Obj, Arr, Clo)) else None) for k, v in o.f.items()}

    def drain(self):
        if self.log is None:
            while True:
                r = reach(self.strict() + self.maybe())
                dead = [o for o in self.live.values() if id(o) not in r]
                if not dead: return
                # parents before children
                inner = reach([k for o in dead for k in kids(o)])
                top = [o for o in dead if id(o) not in inner] or dead
                for o in top: self.kill(o)
            return
        while self.pos < len(self.log) and self.log[self.pos].startswith('D '):
            m = re.match(r'D (\d+) (\S+) (\S*)$', self.log[self.pos])
            if not m: raise Violation('garbled', 'garbled DESTROY event %r' % self.log[self.pos])
            o = self.objs.get(int(m.group(1)))
            if o is None: return      # created later: no line was printed in between
            if not o.alive: raise Violation('destroy-twice', 'object %d destroyed twice' % o.id)
            r = reach(self.strict())
            if id(o) in r: return
            if m.group(2) != o.cls.dtag(): raise Violation('destroy', 'DESTROY of class tag %r ran for an object of %s' % (m.group(2), o.cls.name))
            want = o.cls.dstate(o)
            if m.group(3) != want: raise Violation('destroy-state', 'in DESTROY of %d the fields read %r, model says %r' % (o.id, m.group(3), want))
            self.pos += 1
            self.kill(o)

    def emit(self, line, wild=False):
        self.step()
        self.drain()
        self.stat['prints'] += 1
        if self.log is None:
            self.out.append(line)
            return
        if self.pos >= len(self.log):
            raise Violation('missing', 'the program stopped; the model expects %r' % line)
        got = self.log[self.pos]
        if not (got == line or (wild and got.startswith(wild))):
            if got.startswith('D '): raise Violation('destroyed-early', 'got %r while the object is strongly reachable; next expected line %r' % (got, line))
            raise Violation('mismatch', 'line %d: got %r, model says %r' % (self.pos, got, line))
        self.pos += 1
        r = reach(self.strict() + self.maybe())
        for o in self.live.values():
            if id(o) not in r:
                raise Violation('not-destroyed', 'object %d (%s) is unreachable and still not destroyed at line %d (%r)' % (o.id, o.cls.name, self.pos, got))

    def finish(self):
        self.drain()
        if self.log is not None and self.pos != len(self.log):
            raise Violation('extra', 'unexpected line %r' % self.log[self.pos])
        if self.live and self.log is not None:
            raise Violation('not-destroyed', 'objects alive at the end: %s' % sorted(self.live)[:10])

    def alive(self, o):
        if isinstance(o, Obj) and not o.alive:
            raise Violation('use-after-destroy', 'object %d is used after its destruction' % o.id)
        return o

class Cls:
    def __init__(self, g, name, short, level, parent=None):
        self.g, self.name, self.short, self.level, self.parent = g, name, short, level, parent
        self.fields = {}       # name -> type
        self.methods = {}      # name -> Method
        self.dfields = []
        self.lines = []
    def all_fields(self):
        d = dict(self.parent.all_fields()) if self.parent else {}
        d.update(self.fields)
        return d
    def find(self, m):
        c = self
        while c:
            if m in c.methods: return c.methods[m]
            c = c.parent
        return None
    def isa(self, other):
        c = self
        while c:
            if c is other: return True
            c = c.parent
        return False
    def dtag(self): return self.short
    def dstate(self, o):
        c = self
        while not c.dfields and c.parent: c = c.parent
        out = []
        for f in c.dfields:
            v = o.f.get(f)
            out.append('%s=%s' % (f, v if isinstance(v, int) else 'u' if v is None else v.id))
        return ','.join(out)

class Method:
    __slots__ = ('cls', 'name', 'ret', 'args', 'body', 'rank', 'static', 'disp', 'argvars')
    # args: list of (name, type)

class Gen:
    def __init__(self, rng, prefix, knobs=None):
        self.rng, self.p = rng, prefix
        k = dict(ctrl=1.0, obj=1.0, weak=1.0, exc=1.0, num=1.0, str=1.0, clo=1.0, size=8, depth=3, calls=4)
        k.update(knobs or {})
        self.k = k
        self.uid = 0
        self.strs = ['a', 'bc', 'def', '', 'x y', 'zz9', 'Q']
        self.feat = set()
        self.build()

    # ---------------------------------------------------------------- emission
    def emitln(self, s):
        self.cur.lines.append('  ' * self.ind + s)
        return len(self.cur.lines)
    @property
    def line(self):
        return len(self.cur.lines) + 1
    def nu(self, base='v'):
        self.uid += 1
        return '%s%d' % (base, self.uid)

    # ---------------------------------------------------------------- program
    def build(self):
        p = self.p
        self.classes = []
        def C(short, level, parent=None):
            c = Cls(self, p + short, short, level, parent)
            self.classes.append(c)
            return c
        self.L0 = C('L0', 0); self.L0x = C('L0x', 0, self.L0); self.L0y = C('L0y', 0, self.L0x)
        self.L1 = C('L1', 1); self.L1x = C('L1x', 1, self.L1)
        self.L2 = C('L2', 2)
        self.main = Cls(self, p + 'Main', 'Main', 9)
        self.byname = {c.name: c for c in self.classes}
        N = lambda c: c.name
        self.L0.fields = dict(id='int', n='int', l='long', s='string', d='double', up='W:object')
        self.L0x.fields = dict(k='int', b='byte')
        self.L0y.fields = dict(fl='float')
        self.L1.fields = dict(id='int', n='int', a=N(self.L0), b=N(self.L0), arr=N(self.L0) + '[]', wd='D:' + N(self.L0), up='W:object', ia='int[]')
        self.L1x.fields = dict(c=N(self.L0), o='object')
        self.L2.fields = dict(id='int', n='int', a=N(self.L1), b=N(self.L0), arr=N(self.L1) + '[]', wd='D:' + N(self.L1), up='W:object')
        self.L0.dfields = ['n']
        self.L1.dfields = ['n', 'a', 'b']
        self.L2.dfields = ['n', 'a', 'b']
        self.cvs = {'CI': 'int', 'CO': self.L1.name, 'CS': 'string', 'CP': self.L0.name}
        self.cb = p + 'Cb'
        self.ifc = p + 'I'
        self.methods = []
        self.rank = 0
        # instance methods, lowest level first; overridden in subclasses
        r = self.rng
        self.msig = {}
        for c in (self.L0, self.L1, self.L2):
            for i in range(2):
                ret = r.choice(['int', 'int', 'string', self.L0.name, 'void'])
                args = [self.argtype(c.level) for _ in range(r.randrange(3))]
                self.msig[c.name, 'm%d' % i] = (ret, args)
        for c in self.classes: self.open_class(c)
        self.cur = self.main
        self.open_main()
        for c in self.classes:
            self.cur, self.ind = c, 1
            base = c
            while base.parent: base = base.parent
            for i in range(2):
                nm = 'm%d' % i
                if c.parent and r.random() < 0.45: continue
                ret, args = self.msig[base.name, nm]
                self.gen_method(c, nm, ret, args, static=False)
        self.cur, self.ind = self.main, 1
        for i in range(self.k['calls']):
            ret = r.choice(['int', 'int', 'long', 'string', 'double', self.L0.name, self.L1.name, 'int[]', 'void'])
            args = [self.argtype(2) for _ in range(r.randrange(4))]
            self.gen_method(self.main, 'f%d' % i, ret, args, static=True)
        self.gen_main()
        for c in self.classes: c.lines.append('}')
        self.main.lines.append('}')

    def argtype(self, lvl):
        opts = ['int', 'int', 'long', 'string', 'double', self.L0.name, 'int[]']
        if lvl >= 1: opts += [self.L1.name, self.L0.name]
        if lvl >= 2: opts += [self.L2.name, self.L1.name]
        return self.rng.choice(opts)

    def ft(self, t):
        return t.split(':', 1)[1] if t[:2] in ('W:', 'D:') else t

    def open_class(self, c):
        L = c.lines
        par = ' extends ' + c.parent.name if c.parent else ''
        L.append('class %s%s : public {' % (c.name, par))
        L.append('  use Mon; use Fn; use Int; use %sMain;' % self.p)
        for o in self.classes:
            if o is not c: L.append('  use %s;' % o.name)
        if not c.parent: L.append('  interface %s;' % self.ifc)
        for f, t in c.fields.items(): L.append('  has %s : public %s;' % (f, self.ft(t)))
        L.append('  static method new : %s ($n : int) {' % c.name)
        L.append('    my $self = new %s;' % c.name)
        L.append('    $self->{id} = %sMain->next_id;' % self.p)
        L.append('    $self->{n} = $n;')
        if c is self.L0x or c is self.L0y: L.append('    $self->{k} = $n * 2;')
        L.append('    return $self;')
        L.append('  }')
        L.append('  method tag : int () { return $self->{id} * 10 + %d; }' % self.classes.index(c))
        L.append('  method DESTROY : void () {')
        body = []
        b = c
        while not b.dfields: b = b.parent
        expr = '"D " . $self->{id} . " %s "' % c.short
        for i, f in enumerate(b.dfields):
            if b.all_fields()[f] == 'int': expr += ' . "%s%s=" . $self->{%s}' % (',' if i else '', f, f)
            else:
                L.append('    my $t%d = "u"; my $x%d = $self->{%s}; if ($x%d) { $t%d = "" . $x%d->{id}; }' % (i, i, f, i, i, i))
                expr += ' . "%s%s=" . $t%d' % (',' if i else '', f, i)
        self.dexc = getattr(self, 'dexc', None)
        if self.dexc is None: self.dexc = self.rng.random() < 0.4 * self.k['exc']
        if self.dexc: L.append('    eval { die "inner %s"; }' % c.short)
        L.append('    say %s;' % expr)
        L.append('  }')

    def open_main(self):
        L = self.main.lines
        L.append('class %s : public {' % self.main.name)
        L.append('  use Mon; use Fn; use Int; use Error; use Error::System; use Error::NotSupported;')
        for o in self.classes: L.append('  use %s;' % o.name)
        L.append('  use %s; use %s;' % (self.cb, self.ifc))
        L.append('  our $ID : int;')
        for n, t in self.cvs.items(): L.append('  our $%s : public %s;' % (n, t))
        L.append('  static method next_id : int () { return ++$ID; }')
        L.append('  static method cut : string ($s : string) { if (length $s > 24) { return Fn->substr($s, 0, 24); } return $s; }')
        L.append('  static method sd : string ($o : %s) { if (!$o) { return "u"; } return "" . $o->tag; }' % self.ifc)

    def files(self, pre=None):
        """file name -> source. pre: None, 'all' or a set of short class names to precompile"""
        out = {}
        for c in self.classes + [self.main]:
            src = '\n'.join(c.lines) + '\n'
            if pre == 'all' or (pre and c.short in pre):
                src = src.replace(' : public {', ' : public precompile {', 1)
            out[c.name + '.spvm'] = src
        out[self.cb + '.spvm'] = 'class %s : interface_t public {\n  required method : int ($o : object, $n : int);\n}\n' % self.cb
        out[self.ifc + '.spvm'] = 'class %s : interface_t public {\n  required method tag : int ();\n}\n' % self.ifc
        return out

    # ---------------------------------------------------------------- methods
    def gen_method(self, c, name, ret, args, static):
        m = Method()
        m.cls, m.name, m.ret, m.static = c, name, ret, static
        self.rank += 1
        m.rank = self.rank
        m.disp = '%s->%s' % (c.name, name)
        self.scopes = [{}]
        al, m.argvars = [], []
        if not static:
            u = self.nu()
            self.scopes[0]['self'] = (c.name, u)
            m.argvars.append(u)
        for i, t in enumerate(args):
            u = self.nu()
            self.scopes[0]['a%d' % i] = (t, u)
            al.append('$a%d : %s' % (i, t))
            m.argvars.append(u)
        m.args = args
        self.msaved = getattr(self, 'method', None)
        self.method, self.loop, self.evald, self.inswitch, self.inclo = m, 0, 0, 0, 0
        self.budget = self.k['size'] + self.rng.randrange(self.k['size'])
        self.emitln('%smethod %s : %s (%s) {' % ('static ' if static else '', name, ret, ', '.join(al)))
        self.ind += 1
        body = self.block_body(self.k['depth'])
        if ret != 'void':
            ln = self.line
            e = self.expr(ret, 2)
            self.emitln('return %s;' % e[0])
            fin = self.st(lambda fr, e=e: self.do_return(fr, e[1](fr)), ln)
            body.append(fin)
        self.ind -= 1
        self.emitln('}')
        m.body = body
        c.methods[name] = m
        self.methods.append(m)
        return m

    def do_return(self, fr, v):
        raise RetX(v)

    def invoke(self, M, m, argv, line, caller, disp=None):
        """calls a generated method in the model"""
        M.step()
        M.stat['calls'] += 1
        fr = Frame(M)
        for u, v in zip(m.argvars, argv): fr.vars[u] = v
        M.frames.append(fr)
        try:
            try:
                self.run_block(fr, m.body)
                rv = 0 if m.ret in ('int', 'long', 'double') else None
            except RetX as r:
                rv = r.v
        except DieX as d:
            M.frames.pop()
            d.lines.append('  %s at %s line %d' % (caller[0], caller[1], line))
            raise
        except BaseException:
            M.frames.pop()
            raise
        M.retval.append(rv)
        M.frames.pop()
        M.drain()
        M.retval.pop()
        return rv

    def run_block(self, fr, body):
        for s in body: s(fr)

    def with_scope(self, fr, fn):
        sc = Scope()
        fr.scopes.append(sc)
        try:
            fn()
        finally:
            fr.scopes.pop()
            for u in sc.uids: fr.vars.pop(u, None)
        fr.m.drain()

    def st(self, fn, ln):
        def run(fr):
            fr.m.step()
            fr.m.pending_mark = len(fr.m.pending)
            n = len(fr.m.pending)
            try:
                fn(fr)
            finally:
                del fr.m.pending[n:]
        return run

    def where(self):
        """(method display, file) for stack traces of code generated now"""
        return (self.trname(), self.cur.name + '.spvm')
    def trname(self):
        if self.inclo: return self.cur.name + '::anon->'
        return self.method.disp

    def temp(self, fr, v):
        if isinstance(v, (Obj, Arr, Clo)): fr.scopes[-1].temps.append(v)
        return v

    # ---------------------------------------------------------------- variables
    def vars_of(self, pred):
        out = {}
        for sc in self.scopes:
            for n, (t, u) in sc.items(): out[n] = (t, u)
        return [(n, t, u) for n, (t, u) in out.items() if pred(t, n)]
    def declare(self, t, base='v', shadow=True):
        n = None
        if shadow and len(self.scopes) > 1 and self.rng.random() < 0.15:
            outer = [x for sc in (self.scopes[:-1] if len(self.scopes) > 2 else []) for x in sc if x not in self.scopes[-1] and x != 'self' and x[0] not in 'ie']
            if outer: n = self.rng.choice(outer); self.feat.add('shadow')
        if n is None: n = self.nu(base)
        u = self.nu('u')
        return n, u
    def bind(self, n, t, u):
        self.scopes[-1][n] = (t, u)

    def setvar(self, fr, u, v):
        fr.vars[u] = v
    def newvar(self, fr, u, v):
        fr.vars[u] = v
        fr.scopes[-1].uids.append(u)

    # ---------------------------------------------------------------- expressions
    def subs(self, t):
        c = self.byname.get(t)
        if not c: return []
        return [x for x in self.classes if x.isa(c)]

    def expr(self, t, d):
        """-> (source, fn(frame) -> value)"""
        r = self.rng
        if t == 'int': return self.e_int(d)
        if t == 'long': return self.e_long(d)
        if t == 'double': return self.e_double(d)
        if t == 'string': return self.e_string(d)
        if t == 'int[]': return self.e_iarr(d)
        if t == 'string[]': return self.e_sarr(d)
        if t.endswith('[]'): return self.e_oarr(t, d)
        if t == 'object':
            k = r.random()
            if k < 0.6: return self.expr(r.choice([self.L0.name, self.L1.name]), d)
            if k < 0.8:
                s, f = self.e_string(d)
                return s, f
            s, f = self.e_int(min(d, 1))
            return '(Int)(%s)' % s, lambda fr: Box('Int', f(fr))
        return self.e_obj(t, d)

    def const_int(self):
        r = self.rng
        k = r.random()
        if k < 0.7: return r.randrange(-4, 10)
        if k < 0.9: return r.randrange(-1000, 1000)
        return r.choice([2147483647, -2147483648, 65536, 32768, -32769, 255])

    def pick_var(self, t, assignable=False):
        vs = self.vars_of(lambda vt, n: vt == t and not (assignable and (n.startswith('i') or n == 'self')))
        return self.rng.choice(vs) if vs else None

    def callables(self, ret):
        out = [m for m in self.methods if m.ret == ret and m.rank < self.method.rank and m.static]
        return out

    def e_call(self, ret, d):
        r = self.rng
        ms = self.callables(ret)
        inst = [(c, nm) for (c, nm), (rt, a) in self.msig.items() if rt == ret and self.method_rank_ok(c)]
        if inst and (not ms or r.random() < 0.6):
            cname, nm = r.choice(inst)
            rt, args = self.msig[cname, nm]
            stat = [c for c in self.subs(cname)]
            c = r.choice(stat).name
            if r.random() < 0.7: c = cname
            inv = self.e_obj(c, d - 1)
            ai = [self.expr(a, d - 1) for a in args]
            ln, wh = self.line, self.where()
            self.feat.add('icall')
            def f(fr):
                M = fr.m
                n = len(M.pending)
                o = inv[1](fr); M.pending.append(o)
                av = []
                for a in ai:
                    v = a[1](fr); M.pending.append(v); av.append(v)
                if o is None: self.fault(M, ln, wh)
                M.alive(o)
                m = o.cls.find(nm)
                v = self.invoke(M, m, [o] + av, ln, wh)
                del M.pending[n:]
                return self.temp(fr, v)
            return '%s->%s(%s)' % (self.paren(inv[0]), nm, ', '.join(a[0] for a in ai)), f
        if not ms: return None
        m = r.choice(ms)
        ai = [self.expr(a, d - 1) for a in m.args]
        ln, wh = self.line, self.where()
        self.feat.add('scall')
        def f(fr):
            M = fr.m
            n = len(M.pending)
            av = []
            for a in ai:
                v = a[1](fr); M.pending.append(v); av.append(v)
            v = self.invoke(M, m, av, ln, wh)
            del M.pending[n:]
            return self.temp(fr, v)
        return '%s->%s(%s)' % (m.cls.name, m.name, ', '.join(a[0] for a in ai)), f

    def method_rank_ok(self, cname):
        # instance methods of cname (all overrides) must be finished before the current method
        if self.method.cls is self.main: return True
        lv = self.byname[cname].level
        return lv < self.method.cls.level

    def paren(self, s):
        if re.match(r'^\$\w+(->\{\w+\})*$', s): return s
        return '(%s)' % s

    def fault(self, M, ln, wh):
        M.stat['faults'] += 1
        raise DieX([None, '  %s at %s line %d' % (wh[0], wh[1], ln)], 18, True)

    def field_read(self, want, d):
        """an object expression with a field of type `want` read"""
        r = self.rng
        cands = []
        for n, t, u in self.vars_of(lambda vt, n: vt in self.byname):
            for f, ft in self.byname[t].all_fields().items():
                if ft == want: cands.append((n, u, f))
        if not cands: return None
        n, u, f = r.choice(cands)
        ln, wh = self.line, self.where()
        def fn(fr):
            o = fr.vars[u]
            if o is None: self.fault(fr.m, ln, wh)
            fr.m.alive(o)
            return self.temp(fr, o.f[f])
        return '$%s->{%s}' % (n, f), fn

    def e_cv(self, t):
        for n, ct in self.cvs.items():
            if ct == t:
                return '$%s::%s' % (self.main.name, n), lambda fr: self.temp(fr, fr.m.cv[n])
        return None

    def e_int(self, d):
        r = self.rng
        opts = ['const', 'var', 'var', 'var']
        if d > 0: opts += ['bin'] * 5 + ['field'] * 2 + ['elem', 'call', 'call', 'len', 'un', 'cmp', 'logic', 'cast', 'strlen', 'tag', 'cv', 'clo', 'scmp', 'box', 'isa', 'ocmp']
        k = r.choice(opts)
        if k == 'var':
            v = self.pick_var('int')
            if v: return '$' + v[0], lambda fr: fr.vars[v[2]]
        if k == 'bin':
            op = r.choice(['+', '-', '*', '+', '-', '&', '|', '^', '/', '%', '<<', '>>', '>>>'])
            a, b = self.e_int(d - 1), self.e_int(d - 1)
            ln, wh = self.line, self.where()
            if op in ('<<', '>>', '>>>'):
                def f(fr):
                    x = a[1](fr); y = b[1](fr)
                    return arith(op, x, y & 31, 'int')
                return '((%s) %s ((%s) & 31))' % (a[0], op, b[0]), f
            def f(fr):
                x = a[1](fr); y = b[1](fr)
                try: return arith(op, x, y, 'int')
                except DivZero: self.fault(fr.m, ln, wh)
            return '(%s %s %s)' % (a[0], op, b[0]), f
        if k == 'un':
            a = self.e_int(d - 1)
            if r.random() < 0.5: return '(-(%s))' % a[0], lambda fr: wt(-a[1](fr), 'int')
            return '(~(%s))' % a[0], lambda fr: ~a[1](fr)
        if k == 'field':
            x = self.field_read('int', d)
            if x: return x
        if k == 'elem':
            v = self.pick_var('int[]')
            if v:
                i = self.e_int(d - 1) if r.random() < 0.25 else self.small_int()
                ln, wh = self.line, self.where()
                def f(fr):
                    a = fr.vars[v[2]]; ix = i[1](fr)
                    if a is None or not 0 <= ix < len(a.e): self.fault(fr.m, ln, wh)
                    return a.e[ix]
                return '$%s->[%s]' % (v[0], i[0]), f
        if k == 'len':
            v = self.pick_var('int[]')
            if v:
                ln, wh = self.line, self.where()
                def f(fr):
                    a = fr.vars[v[2]]
                    if a is None: self.fault(fr.m, ln, wh)
                    return len(a.e)
                return '(scalar @$%s)' % v[0], f
        if k == 'strlen':
            a = self.e_string(d - 1)
            return '(length %s)' % self.paren(a[0]), lambda fr: len(a[1](fr))
        if k == 'call':
            x = self.e_call('int', d)
            if x: return x
        if k == 'cmp':
            t = r.choice(['int', 'long', 'double'])
            op = r.choice(['==', '!=', '<', '<=', '>', '>=', '<=>'])
            a, b = self.expr(t, d - 1), self.expr(r.choice([t, 'int']), d - 1)
            def f(fr):
                x = a[1](fr); y = b[1](fr)
                return compare(op, x, y)
            return '(%s %s %s)' % (a[0], op, b[0]), f
        if k == 'scmp':
            op = r.choice(['eq', 'ne', 'lt', 'gt', 'le', 'ge', 'cmp'])
            a, b = self.e_string(d - 1), self.e_string(d - 1)
            def f(fr):
                x = a[1](fr); y = b[1](fr)
                return {'eq': x == y, 'ne': x != y, 'lt': x < y, 'gt': x > y, 'le': x <= y, 'ge': x >= y, 'cmp': (x > y) - (x < y)}[op] * 1
            return '(%s %s %s)' % (a[0], op, b[0]), f
        if k == 'ocmp':
            t = r.choice([self.L0.name, self.L1.name])
            a, b = self.e_obj(t, d - 1, simple=True), self.e_obj(t, d - 1, simple=True)
            op = r.choice(['==', '!='])
            return '(%s %s %s)' % (a[0], op, b[0]), lambda fr: self.same(a[1](fr), b[1](fr), op, fr)
        if k == 'logic':
            # value of && and || is the evaluated condition
            op = r.choice(['&&', '||'])
            a, b = self.e_int(d - 1), self.e_int(d - 1)
            self.feat.add('logic')
            def f(fr):
                x = a[1](fr)
                if op == '&&': return b[1](fr) if x else 0
                return x if x else b[1](fr)
            if r.random() < 0.3: return '(!(%s %s %s))' % (a[0], op, b[0]), lambda fr: 0 if f(fr) else 1
            return '(%s %s %s)' % (a[0], op, b[0]), f
        if k == 'cast':
            t = r.choice(['long', 'byte', 'short'])
            if t == 'long':
                a = self.e_long(d - 1)
                return '(int)(%s)' % a[0], lambda fr: wt(a[1](fr), 'int')
            a = self.e_int(d - 1)
            return '(int)(%s)(%s)' % (t, a[0]), lambda fr: wt(a[1](fr), t)
        if k == 'tag':
            o = self.e_obj(r.choice([self.L0.name, self.L1.name]), d - 1)
            ln, wh = self.line, self.where()
            def f(fr):
                x = self.temp(fr, o[1](fr))
                if x is None: self.fault(fr.m, ln, wh)
                fr.m.alive(x)
                return wt(x.id * 10 + self.classes.index(x.cls), 'int')
            src = self.paren(o[0])
            if r.random() < 0.4: src = '((%s)%s)' % (self.ifc, src); self.feat.add('ifcall')
            return '%s->tag' % src, f
        if k == 'isa':
            o = self.e_obj(self.L0.name, d - 1)
            c = r.choice([self.L0, self.L0x, self.L0y])
            self.feat.add('isa')
            def f(fr):
                x = o[1](fr)
                return 1 if x is not None and x.cls.isa(c) else 0
            return '(%s isa %s)' % (self.paren(o[0]), c.name), f
        if k == 'box':
            a = self.e_int(d - 1)
            return '(int)(object)(Int)(%s)' % a[0], a[1]
        if k == 'cv':
            return self.e_cv('int')
        if k == 'clo':
            vs = self.vars_of(lambda vt, n: vt == self.cb)
            if vs:
                v = r.choice(vs)
                o, a = self.e_obj(self.L0.name, d - 1), self.e_int(d - 1)
                ln, wh = self.line, self.where()
                self.feat.add('closure-call')
                def f(fr):
                    M = fr.m
                    c = fr.vars[v[2]]
                    n = len(M.pending)
                    x = o[1](fr); M.pending.append(x)
                    y = a[1](fr)
                    if c is None: self.fault(M, ln, wh)
                    rv = c.fn(M, c, x, y, ln, wh)
                    del M.pending[n:]
                    return rv
                return '$%s->(%s, %s)' % (v[0], o[0], a[0]), f
        c = self.const_int()
        return ('%d' % c if c >= 0 else '(%d)' % c), lambda fr: c

    def same(self, x, y, op, fr):
        return ((x is y) == (op == '==')) * 1

    def small_int(self):
        c = self.rng.randrange(0, 4)
        return str(c), lambda fr: c

    def e_long(self, d):
        r = self.rng
        k = r.choice(['const', 'var'] + (['bin'] * 3 + ['widen', 'field', 'call'] if d > 0 else []))
        if k == 'var':
            v = self.pick_var('long')
            if v: return '$' + v[0], lambda fr: fr.vars[v[2]]
        if k == 'bin':
            op = r.choice(['+', '-', '*', '&', '|', '^', '/', '%'])
            a, b = self.e_long(d - 1), self.expr(r.choice(['long', 'int']), d - 1)
            ln, wh = self.line, self.where()
            def f(fr):
                x = a[1](fr); y = b[1](fr)
                try: return arith(op, x, y, 'long')
                except DivZero: self.fault(fr.m, ln, wh)
            return '(%s %s %s)' % (a[0], op, b[0]), f
        if k == 'widen':
            a = self.e_int(d - 1)
            return '(long)(%s)' % a[0], a[1]
        if k == 'field':
            x = self.field_read('long', d)
            if x: return x
        if k == 'call':
            x = self.e_call('long', d)
            if x: return x
        c = r.choice([0, 1, -1, 5, 1 << 33, -(1 << 40), r.randrange(-100, 100), (1 << 63) - 1])
        return ('%dL' % c if c >= 0 else '(%dL)' % c), lambda fr: c

    def e_double(self, d):
        r = self.rng
        k = r.choice(['const', 'var'] + (['bin'] * 3 + ['widen', 'field', 'call'] if d > 0 else []))
        if k == 'var':
            v = self.pick_var('double')
            if v: return '$' + v[0], lambda fr: fr.vars[v[2]]
        if k == 'bin':
            op = r.choice(['+', '-', '*', '/'])
            a, b = self.e_double(d - 1), self.expr(r.choice(['double', 'int']), d - 1)
            def f(fr):
                x = a[1](fr); y = b[1](fr)
                return arith(op, x, float(y), 'double')
            return '(%s %s %s)' % (a[0], op, b[0]), f
        if k == 'widen':
            a = self.e_int(d - 1)
            return '(double)(%s)' % a[0], lambda fr: float(a[1](fr))
        if k == 'field':
            x = self.field_read('double', d)
            if x: return x
        if k == 'call':
            x = self.e_call('double', d)
            if x: return x
        c = r.choice([0.0, 1.0, 0.5, 2.25, 100.0, 1e10])
        return '%r' % c if 'e' not in repr(c) else '1.0e10', lambda fr: c

    def e_string(self, d):
        r = self.rng
        k = r.choice(['const', 'var', 'var'] + (['cat'] * 4 + ['num', 'field', 'call', 'cv', 'interp'] if d > 0 else []))
        if k == 'var':
            v = self.pick_var('string')
            if v:
                ln, wh = self.line, self.where()
                return '$' + v[0], lambda fr: fr.vars[v[2]]
        if k == 'cat':
            a, b = self.e_string(d - 1), self.e_string(d - 1)
            def f(fr):
                x = a[1](fr); y = b[1](fr)
                return (x + y)[:24]
            return '%s->cut(%s . %s)' % (self.main.name, a[0], b[0]), f
        if k == 'num':
            t = r.choice(['int', 'long'])
            a = self.expr(t, d - 1)
            return '("" . (%s))' % a[0], lambda fr: '%d' % a[1](fr)
        if k == 'interp':
            v = self.pick_var('string')
            if v: return '%s->cut("<$%s>")' % (self.main.name, v[0]), lambda fr: ('<' + fr.vars[v[2]] + '>')[:24]
        if k == 'call':
            x = self.e_call('string', d)
            if x: return x
        if k == 'cv':
            return self.e_cv('string')
        c = r.choice(self.strs)
        return '"%s"' % c, lambda fr: c

    def e_iarr(self, d):
        r = self.rng
        k = r.choice(['new', 'lit', 'var', 'var'] + (['field', 'call'] if d > 0 else []))
        if k == 'var':
            v = self.pick_var('int[]')
            if v: return '$' + v[0], lambda fr: fr.vars[v[2]]
        if k == 'field':
            x = self.field_read('int[]', d)
            if x: return x
        if k == 'call':
            x = self.e_call('int[]', d)
            if x: return x
        if k == 'new':
            n = r.randrange(1, 5)
            return '(new int[%d])' % n, lambda fr: self.temp(fr, Arr('int', [0] * n))
        es = [self.e_int(min(d - 1, 1)) for _ in range(r.randrange(1, 4))]
        return '[%s]' % ', '.join(['(int)(%s)' % e[0] for e in es]), lambda fr: self.temp(fr, Arr('int', [e[1](fr) for e in es]))

    def e_oarr(self, t, d):
        r = self.rng
        et = t[:-2]
        k = r.choice(['new', 'lit', 'lit', 'var', 'var', 'field'])
        if k == 'var':
            v = self.pick_var(t)
            if v: return '$' + v[0], lambda fr: fr.vars[v[2]]
        if k == 'field':
            x = self.field_read(t, d)
            if x: return x
        if k == 'new':
            n = r.randrange(1, 4)
            return '(new %s[%d])' % (et, n), lambda fr: self.temp(fr, Arr(et, [None] * n))
        es = [self.e_obj(et, d - 1) for _ in range(r.randrange(1, 4))]
        def f(fr):
            M = fr.m
            n = len(M.pending)
            out = []
            for e in es:
                v = e[1](fr); M.pending.append(v); out.append(v)
            del M.pending[n:]
            return self.temp(fr, Arr(et, out))
        return '[%s]' % ', '.join('(%s)(%s)' % (et, e[0]) for e in es), f

    def e_obj(self, t, d, simple=False):
        r = self.rng
        opts = ['var', 'var', 'var']
        if not simple: opts += ['new', 'new']
        if d > 0: opts += ['field', 'field', 'cv', 'elem'] + ([] if simple else ['call', 'call', 'undef', 'castup'])
        k = r.choice(opts)
        if k == 'var':
            subs = {c.name for c in self.subs(t)}
            vs = self.vars_of(lambda vt, n: vt in subs)
            if vs:
                v = r.choice(vs)
                return '$' + v[0], lambda fr: fr.vars[v[2]]
            k = 'new'
        if k == 'field':
            x = self.field_read(t, d)
            if x: return x
            k = 'new'
        if k == 'elem':
            v = self.pick_var(t + '[]')
            if v:
                i = self.small_int() if r.random() < 0.5 else ('0', lambda fr: 0)
                ln, wh = self.line, self.where()
                def f(fr):
                    a = fr.vars[v[2]]; ix = i[1](fr)
                    if a is None or not 0 <= ix < len(a.e): self.fault(fr.m, ln, wh)
                    return self.temp(fr, a.e[ix])
                return '$%s->[%s]' % (v[0], i[0]), f
        if k == 'cv':
            x = self.e_cv(t)
            if x: return x
        if k == 'call':
            x = self.e_call(t, d)
            if x: return x
        if k == 'undef' and r.random() < 0.3:
            return '(%s)undef' % t, lambda fr: None
        if k == 'castup':
            # down cast of a value of the static type
            subs = [c for c in self.subs(t) if c.name != t]
            if subs:
                c = r.choice(subs)
                a = self.e_obj(t, d - 1)
                ln, wh = self.line, self.where()
                self.feat.add('downcast')
                def f(fr):
                    x = a[1](fr)
                    if x is not None and not x.cls.isa(c): self.fault(fr.m, ln, wh)
                    return self.temp(fr, x)
                return '(%s)(%s)' % (c.name, a[0]), f
        c = r.choice(self.subs(t))
        n = self.const_int() if d <= 0 else None
        a = ('%d' % n, lambda fr: n) if n is not None else self.e_int(d - 1)
        return '%s->new(%s)' % (c.name, a[0]), lambda fr: self.temp(fr, self.make(fr.m, c, a[1](fr)))

    def make(self, M, c, n):
        f = {}
        for name, t in c.all_fields().items():
            f[name] = 0 if t in ('int', 'long', 'byte') else 0.0 if t in ('double', 'float') else None
        o = Obj(c, M.nextid, f)
        M.nextid += 1
        f['id'], f['n'] = o.id, n
        if 'k' in f: f['k'] = wt(n * 2, 'int')
        M.objs[o.id] = o
        M.live[o.id] = o
        M.stat['objects'] += 1
        return o

    # ---------------------------------------------------------------- statements
    def block_body(self, depth, n=None):
        """generates statements in a new compile-time scope; returns closures"""
        self.scopes.append({})
        out = []
        n = n or self.rng.randrange(1, 4 + depth)
        for _ in range(n):
            if self.budget <= 0 and out: break
            self.budget -= 1
            s = self.stmt(depth)
            if s: out.append(s)
            if s and getattr(s, 'stop', False): break
        self.scopes.pop()
        return out

    def scoped(self, body):
        return lambda fr: self.with_scope(fr, lambda: self.run_block(fr, body))

    def stmt(self, depth):
        r, k = self.rng, self.k
        w = [('decl', 4), ('print', 4), ('assign', 4), ('setfield', 3 * k['obj']), ('setelem', 2), ('opassign', 2 * k['num']),
             ('cvset', 1), ('weak', 2.2 * k['weak']), ('weakread', 2.2 * k['weak']), ('callst', 1.5), ('incdec', 1), ('isweak', 0.8 * k['weak']),
             ('undef', 1.2 * k['obj']), ('clodecl', 0.7 * k['clo'])]
        if depth > 0:
            w += [('if', 2.5 * k['ctrl']), ('for', 1.5 * k['ctrl']), ('while', 1 * k['ctrl']), ('foreach', 1 * k['ctrl']), ('switch', 1 * k['ctrl']),
                  ('eval', 2 * k['exc']), ('block', 0.7)]
        if self.loop: w += [('next', 0.7 * k['ctrl']), ('last', 0.6 * k['ctrl'])]
        if self.inswitch: w += [('break', 0.8)]
        w += [('die', (1.0 if self.evald else 0.25) * k['exc']), ('return', 0.35 * k['ctrl'])]
        tot = sum(x[1] for x in w)
        x = r.random() * tot
        for name, ww in w:
            x -= ww
            if x <= 0: break
        self.feat.add(name)
        return getattr(self, 's_' + name)(depth)

    def rtype(self):
        return self.rng.choice(['int', 'int', 'long', 'string', 'double', self.L0.name, self.L0.name, self.L1.name, self.L1.name, self.L2.name, 'int[]', self.L0.name + '[]', self.L0x.name])

    def s_decl(self, depth):
        t = self.rtype()
        n, u = self.declare(t)
        ln = self.line
        e = self.expr(t, 2)
        self.emitln('my $%s : %s = %s;' % (n, t, e[0]))
        self.bind(n, t, u)
        return self.st(lambda fr: self.newvar(fr, u, e[1](fr)), ln)

    def show(self, t, e):
        """(source of a string expression, fn -> str)"""
        if t in ('int', 'long'): return '"" . (%s)' % e[0], lambda fr: str(e[1](fr))
        if t == 'double': return '"" . Mon->double_bits(%s)' % e[0], lambda fr: str(dbits(e[1](fr)))
        if t == 'string': return '%s' % e[0], e[1]
        if t.endswith('[]'): return None
        def f(fr):
            o = e[1](fr)
            if o is None: return 'u'
            fr.m.alive(o)
            return str(o.id * 10 + self.classes.index(o.cls))
        return '%s->sd(%s)' % (self.main.name, e[0]), f

    def s_print(self, depth):
        t = self.rng.choice(['int', 'int', 'long', 'string', 'double', self.L0.name, self.L1.name])
        ln = self.line
        e = self.show(t, self.expr(t, 3))
        mark = self.nu('p')
        self.emitln('say "%s:" . %s;' % (mark, e[0] if t == 'string' else '(%s)' % e[0]))
        return self.st(lambda fr: fr.m.emit(mark + ':' + e[1](fr)), ln)

    def s_assign(self, depth):
        vs = self.vars_of(lambda t, n: n != 'self' and not n.startswith('i') and t != self.cb)
        if not vs: return self.s_decl(depth)
        n, t, u = self.rng.choice(vs)
        ln = self.line
        e = self.expr(t, 2)
        self.emitln('$%s = %s;' % (n, e[0]))
        return self.st(lambda fr: self.setvar(fr, u, e[1](fr)), ln)

    def s_undef(self, depth):
        vs = self.vars_of(lambda t, n: n != 'self' and not n.startswith('i') and (t in self.byname or (t.endswith('[]'))))
        if not vs: return self.s_decl(depth)
        n, t, u = self.rng.choice(vs)
        ln = self.line
        self.emitln('$%s = undef;' % n)
        return self.st(lambda fr: self.setvar(fr, u, None), ln)

    def s_incdec(self, depth):
        v = self.pick_var('int', True)
        if not v: return self.s_decl(depth)
        ln, u = self.line, v[2]
        op = self.rng.choice(['++', '--'])
        dl = 1 if op == '++' else -1
        if self.rng.random() < 0.5:
            self.emitln(self.rng.choice(['$%s%s;', '%s']) % (v[0], op) if False else '$%s%s;' % (v[0], op))
            return self.st(lambda fr: self.setvar(fr, u, wt(fr.vars[u] + dl, 'int')), ln)
        n, nu = self.declare('int')
        post = self.rng.random() < 0.5
        if n == v[0]: n = self.nu('v')
        self.emitln('my $%s : int = %s;' % (n, '$%s%s' % (v[0], op) if post else '%s$%s' % (op, v[0])))
        self.bind(n, 'int', nu)
        def f(fr):
            old = fr.vars[u]
            fr.vars[u] = wt(old + dl, 'int')
            self.newvar(fr, nu, old if post else fr.vars[u])
        return self.st(f, ln)

    def s_opassign(self, depth):
        t = self.rng.choice(['int', 'int', 'long', 'string', 'double'])
        v = self.pick_var(t, True)
        if not v: return self.s_decl(depth)
        n, _, u = v
        ln, wh = self.line, self.where()
        if t == 'string':
            c = self.rng.choice(self.strs)
            self.emitln('$%s .= "%s"; $%s = %s->cut($%s);' % (n, c, n, self.main.name, n))
            return self.st(lambda fr: self.setvar(fr, u, (fr.vars[u] + c)[:24]), ln)
        if t == 'double':
            op = self.rng.choice(['+', '-', '*'])
        else: op = self.rng.choice(['+', '-', '*', '&', '|', '^', '/', '%'])
        e = self.expr('int' if t == 'double' else t, 2)
        self.emitln('$%s %s= %s;' % (n, op, e[0]))
        def f(fr):
            y = e[1](fr)
            if t == 'double': y = float(y)
            try: self.setvar(fr, u, arith(op, fr.vars[u], y, t))
            except DivZero: self.fault(fr.m, ln, wh)
        return self.st(f, ln)

    def s_cvset(self, depth):
        n, t = self.rng.choice(list(self.cvs.items()))
        ln = self.line
        e = self.expr(t, 2)
        self.emitln('$%s::%s = %s;' % (self.main.name, n, e[0]))
        def f(fr):
            fr.m.cv[n] = e[1](fr)
        return self.st(f, ln)

    def s_setfield(self, depth):
        r = self.rng
        vs = self.vars_of(lambda t, n: t in self.byname)
        if not vs: return self.s_decl(depth)
        n, t, u = r.choice(vs)
        fs = [(f, ft) for f, ft in self.byname[t].all_fields().items() if ft[:2] != 'W:' and f not in ('id',)]
        f, ft = r.choice(fs)
        ft0 = self.ft(ft)
        ln, wh = self.line, self.where()
        if ft0 == 'byte':
            e = self.e_int(1); src = '(byte)(%s)' % e[0]; g = lambda fr: wt(e[1](fr), 'byte')
        elif ft0 == 'float':
            e = self.e_int(1); src = '(float)(%s)' % e[0]; g = lambda fr: conv(e[1](fr), 'int', 'float')
        elif ft0 == 'object':
            e = self.expr(r.choice([self.L0.name, 'string']), 2) ; src, g = e
        else:
            src, g = self.expr(ft0, 2)
        self.emitln('$%s->{%s} = %s;' % (n, f, src))
        def fn(fr):
            v = g(fr)
            o = fr.vars[u]
            if o is None: self.fault(fr.m, ln, wh)
            fr.m.alive(o)
            o.weak.discard(f)
            o.f[f] = v
        return self.st(fn, ln)

    def s_setelem(self, depth):
        r = self.rng
        vs = self.vars_of(lambda t, n: t.endswith('[]'))
        if not vs: return self.s_decl(depth)
        n, t, u = r.choice(vs)
        ln, wh = self.line, self.where()
        i = self.small_int() if r.random() < 0.9 else self.e_int(1)
        e = self.expr(t[:-2], 2)
        self.emitln('$%s->[%s] = %s;' % (n, i[0], e[0]))
        def fn(fr):
            M = fr.m
            k = len(M.pending)
            v = e[1](fr); M.pending.append(v)
            ix = i[1](fr)
            a = fr.vars[u]
            if a is None or not 0 <= ix < len(a.e): self.fault(M, ln, wh)
            a.e[ix] = v
            del M.pending[k:]
        return self.st(fn, ln)

    def s_weak(self, depth):
        """assign and weaken a back reference, or toggle the strength of a downward one"""
        r = self.rng
        vs = self.vars_of(lambda t, n: t in self.byname)
        if not vs: return self.s_decl(depth)
        n, t, u = r.choice(vs)
        ln, wh = self.line, self.where()
        k = r.random()
        lv = self.byname[t].level
        if k < 0.55:
            m, t2, u2 = r.choice(vs)
            self.emitln('if ($%s) { $%s->{up} = $%s; weaken $%s->{up}; }' % (n, n, m, n))
            def fn(fr):
                o = fr.vars[u]
                if o is None: return
                fr.m.alive(o)
                v = fr.vars[u2]
                o.f['up'] = v
                if v is not None: o.weak.add('up')
                else: o.weak.discard('up')
            return self.st(fn, ln)
        if lv == 0: return self.s_weakread(depth)
        wt_ = self.ft(self.byname[t].all_fields()['wd'])
        if k < 0.75:
            e = self.e_obj(wt_, 1, simple=True)
            self.emitln('if ($%s) { $%s->{wd} = %s; weaken $%s->{wd}; }' % (n, n, e[0], n))
            def fn(fr):
                o = fr.vars[u]
                if o is None: return
                v = e[1](fr)
                o.f['wd'] = v
                if v is not None: o.weak.add('wd')
                else: o.weak.discard('wd')
            ev = self.st(fn, ln)
            return ev
        op = 'weaken' if k < 0.87 else 'unweaken'
        self.emitln('if ($%s) { %s $%s->{wd}; }' % (n, op, n))
        def fn(fr):
            o = fr.vars[u]
            if o is None: return
            fr.m.drain()
            v = o.f['wd']
            if v is None: return
            if op == 'weaken': o.weak.add('wd')
            else:
                o.weak.discard('wd')
        return self.st(fn, ln)

    def s_isweak(self, depth):
        vs = self.vars_of(lambda t, n: t in self.byname and self.byname[t].level > 0)
        if not vs: return self.s_decl(depth)
        n, t, u = self.rng.choice(vs)
        ln = self.line
        mark = self.nu('p')
        self.emitln('if ($%s) { say "%s:" . (isweak $%s->{wd}); }' % (n, mark, n))
        def fn(fr):
            o = fr.vars[u]
            if o is None: return
            M = fr.m
            M.drain()
            M.emit('%s:%d' % (mark, 1 if 'wd' in o.weak and o.f['wd'] is not None else 0))
        return self.st(fn, ln)

    def s_weakread(self, depth):
        """reads a weak field into a fresh variable and prints what it sees"""
        r = self.rng
        vs = self.vars_of(lambda t, n: t in self.byname)
        if not vs: return self.s_decl(depth)
        n, t, u = r.choice(vs)
        down = self.byname[t].level > 0 and r.random() < 0.4
        f = 'wd' if down else 'up'
        ln = self.line
        mark = self.nu('p')
        b = self.nu('w')
        T = self.ifc
        self.emitln('if ($%s) { my $%s = (%s)$%s->{%s}; say "%s:" . %s->sd($%s); }' % (n, b, T, n, f, mark, self.main.name, b))
        def fn(fr):
            o = fr.vars[u]
            if o is None: return
            M = fr.m
            M.alive(o)
            M.drain()
            M.stat['weakreads'] += 1
            v = o.f[f]
            if v is None:
                M.stat['weakdead'] += 1
                M.emit(mark + ':u')
            else:
                M.alive(v)
                M.pending.append(v)
                M.emit('%s:%d' % (mark, v.id * 10 + self.classes.index(v.cls)))
        return self.st(fn, ln)

    def s_callst(self, depth):
        ret = self.rng.choice(['void', 'int', self.L0.name, 'string'])
        ln = self.line
        x = self.e_call(ret, 2)
        if not x: return self.s_decl(depth)
        self.emitln('%s;' % x[0])
        return self.st(lambda fr: x[1](fr), ln)

    def s_clodecl(self, depth):
        """an anonymous method capturing some variables by value"""
        if self.inclo or self.cur is not self.main: return self.s_decl(depth)
        r = self.rng
        vs = self.vars_of(lambda t, n: n != 'self' and not n.startswith('i') and t != self.cb)
        r.shuffle(vs)
        caps = vs[:r.randrange(0, 4)]
        n, u = self.declare(self.cb)
        ln = self.line
        head = ''
        if caps: head = '[%s] ' % ', '.join('$%s : %s' % (c[0], c[1]) for c in caps)
        self.emitln('my $%s : %s = %smethod : int ($o : object, $n : int) {' % (n, self.cb, head))
        saved = (self.scopes, self.loop, self.evald, self.inswitch, self.inclo, self.ind)
        cu = [(c, self.nu('u')) for c in caps]
        au, nu_ = self.nu('u'), self.nu('u')
        sc = {c[0]: (c[1], x) for c, x in cu}
        sc['n'] = ('int', nu_)
        self.scopes = [sc]
        self.loop = self.evald = self.inswitch = 0
        self.inclo = 1
        self.ind += 1
        body = self.block_body(1, 2)
        rl = self.line
        e = self.e_int(2)
        self.emitln('return %s;' % e[0])
        body.append(self.st(lambda fr: self.do_return(fr, e[1](fr)), rl))
        (self.scopes, self.loop, self.evald, self.inswitch, self.inclo, self.ind) = saved
        self.emitln('};')
        self.bind(n, self.cb, u)
        def call(M, clo, x, y, ln2, wh2):
            M.step()
            M.stat['calls'] += 1
            fr = Frame(M)
            for (c, cu_), v in zip(cu, clo.caps): fr.vars[cu_] = v
            fr.vars[au] = x
            fr.vars[nu_] = y
            M.frames.append(fr)
            # the callee also keeps its own invocant alive
            fr.vars['clo'] = clo
            try:
                self.run_block(fr, body)
                rv = 0
            except RetX as rx:
                rv = rx.v
            except DieX as d:
                M.frames.pop()
                d.lines.append('  %s at %s line %d' % (wh2[0], wh2[1], ln2))
                raise
            except BaseException:
                M.frames.pop()
                raise
            M.frames.pop()
            M.drain()
            return rv
        def fn(fr):
            c = Clo(call, [fr.vars[x[2]] for x in caps])
            self.temp(fr, c)
            self.newvar(fr, u, c)
        return self.st(fn, ln)

    # conditions
    def cond(self, d=2):
        """(source, fn -> truth)"""
        r = self.rng
        k = r.choice(['int', 'int', 'int', 'cmp', 'obj', 'str', 'long', 'double', 'and', 'or', 'not'])
        if k in ('and', 'or'):
            a, b = self.cond(d - 1) if d > 0 else self.e_int(1), self.cond(d - 1) if d > 0 else self.e_int(1)
            if k == 'and': return '%s && %s' % (self.pc(a[0]), self.pc(b[0])), lambda fr: a[1](fr) and b[1](fr)
            return '%s || %s' % (self.pc(a[0]), self.pc(b[0])), lambda fr: a[1](fr) or b[1](fr)
        if k == 'not':
            a = self.cond(d - 1) if d > 0 else self.e_int(1)
            return '!(%s)' % a[0], lambda fr: not a[1](fr)
        if k == 'obj':
            a = self.e_obj(r.choice([self.L0.name, self.L1.name]), 1)
            return a[0], lambda fr: a[1](fr) is not None
        if k == 'str':
            a = self.e_string(1)
            return a[0], lambda fr: a[1](fr) is not None
        if k in ('long', 'double'):
            a = self.expr(k, 1)
            return a[0], lambda fr: a[1](fr) != 0
        a = self.e_int(d)
        return a[0], lambda fr: a[1](fr) != 0
    def pc(self, s): return '(%s)' % s

    def s_if(self, depth):
        r = self.rng
        ln = self.line
        neg = r.random() < 0.25
        c = self.cond()
        self.emitln('%s (%s) {' % ('unless' if neg else 'if', c[0]))
        arms = []
        self.ind += 1
        arms.append((c[1], neg, self.block_body(depth - 1)))
        self.ind -= 1
        for _ in range(r.choice([0, 0, 1, 2])):
            neg2 = r.random() < 0.2
            c2 = self.cond()
            self.emitln('} %s (%s) {' % ('els' + 'if' if not neg2 else 'elsif', c2[0] if not neg2 else '!(%s)' % c2[0]))
            self.ind += 1
            arms.append((c2[1], neg2, self.block_body(depth - 1)))
            self.ind -= 1
        els = None
        if r.random() < 0.5:
            self.emitln('} else {')
            self.ind += 1
            els = self.block_body(depth - 1)
            self.ind -= 1
        self.emitln('}')
        def fn(fr):
            for cf, ng, body in arms:
                if bool(cf(fr)) != ng:
                    self.with_scope(fr, lambda: self.run_block(fr, body))
                    return
            if els is not None: self.with_scope(fr, lambda: self.run_block(fr, els))
        return self.st(fn, ln)

    def loop_body(self, fr, body):
        """-> True to stop"""
        try:
            self.with_scope(fr, lambda: self.run_block(fr, body))
        except NextX:
            fr.m.drain()
        except LastX:
            fr.m.drain()
            return True
        return False

    def s_for(self, depth):
        r = self.rng
        i, u = self.nu('i'), self.nu('u')
        n = r.randrange(1, 4)
        ln = self.line
        dn = r.random() < 0.3
        if dn: self.emitln('for (my $%s = %d; $%s > 0; $%s--) {' % (i, n, i, i))
        else: self.emitln('for (my $%s = 0; $%s < %d; $%s++) {' % (i, i, n, i))
        self.scopes.append({i: ('int', u)})
        sv, self.loop = (self.loop, self.inswitch), self.loop + 1
        self.inswitch = 0
        self.ind += 1
        body = self.block_body(depth - 1)
        self.ind -= 1
        self.loop, self.inswitch = sv
        self.scopes.pop()
        self.emitln('}')
        def fn(fr):
            def go():
                self.newvar(fr, u, n if dn else 0)
                while (fr.vars[u] > 0) if dn else (fr.vars[u] < n):
                    fr.m.step()
                    if self.loop_body(fr, body): break
                    fr.vars[u] += -1 if dn else 1
            self.with_scope(fr, go)
        return self.st(fn, ln)

    def s_while(self, depth):
        r = self.rng
        i, u = self.nu('i'), self.nu('u')
        n = r.randrange(1, 4)
        self.emitln('my $%s = %d;' % (i, n))
        self.bind(i, 'int', u)
        ln = self.line
        c = self.cond(1)
        self.emitln('while ($%s-- > 0 && (%s)) {' % (i, c[0]))
        sv, self.loop = (self.loop, self.inswitch), self.loop + 1
        self.inswitch = 0
        self.ind += 1
        body = self.block_body(depth - 1)
        self.ind -= 1
        self.loop, self.inswitch = sv
        self.emitln('}')
        def fn(fr):
            self.newvar(fr, u, n)
            while True:
                fr.m.step()
                v = fr.vars[u]
                fr.vars[u] = v - 1
                if not (v > 0 and c[1](fr)): break
                if self.loop_body(fr, body): break
        return self.st(fn, ln)

    def s_foreach(self, depth):
        r = self.rng
        t = r.choice(['int[]', self.L0.name + '[]'])
        v = self.pick_var(t)
        if not v: return self.s_decl(depth)
        x, u = self.nu('e'), self.nu('u')
        ln, wh = self.line, self.where()
        self.emitln('for my $%s (@$%s) {' % (x, v[0]))
        self.scopes.append({x: (t[:-2], u)})
        sv, self.loop = (self.loop, self.inswitch), self.loop + 1
        self.inswitch = 0
        self.ind += 1
        body = self.block_body(depth - 1)
        self.ind -= 1
        self.loop, self.inswitch = sv
        self.scopes.pop()
        self.emitln('}')
        def fn(fr):
            a = fr.vars[v[2]]
            if a is None: self.fault(fr.m, ln, wh)
            def go():
                fr.vars['it' + u] = a
                fr.scopes[-1].uids.append('it' + u)
                i = 0
                while i < len(a.e):
                    fr.m.step()
                    def one():
                        self.newvar(fr, u, a.e[i])
                        self.run_block(fr, body)
                    try:
                        self.with_scope(fr, one)
                    except NextX: fr.m.drain()
                    except LastX:
                        fr.m.drain()
                        break
                    i += 1
            self.with_scope(fr, go)
        return self.st(fn, ln)

    def s_switch(self, depth):
        r = self.rng
        ln = self.line
        if r.random() < 0.5:
            m = r.randrange(2, 5)
            e0 = self.e_int(1)
            e = ('((%s) & %d)' % (e0[0], m), lambda fr: e0[1](fr) & m)
        else: e = self.e_int(1)
        self.emitln('switch (%s) {' % e[0])
        self.ind += 1
        sv = self.inswitch
        self.inswitch = 1
        cases = []
        vals = r.sample([-1, 0, 1, 2, 3, 4, 5, 7, 100, -2147483648, 2147483647], r.randrange(1, 6))
        for v in vals:
            self.emitln('case %d: {' % v)
            self.ind += 1
            cases.append((v, self.block_body(depth - 1, 2)))
            self.ind -= 1
            self.emitln('}')
        dflt = None
        if r.random() < 0.6:
            self.emitln('default: {')
            self.ind += 1
            dflt = self.block_body(depth - 1, 2)
            self.ind -= 1
            self.emitln('}')
        self.ind -= 1
        self.inswitch = sv
        self.emitln('}')
        def fn(fr):
            x = e[1](fr)
            try:
                for v, body in cases:
                    if v == x:
                        self.with_scope(fr, lambda: self.run_block(fr, body))
                        return
                if dflt is not None: self.with_scope(fr, lambda: self.run_block(fr, dflt))
            except BreakX:
                fr.m.drain()
        return self.st(fn, ln)

    def s_block(self, depth):
        ln = self.line
        self.emitln('{')
        self.ind += 1
        b = self.block_body(depth - 1)
        self.ind -= 1
        self.emitln('}')
        return self.st(self.scoped(b), ln)

    def s_eval(self, depth):
        ln = self.line
        self.emitln('eval {')
        self.ind += 1
        self.evald += 1
        b = self.block_body(depth - 1)
        self.evald -= 1
        self.ind -= 1
        self.emitln('};')
        mark = self.nu('X')
        rep = self.rng.random()
        var = self.nu('ex')
        self.emitln('if (my $%s = $@) { say "%s " . eval_error_id . " " . $%s; }' % (var, mark, var))
        return self.st(lambda fr: self.do_eval(fr, b, mark), ln)

    def do_eval(self, fr, body, mark):
        M = fr.m
        nf, ns = len(M.frames), len(fr.scopes)
        M.exc = None
        fr.eid = 0
        try:
            self.with_scope(fr, lambda: self.run_block(fr, body))
        except DieX as d:
            del M.frames[nf:]
            del fr.scopes[ns:]
            M.drain()
            M.stat['dies'] += 1
            M.exc = list(d.lines)
            fr.eid = d.eid
        # $@ of an eval inside the block stays until the next eval
        if M.exc: self.report(M, mark, M.exc, fr.eid)

    def report(self, M, mark, lines, eid):
        head = '%s %d ' % (mark, eid)
        if lines[0] is None: M.emit(head + '<fault>', wild=head)
        else: M.emit(head + lines[0])
        for l in lines[1:]: M.emit(l)

    def s_die(self, depth):
        r = self.rng
        msg = self.nu('E')
        ln, wh = self.line, self.where()
        k = r.random()
        if self.k.get('diedyn') or k < 0.2:
            e = self.e_string(1)
            if k < 0.1:
                self.emitln('die Error::System "%s" . %s;' % (msg, e[0])); eid = 19
            else:
                self.emitln('die "%s" . %s;' % (msg, e[0])); eid = 18
        else:
            e = ('', lambda fr: '')
            if k < 0.5: self.emitln('die "%s";' % msg); eid = 18
            elif k < 0.7: self.emitln('die Error::System "%s";' % msg); eid = 19
            elif k < 0.85: self.emitln('die %d, "%s";' % (7, msg)); eid = 7
            else:
                c = self.cond(1)
                self.emitln('if (%s) { die "%s"; }' % (c[0], msg))
                def f2(fr):
                    if c[1](fr):
                        raise DieX([msg, '  %s at %s line %d' % (wh[0], wh[1], ln)], 18)
                return self.st(f2, ln)
        def fn(fr):
            s = msg + e[1](fr)
            raise DieX([s, '  %s at %s line %d' % (wh[0], wh[1], ln)], eid)
        f = self.st(fn, ln)
        f.stop = True
        return f

    def s_next(self, depth):
        return self.jump('next', NextX)
    def s_last(self, depth):
        return self.jump('last', LastX)
    def s_break(self, depth):
        return self.jump('break', BreakX)
    def jump(self, word, exc):
        ln = self.line
        c = self.cond(1)
        self.emitln('if (%s) { %s; }' % (c[0], word))
        def fn(fr):
            if c[1](fr): raise exc()
        return self.st(fn, ln)

    def s_return(self, depth):
        if self.method.name == 't_0' and not self.inclo: return self.s_print(depth)
        ln = self.line
        c = self.cond(1)
        ret = 'int' if self.inclo else self.method.ret
        if ret == 'void':
            self.emitln('if (%s) { return; }' % c[0])
            def fn(fr):
                if c[1](fr): raise RetX(None)
            return self.st(fn, ln)
        e = self.expr(ret, 2)
        self.emitln('if (%s) { return %s; }' % (c[0], e[0]))
        def fn(fr):
            if c[1](fr): raise RetX(e[1](fr))
        return self.st(fn, ln)

    # ---------------------------------------------------------------- main
    def gen_main(self):
        m = Method()
        m.cls, m.name, m.ret, m.static, m.args, m.argvars = self.main, 't_0', 'void', True, [], []
        m.rank, m.disp = 10 ** 6, '%s->t_0' % self.main.name
        self.method, self.loop, self.evald, self.inswitch, self.inclo = m, 0, 0, 0, 0
        self.scopes = [{}]
        self.budget = self.k['size'] * 2 + self.rng.randrange(self.k['size'])
        self.emitln('static method t_0 : void () {')
        self.ind += 1
        self.emitln('$ID = 0; $CI = 0; $CS = "cs"; $CO = undef; $CP = undef;')
        parts = []
        for i in range(self.rng.randrange(2, 5)):
            self.emitln('eval {')
            self.ind += 1
            self.evald += 1
            self.budget = self.k['size'] + self.rng.randrange(self.k['size'])
            b = self.block_body(self.k['depth'], 6 + self.rng.randrange(5))
            self.evald -= 1
            self.ind -= 1
            self.emitln('};')
            self.emitln('if ($@) { say "M%d " . eval_error_id . " " . $@; }' % i)
            self.emitln('say "end%d";' % i)
            parts.append((b, i))
        self.emitln('$CO = undef; $CP = undef; $CS = undef; eval { };')
        self.ind -= 1
        self.emitln('}')
        # calls to methods, so that every method has a chance to run
        def run(M):
            fr = Frame(M)
            M.frames.append(fr)
            M.cv.update(CI=0, CS='cs', CO=None, CP=None)
            for b, i in parts:
                self.do_eval(fr, b, 'M%d' % i)
                M.emit('end%d' % i)
            M.cv.update(CO=None, CP=None)
            M.frames.pop()
            M.drain()
        self.run_model = run

NORM = [(re.compile(r'::anon_method::\d+::\d+->'), '::anon->'), (re.compile(r' at \S*/(\w+\.spvm) line '), r' at \1 line ')]
def normalise(lines):
    out = []
    for l in lines:
        if l.startswith('  '):
            for a, b in NORM: l = a.sub(b, l)
        out.append(l)
    return out

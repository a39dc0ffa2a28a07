"""Random class worlds (trees, overriding, interfaces, fields, class variables, closures) with a Python model of what every call prints."""
import random

SH = '''class ZSh : public {
  use ZKV; use ZKW; use ZKX; use Zm_3s;
  static method byte : string ($x : byte) { return "b" . $x; }
  static method short : string ($x : short) { return "s" . $x; }
  static method int : string ($x : int) { return "i" . $x; }
  static method long : string ($x : long) { return "l" . $x; }
  static method float : string ($x : float) { return "f" . $x; }
  static method double : string ($x : double) { return "d" . $x; }
  static method string : string ($x : string) { unless ($x) { return "undef"; } return "'" . $x . "'"; }
  static method object : string ($x : object) { unless ($x) { return "undef"; } return "o" . (type_name $x); }
  static method Int : string ($x : Int) { unless ($x) { return "undef"; } my $v = $x->value; return "I" . $v; }
  static method int_A : string ($x : int[]) { unless ($x) { return "undef"; } return "[" . $x->[0] . "]"; }
  static method ZKV : string ($x : ZKV) { unless ($x) { return "undef"; } return (type_name $x) . $x->{v}; }
  static method Zm_3s : string ($x : Zm_3s) { return "(" . $x->{a} . "," . $x->{b} . "," . $x->{c} . ")"; }
  static method r_int : string ($x : int*) { my $v = $$x; return "r" . $v; }
  static method mk : ZKV ($k : int, $v : int) { my $r : ZKV; if ($k == 0) { $r = new ZKV; } elsif ($k == 1) { $r = new ZKW; } else { $r = new ZKX; } $r->{v} = $v; return $r; }
  static method ia : int[] ($v : int) { my $r = new int[2]; $r->[0] = $v; return $r; }
  static method m3 : Zm_3s ($v : int) { my $r : Zm_3s; $r->{a} = (short)$v; $r->{b} = (short)($v + 1); $r->{c} = (short)($v + 2); return $r; }
}'''
FILES = {'ZSh.spvm': SH, 'ZKV.spvm': 'class ZKV : public { has v : public int; }', 'ZKW.spvm': 'class ZKW extends ZKV : public { }', 'ZKX.spvm': 'class ZKX extends ZKW : public { use ZKW; }', 'Zm_3s.spvm': 'class Zm_3s : mulnum_t { has a : short; has b : short; has c : short; }'}
FILES['ZKW.spvm'] = 'class ZKW extends ZKV : public { use ZKV; }'
USES = 'use ZSh; use ZKV; use ZKW; use ZKX; use Zm_3s; use Fn;'
TY = ['byte', 'short', 'int', 'long', 'float', 'double', 'string', 'object', 'Int', 'int[]', 'ZKV', 'Zm_3s']
KCH = ['ZKV', 'ZKW', 'ZKX']

def sh(t, e): return 'ZSh->%s(%s)' % ({'int[]': 'int_A', 'int*': 'r_int', 'ZKW': 'ZKV', 'ZKX': 'ZKV'}.get(t, t), e)
def num(f): return '%g' % f
class V:
    """a value: the expression that makes it, what is printed, the class rank for class objects"""
    __slots__ = ('t', 'expr', 'text', 'rank')
    def __init__(s, t, expr, text, rank=None): s.t, s.expr, s.text, s.rank = t, expr, text, rank
def value(rng, t, lit=False):
    """a value of the type t; lit: a literal that can be a default"""
    n = rng.randint(-120, 120)
    if t == 'byte': return V(t, '%d' % n if lit and n >= 0 else '(byte)(%d)' % n, 'b%d' % n) if not lit or n >= 0 else value(rng, t, lit)
    if t == 'short': n *= 201; return V(t, '(short)(%d)' % n, 's%d' % n) if not lit else V(t, '%d' % abs(n), 's%d' % abs(n))
    if t == 'int': n *= 17000001; return V(t, '%d' % n if not lit else '%d' % abs(n), 'i%d' % (n if not lit else abs(n)))
    if t == 'long': n = n * (1 << 55) + n; n = n if not lit else abs(n); return V(t, '%dL' % n, 'l%d' % n)
    if t == 'float': n = abs(n) if lit else n; return V(t, '%d.5f' % n if n >= 0 else '(-%d.5f)' % -n, 'f' + num(n + .5 if n >= 0 else n - .5))
    if t == 'double': n = abs(n) if lit else n; return V(t, '%d.25' % n if n >= 0 else '(-%d.25)' % -n, 'd' + num(n + .25 if n >= 0 else n - .25))
    if lit or rng.random() < .1 and t not in ('Zm_3s', 'int*'): return V(t, 'undef', 'undef')
    if t == 'string': return V(t, '"q%d"' % n, "'q%d'" % n)
    if t == 'object': return rng.choice([lambda: V(t, '(object)"x"', 'ostring'), lambda: V(t, '(object)ZSh->mk(1, 3)', 'oZKW'), lambda: V(t, 'new int[1]', 'oint[]'), lambda: V(t, '(object)%d' % n, 'oInt')])()
    if t == 'Int': return V(t, '(Int)(%d)' % n, 'I%d' % n)
    if t == 'int[]': return V(t, 'ZSh->ia(%d)' % n, '[%d]' % n)
    if t in KCH:
        k = rng.randint(KCH.index(t), 2); x = 'ZSh->mk(%d, %d)' % (k, n)
        return V(t, x if t == 'ZKV' else '(%s)%s' % (t, x), '%s%d' % (KCH[k], n), k)
    if t == 'Zm_3s': return V(t, 'ZSh->m3(%d)' % n, '(%d,%d,%d)' % (n, n + 1, n + 2))
    raise ValueError(t)
ZERO = {'byte': 'b0', 'short': 's0', 'int': 'i0', 'long': 'l0', 'float': 'f0', 'double': 'd0', 'Zm_3s': '(0,0,0)', 'int*': 'r0'}
def width(t): return 3 if t == 'Zm_3s' else 1

class Thrown(Exception): pass
class M:
    """a method: args [(type, default V or None)], calls: nested calls made by the body, ret type and value"""
class World:
    def __init__(w, rng, pfx):
        w.rng, w.p = rng, pfx
        n = rng.randint(2, 7)
        w.cls = ['%s%s' % (pfx, chr(65 + i)) for i in range(n)]
        w.parent, w.meth, w.fields, w.cvars, w.stat = {}, {}, {}, {}, {}
        w.npool = rng.randint(2, 6)
        w.sig = []
        for j in range(w.npool):
            na = rng.choice([0, 1, 1, 2, 2, 3, 4, 6, rng.randint(7, 30)])
            opt = rng.randint(0, na)
            w.sig.append(([(rng.choice(TY), i >= opt) for i in range(na)], rng.choice(['string'] * 3 + TY + ['void'])))
        w.ifs = {}
        for i in range(rng.randint(0, 3)): w.ifs['%sI%d' % (pfx, i)] = set(rng.sample(range(w.npool), rng.randint(1, min(3, w.npool))))
        for i, c in enumerate(w.cls):
            if i and rng.random() < .8: w.parent[c] = w.cls[rng.randrange(max(0, i - 2), i)]
            w.fields[c] = [('%s_f%d' % (c.lower(), k), rng.choice(['byte', 'byte', 'short'] + [t for t in TY if t != 'Zm_3s']), rng.random() < .4) for k in range(rng.choice([0, 1, 2, 3, 5, 9]))]
            w.cvars[c] = [('$%s_V%d' % (c.upper(), k), rng.choice([t for t in TY if t != 'Zm_3s']), rng.random() < .4, rng.random() < .6) for k in range(rng.randint(0, 4))]
            w.meth[c] = {}
            for j in range(w.npool):
                if rng.random() < (.9 if i == 0 else .45): w.meth[c][j] = w.method(c, j)
            w.stat[c] = w.method(c, rng.randrange(w.npool), static=True)
        # a default argument that is a mulnum is not possible
        for c in w.cls:
            for j, m in list(w.meth[c].items()) + [(None, w.stat[c])]: w.body(c, j, m)
    def chain(w, c):
        while c: yield c; c = w.parent.get(c)
    def find(w, c, j):
        for x in w.chain(c):
            if j in w.meth[x]: return x
    def method(w, c, j, static=False):
        rng = w.rng; m = M(); args, m.ret = w.sig[j]
        m.args = []
        ops = False
        for t, o in args:
            if t == 'Zm_3s' and o: o = False
            ops = ops or o
        seen = False
        par = None if static else next((w.meth[x][j] for x in list(w.chain(c))[1:] if j in w.meth[x]), None)
        m.dropped = False
        if par:   # an overriding method
            m.dropped = par.dropped
            base = par.args
            for t, d in base:
                if t in KCH and rng.random() < .4: t = KCH[min(2, KCH.index(t) + 1)]
                if d is not None: d = value(rng, t, True)
                m.args.append((t, d))
            r = rng.random()
            if r < .15 and not m.dropped: m.args += [(t, value(rng, t, True)) for t in [rng.choice([x for x in TY if x != 'Zm_3s']) for _ in range(rng.randint(1, 3))]]
            elif r < .25 and m.args: m.dropped = True; m.args = m.args[:rng.randrange(len(m.args))]
            m.ret = par.ret
            # an argument can be made optional only at the end
            if rng.random() < .2 and m.args and m.args[-1][1] is None and m.args[-1][0] != 'Zm_3s': m.args[-1] = (m.args[-1][0], value(rng, m.args[-1][0], True))
        else:
            for t, o in args:
                o = (o or seen) and t != 'Zm_3s'
                if t == 'Zm_3s' and seen: t = 'int'; o = True
                seen = seen or o
                m.args.append((t, value(rng, t, True) if o else None))
        m.retv = None if m.ret == 'void' else value(rng, m.ret)
        if m.retv is not None: m.rtext = m.retv.text
        m.calls = []; m.static = static
        return m
    def pick_args(w, m, loose=False):
        """arguments for a call through the signature of m: how many, and the values"""
        rng = w.rng
        need = sum(1 for t, d in m.args if d is None)
        k = rng.randint(need, len(m.args))
        return [value(rng, t) for t, d in m.args[:k]]
    def body(w, c, j, m):
        rng = w.rng
        if m.static:
            m.calls = []
            return
        for _ in range(rng.choice([0, 0, 1, 1, 2])):
            kind = rng.choice(['SUPER', 'named', 'virtual', 'static'])
            up = w.parent.get(c)
            if kind == 'SUPER' and up and w.find(up, j):
                t = w.meth[w.find(up, j)][j]; m.calls.append(('SUPER', j, w.pick_args(t), None))
            elif kind == 'named' and up:
                x = rng.choice(list(w.chain(up))); ks = [k for k in w.meth[x] if k >= j]
                if ks: k = rng.choice(ks); m.calls.append(('named', k, w.pick_args(w.meth[x][k]), x))
            elif kind == 'virtual':
                ks = [k for k in range(j + 1, w.npool) if w.find(c, k)]
                if ks: k = rng.choice(ks); m.calls.append(('virtual', k, w.pick_args(w.meth[w.find(c, k)][k]), None))
            elif kind == 'static':
                x = rng.choice([c] + [y for y in w.cls if w.cls.index(y) < w.cls.index(c)]); m.calls.append(('static', None, w.pick_args(w.stat[x]), x))
    # ---- the model
    def run(w, cls, m, name, args, out, inv):
        """inv: the class of the object, or None"""
        if not m.static:
            for (t, d), a in zip(m.args, args):
                if a.rank is not None and t in KCH and a.rank < KCH.index(t): raise Thrown()
        wd = sum(width(a.t) for a in args) + (not m.static)
        texts = []
        for i, (t, d) in enumerate(m.args): texts.append(args[i].text if i < len(args) else d.text if d is not None else ZERO.get(t, 'undef'))
        out.append('%s.%s w%d %s' % (cls, name, wd, ' '.join(texts)))
        for kind, k, a, x in m.calls:
            if kind == 'SUPER': y = w.find(w.parent[cls], k)
            elif kind == 'named': y = x
            elif kind == 'virtual': y = w.find(inv, k)
            if kind == 'static': t = w.stat[x]; w.run(x, t, 's', a, out, None)
            else: t = w.meth[y][k]; w.run(y, t, 'm%d' % k, a, out, inv)
            out.append('< %s' % (t.rtext if t.retv is not None else 'void'))
    # ---- the source
    def src_method(w, c, name, m):
        a = ', '.join('$a%d : %s%s' % (i, t, ' = %s' % d.expr if d is not None else '') for i, (t, d) in enumerate(m.args))
        L = ['my $w = args_width;', 'my $L = "%s.%s w$w";' % (c, name)]
        for i, (t, d) in enumerate(m.args): L.append('$L .= " " . %s;' % sh(t, '$a%d' % i))
        if not m.args: L.append('$L .= " ";')
        L.append('say $L;')
        for kind, k, args, x in m.calls:
            ar = ', '.join(v.expr for v in args)
            if kind == 'static': e = '%s->s(%s)' % (x, ar) if x != c else w.rng.choice(['&s(%s)' % ar, '%s->s(%s)' % (x, ar)]); t = w.stat[x]
            elif kind == 'SUPER': e = '$self->SUPER::m%d(%s)' % (k, ar); t = w.meth[w.find(w.parent[c], k)][k]
            elif kind == 'named': e = '$self->%s::m%d(%s)' % (x, k, ar); t = w.meth[x][k]
            else: e = '$self->m%d(%s)' % (k, ar); t = w.meth[w.find(c, k)][k]
            L.append(ret_line(t, e))
        if m.retv is not None: L.append('return %s;' % m.retv.expr)
        return '  %smethod %s : %s (%s) { %s }' % ('static ' if m.static else '', name, m.ret, a, ' '.join(L))
    def files(w):
        out = {}
        for i, js in w.ifs.items():
            body = []
            for j in js:
                m = w.ifsig(j)
                body.append('  required method m%d : %s (%s);' % (j, m.ret, ', '.join('$a%d : %s%s' % (k, t, ' = %s' % d.expr if d is not None else '') for k, (t, d) in enumerate(m.args))))
            out[i + '.spvm'] = 'class %s : interface_t {\n  %s\n%s\n}' % (i, USES, '\n'.join(body))
        for n, c in enumerate(w.cls):
            u = [x for x in w.cls[:n]]
            L = ['class %s%s : public {' % (c, ' extends ' + w.parent[c] if c in w.parent else ''), '  ' + USES + ' ' + ' '.join('use %s;' % x for x in u) + ' ' + ' '.join('use %s; %s' % (i, 'interface %s;' % i if w.rng.random() < .5 else '') for i in w.ifs if w.sat(i, c))]
            for f, t, rw in w.fields[c]: L.append('  has %s : public %s%s;' % (f, 'rw ' if rw else '', t))
            for v, t, rw, init in w.cvars[c]: L.append('  our %s : public %s%s;' % (v, 'rw ' if rw else '', t))
            L.append('  our $%s_N : public int; our $%s_SEEN : public string;' % (c, c))
            L.append('  INIT { $%s_N++; $%s_SEEN = "";%s }' % (c, c, ''.join(' $%s_SEEN .= $%s::%s_N . " ";' % (c, x, x) for x in u)))
            w.init = getattr(w, 'init', {})
            for v, t, rw, init in w.cvars[c]:
                if init: w.init[v] = value(w.rng, t); L.append('  INIT { %s = %s; }' % (v, w.init[v].expr))
            L.append('  static method new : %s () { return new %s; }' % (c, c))
            for j, m in w.meth[c].items(): L.append(w.src_method(c, 'm%d' % j, m))
            L.append(w.src_method(c, 's', w.stat[c]))
            L.append('}')
            s = '\n'.join(L)
            out[c + '.spvm'] = s if w.rng.random() < .7 else ' ' + s     # a leading blank: not precompiled
        return out
    def ifsig(w, j):
        """the first definition in the world is the loosest"""
        for c in w.cls:
            if j in w.meth[c] and not any(j in w.meth[x] for x in list(w.chain(c))[1:]): return w.meth[c][j]
        m = M(); m.args = []; m.ret = w.sig[j][1]; return m
    def sat(w, i, c):
        """only classes whose methods come from the tree of the signature's owner"""
        for j in w.ifs[i]:
            y = w.find(c, j)
            if not y: return False
            top = [x for x in w.chain(c) if j in w.meth[x]][-1]
            if w.meth[top][j] is not w.ifsig(j): return False
            f = w.meth[y][j]
        return True
def ret_line(t, e):
    if t.retv is None: return '%s; say "< void";' % e
    if t.ret == 'Zm_3s': return '{ my $r : Zm_3s = %s; say "< " . %s; }' % (e, sh(t.ret, '$r'))
    return '{ my $r : %s = %s; say "< " . %s; }' % (t.ret, e, sh(t.ret, '$r'))

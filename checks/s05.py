import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import re, random
import vp, session as se

FAIL = ['syntax', 'var', 'type', 'missing', 'dup', 'extends', 'name', 'private', 'late', 'lexer', 'iface', 'call', 'field', 'unbalanced', 'nosuchdep']
class Cls:
    def __init__(s, name, rng, deps, parent, bad):
        s.name, s.deps, s.parent, s.bad = name, deps, parent, bad
        s.k = rng.randrange(1000); s.base = rng.randrange(100); s.const = 'str-%d-%d' % (s.k, rng.randrange(10)); s.sw = rng.randrange(5); s.extra = rng.randrange(3)
    def src(s, alias):
        """alias: a name used for the failing variants"""
        n = s.name; b = []
        b += ['use %s;' % d for d in s.deps] + ['use Fn; use IFace;'] + (['interface IFace;'] if s.parent is None else [])
        b.append('our $N : int; our $O : %s; our $S : string; %s' % (n, ' '.join('our $X%d : long;' % i for i in range(s.extra))))
        b.append('has %s : public int;' % ('f_' + n.replace('::', '_').lower()))
        b.append('INIT { print "@T init %s\\n"; $N += %d; $S = "%s"; }' % (n, s.base, s.const))
        b.append('static method v : int () { return %d%s; }' % (s.k, ''.join(' + %s->v' % d for d in s.deps)))
        b.append('method m : int () { return %d; }' % s.k)
        b.append('static method bump : void () { $N++; print "@T bump %s $N\\n"; }' % n)
        b.append('static method show : void () { my $v = %s->v; my $x = %s; switch (%d) { case 1: { $x .= "one"; break; } case 3: { $x .= "three"; break; } default: { $x .= "def"; } } print "@T show %s $N $S $v $x\\n"; }' % (n, '"lit%d"' % (s.k % 7), s.sw, n))
        b.append('static method keep : void () { $O = new %s; $O->{f_%s} = $N; my $i = (IFace)$O; my $m = $i->m; print "@T keep %s $m\\n"; }' % (n, n.replace('::', '_').lower(), n))
        b.append('static method kept : void () { unless ($O) { print "@T none %s\\n"; return; } my $f = $O->{f_%s}; my $m = $O->m; my $t = type_name $O; print "@T kept %s $f $m $t\\n"; }' % (n, n.replace('::', '_').lower(), n))
        x = s.bad
        if x == 'syntax': b.append('static method z : int () { return 1 + ; }')
        elif x == 'var': b.append('static method z : int () { return $nowhere; }')
        elif x == 'type': b.append('static method z : void () { my $x : int = "a"; }')
        elif x == 'missing': b.append('static method z : void () { my $x = new Missing%d; }' % s.k)
        elif x == 'nosuchdep': b.insert(0, 'use Missing%d;' % s.k)
        elif x == 'dup': b.append('static method v : int () { return 1; }')
        elif x == 'private': b.append('static method z : void () { my $l = new PrivF; $l->{hidden} = 1; } use PrivF;')
        elif x == 'late': b.append('static method z : string () { my $x = new %s; { my $y = "lit%d"; } return $x; }' % (n, s.k))
        elif x == 'lexer': b.append('static method z : void () { my $x = "\\q"; }')
        elif x == 'iface': b.append('interface INeed; use INeed;')
        elif x == 'call': b.append('static method z : void () { %s->v(1, 2, 3); }' % n)
        elif x == 'field': b.append('static method z : void () { my $o = new %s; $o->{nofield} = 1; }' % n)
        t = '\n  '.join(b)
        ext = ' extends %s' % (('Missing%d' % s.k) if x == 'extends' else s.parent) if s.parent or x == 'extends' else ''
        return 'class %s%s : public {\n  %s\n%s' % (n + 'Other' if x == 'name' else n, ext, t, '' if x == 'unbalanced' else '}\n')

FIXED = {'IFace': 'class IFace : interface_t { required method m : int (); }', 'INeed': 'class INeed : interface_t { required method needed : int (); }', 'PrivF': 'class PrivF { has hidden : int; }'}
class Comp:
    """model of one compiler with its runtime"""
    def __init__(s, k): s.k, s.loaded, s.n, s.kept, s.pending, s.anons, s.defs, s.dump, s.any, s.run = k, {}, {}, {}, [], 0, {}, {}, False, {}
    def closure(s, name, out=None):
        out = [] if out is None else out
        if name in s.loaded or name in out: return out
        out.append(name)
        c = s.defs.get(name)
        if c is None: return out
        for d in c.deps + ([c.parent] if c.parent else []): s.closure(d, out)
        return out
    def v(s, n): c = s.loaded[n]; return c.k + sum(s.v(d) for d in c.deps)
    def inits(s):
        o = ['@T init %s' % n for n in s.pending]
        for n in s.pending:
            if n in s.loaded: s.n[n] += s.loaded[n].base
        s.pending = []; return o

def wrap(x): return ((x + (1 << 31)) & 0xffffffff) - (1 << 31)
def call_model(c, n, m):
    k = c.loaded[n]
    if m == 'bump': c.n[n] += 1; return ['@T bump %s %d' % (n, c.n[n])]
    if m == 'show': return ['@T show %s %d %s %d lit%d%s' % (n, c.n[n], k.const, c.v(n), k.k % 7, {1: 'one', 3: 'three'}.get(k.sw, 'def'))]
    if m == 'keep': c.kept[n] = c.n[n]; return ['@T keep %s %d' % (n, k.k)]
    if m == 'kept': return ['@T kept %s %d %d %s' % (n, c.kept[n], k.k, n)] if n in c.kept else ['@T none %s' % n]
    if m == 'an': return ['@T an %d' % k.k]

def build(seed, size):
    rng = random.Random(seed); ops, exp, texts = [], [], []
    def add(op, e): ops.append(op); exp.append(e)
    nc = rng.choice([1, 2, 2, 3]); comps = {}; src = se.wsrc if rng.random() < .5 else se.src
    pool = ['K%d' % i for i in range(6)] + ['P::K6', 'P::Sub::K7']; anon_names = {}
    def defs(c, p=.3):
        """a new set of definitions for the classes that are not loaded"""
        for i, n in enumerate(pool):
            if n in c.loaded: continue
            lower = pool[:i]; deps = [d for d in lower if rng.random() < .3]; parent = rng.choice(lower) if lower and rng.random() < .25 else None
            if parent and parent in c.loaded and c.loaded[parent] is None: parent = None
            c.defs[n] = Cls(n, rng, deps, parent, rng.choice(FAIL) if rng.random() < p else None)
    for k in range(nc): comps[k] = Comp(k); add(se.new(k), ('new',)); defs(comps[k])
    def set_sources(c, names):
        for n in names:
            if n in c.defs: add(src(c.k, n, c.defs[n].src(n).encode()), ('src',)); texts.append(c.defs[n].src(n))
        for n, t in FIXED.items():
            if not c.run.get(n): add(src(c.k, n, t.encode()), ('src',))
    def load(c, cl):
        for x in cl: c.loaded[x] = c.defs[x]; c.n[x] = 0; c.pending.append(x)
        for f in FIXED: c.run[f] = True if f == 'IFace' and cl else c.run.get(f)
        c.any = True
    for _ in range(size):
        c = comps[rng.choice(list(comps))]; r = rng.random()
        if r < .3:
            if rng.random() < .6: defs(c, rng.choice([0, .15, .5]))
            n = rng.choice(pool); cl = c.closure(n)
            set_sources(c, set(cl) | set(pool[:rng.randrange(8)]) - set(c.loaded) if n not in c.loaded else [n] if rng.random() < .5 else [])
            bad = [x for x in cl if c.defs[x].bad]
            add(se.comp(c.k, n), ('comp', bool(bad), n, set(cl)))
            if not bad: load(c, cl)
        elif r < .62:
            n = rng.choice(pool)
            if n not in c.loaded: 
                e = c.inits() if c.any else []
                add(se.call(c.k, n, 'show'), ('out', e, ['@X nomethod' if c.any else '@X nothing compiled']))
            else:
                m = rng.choice(['bump', 'show', 'show', 'keep', 'kept']); i = c.inits(); add(se.call(c.k, n, m), ('out', i, call_model(c, n, m)))
        elif r < .72 and c.loaded:
            n = rng.choice(sorted(c.loaded)); add(se.refl(c.k, n), ('dump', c.k, n))
        elif r < .86:
            use = [n for n in sorted(c.loaded) if rng.random() < .4]; bad = rng.random() < .4; kk = rng.randrange(100); cl = []
            if rng.random() < .35 and not bad:
                n = rng.choice(pool); cl = c.closure(n); 
                if any(c.defs[x].bad for x in cl): bad = True
                use = sorted(set(use) | {n}); set_sources(c, cl)
            else: set_sources(c, [])
            body = ' '.join('%s->bump;' % u for u in use)
            t = 'class { use IFace; %s our $A : int; INIT { print "@T init anon%d\\n"; } static method go : void () { $A += %d; print "@T anon $A\\n"; %s } %s }' % (' '.join('use %s;' % u for u in use), kk, kk, body, rng.choice(['static method z : int () { return "x"; }', 'static method z : int () { return $q; }', 'method', 'use Missing8;']) if bad and not any(c.defs[x].bad for x in cl) else '')
            texts.append(t); add(se.anon(c.k, t.encode()), ('anon', bad, c.anons))
            if not bad:
                load(c, cl); name = 'eval::anon_class::%d' % c.anons; c.anons += 1; c.pending.append('anon%d' % kk)
                anon_names.setdefault(c.k, []).append([name, 0, kk, use]); c.any = True; c.run['IFace'] = True
        elif r < .93 and anon_names.get(c.k):
            a = rng.choice(anon_names[c.k]); i = c.inits(); a[1] += a[2]; o = ['@T anon %d' % a[1]]
            for u in a[3]: o += call_model(c, u, 'bump')
            add(se.call(c.k, a[0], 'go'), ('out', i, o))
        elif r < .95 and len(comps) > 1 and rng.random() < .5:
            add(se.free(c.k), ('free',)); add(se.new(c.k), ('new',)); comps[c.k] = Comp(c.k); defs(comps[c.k]); anon_names.pop(c.k, None)
        elif c.loaded:
            # a class that compiles others while its own methods run
            if 'Native::Compiler' not in c.run:
                set_sources(c, []); add(src(c.k, 'Ev', EV.encode()), ('src',)); add(se.comp(c.k, 'Ev'), ('comp', False, 'Ev', set())); c.run['Native::Compiler'] = True; c.run['IFace'] = True; c.any = True
            use = [n for n in sorted(c.loaded) if rng.random() < .5] or [sorted(c.loaded)[0]]
            parts, out = [], []; held = rng.choice(use)
            i = c.inits(); nrun = rng.randrange(1, 4)
            outer = 'eval::anon_class::%d' % c.anons; c.anons += 1; kk = rng.randrange(1000)
            for j in range(nrun):
                bad = rng.random() < .4; q = rng.randrange(1000); u = rng.choice(use)
                inner = 'class { use %s; our $B : string; static method go : int () { $B = "i%d"; %s->bump; %s return %d; } }' % (u, q, u, 'my $x : int = "a";' if bad else 'print "@T in $B\\n";', q)
                inner = re.sub(r'(["\\$])', r'\\\1', inner)
                parts.append('Ev->one("%s", %d);' % (inner, j))
                if bad: out.append('@T ev %d failed' % j)
                else: out += call_model(c, u, 'bump') + ['@T in i%d' % q, '@T ev %d %d' % (j, q)]; c.anons += 1
                parts.append('%s->show; print "@T loc $loc $o->{f_%s}\\n";' % (u, held.replace('::', '_').lower())); out += call_model(c, u, 'show') + ['@T loc %d %d' % (kk, kk + 1)]
            t = 'class { use Ev; %s static method go : void () { my $loc = %d; my $o = new %s; $o->{f_%s} = $loc + 1; %s } }' % (' '.join('use %s;' % u for u in use), kk, held, held.replace('::', '_').lower(), ' '.join(parts))
            texts.append(t)
            add(se.anon(c.k, t.encode()), ('anon', False, int(outer.split('::')[-1]))); add(se.call(c.k, outer, 'go'), ('out', i, out))
    for k in comps: add(se.free(k), ('free',))
    return ops, exp, texts

EV = '''class Ev { use Native; use Native::Compiler; use Native::MethodCall;
  static method one : void ($src : string, $j : int) {
    my $c = Native->get_current_compiler; my $keep = "keep $j";
    my $name : string; my $r : object;
    eval { $name = $c->compile_anon_class($src); $r = Native::MethodCall->call_class_method($name, "go"); };
    if ($@) { my $e = $@; $@ = undef; unless ($keep eq "keep $j") { print "@T lost\\n"; } print "@T ev $j failed\\n"; return; }
    my $v = $r->(Int)->value;
    print "@T ev $j $v\\n";
  }
}'''.replace('$r->(Int)', '((Int)$r)')

def main(ck):
    drv = vp.build_driver('asan'); n, size = (150, 45) if ck.tier == 'quick' else (3000, 60)
    items = []
    for i in range(n):
        ops, exp, texts = build(ck.seed * 104729 + i, size); items.append(se.Item('world %d' % i, ops, (exp, texts)))
    for it in se.run_all(drv, items, 6, 60, [vp.VERIF + '/drv/lib']):
        if it.kind == 'missing': ck.inconclusive.append('%s: %s' % (it.key, it.detail[:300])); continue
        f = {'ops.txt': '\n'.join(o.line if not o.line.startswith(('S', 'A', 'E')) else ' '.join(o.line.split()[:3 if o.line[0] in 'SE' else 2]) + '\n' + bytes.fromhex(o.line.split()[-1]).decode('latin1') for o in it.ops)}
        if it.kind in ('crash', 'hang'): ck.violation('%s/%s' % (it.kind, str(vp.san_report(it.detail.encode('latin1')) or '')), '%s: %s' % (it.key, it.detail[:3000]), f); continue
        dumps = {}; why = None
        for j, (o, e) in enumerate(zip(it.ops, it.meta[0])):
            out = [l for l in o.out if not l.startswith('@K')]
            if e[0] == 'comp' or e[0] == 'anon':
                ck.count('compiles that fail' if e[1] else 'compiles that succeed'); ck.count('events', 1 + len(o.msgs))
                if bool(o.rc) != e[1]: why = ('compile', 'rc %s %r, expected %s' % (o.rc, o.msgs[:3], 'a failure' if e[1] else 'success'))
                elif o.rc and not o.msgs: why = ('nomessage', 'a failure without a message')
                elif not o.rc and o.msgs: why = ('message', 'messages of a compile that succeeds: %r' % o.msgs[:2])
                elif e[0] == 'anon' and not e[1] and o.anon != 'eval::anon_class::%d' % e[2]: why = ('anon name', '%r, expected number %d' % (o.anon, e[2]))
                else:
                    for m in o.msgs:
                        fl = re.findall(r'\n  at (\S+) line \d+', m)
                        if not fl or e[0] == 'comp' and any(x[:-5].replace('/', '::') not in e[3] | set(FIXED) | {'start'} and x != 'start.c' for x in fl): why = ('foreign message', 'a message of something else: %r' % m); break
            elif e[0] == 'out':
                ck.count('calls'); ck.count('events', len(out)); k = len(e[1])
                if sorted(out[:k]) != sorted(e[1]): why = ('init', 'INIT blocks: %r, expected %r' % (out, e[1]))
                elif out[k:] != e[2]: why = ('output', 'got %r, expected %r' % (out[k:], e[2]))
                for x in e[2]: ck.seen(' '.join(x.split()[:2]))
            elif e[0] == 'dump':
                ck.count('dumps'); ck.count('events', len(out)); key = (e[1], e[2])
                if dumps.setdefault(key, out) != out: d = [x for x in zip(dumps[key], out) if x[0] != x[1]][:2]; why = ('dump', '%s was %r, is %r' % (e[2], len(dumps[key]), len(out)) + repr(d))
            elif e[0] in ('new', 'free'): dumps = {k: v for k, v in dumps.items() if k[0] != int(o.line.split()[1])}
            if why: ck.violation(why[0], '%s operation %d (%s): %s' % (it.key, j, ' '.join(o.line.split()[:4])[:80], why[1]), f); break
vp.main('S05', main)

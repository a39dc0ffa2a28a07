"""Systematic nests of control structures around one object variable, left in every way.
The methods use no other object than the one under test, so that no other variable makes the compiler release scopes."""
from spvmrun import Case

class Next(Exception): pass
class Last(Exception): pass
class Die(Exception): pass
class Ret(Exception): pass

WRAP = {
    'if': ('if ($n > 0) { %s }', None), 'else': ('if ($n < 0) { Mon->out(90); } else { %s }', None), 'elsif': ('if ($n < 0) { Mon->out(91); } elsif ($n == 3) { %s } else { Mon->out(92); }', None),
    'unless': ('unless ($n < 0) { %s }', None), 'case': ('switch ($n) { case 1: { Mon->out(93); } case 3: { %s } default: { Mon->out(94); } }', None),
    'default': ('switch ($n) { case 1: { Mon->out(95); } default: { %s } }', None), 'case break': ('switch ($n) { case 3: { %s break; } }', None), 'eval': ('eval { %s };', 'eval'), 'block': ('{ %s }', None),
    'for': ('for (my $w = 0; $w < 2; $w++) { Mon->out(60 + $w); %s }', 'for'), 'while': ('{ my $w = 0; while ($w < 2) { $w++; Mon->out(69 + $w); %s } }', 'while'),
}
BODY = {'variable': 'my $o = ZNode->new($i + 10);', 'temporary': 'ZNode->new($i + 10);', 'array': 'my $o = [ZNode->new($i + 10)];', 'argument': 'ZScope->take(ZNode->new($i + 10));', 'field': 'my $o = ZNode->new(0); $o->{next} = ZNode->new($i + 10);',
        'class variable': '{ $ZAll::N = ZNode->new($i + 10); } $ZAll::N = undef;', 'condition': 'if (ZNode->new($i + 10)->get_id > 0) { Mon->out(77); }', 'cast': 'my $o = (object)ZNode->new($i + 10); my $q = (ZNode)$o;'}
EXIT = {'fall': '', 'next': 'next;', 'last': 'last;', 'die': 'die;', 'callee die': 'ZScope->thrower;', 'return': 'return;', 'cond next': 'if ($i == 1) { next; }', 'cond last': 'if ($i == 1) { last; }', 'cond die': 'if ($i == 1) { ZScope->thrower; }', 'cond return': 'if ($i == 1) { return; }',
        'case next': 'switch ($i) { case 1: { next; } }', 'case die': 'switch ($i) { case 1: { ZScope->thrower; } }', 'fault': 'my $z = 0; $z = 7 / $z;'}

FILES = {'ZScope.spvm': 'class ZScope : public { use ZNode; static method thrower : void () { die "deep"; } static method take : void ($x : ZNode) { } }\n'}

def act(x, i, log):
    if x.startswith('cond ') or x.startswith('case '):
        if i != 1: return
        x = x[5:]
    if x == 'next': raise Next()
    if x == 'last': raise Last()
    if x in ('die', 'callee die', 'fault'): raise Die()
    if x == 'return': raise Ret()

def simulate(ws, body, exit, holder, log):
    def inner(k, i):
        if k == len(ws):
            # the innermost block: the object lives until its end
            try:
                if body == 'class variable': log.append('~%d' % (i + 10))
                if body == 'condition': log.extend(['77', '~%d' % (i + 10)])
                act(exit, i, log)
                log.append('80')
            finally:
                if body not in ('class variable', 'condition'): log.append('~%d' % (i + 10))
            return
        w = ws[k]
        if w == 'eval':
            try: inner(k + 1, i)
            except Die: pass
        elif w in ('for', 'while'):
            for v in range(2):
                log.append('%d' % ((60 if w == 'for' else 70) + v))
                try: inner(k + 1, i)
                except Next: continue
                except Last: break
                log.append('%d' % (40 + k + 1))
        else: inner(k + 1, i)
        log.append('%d' % (40 + k))
    def run():
        for i in range(3):
            log.append('%d' % (50 + i))
            try:
                inner(0, i)
                log.append('30')
            except Next: continue
            except Last: break
        log.append('31')
    try: run()
    except Ret: pass
    except Die: log.append('32')
    log.append('33')

def source(ws, body, exit, holder, mid):
    # a marker behind every wrapper; the innermost statement list is the body, the exit and a marker
    s = '{ %s %s Mon->out(80); }' % (BODY[body], EXIT[exit])
    for k in range(len(ws) - 1, -1, -1):
        t = WRAP[ws[k]][0]
        if ws[k] in ('for', 'while'): s = t.replace('%s', s + ' Mon->out(%d);' % (40 + k + 1)) + ' Mon->out(%d);' % (40 + k)
        else: s = t.replace('%s', s) + ' Mon->out(%d);' % (40 + k)
    h = 'my $hold = ZNode->new(0);' if holder == 'method' else ''
    h2 = 'my $hold2 = ZNode->new(0);' if holder == 'loop' else ''
    return '  static method %s : void ($n : int) { %s for (my $i = 0; $i < 3; $i++) { Mon->out(50 + $i); %s %s Mon->out(30); } Mon->out(31); }\n' % (mid, h, h2, s)

def cases(rng, n):
    out, combos = [], []
    names = list(WRAP)
    for a in names:
        combos.append((a,))
        for b in names:
            combos.append((a, b))
    full = [(ws, b, x, h) for ws in combos for b in BODY for x in EXIT for h in ('none', 'method', 'loop')]
    pick = [(w, 'variable', x, 'none') for w in combos for x in ('next', 'callee die', 'cond last', 'cond return')]
    rest = rng.sample(full, min(n, len(full)))
    deep = [(tuple(rng.choice(names) for _ in range(rng.randrange(3, 6))), rng.choice(list(BODY)), rng.choice(list(EXIT)), rng.choice(['none', 'none', 'method', 'loop'])) for _ in range(n // 2)]
    allc = pick + rest + deep
    rng.shuffle(allc)
    for j in range(0, len(allc), 25):
        decls, body, want, desc = '', '', [], []
        for q, (ws, b, x, h) in enumerate(allc[j:j + 25]):
            decls += source(ws, b, x, h, 'sc_@_%d' % q)
            body += '    eval { TB->sc_@_%d(3); }; if (eval_error_id) { Mon->out(32); } Mon->out(33); Mon->out(%d);\n' % (q, 1000 + q)
            log = []; simulate(ws, b, x, h, log)
            want.append(log); desc.append('%s body=%s exit=%s other=%s' % ('/'.join(ws), b, x, h))
        body += '    $@ = undef;'
        cid = 'g%d' % (j // 25)
        decls = decls.replace('_@_', '_%s_' % cid); body = body.replace('_@_', '_%s_' % cid)
        def f(o, want=want, desc=desc, decls=decls):
            pos = 0
            for q, w in enumerate(want):
                got = []
                while pos < len(o.lines) and o.lines[pos] != str(1000 + q): got.append(o.lines[pos]); pos += 1
                pos += 1
                if got != w:
                    src = [l for l in decls.split('\n') if '_%d :' % q in l]
                    return '%s: log %r, expected %r\n%s' % (desc[q], got, w, '\n'.join(src))
            return None
        c = Case('scopes ' + cid, body, f, decls=decls); c.meta = len(want)
        out.append(c)
    return out

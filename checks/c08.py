import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import re, random
import vp, session as se, corpus, stmts, wild

CANARY = '''class Canary { use ZNode; use ZAll; use ZDer; use Int; use Hash; use List; use Fn;
  static method m : void () {
    my $x = 0; my $s = ""; my $l = List->new; my $h = Hash->new;
    for (my $i = 0; $i < 20; $i++) { $x += $i; $s .= $i; $l->push((Int)$i); $h->set($i . "k", $s); }
    eval { my $a = new int[3]; $a->[3] = 1; };
    my $e = Fn->substr($@, 0, 5);
    my $n = ZNode->new(7); my $m = ZNode->new; $m->{weaknext} = $n; weaken $m->{weaknext};
    my $w = isweak $m->{weaknext};
    $n = undef;
    my $d : ZNode = $m->{weaknext};
    my $u = "def"; unless ($d) { $u = "undef"; }
    say "$x $s " . $l->length . " " . $h->get_string("5k") . " $w $u " . ZDer->new->who . " " . length $e . " \\"lit\\" " . Fn->uc("abc");
  }
}
'''
CANARY_OUT = ['~7', '190 012345678910111213141516171819 20 012345 1 undef der/base 5 "lit" ABC', '@K 0']

def item(key, src, extra=(), kind='', canary=True):
    ops = [se.new(1)] + [se.src(1, c, t) for c, t in list(FILES) + list(extra)] + [se.src(1, 'TA', src), se.comp(1, 'TA')]
    comp = len(ops) - 1
    ops += [se.call(1, 'TA', 'm')]; run = len(ops) - 1
    ops += [se.src(1, 'Canary', CANARY), se.comp(1, 'Canary'), se.call(1, 'Canary', 'm')]; can = len(ops) - 1
    ops += [se.free(1)]
    return se.Item(key, ops, dict(comp=comp, run=run, can=can, src=src, kind=kind, extra=extra))

ZCMP = '''class ZCmp : public { use Cloneable; use Stringable; use Comparable; use EqualityCheckable; interface Cloneable; interface Stringable; interface Comparable; interface EqualityCheckable;
  has k : public int;
  static method new : ZCmp ($k : int) { my $self = new ZCmp; $self->{k} = $k; return $self; }
  method clone : object () { if ($self->{k} == 5) { die "clone"; } if ($self->{k} == 3) { return undef; } return &new($self->{k} + 1); }
  method to_string : string () { if ($self->{k} == 5) { die "to_string"; } if ($self->{k} == 3) { return undef; } return "Z" . $self->{k}; }
  method cmp : int ($a : object, $b : object) { if ($self->{k} == 5) { die "cmp"; } return $self->{k}; }
  method eq : int ($a : object, $b : object) { if ($self->{k} == 5) { die "eq"; } return $self->{k}; }
}
'''
FILES = [('ZCmp', ZCMP)] + [(k[:-5], v) for k, v in stmts.FILES.items()]
ENV = {'ASAN_OPTIONS': vp.SAN_ENV['ASAN_OPTIONS'].replace('max_allocation_size_mb=3000', 'max_allocation_size_mb=600') + ':hard_rss_limit_mb=3000'}

def wrap(body, uses, decls=''):
    return 'class TA { %s\n%s\n static method m : void () {\n    %s\n } }' % (' '.join('use %s;' % u for u in sorted(set(uses) | {'ZNode', 'ZBase', 'ZDer', 'ZDer2', 'ZImpl', 'ZOther', 'ZAll', 'ZFace', 'Z_3i', 'Z_2d', 'Z_4b', 'Z_1s', 'Z_2l', 'Z_3f', 'Mon', 'Stringable', 'Int', 'Point', 'Fn', 'Error', 'Byte', 'Short', 'Long', 'Float', 'Double'} - {'TA'})), decls, body)

def main(ck):
    rng = ck.rng
    drv = vp.build_driver('asan')
    lib = wild.library()
    by = {}
    for m in lib[0]: by.setdefault(m.cls, []).append(m)
    if len(by) < 30: raise vp.HarnessError('library not parsed')
    items = []
    classes = sorted(by, key=lambda c: c)
    weights = [len(by[c]) for c in classes]
    for i in range(ck.n(1000, 40000)):
        k = rng.random()
        focus = None if k < .3 else {rng.choices(classes, weights)[0]} if k < .8 else set(rng.sample(classes, 3))
        body, uses = wild.program(rng, lib, focus)
        items.append(item('wild %d' % i, wrap(body, uses), kind='wild'))
    # the catalogue, mutated: what the compiler still accepts is run
    cat = [c for c in stmts.all_cases(rng) if not c.files and 'TB' not in c.body + c.decls and len(c.body) < 6000]
    toks = [x for c in rng.sample(cat, min(60, len(cat))) for x in corpus.toks(c.body) if x.strip()]
    uses = re.findall(r'use ([\w:]+);', stmts.USES)
    for i in range(ck.n(500, 20000)):
        c = rng.choice(cat)
        kind, s = corpus.mutate(rng, c.body, rng.choice(cat).body, toks, 'swaptype' if rng.random() < .8 else 'tok')
        if isinstance(s, bytes): continue
        items.append(item('mutant %d %s of %s' % (i, kind, c.key), wrap(s, uses, c.decls), kind='mutant'))
    done = se.run_all(drv, items, per=20, wd=8, env=ENV)
    rej = {}
    for it in done:
        if it.kind == 'missing': ck.inconclusive.append('%s: %s' % (it.key, it.detail[:200])); continue
        m = it.meta
        f = {'TA.spvm': m['src']} if m else {}
        if it.kind == 'hang': ck.count('endless'); continue
        if it.kind == 'crash':
            if 'hard rss limit' in it.detail: ck.count('memory limit'); continue
            rep = vp.san_report(it.detail.encode('latin1')) or ('assert', (re.search(r": (\w+): Assertion|in (\w+)", it.detail) or ['?'])[0])
            # the result of an overlapping memcpy is documented as not guaranteed
            if rep[0] == 'memcpy-param-overlap' and rep[1].startswith('SPVM__Array__memcpy_'): ck.count('overlapping memcpy'); continue
            ck.violation('crash/%s/%s' % tuple(rep), '%s: %s' % (it.key, it.detail), f); continue
        o = it.ops
        a = o[m['comp']]
        if a.rc:
            ck.count('rejected ' + m['kind']); x = re.sub(r'"[^"]*"|\$\w+|\d+', '_', a.msgs[0] if a.msgs else '')[:100]; rej.setdefault(m['kind'] + ' ' + x, []).append(it); continue
        ck.count('accepted ' + m['kind'])
        out = o[m['run']].out
        ck.count('events', len(out)); ck.count('exceptions', sum(1 for l in out if l.startswith('E')))
        for l in out:
            if l.startswith(('E', '@X')): ck.seen(re.sub(r'".*"|-?\d+|at .*', '', l)[:80], 0)
        ck.seen(m['kind'] + ' ' + re.sub(r'\d+', '', it.key)[:30] + str(len(out) // 4))
        why = None
        if out and not re.search(r'@K \d+$', out[-1]): why = 'the method does not end: %r' % out[-3:]
        elif o[m['can']].out != CANARY_OUT: why = 'afterwards the canary gives %r' % o[m['can']].out
        if why: ck.violation('%s/%s' % (m['kind'], re.sub(r'\d+', 'N', why)[:60]), '%s: %s' % (it.key, why), f)
    if os.environ.get('VERIF_REJ'):
        for x, l in sorted(rej.items(), key=lambda y: -len(y[1]))[:40]: print(len(l), x, l[0].key, [re.sub(r'\s+', ' ', l[0].meta['src'].split('\n')[int(re.findall(r'line (\d+)', l[0].ops[l[0].meta['comp']].msgs[0])[-1]) - 1])[:300] if l[0].meta else ''])
    ck.sample('%d programs run' % sum(v for k, v in ck.counters.items() if k.startswith('accepted')))

vp.main('C08', main, rule='a distinct case is an exception text thrown by an accepted program, or a kind of program with the size of its log')

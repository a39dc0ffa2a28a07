import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import re, random, tempfile, shutil
import vp, session as se, natmodel as nm, mcall

def match(g, e):
    if g == e: return True
    if '?*' in e: return g.startswith(e[:e.index('?*')])
    if '~' in e:
        head, pre, suf = e.split('~')
        if not g.startswith(head): return False
        h = g[len(head):]
        return (pre == '-' or h.startswith(pre)) and (suf == '-' or h.endswith(suf)) and (len(h) >= (0 if pre == '-' else len(pre)) + (0 if suf == '-' else len(suf)))
    return False

def one(seed, nscripts, size):
    """-> item, [(script, events)]"""
    rng = random.Random(seed); w = nm.World(rng); st = nm.Stack(w); runs = []
    while len(runs) < nscripts:
        st.setexc(None)
        g = nm.Gen(w, st, None, 0, size); w.ev = []; top = 0
        rc, ret = g.run(); assert not rc
        st.leave(0); runs.append((g.script(), w.ev + ['left %d' % w.alive(st.exc)]))
    body = []
    for i, (s, ev) in enumerate(runs): body.append('  static method t_%d : void () { print "@BEGIN %d\\n"; Nat->run("%s"); my $c = Mon->blocks; print "@DONE $c\\n"; }' % (i, i, s.replace('$', '\\$').replace('@', '\\@')))
    end = '  static method t_end : void () { print "@BEGIN end\\n"; NA->clear; my $c = Mon->blocks; print "@DONE $c\\n"; }\n  static method t_start : void () { my $c = Mon->blocks; print "@DONE $c\\n"; }'
    src = 'class T { use NA; use NB; use Nat; use Mon;\n%s\n%s\n}' % ('\n'.join(body), end)
    w.ev = []
    for n in ('$VO', '$VT', '$VN'): v = w.cvo[n]; w.cvo[n] = None; w.dec(v)
    ops = [se.new(0)] + [se.src(0, 'T', src.encode('latin1'))] + [se.src(0, c, t) for c, t in nm.CLASSES.items()] + [se.comp(0, 'T')]
    ops += [se.call(0, 'T', 't_start')] + [se.call(0, 'T', 't_%d' % i) for i in range(nscripts)] + [se.call(0, 'T', 't_end'), se.free(0)]
    return se.Item('seed %d' % seed, ops, (runs, w.ev, src, w.kinds))

def main(ck):
    drv = vp.build_driver('asan', extra_sources=[vp.VERIF + '/drv/nat/nat.c', vp.VERIF + '/drv/nat/api.c'], tag='nat')
    incs = [vp.VERIF + '/drv/nat', vp.VERIF + '/drv/lib']
    n, k, size = (60, 14, 40) if ck.tier == "quick" else (900, 20, 60)
    items = []; i = 0
    while len(items) < n:
        i += 1
        try: items.append(one(ck.seed * 1000003 + i, k, size))
        except RuntimeError as e:
            if str(e) != 'long': raise
    items = se.run_all(drv, items, 4, 40, incs)
    for it in items:
        if it.kind == 'missing': ck.inconclusive.append('%s: %s' % (it.key, it.detail[:300])); continue
        f = {'T.spvm': it.meta[2]} if it.meta else {}
        if it.kind in ('crash', 'hang'): ck.violation('%s/%s' % (it.kind, str(vp.san_report(it.detail.encode('latin1')) or '')), '%s: %s' % (it.key, it.detail[:3000]), f); continue
        runs, endev, src, kinds = it.meta
        bad = [o for o in it.ops if o.rc]
        if bad: ck.violation('run', '%s: %r' % (it.key, [(o.line[:40], o.rc, o.msgs) for o in bad]), f); continue
        rcalls = [o for o in it.ops if o.line.startswith('R ')]
        base = None
        for o, (script, exp) in zip(rcalls, [(None, [])] + runs + [(None, endev)]):
            text = '\n'.join(o.out); ev = [' '.join(x.split()) for x in re.split(r'@N ', text.split('@DONE')[0])[1:]]; tail = text.split('@DONE')[-1].split()[:1]
            if script and base and tail: ev.append('left %d' % (int(tail[0]) - int(base[0]) - 2))  # the two literals of the method
            exp = [' '.join(x.split()) for x in exp]
            ck.count('events', len(ev)); ck.count('scripts', 1 if script else 0)
            for j in range(max(len(ev), len(exp))):
                a = ev[j] if j < len(ev) else None; b = exp[j] if j < len(exp) else None
                if a is None or b is None or not match(a, b):
                    ck.violation('event/%s' % (b or a).split()[0], '%s %s: event %d: got %r, the model says %r\nbefore: %r\nscript: %s' % (it.key, o.line, j, a, b, ev[max(0, j - 8):j], (script or '')[:6000]), f); break
            else:
                if script is None:
                    if base is None: base = tail
                    elif int(base[0]) + 1 != int(tail[0]): ck.violation('blocks', '%s: memory blocks: %r at the start, %r at the end' % (it.key, base, tail), f)
                for e in exp: ck.seen(' '.join(e.split()[:2 if e.startswith('error') else 1]))
                continue
            break
        for o, c in kinds.items(): ck.count('op ' + o, c)
        fr = [o for o in it.ops if o.line.startswith('F ')][-1].freed
        ck.count('runtimes'); 
    calls(ck, drv, incs)
    sweeps(ck, drv, incs)

def sweeps(ck, drv, incs):
    """self-checking native workloads over the families of functions the scripts do not reach (drv/nat/api.c)"""
    n, k = (16, 60) if ck.tier == 'quick' else (200, 200)
    items = [se.Item('sweep %d' % i, [se.new(0), se.src(0, 'T', b'class T { use NApi; static method t : void () { NApi->sweep(%d, %d); } }' % (ck.seed * 1009 + i, k)), se.comp(0, 'T'), se.call(0, 'T', 't'), se.free(0)], i) for i in range(n)]
    for it in se.run_all(drv, items, 4, 60, incs):
        if it.kind == 'missing': ck.inconclusive.append('%s: %s' % (it.key, it.detail[:300])); continue
        if it.kind in ('crash', 'hang'): ck.violation('%s/%s' % (it.kind, str(vp.san_report(it.detail.encode('latin1')) or '')), '%s: %s' % (it.key, it.detail[:3000]), {}); continue
        out = '\n'.join(l for o in it.ops for l in (o.out or []))
        bad = re.findall(r'@BAD (.*)', out); ok = re.findall(r'@OK (\d+)', out)
        if bad:
            fams = sorted(set(b.split(' ')[0] for b in bad))
            ck.violation('sweep/%s' % fams[0], '%s: %s' % (it.key, '\n'.join(sorted(set(bad))[:20])), {}); continue
        if not ok: ck.violation('sweep/run', '%s: %r' % (it.key, [(o.line[:40], o.rc, o.msgs) for o in it.ops if o.rc]), {}); continue
        ck.count('contract checks of API sweeps', int(ok[0])); ck.count('events', int(ok[0])); ck.seen('sweep')

def calls(ck, drv, incs):
    n, k = (40, 60) if ck.tier == 'quick' else (800, 80); items = []
    for i in range(n):
        cls, exp = mcall.build(ck.seed * 7919 + i, 14, k)
        ops = [se.new(0)] + [se.src(0, c, t.encode('latin1')) for c, t in cls.items()] + [se.comp(0, 'T')] + [se.call(0, 'T', 't_%d' % j) for j in range(k)] + [se.free(0)]
        items.append(se.Item('calls %d' % i, ops, (cls, exp)))
    for it in se.run_all(drv, items, 4, 40, incs):
        if it.kind == 'missing': ck.inconclusive.append('%s: %s' % (it.key, it.detail[:300])); continue
        f = {c + '.spvm': t for c, t in it.meta[0].items()} if it.meta else {}
        if it.kind in ('crash', 'hang'): ck.violation('%s/%s' % (it.kind, str(vp.san_report(it.detail.encode('latin1')) or '')), '%s: %s' % (it.key, it.detail[:3000]), f); continue
        bad = [o for o in it.ops if o.rc]
        if bad: ck.violation('calls/run', '%s: %r' % (it.key, [(o.line[:40], o.rc, o.msgs) for o in bad]), f); continue
        for o, (exp, why) in zip([o for o in it.ops if o.line.startswith('R ')], it.meta[1]):
            g = [' '.join(l.split()) for l in o.out if l[:2] in ('@C', '@E', '@Q', '@I', '@P') or l.startswith('@V')]
            ck.count('Native::MethodCall calls'); ck.count('events', len(g)); ck.seen('mc %s %s' % (why, exp[-1].split('[')[0].split(':')[0]))
            if len(g) != len(exp) or any(a != b and b != '@P ?' for a, b in zip(g, exp)):
                ck.violation('calls/%s' % why, '%s %s: got %r, documented %r' % (it.key, o.line, o.out, exp), f); break
vp.main('S02', main)

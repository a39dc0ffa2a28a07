"""Runs batches of generated programs on the real implementation and judges them with the model."""
import os, re, shutil, random, multiprocessing
import vp, spvmrun
from progen import *

def dry(g, budget=6000):
    M = Machine(None, budget)
    g.run_model(M)
    return M

def make(seed, prefix, knobs, budget=6000):
    """a program within the step budget"""
    for k in range(40):
        rng = random.Random('%s/%d' % (seed, k))
        g = Gen(rng, prefix, knobs)
        try:
            M = dry(g, budget)
        except Budget:
            continue
        if M.stat['prints'] < 15: continue
        g.seed = '%s/%d' % (seed, k)
        return g
    raise vp.HarnessError('no program within the budget')

def judge_log(g, lines, budget=40000):
    """None or (kind, message); also returns the statistics"""
    M = Machine(normalise(lines), budget)
    try:
        g.run_model(M)
        M.finish()
    except Violation as v:
        return (v.kind, v.msg), M
    except Budget:
        return ('budget', ''), M
    return None, M

def run_modes(drv, progs, d, modes, opt, rng, timeout=40, san=False):
    """progs: list of Gen. Returns {mode: (per program record list, meta, run)}"""
    out = {}
    names = [g.main.name for g in progs]
    for mode in modes:
        md = os.path.join(d, mode)
        os.makedirs(md, exist_ok=True)
        for g in progs:
            pre = None
            if mode == 'pre': pre = 'all'
            elif mode == 'mix': pre = {c.short for c in g.classes + [g.main] if random.Random(g.seed + c.short).random() < 0.5}
            spvmrun.write_files(md, g.files(pre))
        cmd = [drv] + vp.inc_args([md])
        r0 = None
        if mode != 'vm':
            so, r0 = vp.build_precompile(drv, [md], names, md + '/gen', opt=opt, san=san)
            if so is None:
                out[mode] = (None, None, r0)
                continue
            cmd += ['--pre', so]
        r = vp.run(cmd + names, timeout)
        log, meta = vp.parse_log(r.out)
        out[mode] = (log, meta, r)
    return out

def sources(g):
    return {k: v for k, v in g.files().items()}

def batch(args):
    """one process: generates and runs a batch of programs, returns findings and statistics"""
    drv, seeds, knobs, modes, opt, workdir, want, san = args
    progs = [make(s, 'P%d' % i, knobs) for i, s in enumerate(seeds)]
    res = dict(viol=[], stat={}, feats={}, n=0, inconc=[], sample=None, keys=[])
    d = workdir
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    rng = random.Random(seeds[0])
    runs = run_modes(drv, progs, d, modes, opt, rng, san=san)
    first = modes[0]
    for mode in modes:
        log, meta, r = runs[mode]
        if r.timeout:
            # isolate the program that hangs; a program takes milliseconds
            hung = False
            for g in progs:
                one = run_modes(drv, [g], d + '/one', [mode], opt, rng, timeout=20, san=san)[mode]
                if one[2].timeout: one = run_modes(drv, [g], d + '/one', [mode], opt, rng, timeout=60, san=san)[mode]
                if one[2].timeout:
                    hung = True
                    res['viol'].append((g.seed, mode, 'hang', 'the program does not end (20 s, then 60 s; the model ends it in %d steps)' % dry(g).steps, sources(g), ''))
                    break
            if not hung: res['inconc'].append('%s %s: timeout' % (seeds[0], mode))
            continue
        if log is None or meta['ce']:
            txt = (r.out + b'\n' + r.err).decode('latin1')[-4000:]
            # find the guilty program
            for g in progs:
                one = run_modes(drv, [g], d + '/one', [mode], opt, rng, san=san)[mode]
                if one[0] is None or one[1]['ce']:
                    t1 = (one[2].out + b'\n' + one[2].err).decode('latin1')[-4000:]
                    res['viol'].append((g.seed, mode, 'rejected', 'a type-correct program is rejected or its precompiled code does not compile\n' + t1, sources(g), ''))
                    break
            else:
                res['viol'].append((seeds[0], mode, 'rejected', txt, sources(progs[0]), ''))
            continue
        crashed = r.rc != 0 or meta['end'] is None
        culprit = None
        for g in progs:
            rec = log.get(g.main.name + '.t_0')
            if rec is None:
                if not crashed: res['inconc'].append('%s %s: not run' % (g.seed, mode))
                continue
            if not rec.done:
                rep = vp.san_report(r.err)
                res['viol'].append((g.seed, mode, 'crash' + ('/%s/%s' % rep if rep else ''), 'rc=%s\n%s' % (r.rc, r.err.decode('latin1')[:6000]), sources(g), '\n'.join(rec.lines[-30:])))
                culprit = g
                # the programs after it are run on their own
                rest = progs[progs.index(g) + 1:]
                if rest:
                    sub = run_modes(drv, rest, d + '/rest', [mode], opt, rng, san=san)[mode]
                    if sub[0] is not None and not sub[2].timeout:
                        for k, v in sub[0].items(): log.setdefault(k, v)
                continue
        for g in progs:
            rec = log.get(g.main.name + '.t_0')
            if rec is None or not rec.done: continue
            res['n'] += 1
            bad, M = judge_log(g, rec.lines)
            for k, v in M.stat.items(): res['stat'][k] = res['stat'].get(k, 0) + v
            if bad is None and rec.error: bad = ('uncaught', repr(rec.error))
            if bad is None and rec.blocks != 0: bad = ('blocks', 'memory blocks changed by %d over the program' % rec.blocks)
            if bad and bad[0] == 'budget':
                res['inconc'].append('%s %s: model budget' % (g.seed, mode))
            elif bad:
                lo = max(0, M.pos - 25)
                res['viol'].append((g.seed, mode, bad[0], bad[1], sources(g), '\n'.join(normalise(rec.lines)[lo:M.pos + 3])))
            for f in g.feat: res['feats'][f] = res['feats'].get(f, 0) + 1
            res['keys'].append((g.seed, mode))
        if crashed and culprit is None:
            rep = vp.san_report(r.err)
            res['viol'].append((seeds[0], mode, 'teardown' + ('/%s/%s' % rep if rep else ''), 'after the programs: rc=%s end=%s\n%s' % (r.rc, meta['end'], r.err.decode('latin1')[:6000]), sources(progs[0]), ''))
        elif not crashed and meta['end'] != '0':
            res['viol'].append((seeds[0], mode, 'endblocks', 'memory blocks left at the end: %s' % meta['end'], sources(progs[0]), ''))
        # engines must agree exactly
        if mode != first and runs[first][0]:
            for g in progs:
                a, b = runs[first][0].get(g.main.name + '.t_0'), log.get(g.main.name + '.t_0')
                if a is None or b is None or not a.done or not b.done: continue
                la = [re.sub(r' at \S*/(\w+\.spvm) line ', r' at \1 line ', x) for x in a.lines]
                lb = [re.sub(r' at \S*/(\w+\.spvm) line ', r' at \1 line ', x) for x in b.lines]
                if la != lb:
                    i = next((i for i in range(max(len(la), len(lb))) if i >= len(la) or i >= len(lb) or la[i] != lb[i]))
                    res['viol'].append((g.seed, mode, 'engines', 'line %d: %s has %r, %s has %r' % (i, first, la[i] if i < len(la) else None, mode, lb[i] if i < len(lb) else None), sources(g), '\n'.join(la[max(0, i - 10):i + 2])))
                res['stat']['engine_pairs'] = res['stat'].get('engine_pairs', 0) + 1
    if progs and runs[first][0]:
        g = progs[0]
        rec = runs[first][0].get(g.main.name + '.t_0')
        if rec: res['sample'] = dict(seed=g.seed, main=g.main.lines[-25:], log=normalise(rec.lines)[:25])
    shutil.rmtree(d, ignore_errors=True)
    return res

def run_programs(ck, drv, n, knobs, modes=('vm',), per=10, opt='-O1', kinds=None, prefix='prog', san=False):
    """kinds: violation kinds that count for this property (None: all)"""
    jobs = []
    for i in range(0, n, per):
        seeds = ['%s/%s/%d/%s/%d' % (ck.prop, prefix, ck.seed, ck.tier, j) for j in range(i, min(n, i + per))]
        jobs.append((drv, seeds, knobs, modes, opt, os.path.join(ck.work, '%s-%d' % (prefix, i)), None, san))
    stop = False
    with multiprocessing.Pool(vp.NCPU) as pool:
        for res in pool.imap_unordered(batch, jobs):
            ck.count('programs', res['n'])
            for k, v in res['stat'].items(): ck.count(k, v)
            for k, v in res['feats'].items(): ck.count('feat_' + k, v)
            for k in res['keys']: ck.seen(k)
            ck.inconclusive += res['inconc']
            if res['sample']: ck.sample(res['sample'], 3)
            if any(x[2] == 'hang' for x in res['viol']): stop = True
            for seed, mode, kind, msg, files, ctx in res['viol']:
                if kinds is not None and not any(kind.startswith(k) for k in kinds):
                    ck.count('other_kind_' + kind.split('/')[0])
                    continue
                ck.violation('%s/%s' % (kind, seed), 'program %s (%s): %s: %s\n--- log near\n%s' % (seed, mode, kind, msg, ctx), files)
            if stop or len(ck.violations) > 60: break     # pool is terminated by the with block

import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import vp, progcheck, spvmrun, stmts, literals, scopes
from spvmrun import Case

def check(ck):
    ck.rule = ('one evaluation = one program x engine configuration (interpreter; every class precompiled; a random half of the classes precompiled); the output, exceptions, destruction '
               'order and block counts are compared line by line between the engines and with the model; directed part: one method per operation kind, every log of the precompiled '
               'class compared with the interpreter\'s; literals of every type and byte, and nests of control structures left in every way, in both engines against the model; distinct = program or method x configuration')
    drv = vp.build_driver('asan')
    rng = ck.rng
    progcheck.run_programs(ck, drv, ck.n(64, 700), {'size': 24, 'depth': 4}, modes=('vm', 'pre', 'mix'), prefix='eng', per=4, opt='-O2')
    progcheck.run_programs(ck, drv, ck.n(24, 200), {'size': 20, 'depth': 4, 'weak': 2, 'exc': 2, 'clo': 2}, modes=('vm', 'pre', 'mix'), prefix='engx', per=3, opt='-O0', san=ck.thorough)
    # every operation of the instruction set, interpreter against precompiled code
    cases = stmts.all_cases(rng, ck)
    if not ck.thorough: cases = rng.sample(cases, min(len(cases), 520))
    per = 36
    def one(i):
        cs = cases[i:i + per]
        out = {}
        for m in ('vm', 'pre'):
            c2 = [Case(c.key, c.body, None, c.err, c.decls, None, c.files, c.meta) for c in cs]
            out[m] = spvmrun.run_batch(ck, drv, c2, uses=stmts.USES, mode=m, files=stmts.FILES, tag=m, pre_opt='-O1')
        return out
    for out in vp.pmap(one, range(0, len(cases), per), 8):
        d = {}
        for m in out:
            for x in out[m]: d.setdefault(x.case.key, {})[m] = x
        for key, x in d.items():
            if 'vm' not in x or 'pre' not in x:
                k = list(x.values())[0]
                ck.violation('directed/%s/only-one-engine' % key, '%s: %s' % (k.kind, k.detail), {'case.spvm': k.src})
                continue
            a, b = x['vm'], x['pre']
            if 'missing' in (a.kind, b.kind) or 'timeout' in (a.kind, b.kind):
                ck.inconclusive.append('%s: %s/%s' % (key, a.kind, b.kind)); continue
            ck.seen(('directed', key))
            ck.count('directed_pairs')
            if a.kind != b.kind:
                ck.violation('directed/%s/kind' % key, 'interpreter: %s %s\nprecompiled: %s %s' % (a.kind, a.detail, b.kind, b.detail), {'case.spvm': a.src})
            elif a.kind == 'ok':
                import re
                nz = lambda e: None if e is None else [e[0], re.sub(r' at \S*/([\w]+\.spvm) line ', r' at \1 line ', e[1])]
                va, vb = (a.out.lines, nz(a.out.error), a.out.blocks), (b.out.lines, nz(b.out.error), b.out.blocks)
                na = [re.sub(r' at \S*/([\w]+\.spvm) line ', r' at \1 line ', l) for l in va[0]]
                nb = [re.sub(r' at \S*/([\w]+\.spvm) line ', r' at \1 line ', l) for l in vb[0]]
                ck.count('directed_lines', len(na))
                if (na, va[1], va[2]) != (nb, vb[1], vb[2]):
                    ck.violation('directed/%s/differs' % key, 'interpreter: %r %r blocks %r\nprecompiled: %r %r blocks %r\n--- body\n%s' % (na, va[1], va[2], nb, vb[1], vb[2], (a.case.decls or '') + a.case.body), {'case.spvm': a.src})
    # constants of every type, and scopes left in every way: each engine against the model
    spvmrun.run_and_judge(ck, drv, literals.cases(rng, ck.n(60, 1500)), per=30, modes=('vm', 'pre'))
    spvmrun.run_and_judge(ck, drv, scopes.cases(rng, ck.n(150, 8000)), per=10, modes=('vm', 'pre'), uses=stmts.USES + ' use ZScope;', files=dict(stmts.FILES, **scopes.FILES), pre_opt='-O0')
    ck.assumptions = ['the precompiled C is compiled with -fwrapv like the rest of the runtime', 'file paths in stack traces are compared by file name']

vp.main('C04', check)

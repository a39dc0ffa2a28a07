"""Batches of generated SPVM test methods, run under the instrumented driver and judged."""
import os, re, shutil
import vp

class Case:
    """One generated test method. expect: list of output lines, or a callable(CaseOut)->None|str.
    err: None (must not throw), or a regex the exception text must match. leak: expected block delta."""
    __slots__ = ('key', 'body', 'expect', 'err', 'decls', 'leak', 'name', 'meta', 'files', 'errid')
    def __init__(self, key, body, expect, err=None, decls='', leak=0, files=None, meta=None, errid=None):
        self.key, self.body, self.expect, self.err = key, body, expect, err
        self.decls, self.leak, self.files, self.meta = decls, leak, files or {}, meta
        self.name = None
        self.errid = errid

HEAD_USES = 'use Mon;'

def render(cls, cases, uses='', precompile=False, attrs=''):
    at = ' : precompile' if precompile else ''
    out = ['class %s%s {' % (cls, at), HEAD_USES + ' ' + uses]
    for i, c in enumerate(cases):
        c.name = 't_%d' % i
        if c.decls: out.append(c.decls)
        out.append('  static method %s : void () {\n%s\n  }' % (c.name, c.body))
    out.append('}')
    return '\n'.join(out) + '\n'

def write_files(d, files):
    for fn, txt in files.items():
        p = os.path.join(d, fn)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'wb') as f:
            f.write(txt if isinstance(txt, bytes) else txt.encode('utf-8', 'surrogateescape'))

class Result:
    __slots__ = ('case', 'kind', 'out', 'detail', 'src')
    # kind: ok | compile | crash | timeout | missing | precompile
    def __init__(self, case, kind, out=None, detail='', src=''):
        self.case, self.kind, self.out, self.detail, self.src = case, kind, out, detail, src

def run_batch(ck, drv, cases, cls='TB', uses='', mode='vm', files=None, timeout=60, extra_args=(), depth=0, tag='b', env=None, pre_opt='-O1', pre_san=False):
    """Returns a Result per case."""
    if not cases: return []
    ck.count('batches')
    d = ck.sub('%s-%d-%d' % (tag, ck.counters['batches'], id(cases) & 0xffff))
    allfiles = dict(files or {})
    for c in cases: allfiles.update(c.files)
    src = render(cls, cases, uses, precompile=(mode == 'pre'))
    if mode == 'pre':
        allfiles = {k: (re.sub(r'^class (\w[\w:]*)( extends [\w:]+)?( :[^{]*)?\{', _addpre, v, count=1, flags=re.M) if isinstance(v, str) else v) for k, v in allfiles.items()}
    allfiles[cls + '.spvm'] = src
    write_files(d, allfiles)
    cmd = [drv] + vp.inc_args([d])
    if mode == 'pre':
        so, r = vp.build_precompile(drv, [d], [cls], d + '/gen', opt=pre_opt, san=pre_san)
        if so is None:
            txt = (r.out + b'\n' + r.err).decode('latin1')
            if r.timeout: return [Result(c, 'timeout', detail='precompile timeout', src=src) for c in cases]
            if len(cases) == 1:
                k = 'compile' if '@CE' in txt else 'precompile'
                return [Result(cases[0], k, detail=txt[-3000:], src=src)]
            shutil.rmtree(d, ignore_errors=True)
            h = len(cases) // 2
            a = (cls, uses, mode, files, timeout, extra_args, depth + 1, tag, env, pre_opt, pre_san)
            return run_batch(ck, drv, cases[:h], *a) + run_batch(ck, drv, cases[h:], *a)
        cmd += ['--pre', so]
    cmd += list(extra_args) + [cls]
    r = vp.run(cmd, timeout, env=env)
    log, meta = vp.parse_log(r.out)
    res = []
    if r.timeout and len(cases) == 1 and not meta['ce']:
        # alone, and again with more time: a case that should take milliseconds does not end
        r = vp.run(cmd, timeout * 2, env=env)
        log, meta = vp.parse_log(r.out)
        if r.timeout:
            ck.count('hangs')
            o = log.get(cls + '.' + cases[0].name)
            shutil.rmtree(d, ignore_errors=True)
            return [Result(cases[0], 'hang', o, detail='does not end within %d s, then %d s, of its own' % (timeout, timeout * 2), src=src)]
    if meta['ce']:
        shutil.rmtree(d, ignore_errors=True)
        if len(cases) == 1:
            return [Result(cases[0], 'compile', detail='\n'.join(meta['ce']), src=src)]
        h = len(cases) // 2
        a = (cls, uses, mode, files, timeout, extra_args, depth + 1, tag, env, pre_opt, pre_san)
        return run_batch(ck, drv, cases[:h], *a) + run_batch(ck, drv, cases[h:], *a)
    err = r.err
    crashed = None
    clean = (not r.timeout and r.rc == 0 and meta['end'] is not None)
    for i, c in enumerate(cases):
        o = log.get(cls + '.' + c.name)
        if o is not None and o.done:
            res.append(Result(c, 'ok', o, src=src))
        elif o is not None:
            crashed = i
            kind = 'timeout' if r.timeout else 'crash'
            rep = vp.san_report(err)
            if r.timeout and ck.counters.get('hangs', 0) < 3 and len(cases) > 1:
                shutil.rmtree(d, ignore_errors=True)
                a = (cls, uses, mode, files, min(timeout, 30), extra_args, depth + 1, tag, env, pre_opt, pre_san)
                res += run_batch(ck, drv, [c], *a)
                if ck.counters.get('hangs', 0) >= 3: return res + [Result(x, 'missing', src=src, detail='hangs') for x in cases[i + 1:]]
                return res + run_batch(ck, drv, cases[i + 1:], *a)
            res.append(Result(c, kind, o, detail='rc=%s %s\n%s' % (r.rc, rep, err.decode('latin1')[:6000]), src=src))
            rest = cases[i + 1:]
            shutil.rmtree(d, ignore_errors=True)
            if depth > 40:
                return res + [Result(x, 'missing', src=src, detail='too many crashes') for x in rest]
            return res + run_batch(ck, drv, rest, cls, uses, mode, files, timeout, extra_args, depth + 1, tag, env, pre_opt, pre_san)
        else:
            res.append(Result(c, 'missing', None, detail='rc=%s timeout=%s\n%s' % (r.rc, r.timeout, err.decode('latin1')[:4000]), src=src))
    if not clean:
        # all cases ran, then the teardown failed
        rep = vp.san_report(err)
        res.append(Result(Case('teardown', '', []), 'timeout' if r.timeout else 'crash', None,
                          detail='after all cases: rc=%s end=%s %s\n%s' % (r.rc, meta['end'], rep, err.decode('latin1')[:6000]), src=src))
    elif vp.san_report(err):
        res.append(Result(Case('teardown', '', []), 'crash', None, detail='sanitizer report\n' + err.decode('latin1')[:6000], src=src))
    elif all(c.leak is not None for c in cases) and meta['end'] != str(sum(c.leak for c in cases)):
        res.append(Result(Case('end-blocks', '', []), 'endblocks', None, detail='memory blocks left after class variables were destroyed: %s' % meta['end'], src=src))
    shutil.rmtree(d, ignore_errors=True)
    return res

def _addpre(m):
    name, ext, at = m.group(1), m.group(2) or '', m.group(3)
    if at and ('interface_t' in at or 'mulnum_t' in at or 'precompile' in at):
        return m.group(0)
    if at is None: return 'class %s%s : precompile {' % (name, ext)
    return 'class %s%s%s precompile {' % (name, ext, at.rstrip() + ' ')

def judge(ck, results, mode, prefix='', distinct=None, keyfn=None):
    """Turns results into verdicts."""
    for x in results:
        c = x.case
        key = '%s%s' % (prefix, c.key)
        files = {'case.spvm': x.src, 'body.txt': (c.decls or '') + '\n' + (c.body or ''), 'mode.txt': mode}
        if x.kind == 'missing':
            ck.inconclusive.append('%s [%s]: not run: %s' % (key, mode, x.detail[:200]))
            continue
        if x.kind == 'timeout':
            ck.inconclusive.append('%s [%s]: timeout' % (key, mode))
            continue
        if x.kind in ('compile', 'precompile', 'crash', 'endblocks', 'hang'):
            m = vp.SAN_RE.search(x.detail.encode('latin1', 'replace'))
            k2 = x.kind
            if x.kind == 'crash':
                rep = vp.san_report(x.detail.encode('latin1', 'replace'))
                if rep: k2 = 'crash/%s/%s' % rep
            ck.violation('%s/%s/%s' % (key, mode, k2), 'case %s (%s): %s\n%s\n--- body\n%s' % (key, mode, x.kind, x.detail, (c.decls or '') + c.body), files)
            continue
        o = x.out
        ck.seen(c.key)
        ck.count('events', len(o.lines))
        why = None
        if callable(c.expect):
            why = c.expect(o)
        elif c.expect is not None and o.lines != c.expect:
            for i in range(max(len(o.lines), len(c.expect))):
                a = o.lines[i] if i < len(o.lines) else '<nothing>'
                b = c.expect[i] if i < len(c.expect) else '<nothing>'
                if a != b:
                    why = 'line %d: got %r, model says %r' % (i, a, b)
                    break
        if why is None:
            if c.err is None and o.error is not None:
                why = 'unexpected exception: %r' % (o.error,)
            elif c.err is not None and o.error is None:
                why = 'expected an exception matching %r, none was thrown' % c.err
            elif c.err is not None and not re.search(c.err, o.error[1], re.S):
                why = 'exception %r does not match %r' % (o.error, c.err)
            elif c.err is not None and c.errid is not None and o.error[0] != c.errid:
                why = 'error id %r, expected %r' % (o.error, c.errid)
        if why is None and c.leak is not None and o.blocks != c.leak:
            why = 'live memory blocks changed by %d over the case, model says %d' % (o.blocks, c.leak)
        if why:
            ck.violation('%s/%s' % (key, mode), 'case %s (%s): %s\n--- output\n%s\n--- body\n%s' % (
                key, mode, why, '\n'.join(o.lines[:60]), (c.decls or '') + c.body), files)

def run_and_judge(ck, drv, cases, per=100, modes=('vm',), uses='', files=None, prefix='', pre_every=1, timeout=60, pre_opt='-O1', workers=8):
    """Splits cases into batches and runs them in parallel, in each mode."""
    jobs = []
    for i in range(0, len(cases), per):
        chunk = cases[i:i + per]
        for m in modes:
            if m == 'pre' and (i // per) % pre_every: continue
            # a Case's name is set on rendering: copy for parallel modes
            cs = [Case(c.key, c.body, c.expect, c.err, c.decls, c.leak, c.files, c.meta, c.errid) for c in chunk]
            jobs.append((m, cs))
    def one(j):
        m, cs = j
        return m, run_batch(ck, drv, cs, uses=uses, mode=m, files=files, tag=m, timeout=timeout, pre_opt=pre_opt)
    for m, res in vp.pmap(one, jobs, workers):
        ck.count('cases_' + m, len(res))
        judge(ck, res, m, prefix)

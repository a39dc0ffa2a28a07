"""Scripts of compiler operations (driver --session): several compilers, sources given as bytes, compile, run, reflect, free."""
import re, os, shutil, tempfile
import vp

class Op:
    __slots__ = ('line', 'out', 'rc', 'msgs', 'anon', 'freed', 'done', 'ran')
    def __init__(s, line):
        s.line, s.out, s.rc, s.msgs, s.anon, s.freed, s.done, s.ran = line, [], None, [], None, None, False, False
def hx(b): return (b if isinstance(b, bytes) else b.encode('utf-8', 'surrogateescape')).hex()
def new(k): return Op('N %d' % k)
def src(k, cls, b): return Op('S %d %s %s' % (k, cls, hx(b)))
def wsrc(k, cls, b): return Op('E %d %s %s' % (k, cls, hx(b)))
def comp(k, cls): return Op('C %d %s' % (k, cls))
def anon(k, b): return Op('A %d %s' % (k, hx(b)))
def call(k, cls, m): return Op('R %d %s %s' % (k, cls, m))
def init(k, cls='-'): return Op('I %d %s' % (k, cls))
def refl(k, cls): return Op('D %d %s' % (k, cls))
def dele(k, cls): return Op('X %d %s' % (k, cls))
def free(k): return Op('F %d' % k)

class Item:
    """A self-contained list of operations; after run: .kind ok|crash|hang, .detail"""
    def __init__(s, key, ops, meta=None):
        s.key, s.ops, s.meta, s.kind, s.detail = key, ops, meta, None, ''

def parse(out, ops):
    cur = None
    for l in out.decode('latin1').split('\n'):
        m = re.match(r'@S (\d+) \w$', l)
        if m:
            i = int(m.group(1)) - 1
            if cur is not None: cur.done = True
            cur = ops[i] if 0 <= i < len(ops) else None
            if cur is not None: cur.ran = True
        elif l == '@END' :
            if cur is not None: cur.done = True
            return True
        elif cur is None: pass
        elif l.startswith('@R '): cur.rc = int(l.split()[1])
        elif l.startswith('@M '): cur.msgs.append(re.sub(r'/\S*/mon\d+_\d+/', '', bytes.fromhex(l[3:].strip().replace('-', '')).decode('latin1')))
        elif l.startswith('@A '): cur.anon = l[3:]
        elif l.startswith('@F '): cur.freed = int(l[3:])
        else: cur.out.append(re.sub(r'/\S*/mon\d+_\d+/?', '', l) if '/mon' in l else l)
    return False

def run_items(drv, items, wd=30, incs=(), total=None, env=None, depth=0):
    """Runs the items of one process; a crash or a hang is charged to its item, the others go on in a new process."""
    ops = [o for it in items for o in it.ops]
    script = 'W %d\n' % wd + '\n'.join(o.line for o in ops) + '\n'
    md = None
    if any(o.line.startswith('E ') for o in ops):
        md = tempfile.mkdtemp(prefix='vp-ses-'); env = dict(env or {}, MON_DIR=md)
    r = vp.run([drv] + vp.inc_args(incs) + ['--session'], total or (wd * 2 + 120), stdin=script.encode(), env=env)
    if md: shutil.rmtree(md, ignore_errors=True)
    ended = parse(r.out, ops)
    if ended and r.rc == 0:
        for it in items: it.kind = 'ok'
        return
    last = None
    for i, it in enumerate(items):
        if any(o.ran for o in it.ops): last = i
        if all(o.done for o in it.ops): it.kind = 'ok'
    if last is None or depth > 25:
        for it in items:
            if it.kind is None: it.kind, it.detail = 'missing', 'rc %s %s' % (r.rc, r.err[-1500:].decode('latin1'))
        return
    it = items[last]
    if ended or all(o.done for o in it.ops):       # end of the process
        it = Item('teardown', []); it.kind, it.detail = 'crash', 'rc %s\n%s' % (r.rc, r.err[:6000].decode('latin1')); items.append(it)
        return
    at = [o for o in it.ops if o.ran][-1].line[:60]
    if r.timeout or r.rc == -14:
        if len(items) > 1:                          # alone, with more time
            for o in it.ops: o.__init__(o.line)
            run_items(drv, [it], wd * 2, incs, env=env, depth=depth + 1)
        else: it.kind, it.detail = 'hang', 'operation %s does not end within %d s' % (at, wd)
    else: it.kind, it.detail = 'crash', 'operation %s: rc %s\n%s' % (at, r.rc, r.err[:6000].decode('latin1'))
    rest = items[last + 1:]
    if rest: run_items(drv, rest, wd, incs, env=env, depth=depth + 1)

def run_all(drv, items, per=40, wd=30, incs=(), env=None):
    chunks = [items[i:i + per] for i in range(0, len(items), per)]
    vp.pmap(lambda c: run_items(drv, c, wd, incs, env=env), chunks)
    return [it for c in chunks for it in c]

"""Environment in which spvm and spvmcc of a scratch build run with drv/ccw/ccw as their compiler."""
import os, shutil, subprocess
import vp, perlbuild as pb

def setup(d):
    """-> bin folder to put first on PATH"""
    b = d + '/ccbin'
    names = set(subprocess.run(['perl', '-MConfig', '-e', 'print "$Config{cc} $Config{ld}"'], capture_output=True, text=True).stdout.split()) | {'cc', 'gcc'}
    os.makedirs(b, exist_ok=True)
    os.makedirs(d + '/ccache', exist_ok=True)
    for n in names:
        n = os.path.basename(n)
        p = b + '/' + n
        tmp = '%s.%d' % (p, os.getpid())
        try:
            shutil.copy2(vp.VERIF + '/drv/ccw/ccw', tmp)
            os.rename(tmp, p)
        except OSError:
            pass
    m = d + '/aged'
    if not os.path.exists(m):
        # the histories set back the times of their files; what they all share has to be older
        for top in (d + '/blib', d + '/lib'):
            for dp, ds, fs in os.walk(top):
                for f in fs:
                    os.utime(dp + '/' + f, (1000000000, 1000000000))
        open(m, 'w').close()
    return b

def env(d, log='', extra=None):
    e = pb.env({'CCW_LOG': log, 'CCW_CACHE': d + '/ccache', 'CCW_CORE': d + '/blib/', 'CCW_REAL': shutil.which('gcc'),
                'PATH': d + '/ccbin' + ':' + os.environ.get('PATH', '/usr/bin:/bin')})
    if extra:
        e.update(extra)
    return e

def spvm(d):
    return pb.perl_cmd(d) + [d + '/blib/script/spvm']

def spvmcc(d):
    return pb.perl_cmd(d) + [d + '/blib/script/spvmcc']

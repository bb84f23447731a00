"""Runtime environment of the instrumented build: a symlink tree and environment variables."""
import os, subprocess, sys, threading
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'

_lock = threading.Lock(); _trees = {}
def tree(flavour):
    with _lock:
        if flavour not in _trees: _trees[flavour] = _tree(flavour)
        return _trees[flavour]

def _tree(flavour):
    """Create (idempotently) the symlink tree of a flavour; returns its path."""
    B = os.path.join(V, 'build', flavour); T = os.path.join(B, 'tree'); S = os.path.join(REPO, 'install/symlinked-release')
    done = set()
    def link(src, dst):
        os.makedirs(os.path.dirname(dst), exist_ok=True)
        done.add(dst)
        try:
            if os.readlink(dst) == src: return
        except OSError: pass
        try: os.remove(dst)
        except OSError: pass
        try: os.symlink(src, dst)
        except FileExistsError: pass   # another check made it meanwhile
    for d, ds, fs in os.walk(S):
        for f in fs + [x for x in ds if os.path.islink(os.path.join(d, x))]:
            p = os.path.join(d, f); dst = os.path.join(T, os.path.relpath(p, S))
            if os.path.islink(p):
                t = os.path.normpath(os.path.join(d, os.readlink(p)))
                if t.startswith(REPO + '/build/release/'):
                    t = os.path.join(B, os.path.relpath(t, REPO + '/build/release'))
                elif t.startswith(S):
                    t = os.path.join(T, os.path.relpath(t, S))
                link(t, dst)
            else:
                link(p, dst)
    return T

def libasan():
    return ' '.join(subprocess.check_output(['gcc', '-print-file-name=' + l], text=True).strip() for l in ('libasan.so', 'libstdc++.so.6'))
def libtsan():
    return ' '.join(subprocess.check_output(['gcc', '-print-file-name=' + l], text=True).strip() for l in ('libtsan.so', 'libstdc++.so.6'))

def environ(flavour, scratch, preload=True, **extra):
    T = tree(flavour); B = os.path.join(V, 'build', flavour)
    e = dict(HOME=scratch, TMPDIR=scratch, LANG='C.UTF-8', LC_ALL='C.UTF-8',
             PATH=T + '/bin:/usr/local/bin:/usr/bin:/bin',
             LD_LIBRARY_PATH=T + '/lib',
             PYTHONPATH=':'.join([V + '/vf/pyshim', T + '/libexec/python', V, B + '/vf', '/opt/vp/py']),
             PYTHONDONTWRITEBYTECODE='1', PYTHONUNBUFFERED='1', PYTHONHASHSEED='0', MPLCONFIGDIR=scratch,
             OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1',
             VERIF_SEED=os.environ.get('VERIF_SEED', '1'), VERIF_TIER=os.environ.get('VERIF_TIER', 'quick'))
    if flavour == 'asan':
        e['ASAN_OPTIONS'] = ('detect_leaks=0:abort_on_error=0:exitcode=86:halt_on_error=1:allocator_may_return_null=1:'
                             'detect_odr_violation=0:handle_segv=1:alloc_dealloc_mismatch=0:detect_stack_use_after_return=0:'
                             'log_path=%s/asan' % scratch)
        e['UBSAN_OPTIONS'] = 'print_stacktrace=1:halt_on_error=0:log_path=%s/ubsan:suppressions=%s/vf/ubsan.supp' % (scratch, V)
        if preload: e['LD_PRELOAD'] = libasan()
        if preload == 'cancel': e['LD_PRELOAD'] = B + '/vf/asanfix.so ' + e['LD_PRELOAD']; e['ASAN_OPTIONS'] += ':verify_asan_link_order=0'
    elif flavour == 'tsan':
        e['TSAN_OPTIONS'] = 'exitcode=0:halt_on_error=0:detect_deadlocks=0:log_path=%s/tsan:suppressions=%s/vf/tsan.supp' % (scratch, V)
        if preload: e['LD_PRELOAD'] = libtsan()
    e.update(extra)
    return e

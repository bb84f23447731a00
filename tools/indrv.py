"""Helper for demonstrations that need the kernel in process: compiles vdrv.cc (beside this file) against the release build of /repo."""
import os, sys, shutil, tempfile, subprocess
L = '/repo/install/symlinked-release'; HERE = os.path.dirname(os.path.abspath(__file__))
if not os.environ.get('MQ_ENV'):
    scratch = tempfile.mkdtemp(prefix='mqdemo-')
    try:
        inc = subprocess.check_output(['python3', '-c', "import sysconfig,numpy;print('-I'+sysconfig.get_paths()['include'],'-I'+numpy.get_include())"], text=True).split()
        flags = '-DHAVE_AIPSPP -DHAVE_QDBM -DMAKE_LOFAR_SYMBOLS_GLOBAL -DSTRIP_CUDA -DUSE_STD_COMPLEX -DUSE_THREADS -D_GNU_SOURCE -DIMPLICIT_CTDS_32BIT -O0 -fPIC -w -std=c++17 -shared'.split()
        libs = ['-l' + l[3:-3] for l in sorted(os.listdir(L + '/lib')) if l.startswith('lib') and l.endswith('.so')]
        cmd = ['g++', '-include', '/opt/vp/cmake/compat.h'] + flags + ['-I/repo/build/release/include', '-I/repo/build/release/MeqServer', '-I/usr/include/casacore'] + inc + [HERE + '/vdrv.cc', '-o', scratch + '/vdrv.so', '-L' + L + '/lib', '-Wl,--no-as-needed', '-Wl,-rpath,' + L + '/lib'] + libs + ['-l:octopython.so', '-l:mequtils.so'] + '-lwcs -lcfitsio -lfftw3 -lcasa_images -lcasa_mirlib -lcasa_coordinates -lcasa_lattices -lcasa_msfits -lcasa_ms -lcasa_fits -lcasa_measures -lcasa_tables -lcasa_scimath -lcasa_scimath_f -lcasa_casa -llapack -lblitz -lqdbm -lpython3.12'.split()
        subprocess.check_call(cmd)
        if os.path.exists(HERE + '/msdrv.cc'): subprocess.check_call([c.replace('/vdrv.', '/msdrv.') for c in cmd])
        e = dict(os.environ, MQ_ENV=scratch, HOME=scratch, TMPDIR=scratch, LANG='C.UTF-8', LD_LIBRARY_PATH=L + '/lib', PYTHONDONTWRITEBYTECODE='1',
                 PYTHONPATH=':'.join([scratch, HERE, '/opt/vp/pyshim', L + '/libexec/python', '/opt/vp/py']))
        rc = subprocess.call(['timeout', '-k', '5', '120', 'python3', os.path.abspath(sys.argv[0])] + sys.argv[1:], env=e, cwd=scratch)
    finally: shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(1 if rc else 0)
from forest import *
def finish(ok, msg=''):
    print('demo: %s %s' % ('ok' if ok else 'BROKEN', msg)); sys.stdout.flush(); os._exit(0 if ok else 1)
def _hook(t, v, tb):
    import traceback; traceback.print_exception(t, v, tb); finish(False, repr(v))
sys.excepthook = _hook

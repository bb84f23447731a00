"""Helper for demonstrations: a real meqserver (release build of /repo), driven over its own control interface."""
import os, sys, shutil, tempfile, atexit
L = '/repo/install/symlinked-release'
if not os.environ.get('MQ_ENV'):
    scratch = tempfile.mkdtemp(prefix='mqdemo-')
    e = dict(os.environ, MQ_ENV=scratch, HOME=scratch, TMPDIR=scratch, LANG='C.UTF-8', PATH=L + '/bin:' + os.environ['PATH'], LD_LIBRARY_PATH=L + '/lib',
             PYTHONPATH='/opt/vp/pyshim:' + L + '/libexec/python:/opt/vp/py:' + os.path.dirname(os.path.abspath(__file__)),
             PYTHONDONTWRITEBYTECODE='1', PYTHONUNBUFFERED='1')
    import subprocess
    try: rc = subprocess.call(['timeout', '-k', '5', '240', 'python3', os.path.abspath(sys.argv[0])] + sys.argv[1:], env=e, cwd=scratch)
    finally: shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(1 if rc else 0)
import numpy as np
from Timba.dmi import *
from Timba import dmi
from Timba.Meq import meq
mqs = None
def _hook(t, v, tb):
    import traceback; traceback.print_exception(t, v, tb); finish(False, repr(v))
sys.excepthook = _hook
def start(mt=1, extra=()):
    global mqs
    from Timba.Apps import meqserver
    mqs = meqserver.default_mqs(wait_init=20, extra=['-mt', str(mt)] + list(extra))
    return mqs
_recs = []
_ix = {}
def node(cls, name, children=None, step_children=None, **kw):
    r = record(**kw); r['class'] = cls; r.name = name; r.nodeindex = len(_recs) + 1
    if isinstance(children, dict): r.children = record(**{k: _ix[c] for k, c in children.items()})
    elif children: r.children = [_ix[c] for c in children]
    if step_children: r.step_children = [_ix[c] for c in step_children]
    _ix[name] = r.nodeindex; _recs.append(r)
    return name
def build():
    par = {}
    for r in _recs:
        for f in ('children', 'step_children'):
            ch = r.get(f)
            if ch is None: continue
            for c in (ch.values() if isinstance(ch, record) else ch): par.setdefault(int(c), []).append(r.nodeindex)
    for r in _recs:
        if r.nodeindex in par: r.parents = sorted(set(par[r.nodeindex]))
    if mqs is None: start()
    x = mqs.meq('Create.Node.Batch', record(script_name='demo', batch=_recs), wait=60)
    if 'error' in x: raise RuntimeError(repr(x.error))
    return x
def cells(nt=2, nf=3, t=(0., 6.), f=(1., 7.)):
    return meq.gen_cells(meq.gen_domain(time=t, freq=f), num_time=nt, num_freq=nf)
def execute(name, c, **kw):
    r = mqs.meq('Node.Execute', record(name=name, request=meq.request(c, rqtype='ev', **kw)), wait=60)
    if 'result' not in r: raise RuntimeError(repr(dict(r))[:2000])
    return r.result
def call(cmd, rec=None, wait=60): return mqs.meq(cmd, rec, wait=wait)
def values(res): return [np.asarray(v.value) if v.get('value') is not None else None for v in res.vellsets]
def finish(ok, msg=''):
    print('demo: %s %s' % ('ok' if ok else 'BROKEN', msg)); sys.stdout.flush()
    try:
        from Timba.Apps import meqserver
        if mqs is not None: meqserver.stop_default_mqs()
    except Exception: pass
    os._exit(0 if ok else 1)

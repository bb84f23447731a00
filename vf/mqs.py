"""A real meqserver process of the instrumented build, driven over its own control interface by a client that keeps every message it receives."""
import ctypes, os, signal, subprocess, sys, time
import numpy as np
from Timba.dmi import *
from Timba import dmi, octopussy
from Timba.Meq import meq
GW = None
class Lost(Exception): pass
class Server:
    """log: list of (event id below MeqServer.Out, payload), in the order received"""
    def __init__(s, scratch, mt=1, flavour='asan'):
        global GW
        from vf import env
        if GW is None:
            GW = '=vf-%d' % os.getpid()
            octopussy.init(gwclient=False, gwtcp=-1, gwlocal=GW + ':1'); octopussy.start(wait=True)
        s.wp = octopussy.proxy_wp('meqclient'); s.log = []; s.k = 0; s.peer = None; s.dead = False; s.mt = mt; s.scratch = scratch
        s.wp.subscribe('meqserver.out.*'); s.wp.subscribe('wp.hello.meqserver.*'); s.wp.subscribe('gw.remote.down.*')
        s.out = open(os.path.join(scratch, 'meqserver.out'), 'ab')
        def pre(): ctypes.CDLL(None).prctl(1, signal.SIGKILL); signal.pthread_sigmask(signal.SIG_SETMASK, [])
        e = env.environ(flavour, scratch, preload='cancel')
        s.p = subprocess.Popen([os.path.join(env.V, 'build', flavour, 'MeqServer/meqserver'), '-mt', str(mt), '-gw', GW], env=e, cwd=scratch, stdin=subprocess.DEVNULL, stdout=s.out, stderr=s.out, preexec_fn=pre)
        t = time.time() + 90
        while not any(str(i) == 'hello' for i, _ in s.log):
            s.poll(.2)
            if s.p.poll() is not None or time.time() > t: s.kill(); raise RuntimeError('meqserver did not start')
        s.log = []
    def poll(s, timeout=.05):
        """receive whatever has come"""
        m = s.wp.receive(float(timeout))
        while m is not None:
            i = str(m.msgid).lower(); f = getattr(m, 'from')
            if i.startswith('wp.hello'):
                if s.peer is None: s.peer = f; s.log.append(('hello', None))
            elif i.startswith('meqserver.out.') and f == s.peer: s.log.append((i[14:], m.payload))
            m = s.wp.receive(0.) if s.wp.num_pending() else None
        return len(s.log)
    def send(s, cmd, args=None, index=True, payload=None, raw=False):
        """one command, not waiting; returns its index (0: none)"""
        k = 0
        if payload is None:
            payload = record()
            if args is not None: payload.args = args
        if index: s.k += 1; k = s.k; payload.command_index = k
        s.wp.send(dmi.message('meqserver.in.' + (cmd if raw else 'command.' + cmd), payload=payload, priority=5), s.peer)
        return k
    def wait(s, pred, timeout=40, start=0):
        """the first logged (id,payload) from position start on with pred(id,payload); None when none has come; Lost when the server is gone"""
        t = time.time() + timeout; n = start
        while True:
            while n < len(s.log):
                if pred(*s.log[n]): return s.log[n]
                n += 1
            if s.p.poll() is not None: s.poll(.3); s.dead = True; raise Lost('meqserver is gone, exit status %s' % s.p.returncode)
            if time.time() > t: return None
            s.poll(.05)
    def reply(s, k, timeout=40):
        r = s.wait(lambda i, p: i.startswith('result.') and i.endswith('.%d' % k), timeout)
        return r and r[1]
    def call(s, cmd, args=None, timeout=40, **kw): return s.reply(s.send(cmd, args, **kw), timeout)
    def replies(s): return [(int(i.split('.')[-1]), i, p) for i, p in s.log if i.startswith('result.') and i.split('.')[-1].isdigit()]
    def kill(s):
        if s.p.poll() is None: s.p.kill()
        s.p.wait(); s.out.close()

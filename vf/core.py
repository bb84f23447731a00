"""Check framework: cases, oracles, sanitizer-log collection, verdicts, evidence.

A check module defines
    PROPERTY, TECHNIQUE..., GROUPS = [(name, n_quick, n_thorough, fn, options)]
and fn(ctx, i, rng) runs one case and reports through ctx.  A case's inputs depend only on
(VERIF_SEED, group, i), so that any case can be replayed alone.
The orchestrator (vf/main.py) runs the cases in worker processes of the instrumented build.
"""
import hashlib, json, os, random, sys, time, traceback

class Skip(Exception):
    """the case is not applicable / inconclusive"""

def canon(x, lim=4000):
    s = repr(x)
    return s if len(s) <= lim else s[:lim] + '...(%d)' % len(s)

class Ctx:
    def __init__(self, out, prop, tier, seed, scratch):
        self.out = out; self.prop = prop; self.tier = tier; self.seed = seed; self.scratch = scratch
        self.evals = 0; self.sigs = set(); self.counts = {}; self.samples = []; self.group = ''; self.i = 0
        self.case = None; self.nviol = 0; self.data = {}
    def emit(self, **kw):
        self.out.write(json.dumps(kw) + '\n'); self.out.flush()
    def seen(self, sig, n=1):
        """an oracle decision on a nontrivial observation; sig identifies the kind of case observed"""
        self.evals += n
        self.sigs.add(hashlib.md5(repr(sig).encode()).hexdigest()[:12])
    def count(self, what, n=1):
        self.counts[what] = self.counts.get(what, 0) + n
    def describe(self, case):
        """what this case feeds to the code: recorded with a violation, and as a sample"""
        self.case = case
    def sample(self, s):
        if len(self.samples) < 6: self.samples.append(canon(s, 600))
    def violation(self, key, detail):
        self.nviol += 1
        if self.nviol <= 200:
            self.emit(t='viol', group=self.group, i=self.i, key=key, detail=canon(detail), case=canon(self.case))
    def check(self, cond, key, detail=''):
        if not cond:
            self.violation(key, detail() if callable(detail) else detail)
        return bool(cond)

def worker(mod, argv):
    """argv: out shard nshards start_group start_i tier seed scratch [only_group only_i]"""
    out, shard, nsh, sg, si, tier, seed, scratch = argv[:8]
    only = (argv[8], int(argv[9])) if len(argv) > 9 else None
    shard, nsh, sg, si = int(shard), int(nsh), int(sg), int(si)
    ctx = Ctx(open(out, 'a'), mod.PROPERTY, tier, int(seed), scratch)
    os.chdir(scratch)
    try: os.dup2(os.open(scratch + '/worker.out', os.O_WRONLY | os.O_CREAT | os.O_APPEND), 1)
    except OSError: pass
    t0 = time.time()
    import signal, ctypes
    ctypes.CDLL(None).prctl(1, signal.SIGKILL)   # do not outlive the orchestrator
    maxrss = getattr(mod, 'MAX_RSS_MB', 1200) * 256
    recycle = None
    limit = getattr(mod, 'CASE_TIMEOUT', 120)
    for g, grp in enumerate(mod.GROUPS):
        if recycle: break
        name, nq, nt, fn = grp[:4]
        if g < sg: continue
        n = nq if tier == 'quick' else nt
        if only and only[0] != name: continue
        for i in range(n):
            if only:
                if i != only[1]: continue
            else:
                if (i + g) % nsh != shard: continue
                if g == sg and i < si: continue
            ctx.group, ctx.i, ctx.case = name, i, None
            ctx.emit(t='start', g=g, i=i, group=name)
            rng = random.Random('%s/%s/%s' % (ctx.seed, name, i))
            signal.alarm(0)
            ts = time.time()
            try:
                fn(ctx, i, rng)
                ctx.count('cases:' + name)
                if ctx.case is not None: ctx.sample((name, i, ctx.case))
            except Skip as s:
                ctx.count('skipped:%s:%s' % (name, s))
            except Exception as exc:
                ctx.emit(t='error', group=name, i=i, err=traceback.format_exc()[-3000:], case=canon(ctx.case))
            ctx.emit(t='end', g=g, i=i, dt=round(time.time() - ts, 3))
            if int(open('/proc/self/statm').read().split()[1]) > maxrss:
                recycle = [g, i + 1]; break
    ctx.emit(t='done', recycle=recycle, evals=ctx.evals, sigs=sorted(ctx.sigs), counts=ctx.counts, samples=ctx.samples,
             wall=round(time.time() - t0, 2))
    ctx.out.close()
    # skip interpreter/static teardown: not the subject of these workloads
    if getattr(mod, 'HARD_EXIT', True): os._exit(0)

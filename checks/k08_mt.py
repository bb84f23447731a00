"""Multithreaded evaluation."""
import os
from vf.forest import *
from checks import k06_cache as K
PROPERTY = 'K08'; LEVEL = 'exploration'
FLAVOURS = ['asan', 'tsan']; CASE_TIMEOUT = 40; MAX_RSS_MB = 2500
FL = os.environ.get('VF_FLAVOUR', 'asan')
RULE = ('random graphs with shared sub-graphs executed by pools of 1-6 worker threads (random limits on busy threads, delays and yields injected into the leaves, random cache policies, failing '
        'and missing branches); each answer compared with the sequential model, executions counted per node and request; distinct by (root class, pool, observed thread set, overlap)')
NW = [1, 2, 3, 4, 6, 2, 5, 3]; NB = [1, 2, 2, 4, 3, 1, 8, 3]
started = []
def pool(i, g=0):
    k = (i + g) % 8
    if not started: vdrv.mt_start(NW[k], NB[k]); started.append(k)
    assert started[0] == k
    return NW[k], NB[k]
class MG(K.G):
    def add(s, cls, ch, model, par, **kw):
        r = s.rng
        if ch: kw['mt_polling'] = r.random() < .85
        elif cls == 'vfsource': kw['vf_delay'] = r.choice([0, 0, -1, -3, 100, 400, 1500])
        return K.G.add(s, cls, ch, model, par, **kw)
def graph(ctx, i, rng):
    nw = pool(i, 0)
    g = MG(rng, allpol=rng.choice([None, 0, 20, 20]))
    for _ in range(rng.choice([3, 4, 5])): g.leaf()
    g.grow(rng.choice([6, 12, 20]))
    ctx.describe((nw, g.desc))
    vdrv.set_forest_state(record(cache_policy=rng.choice([-10, -1, 1, 20])))
    g.F.build(); vdrv.log()
    pmap = {}
    for p in sorted(set().union(*[g.par[n] for n in g.m])):
        code, res = g.F.execute(p, K.mkreq('e1', 0, 0, 0, 0, None))
        pmap[int(np.atleast_1d(vellsets(res)[0].spid_index)[0])] = p
    roots = [n for n in g.m if len(g.ch[n]) > 1] or list(g.m)
    dom = ds = rs = st = 0; mode = 0; hist = []
    for step in range(rng.choice([2, 4, 6])):
        root = rng.choice(roots); mode = rng.choice([0, 0, 1, 2]); dom = rng.randrange(3); ds = rng.randrange(3); rs = rng.randrange(3)
        if rng.random() < .3: g.F.clear(root)
        hist.append((root, mode, dom, ds, rs)); ctx.describe((nw, g.desc, hist))
        e = K.Env(K.DOMS[dom], K.RES_[rs], ds)
        vdrv.log()
        code, res = g.F.execute(root, K.mkreq(['ev', 'e1', 'e2'][mode], st, rs, dom, ds, e))
        log, conc = vdrv.log()
        K.verify(ctx, g, root, e, mode, code, res, pmap, (step, 'mt'))
        if g.allpol == 20 and not g.rewrites:
            seen = {}
            for node, rq, _ in log: seen[(node, rq)] = seen.get((node, rq), 0) + 1
            ctx.check(all(v == 1 for v in seen.values()), 'evaluated-twice', lambda: (step, seen))
        thr = len({t for _, _, t in log})
        ctx.count('leaf evaluations', len(log)); ctx.count('executions with overlapping leaves', conc > 1); ctx.count('executions on >1 thread', thr > 1)
        tm = {}; order = tuple((n, tm.setdefault(t, len(tm))) for n, _, t in log)
        ctx.seen((g.cls[root], nw, order, conc))
def trouble(ctx, i, rng):
    """failing and missing branches, with every policy for failed and missing children"""
    nw = pool(i, 1)
    F = Forest(); nleaf = rng.choice([3, 5, 8]); desc = []; kind = {}
    for k in range(nleaf):
        x = rng.random(); n = 'l%d' % k
        if x < .2: kind[n] = 'fail'; F.node('vfsource', n, vf_throw='boom ' + n, vf_delay=rng.choice([0, -2, 300, 2000]))
        elif x < .3: kind[n] = 'miss'; F.node('vfsource', n, vf_result=mkresult([mkvellset()], None), vf_code=RES['MISSING'], vf_delay=rng.choice([0, -2, 300]))
        else: kind[n] = float(k + 1); F.node('vfsource', n, vf_c=float(k + 1), vf_delay=rng.choice([0, 0, -2, 300, 2000]))
    names = list(kind); val = dict(kind)
    for k in range(rng.choice([2, 4, 7])):
        n = 'f%d' % k; ch = [rng.choice(names) for _ in range(rng.choice([2, 3, 4]))]
        pol = rng.choice(['collectpropagate', 'collectpropagate', 'abandonpropagate'])
        mpol = rng.choice(['collectpropagate', 'collectpropagate', 'abandonpropagate'])
        nm = lambda p: {'collectpropagate': hiid('CollectPropagate'), 'abandonpropagate': hiid('AbandonPropagate')}[p]
        F.node('MeqAdd', n, ch, mt_polling=rng.random() < .85, fail_policy=nm(pol), missing_data_policy=nm(mpol), cache_policy=rng.choice([-10, 0, 20]))
        v = [val[c] for c in ch]
        val[n] = 'fail' if 'fail' in v and 'miss' not in v and 'trouble' not in v else 'trouble' if any(isinstance(x, str) for x in v) else sum(v)
        desc.append((n, ch, pol, mpol)); names.append(n)
    ctx.describe((nw, kind, desc))
    F.build(); vdrv.log()
    for step in range(4):
        n = rng.choice([x for x in names if x[0] == 'f']); ds = rng.randrange(3)
        code, res = F.execute(n, request(cells(1, 1), dom=1, ds=100 * i + ds + step if rng.random() < .7 else ds))
        log, conc = vdrv.log()
        v = val[n]
        if isinstance(v, float):
            ok = not code & (RES['FAIL'] | RES['MISSING']) and res is not None and len(vellsets(res)) == 1
            ctx.check(ok and same(value(vellsets(res)[0]), v), 'trouble-value', lambda: (n, v, hex(code), desc))
        else:
            want = RES['FAIL'] if v == 'fail' else RES['FAIL'] | RES['MISSING']
            ctx.check(code & want, 'trouble-code', lambda: (n, v, hex(code)))
            if v == 'fail':
                vs = vellsets(res) if res is not None else []
                ctx.check(vs and all(is_fail(x) for x in vs), 'fail-result', lambda: (n, hex(code)))
        ctx.seen((v if isinstance(v, str) else 'ok', nw, len(log), len({t for _, _, t in log}), conc))
    ctx.count('executions', 4)
if FL == 'tsan': GROUPS = [('graph', 400, 4000, graph), ('trouble', 400, 3000, trouble)]
else: GROUPS = [('graph', 3000, 16000, graph), ('trouble', 3000, 16000, trouble)]

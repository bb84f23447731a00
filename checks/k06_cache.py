"""Cache transparency."""
from vf.forest import *
PROPERTY = 'K06'; LEVEL = 'exploration'
RULE = ('random graphs (domain-, dataset- and parameter-dependent leaves, functions, reductions, resolution changers, request sequencers and multiplexers) with a random '
        'cache policy per node, driven by random histories of requests (domains, resolutions, datasets, evaluation modes, next-request hints), state changes and cache clearing; each answer is '
        'compared with a history-free model; distinct by (root class, policies, what changed since the previous request)')
POL = [-10, -1, 0, 1, 10, 20]
FN2 = {'MeqAdd': lambda a: sum(a[1:], a[0]), 'MeqMultiply': lambda a: np.multiply(a[0], a[1]) if len(a) == 2 else a[0] * a[1] * a[2],
       'MeqSubtract': lambda a: a[0] - a[1], 'MeqMax': lambda a: __import__('functools').reduce(np.maximum, a)}
FN1 = {'MeqNegate': lambda a: -a, 'MeqSqr': lambda a: a * a, 'MeqSin': np.sin, 'MeqAbs': np.abs}
RED = {'MeqMax': np.max, 'MeqMean': np.mean, 'MeqMin': np.min}

class Env:
    def __init__(s, dom, res, ds): s.dom, s.res, s.ds, s.over = dom, res, ds, {}
    def at(s, res): e = Env(s.dom, res, s.ds); e.over = s.over; return e
    def grid(s):
        (t0, t1, f0, f1), (nt, nf) = s.dom, s.res
        return (t0 + (np.arange(nt) + .5) * (t1 - t0) / nt).reshape(nt, 1), (f0 + (np.arange(nf) + .5) * (f1 - f0) / nf).reshape(1, nf)

class G:
    def __init__(s, rng, allpol=None):
        s.rng = rng; s.F = Forest(); s.m = {}; s.cls = {}; s.par = {}; s.modres = set(); s.desc = []; s.k = 0; s.st = {}; s.nmod = 0; s.allpol = allpol; s.pol = {}; s.rewrites = False; s.ch = {}; s.step = {}; s.iter = set()
    def add(s, cls, ch, model, par, **kw):
        s.k += 1; n = 'n%d' % s.k
        pol = s.allpol if s.allpol is not None else s.rng.choice(POL)
        kw2 = dict(kw)
        if pol != 0 or s.rng.random() < .3: kw2['cache_policy'] = pol
        if ch and s.rng.random() < .1:       # (a step child gets the requests, but its result is nobody's)
            s.step[n] = [s.rng.choice([x for x in s.m if x not in ch] or ch)]
            if s.step[n][0] in ch: del s.step[n]
        s.F.node(cls, n, ch, step_children=s.step.get(n), **kw2)
        s.m[n] = model; s.cls[n] = cls; s.par[n] = frozenset(par); s.pol[n] = pol; s.ch[n] = list(ch or [])
        s.desc.append((n, cls, ch, {k: str(v)[:60] for k, v in kw.items()}, pol))
        return n
    def leaf(s):
        r = s.rng; x = r.random()
        if x < .4:
            a, b = r.choice([(1., 0.), (0., 2.), (1.5, -1.)]); c = r.uniform(-2, 2)
            n = 'n%d' % (s.k + 1); s.st[n] = c
            def f(e, a=a, b=b, n=n):
                t, q = e.grid(); v = np.full((1, 1), s.st[n])
                if a: v = v + a * t
                if b: v = v + b * q
                return v
            return s.add('vfsource', None, f, (), vf_a=a, vf_b=b, vf_c=c, vf_deps=[hiid('domain'), hiid('resolution')])
        if x < .55:
            d = r.choice([1., -2.]); n = 'n%d' % (s.k + 1); c = r.uniform(-2, 2); s.st[n] = c
            return s.add('vfsource', None, lambda e, d=d, n=n: np.full((1, 1), s.st[n] + d * e.ds), (), vf_d=d, vf_c=c, vf_deps=[hiid('dataset')])
        if x < .62:
            n = 'n%d' % (s.k + 1); c = r.uniform(-2, 2); s.st[n] = c; s.iter.add(n)
            return s.add('vfsource', None, lambda e, n=n: np.full((1, 1), s.st[n]), (), vf_c=c, vf_deps=[hiid('iteration')])
        if x < .72:
            n = 'n%d' % (s.k + 1); c = r.uniform(-2, 2); s.st[n] = c
            return s.add('vfsource', None, lambda e, n=n: np.full((1, 1), s.st[n]), (), vf_c=c)
        if x < .8:
            n = 'n%d' % (s.k + 1); c = r.uniform(-2, 2); s.st[n] = c
            return s.add('MeqConstant', None, lambda e, n=n: np.full((1, 1), s.st[n]), (), value=c)
        if x < .9:
            return s.add(*r.choice([('MeqTime', None, lambda e: e.grid()[0] + 0 * e.grid()[1][:, :1]), ('MeqFreq', None, lambda e: e.grid()[1] + 0 * e.grid()[0][:1])]), ())
        n = 'n%d' % (s.k + 1); c = r.uniform(.5, 2)
        return s.add('MeqParm', None, lambda e, n=n, c=c: np.full((1, 1), e.over.get(n, c)), (n,),
                     init_funklet=meq.polc(c), solvable=True, node_groups=hiid('Parm'))
    def grow(s, nn):
        r = s.rng
        for _ in range(nn):
            # nodes whose grid is the request's own can be combined; the others only reduced
            ok = [n for n in s.m if n not in s.modres]
            x = r.random()
            if s.modres and x < .3:
                n = r.choice(sorted(s.modres)); c = r.choice(['MeqMean', 'MeqMin']); f = RED[c]
                s.add(c, [n], lambda e, n=n, f=f: np.full((1, 1), f(s.full(n, e))), s.par[n])
            elif x < .12:
                n = r.choice(ok); res = (r.choice([2, 3, 4, 6]), r.choice([2, 3, 5])); s.nmod += 1
                m = s.add('MeqModRes', [n], lambda e, n=n, res=res: s.m[n](e.at(res)), s.par[n], num_cells=list(res), resolution_id=s.nmod)
                s.rewrites = True; s.modres.add(m); s.at = getattr(s, 'at', {}); s.at[m] = res
            elif x < .22:
                n = r.choice(ok); c = r.choice(list(RED)); f = RED[c]
                s.add(c, [n], lambda e, n=n, f=f: np.full((1, 1), f(s.full(n, e))), s.par[n])
            elif x < .32:
                ch = [r.choice(ok) for _ in range(r.choice([2, 3]))]; k = r.randrange(len(ch))
                m = s.add(r.choice(['MeqReqMux', 'MeqReqSeq']), ch, lambda e, n=ch[k]: s.m[n](e), s.par[ch[k]], result_index=k)
                if s.cls[m] == 'MeqReqSeq': s.rewrites = True
            elif x < .5:
                n = r.choice(ok); c = r.choice(list(FN1)); s.add(c, [n], lambda e, n=n, f=FN1[c]: f(s.m[n](e)), s.par[n])
            else:
                c = r.choice(list(FN2)); ch = [r.choice(ok) for _ in range(2 if c in ('MeqSubtract', 'MeqMultiply') else r.choice([2, 3]))]
                s.add(c, ch, lambda e, ch=ch, f=FN2[c]: f([s.m[n](e) for n in ch]), frozenset().union(*[s.par[n] for n in ch]))
    def full(s, n, e):
        if n in getattr(s, 'at', {}): e = e.at(s.at[n])
        v = s.m[n](e)
        # a reduction of a value that lacks an axis counts it once per grid point
        return np.broadcast_to(v, e.res)
    def up(s, n):
        out = set(); todo = [n]
        while todo:
            x = todo.pop()
            if x in out: continue
            out.add(x); todo += s.ch[x]
        return out

DOMS = [(0., 1., 1., 2.), (1., 2., 1., 2.), (0., 1., 2., 4.), (-3., 5., 1., 2.)]
RES_ = [(1, 1), (2, 3), (4, 2)]
def verify(ctx, g, n, e, mode, code, res, pmap, how):
    if not ctx.check(not code & (RES['FAIL'] | RES['WAIT'] | RES['MISSING'] | RES['ABORT']) and res is not None, 'code', lambda: (n, g.cls[n], hex(code), how, repr(dict(res or {}))[:300])): return
    vs = vellsets(res)
    if not ctx.check(len(vs) == 1 and not is_fail(vs[0]), 'planes', lambda: (n, g.cls[n], how)): return
    v = value(vs[0]); m = g.m[n](e)
    if not ctx.check(same(v, m, rtol=1e-8, atol=1e-9), 'value', lambda: (n, g.cls[n], how, v.ravel()[:6], m.ravel()[:6])): return
    # parameters: as requested by this request, not by an earlier one
    ids = tuple(vs[0].get('spid_index', ()) if vs[0].get('spid_index') is not None else ())
    if isinstance(vs[0].get('spid_index'), int): ids = (vs[0].spid_index,)
    pv = vs[0].get('perturbed_value')
    if mode == 0:
        ctx.check(pv is None or not len(pv), 'perts-in-E0', lambda: (n, g.cls[n], how)); return
    want = {p for p in g.par[n]}
    got = {pmap.get(i) for i in np.atleast_1d(ids)} if len(np.atleast_1d(ids)) else set()
    # a node with no parameter upstream has no perturbed values
    if not ctx.check(got == want, 'spids', lambda: (n, g.cls[n], how, got, want)): return
    for k in range(mode):
        f = 'perturbed_value' + ('_%d' % k if k else ''); fp = 'perturbations' + ('_%d' % k if k else '')
        if not want: continue
        if not ctx.check(f in vs[0] and len(vs[0][f]) == len(want), 'pert-set', lambda: (n, g.cls[n], how, k)): return
        for j, i in enumerate(np.atleast_1d(ids)):
            p = pmap[i]; e2 = Env(e.dom, e.res, e.ds)
            base = g.m[p](e).ravel()[0]; e2.over = {p: base + float(np.atleast_1d(vs[0][fp])[j])}
            ctx.check(same(np.asarray(vs[0][f][j]), g.m[n](e2), rtol=1e-8, atol=1e-9), 'pert-value', lambda: (n, g.cls[n], how, k, p))

def history(ctx, i, rng):
    g = G(rng, allpol=rng.choice([None, None, None, 0, 20, 20]))
    for _ in range(rng.choice([2, 3, 4])): g.leaf()
    g.grow(rng.choice([4, 8, 12]))
    ctx.describe(g.desc)
    vdrv.set_forest_state(record(cache_policy=rng.choice([-10, -1, 1, 1, 10, 20])))
    g.F.build(); vdrv.log()
    dom = ds = st = rs = it = 0; cur = None; rqno = 0; hist = []
    pmap = {}
    used = sorted(set().union(*[g.par[n] for n in g.m]))
    for p in used:
        code, res = g.F.execute(p, mkreq('e1', 0, 0, 0, 0, cur))
        pmap[int(np.atleast_1d(vellsets(res)[0].spid_index)[0])] = p
    roots = [n for n in g.m if g.ch[n]] or list(g.m)
    below = {c for n in g.m for c in g.ch[n] + g.step.get(n, [])}; tops = [n for n in g.m if n not in below]
    root = rng.choice(roots); mode = 0; allres = [0]
    for step in range(rng.choice([6, 12, 20])):
        what = []
        for w in [rng.choice(['dom', 'ds', 'res', 'mode', 'root', 'state', 'clear', 'clear1', 'same', 'ds', 'mode', 'discover', 'root', 'iter', 'iter', 'stclear', 'update']) for _ in range(rng.choice([1, 1, 1, 2]))]:
            what.append(w)
            if w == 'dom': dom = rng.randrange(len(DOMS))
            elif w == 'ds': ds = rng.randrange(4)
            elif w == 'res': rs = rng.randrange(len(RES_))
            elif w == 'mode': mode = rng.choice([0, 1, 2])
            elif w == 'root': root = rng.choice(roots if rng.random() < .8 else list(g.m))
            elif w == 'state':
                n = rng.choice(sorted(g.st)) if g.st else None
                if n is None: continue
                g.st[n] = rng.uniform(-2, 2)
                g.F.set_state(n, **({'value': g.st[n]} if g.cls[n] == 'MeqConstant' else {'vf_c': g.st[n]}))
                st += 100       # a state change goes with a new state index in the request id
            elif w == 'iter':        # a new iteration of a solution changes the nodes that depend on iterations
                it += 1
                for n in sorted(g.iter):
                    if rng.random() < .7: g.st[n] = rng.uniform(-2, 2); g.F.set_state(n, vf_c=g.st[n])
            elif w == 'stclear' and g.st:       # announced by clearing everything from the top
                n = rng.choice(sorted(g.st)); g.st[n] = rng.uniform(-2, 2)
                g.F.set_state(n, **({'value': g.st[n]} if g.cls[n] == 'MeqConstant' else {'vf_c': g.st[n]}))
                for t in tops: g.F.clear(t)
            elif w == 'clear': g.F.clear(root)
            elif w == 'clear1': g.F.clear(rng.choice(list(g.m)), 0)
            elif w == 'discover':
                g.F.execute(root, mkreq('ds', st, 0, dom, ds, None, it=it))
            elif w == 'update': g.F.execute(root, mkreq('pu', st, 0, dom, ds, None, it=it))      # no values in it: nothing changes
        nxt = None
        if rng.random() < .5: nxt = hiid('ev', it, st, 1000 + rs, 1 + rng.choice([dom, dom + 1]), rng.choice([ds, ds + 1]))
        tp = ['ev', 'e1', 'e2'][mode]
        if tp == 'ev' and rng.random() < .3: tp = 0
        hist.append((what, root, tp, dom, rs, ds, st))
        ctx.describe((g.desc, hist))
        e = Env(DOMS[dom], RES_[rs], ds)
        r = mkreq(tp, st, rs, dom, ds, e, nxt, it)
        vdrv.log()
        code, res = g.F.execute(root, r)
        log = vdrv.log()[0]
        verify(ctx, g, root, e, mode, code, res, pmap, (step, what))
        # a node is evaluated at most once per request and never when nothing upstream depends on what changed
        if g.allpol == 20 and not g.rewrites:
            seen = {}
            for node, rq, _ in log: seen[(node, rq)] = seen.get((node, rq), 0) + 1
            ctx.check(all(v == 1 for v in seen.values()), 'evaluated-twice', lambda: (step, what, seen))
            ctx.count('leaf evaluations', len(log))
            if rng.random() < .4:
                code, res = g.F.execute(root, r)
                verify(ctx, g, root, e, mode, code, res, pmap, (step, what, 'repeat'))
                ctx.check(not vdrv.log()[0], 'reevaluated-on-hit', lambda: (step, what))
        ctx.seen((g.cls[root], g.pol[root], tuple(sorted(set(what))), mode, len(log) > 0))
def mkreq(tp, st, rs, dom, ds, e, nxt=None, it=0):
    c = None
    if e is None and tp != 'ds': e = Env(DOMS[dom], RES_[rs], ds)
    if e is not None: c = cells(e.res[0], e.res[1], *e.dom)
    r = meq.request(c, rqtype=tp if tp else 'ev') if c is not None else meq.request(rqtype=tp)
    r.request_id = hiid(tp, it, st, 1000 + rs, dom + 1, ds)
    if nxt is not None: r.next_request_id = nxt
    return r
GROUPS = [('history', 6000, 60000, history)]

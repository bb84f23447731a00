"""Parameters: a MeqParm is its polynomial, its perturbed values are changes of one coefficient, updates change what they name."""
from vf.forest import *
PROPERTY = 'S02'; LEVEL = 'exploration'
RULE = ('random parameter nodes (coefficient arrays of every shape, axes, offsets, scales, logarithmic axes, coefficient masks, default values, shapes forced by state, tilings, solve domains, constraints) driven through '
        'random histories of plain evaluations, solvable evaluations with one- and two-sided perturbations, coefficient updates, new domains inside and outside of the old one and new resolutions; '
        'distinct by (funklet class, coefficient shape, axes, tiling, step of history)')
class Poly:
    """sum c[i,j] u^i v^j, u = (X-offset)/scale, X = x or log10(x/L)"""
    def __init__(s, c, off=(0., 0.), sc=(1., 1.), log=(0., 0.), ax=(0, 1)):
        c = np.array(c, float); s.c = c.reshape((c.shape + (1, 1))[:2]) if c.ndim < 2 else c.copy()
        s.off = list(off); s.sc = list(sc); s.log = list(log); s.ax = list(ax)
    def rescale(s, off, sc):
        """the same function in coordinates with other offsets and scales"""
        from numpy.polynomial import Polynomial as P
        for i in (0, 1):
            so = s.sc[i] or 1.
            lin = P([(off[i] - s.off[i]) / so, sc[i] / so])
            c = s.c if i == 0 else s.c.T; out = np.zeros(c.shape)
            for k in range(c.shape[0]):
                pk = (lin ** k).coef
                for r in range(min(len(pk), c.shape[0])): out[r] += pk[r] * c[k]
            s.c = out if i == 0 else out.T
            s.off[i] = off[i]; s.sc[i] = sc[i]
    hm = 0.   # largest intermediate term so far: what rounding errors are relative to
    def copy(s):
        p = Poly(s.c, s.off, s.sc, s.log, s.ax); p.hm = s.hm; return p
    def norm(s, i, x):
        x = np.asarray(x, float)
        if s.log[i] and s.c.shape[i] > 1: x = np.log10(x / s.log[i])
        return (x - s.off[i]) / (s.sc[i] or 1.)
    def __call__(s, grids):
        """grids: per physical axis (time,freq,...) cell centres -> array over (time,freq)"""
        tot = np.zeros([len(g) for g in grids[:2]])
        for i in range(s.c.shape[0]):
            for j in range(s.c.shape[1]):
                tot = tot + s.c[i, j] * s.basis(i, j, grids)
        return tot
    def basis(s, i, j, grids):
        u = s.norm(0, grids[s.ax[0]]) ** i; v = s.norm(1, grids[s.ax[1]]) ** j
        r = np.ones([len(g) for g in grids[:2]])
        r = r * (u.reshape(-1, 1) if s.ax[0] == 0 else u.reshape(1, -1)) if i else r
        r = r * (v.reshape(1, -1) if s.ax[1] == 1 else v.reshape(-1, 1)) if j else r
        return r
    def mag(s, grids):
        p = s.copy(); p.c = abs(p.c); tot = 0.
        for i in range(s.c.shape[0]):
            for j in range(s.c.shape[1]): tot = tot + p.c[i, j] * abs(s.basis(i, j, grids))
        return np.max(tot) if np.size(tot) else 0.
def centres(c): return [np.asarray(c.grid.time, float).ravel(), np.asarray(c.grid.freq, float).ravel()]
def rnd(rng): return rng.choice([0., 1., -1., rng.uniform(-3, 3), rng.uniform(-3, 3)])
class Dom:
    """cells as generated, and as the model sees them"""
    def __init__(s, rng, within=None, pos=False, like=None):
        if within is not None:
            (a, b), (p, q) = within.t, within.f
            def sub(a, b):
                w = (b - a); x = rng.choice([0., .25, .5]); y = rng.choice([1., .75, .625])
                return (a + x * w, a + y * w)
            s.t = sub(a, b); s.f = sub(p, q)
        else:
            t0 = rng.choice([0., 1., -2., 100.]) if not pos else rng.choice([1., 10.]); f0 = rng.choice([0., -1., 5.]) if not pos else rng.choice([.5, 2.])
            s.t = (t0, t0 + rng.choice([1., 2., 10.])); s.f = (f0, f0 + rng.choice([1., 4.]))
        if like is not None: s.t, s.f = like.t, like.f
        s.nt, s.nf = (rng.choice([1, 2, 3, 5, 8]), rng.choice([1, 2, 4, 7]))
        s.cells = cells(s.nt, s.nf, s.t[0], s.t[1], s.f[0], s.f[1])
        s.grids = [s.t[0] + (np.arange(s.nt) + .5) * (s.t[1] - s.t[0]) / s.nt, s.f[0] + (np.arange(s.nf) + .5) * (s.f[1] - s.f[0]) / s.nf]
        s.id = like.id if like is not None else next(_dom)
    def contains(s, o): return s.t[0] <= o.t[0] and s.t[1] >= o.t[1] and s.f[0] <= o.f[0] and s.f[1] >= o.f[1]
from vf.forest import _dom
def val(res):
    v = res.vellsets[0]
    if is_fail(v): return None
    return value(v)

def mkfunk(shape, c, ax, log, mask, pert, off, sc):
    r = meq.polc(c, offset=off, scale=sc, pert=pert, subclass=meq._polclog_type if log else meq._polc_type)
    if ax: r.axis_index = list(ax)
    if log: r.axis_list = record(time=float(log[0]), freq=float(log[1]))
    if mask is not None: r.coeff_mask = [bool(x) for x in mask.ravel()]
    return r
def defmask(shape):
    """the high cross terms of two-dimensional polynomials are not solved for unless asked"""
    m = np.ones(shape, bool)
    if len(shape) > 1 and shape[0] * shape[1] >= 4:
        for i in range(shape[0]):
            for j in range(shape[1]):
                if i + j > max(shape) - 1: m[i, j] = False
    return m
class Q: pass
def setup(rng, solvable, tiled=False):
    q = Q(); q.force = None
    shape = rng.choice([(1,), (2,), (3,), (1, 1), (1, 1), (2, 1), (1, 3), (2, 2), (3, 2), (2, 4), (4, 3), (1, 5)] + ([(2, 11), (12, 2)] if rng.random() < .2 else []))
    log = (rng.choice([0., 1., 2.]), rng.choice([0., 1., .5])) if rng.random() < .25 else None
    ax = None if log else rng.choice([None, None, None, None, (1,), (1, 0)])
    if ax == (1,) and len(shape) == 2: ax = None
    c = np.array([rnd(rng) * (1e-3 if max(shape) > 6 else 1.) for _ in range(int(np.prod(shape)))]).reshape(shape)
    off = [rng.choice([0., 1., -.5, 3.]) for _ in range(2)] if rng.random() < .5 else None
    sc = [rng.choice([1., 2., .5, 10.]) for _ in range(2)] if rng.random() < .5 else None
    q.usermask = None
    if solvable and rng.random() < .3 and c.size > 1:
        q.usermask = np.array([rng.random() < .6 for _ in range(c.size)]).reshape(shape)
        if not q.usermask.any(): q.usermask.flat[0] = True
    q.pert = rng.choice([1e-6, 1e-3, .5])
    st = dict(solvable=solvable, cache_policy=rng.choice([-10, -1, 100]), cache_funklet=rng.choice([True, True, False]))
    q.where = rng.choice(['funklet', 'init_funklet', 'default_value'])
    if q.where == 'default_value':
        shape = (1, 1); log = ax = q.usermask = off = sc = None; q.pert = 1e-6
        c = np.array([[rnd(rng)]]); st['default_value'] = float(c[0, 0])
    else: st[q.where] = mkfunk(shape, c, ax, log, q.usermask, q.pert, off, sc)
    if q.where == 'funklet': st['default_value'] = rng.choice([1., 2.5])
    q.default = Poly([[st.get('default_value', 1.)]])
    a = (ax + (1 - ax[0],))[:2] if ax else (0, 1)
    q.poly = Poly(c, off or (0., 0.), sc or (1., 1.), log or (0., 0.), a)
    if rng.random() < .2 and q.usermask is None and q.where != 'funklet' and not ax:
        q.force = (rng.choice([1, 2, 3]), rng.choice([1, 2, 3])); st['shape'] = list(q.force)
        n = np.zeros(q.force); p, r = min(q.force[0], q.poly.c.shape[0]), min(q.force[1], q.poly.c.shape[1])
        n[:p, :r] = q.poly.c[:p, :r]; q.poly.c = n; shape = q.force
    q.shape = shape; q.log = log; q.ax = ax
    q.text = 'shape %r log %r axes %r from %s; coeff %s offset %s scale %s mask %s pert %g; state %s' % (shape, log, ax, q.where, q.poly.c.tolist(), off, sc, None if q.usermask is None else q.usermask.tolist(), q.pert, {k: v for k, v in st.items() if k not in ('funklet', 'init_funklet')})
    return q, st
def plain(ctx, i, rng):
    q, st = setup(rng, False); F = Forest()
    ctx.describe(q.text); F.node('MeqParm', 'p', **st); F.build()
    for step in range(4):
        d = Dom(rng, pos=bool(q.log))
        code, res = F.execute('p', request(d.cells, dom=d.id)); v = val(res)
        ctx.seen(('plain', q.shape, bool(q.log), q.ax, q.where, step)); ctx.count('values')
        exp = q.poly(d.grids); tol = 1e-12 * max(1., q.poly.mag(d.grids))
        ctx.check(v is not None and same(v, exp, 1e-9, tol), 'value', 'parameter value is not its polynomial\nrequest %d: time %r freq %r %dx%d\ngot  %s\nwant %s\n%s' % (step, d.t, d.f, d.nt, d.nf, v if v is None else v.tolist(), exp.tolist(), res.vellsets[0].get('fail')))
        if q.where == 'funklet' and not st['cache_funklet']: break   # a funklet that is not cached is gone after one use
def history(ctx, i, rng, tiled=False):
    q, st = setup(rng, True, tiled); F = Forest()
    sd = rng.choice([None, None, (-1., 1.), (0., 2.)])
    if sd: st['solve_domain'] = list(sd)
    sd = sd or (0., 1.)
    usep = st['use_previous'] = rng.choice([0, 1, 2])
    tiling = (0, 0)
    if tiled:
        tiling = rng.choice([(1, 0), (2, 0), (3, 0), (0, 1), (0, 2), (2, 2), (1, 3)])
        st['tiling'] = record(**{k: v for k, v in zip(('time', 'freq'), tiling) if v})
    cons = rng.choice([None, None, None, None, 'positive', 'minmax', 'range'])
    if cons == 'positive': st['force_positive'] = True
    if cons == 'minmax': st['constrain_min'] = [-.5, -1.]; st['constrain_max'] = [.75, 1.5, .1]
    if cons == 'range': st['constrain'] = [-.5, .75]
    ctx.describe(q.text + '\n%r' % {k: st[k] for k in st if k not in ('funklet', 'init_funklet', 'default_value')})
    F.node('MeqParm', 'p', **st); F.build()
    cur = None; fdom = None; infinite = q.where == 'funklet'   # a funklet given without a domain is good for any
    tiles = [[(0, 1, 0, 1), None, q.poly.copy()]] if infinite else None; solv = False; state = 0; hist = ''
    start = q.default if q.where == 'funklet' else q.poly
    umask = q.usermask
    for step in range(rng.choice([3, 5, 8, 12])):
        x = rng.random()
        if x < .35 and solv:
            n = int(mask.sum()); nt = len(tiles)
            val_ = np.array([rnd(rng) for _ in range(n * nt)]); hist += '\n%d update %s' % (step, val_.tolist())
            ctx.count('updates'); ctx.seen(('update', q.shape, tiling, cons, st['cache_funklet']))
            bad = rng.random() < .1
            if bad: val_[rng.randrange(len(val_))] = np.nan   # a solution of NaN for a coefficient is no change
            vdrv.command(F.ix('p'), 'Update.Parm', record(incr_update=val_))
            val_ = np.where(np.isnan(val_), 0., val_)
            for t, (_, _, p) in enumerate(tiles):
                for k, (a, b) in enumerate(zip(*np.nonzero(mask))):
                    y = p.c[a, b] + val_[k * nt + t]; ind = a * p.c.shape[1] + b
                    if cons == 'range' and p.c.size == 1: y = max(min(y, .75), -.5)
                    if cons == 'minmax':
                        if ind < 3: y = min(y, (.75, 1.5, .1)[ind])
                        if ind < 2: y = max(y, (-.5, -1.)[ind])
                    if cons == 'positive' and p.c.size == 1: y = abs(y)
                    p.c[a, b] = y
            continue
        new = True
        if cur is None or x < .5: d = Dom(rng, pos=bool(q.log))
        elif x < .6: d = Dom(rng, within=cur)
        elif x < .7 and not tiled: d = Dom(rng, pos=bool(q.log), like=cur); new = False
        else: d = cur; new = False
        if new:
            if not tiled and (infinite or (fdom is not None and fdom.contains(d))): pass
            else:
                fdom = d
                if usep > 1 and tiles is not None: p0 = tiles[0][2]
                else: p0 = start.copy(); umask = None if q.where == 'funklet' else q.usermask
                solv = False; infinite = False
                tt, tf = tiling
                nt_ = [(k * tt, min(d.nt, (k + 1) * tt)) for k in range(-(-d.nt // tt))] if tt else [(0, d.nt)]
                nf_ = [(k * tf, min(d.nf, (k + 1) * tf)) for k in range(-(-d.nf // tf))] if tf else [(0, d.nf)]
                tiles = []
                for a, b in nt_:
                    for e, g in nf_:
                        ct = lambda k: d.t[0] + k * (d.t[1] - d.t[0]) / d.nt
                        cf = lambda k: d.f[0] + k * (d.f[1] - d.f[0]) / d.nf
                        tiles.append([(a, b, e, g), ((ct(a), ct(b)), (cf(e), cf(g))), p0.copy()])
        cur = d; state += 1
        kind = rng.choice(['e1', 'e2', 'ev', 'e1', 'ds']); solve = kind != 'ev'
        hist += '\n%d %s: time %r freq %r %dx%d' % (step, kind, d.t, d.f, d.nt, d.nf)
        if solve and not solv:
            solv = True
            if infinite or not tiled: fdom = d; infinite = False
            for t in tiles:
                p = t[2]; sh = p.c.shape
                if not tiled: t[1] = (d.t, d.f)
                if umask is not None and umask.size == p.c.size: mask = umask.reshape(sh)
                else:
                    nd = 1 if (len(q.shape) == 1 and p is not None and p.c.shape[1] == 1 and not q.force and p.c.size == int(np.prod(q.shape))) else 2
                    mask = defmask(sh) if nd == 2 else np.ones(sh, bool)
                    p.c = np.where(mask, p.c, 0.)
                off, sc = [0., 0.], [1., 1.]
                for k in (0, 1):
                    lo, hi = t[1][p.ax[k]]
                    if p.log[k]: continue
                    sc[k] = (hi - lo) / (sd[1] - sd[0]); off[k] = lo - sd[0] * sc[k]
                p.hm = max(p.hm, p.mag(d.grids)); p.rescale(off, sc); p.hm = max(p.hm, p.mag(d.grids))
        elif not solve: solv = False
        rq = request(d.cells, rqtype=kind, dom=d.id); rq.request_id = hiid(kind, 0, state, d.nt * 20 + d.nf, d.id, 0)
        code, res = F.execute('p', rq)
        def whole(f):
            if len(tiles) == 1: return f(tiles[0][2])
            out = np.zeros((d.nt, d.nf))
            for (a, b, e, g), _, p in tiles: out[a:b, e:g] = f(p)[a:b, e:g]
            return out
        exp = whole(lambda p: p(d.grids)); tol = 1e-9 * max(1., max(p.mag(d.grids) for _, _, p in tiles)) + 1e-13 * max(p.hm for _, _, p in tiles)
        ctx.seen((q.shape, bool(q.log), q.ax, q.where, tiling, kind, min(step, 4), cons, usep)); ctx.count(kind)
        rep = lambda: '\nfunklet %s' % (F.state('p').get('funklet'),)
        if kind == 'ds':
            sm = res.get('spid_map')
            got = sorted((int(str(k)), tuple(int(z) for z in v.coeff_index)) for k, v in sm.items()) if sm is not None else None
            want = [(256 + k, (int(a), int(b))) for k, (a, b) in enumerate(zip(*np.nonzero(mask)))]
            if not ctx.check(got == want, 'spids', 'solvable coefficients are not announced by the coefficients they stand for' + hist + '\ngot  %s\nwant %s' % (got, want)): return
            continue
        v = val(res)
        if not ctx.check(v is not None and same(v, exp, 1e-7, tol), 'value', 'parameter value is not its polynomial' + hist + '\ngot  %s\nwant %s' % (v if v is None else v.tolist(), exp.tolist()) + "\nFAIL " + str([x.message for x in res.vellsets[0].get("fail", ())]) + rep()): return
        ctx.count('values')
        vs = res.vellsets[0]; sp = [int(s) for s in vs.get('spid_index', ())]
        if not ctx.check(sp == (list(range(256, 256 + int(mask.sum()))) if solve else []), 'spids', 'wrong set of solvable coefficients' + hist + '\n%s' % (sp,)): return
        if not solve: continue
        for w in range(int(kind[1])):
            pv = vs.get('perturbed_value_1' if w else 'perturbed_value'); pp = vs.get('perturbations_1' if w else 'perturbations')
            pert = -q.pert if w else q.pert
            if start is q.default and tiles[0][2].c.size == 1: pert = np.sign(pert) * abs(float(pp[0])) if pp is not None and len(pp) else pert
            if not ctx.check(pv is not None and len(pv) == len(sp) and np.allclose(np.asarray(pp, float), pert, rtol=1e-12), 'perturbations', 'perturbed values or perturbations missing or wrong' + hist + '\n%s' % (pp,)): return
            for k, (a, b) in enumerate(zip(*np.nonzero(mask))):
                def f(p):
                    p = p.copy(); p.c[a, b] += pert; return p(d.grids)
                pe = whole(f); ctx.count('perturbed')
                got = np.asarray(pv[k])
                ptol = max(1e-10 * max(p.mag(d.grids) for _, _, p in tiles), 1e-8 * abs(pert), 1e-13 * max(p.hm for _, _, p in tiles))
                if not ctx.check(same(got, pe, 1e-9, tol * 10) and same(got - v, pe - exp, 1e-6, ptol), 'perturbed', 'perturbed value %d of set %d is not the polynomial with coefficient (%d,%d) changed by %g' % (k, w, a, b, pert) + hist + '\ngot  %s\nwant %s\nmain %s' % (got.tolist(), pe.tolist(), exp.tolist()) + rep()): return
def tiled(ctx, i, rng): history(ctx, i, rng, True)
GROUPS = [('plain', 300, 6000, plain), ('history', 400, 10000, history), ('tiled', 300, 6000, tiled)]

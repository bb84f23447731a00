"""Reference models of tensor, reduction and flagging nodes (extends vf.mini)."""
from .mini import *
from . import mini as M

def need(c, why='n/a'):
    if not c: raise Reject(why)
def clone(x): return VS(x.v, x.f, dict(x.p), x.mag)
def mshape(r):
    """merged shape of everything in a result; () if all constant"""
    sh = ()
    for x in r.vs:
        for a in [x.v, x.f] + [v for l in x.p.values() for _, v in l]:
            if a is None or a.size == 1: continue
            s = a.shape; n = max(len(s), len(sh))
            s = s + (1,) * (n - len(s)); sh = sh + (1,) * (n - len(sh))
            sh = tuple(max(p, q) for p, q in zip(s, sh))
    return sh

# ---------- tensor plumbing ----------
def e_composer(g):
    k = g.rng.choice([1, 2, 2, 3, 4]); ch = g.pick(k); rs = [g.model[c] for c in ch]
    mode = g.rng.choice(['flat', 'flat', 'dims', 'tensor'])
    allv = [x for r in rs for x in r.vs]; need(len(allv) <= 12)
    kw = {}
    if mode == 'flat': dims = (len(allv),)
    elif mode == 'dims':
        n = len(allv); opts = [(a, n // a) for a in (1, 2, 3) if n % a == 0 and n > 1] + [(2, 2, n // 4)] * (n % 4 == 0)
        need(opts); dims = g.rng.choice(opts); kw['dims'] = list(dims)
    else:
        tens = [r for r in rs if len(r.vs) > 1]
        d0 = tens[0].dims if tens else ()
        need(all(r.dims == d0 for r in tens)); n0 = int(np.prod(d0)) if d0 else 1
        allv = [x for r in rs for x in (r.vs if len(r.vs) == n0 else r.vs * n0)]
        need(len(allv) <= 18)
        dims = (k,) + d0; kw['dims'] = [0]
    return g.op('MeqComposer', ch, R(dims, [clone(x) for x in allv]), **kw)
def e_selector(g):
    c, = g.pick(1); r = g.model[c]; need(not r.missing); n = len(r.vs)
    mode = g.rng.choice(['one', 'multi', 'tensor', 'tensor', 'tensor'])
    if mode == 'one': i = g.rng.randrange(n); return selres(g, c, [r.vs[i]], (1,), index=i)
    if mode == 'multi':
        ix = [g.rng.randrange(n) for _ in range(g.rng.choice([1, 2, 3]))]
        return selres(g, c, [r.vs[i] for i in ix], (len(ix),), index=ix, multi=True)
    need(len(r.dims) > 1)
    ix = [g.rng.choice([-1, g.rng.randrange(d)]) for d in r.dims]
    a = np.arange(n).reshape(r.dims)
    sub = a[tuple(slice(None) if i < 0 else slice(i, i + 1) for i in ix)]
    rank = max([k + 1 for k, i in enumerate(ix) if i < 0], default=0)   # trailing selected axes are dropped
    dims = sub.shape[:rank] if rank else (1,)
    return selres(g, c, [r.vs[i] for i in sub.reshape(-1)], dims, index=ix)
def selres(g, c, vs, dims, **kw):
    return g.op('MeqSelector', [c], R(dims, [clone(x) for x in vs]), **kw)
def e_paster(g):
    a, b = g.pick(2); ra, rb = g.model[a], g.model[b]; need(not ra.missing and not rb.missing); n = len(ra.vs)
    mode = g.rng.choice(['one', 'multi', 'tensor'])
    vs = [clone(x) for x in ra.vs]
    if mode == 'one':
        need(len(rb.vs) == 1); i = g.rng.randrange(n); vs[i] = clone(rb.vs[0]); kw = dict(index=i)
    elif mode == 'multi':
        need(len(rb.vs) <= n); ix = g.rng.sample(range(n), len(rb.vs)); kw = dict(index=ix, multi=True)
        for i, x in zip(ix, rb.vs): vs[i] = clone(x)
    else:
        need(len(ra.dims) > 1)
        ix = [g.rng.choice([-1, g.rng.randrange(d)]) for d in ra.dims]
        sub = np.arange(n).reshape(ra.dims)[tuple(slice(None) if i < 0 else slice(i, i + 1) for i in ix)]
        rank = max([k + 1 for k, i in enumerate(ix) if i < 0], default=0)
        dims = sub.shape[:rank] if rank else ()
        dims = () if sub.size == 1 else dims
        need(rb.dims == dims and len(rb.vs) == sub.size); need(rank == 0 or sub.size > 1); kw = dict(index=ix)
        for i, x in zip(sub.reshape(-1), rb.vs): vs[i] = clone(x)
    return g.op('MeqPaster', [a, b], R(ra.dims, vs), **kw)
def conjvs(x):
    if x.v is None: return x
    return VS(np.conj(x.v), x.f, {s: [(p, np.conj(v)) for p, v in l] for s, l in x.p.items()}, x.mag)
def e_transpose(g, cls=None):
    c, = g.pick(1); r = g.model[c]; need(not r.missing)
    tensor = g.rng.random() < .2; conj = g.rng.random() < .5 or cls == 'conj'
    kw = {}
    if tensor: kw['tensor'] = True
    if conj: kw['conj'] = True
    vs, dims = list(r.vs), r.dims
    if len(dims) == 1 and not tensor: dims = (1,) + dims
    elif len(dims) >= 2:
        nx, ny = dims[-2:]
        if len(dims) == 2 and tensor and ny == 1: pass
        elif nx == 1: dims = dims[:-2] + (ny,)
        else:
            need(len(dims) == 2 or True)
            a = np.swapaxes(np.arange(len(vs)).reshape(dims), -1, -2); dims = a.shape; vs = [vs[i] for i in a.reshape(-1)]
    vs = [conjvs(clone(x)) if conj else clone(x) for x in vs]
    return g.op('MeqTranspose', [c], R(dims, vs), **kw)
def e_stripper(g):
    c, = g.pick(1); r = g.model[c]; need(not r.missing)
    vs = []
    for x in r.vs:
        y = clone(x)
        if x.p: y.p = {}; y.f = None
        vs.append(y)
    return g.op('MeqStripper', [c], R(r.dims, vs))
def mm(a, b):
    da = a.dims if len(a.dims) == 2 else (len(a.vs), 1); db = b.dims if len(b.dims) == 2 else (len(b.vs), 1)
    need(len(a.dims) <= 2 and len(b.dims) <= 2)
    if not a.dims or not b.dims:
        sc, te = (a, b) if not a.dims else (b, a)
        s = sc.vs[0]
        if s.v is None: return R((), [VS()])
        need(not any(x.isnull() and x.f is not None for x in te.vs))
        need(not s.isnull() or s.p)
        out = []
        for x in te.vs:
            if x.v is None: out.append(VS()); continue
            ch = [x, s]
            fl = None if (x.isnull() and not x.p) else orflags(ch, [FULL, FULL])
            out.append(VS(ok(n_mul([x.v, s.v])), fl, perturb(ch, n_mul), max(x.mag, s.mag)))
        return R(te.dims, out)
    need(da[1] == db[0])
    out = []
    for i in range(da[0]):
        for k in range(db[1]):
            prs = [(a.vs[i * da[1] + j], b.vs[j * db[1] + k]) for j in range(da[1])]
            flat = [x for p in prs for x in p]
            def f(xs):
                t = [n_mul([xs[2 * j], xs[2 * j + 1]]) for j in range(len(xs) // 2) if xs[2 * j] is not None and xs[2 * j + 1] is not None]
                return n_add(t) if t else np.zeros(1)
            vs = [None if x.v is None else x for x in flat]
            fl = None
            for x, y in prs:
                if not x.isnull() and not y.isnull(): fl = bor(bor(fl, x.f), y.f)
            out.append(VS(ok(arr(f([None if x is None else x.v for x in vs]))), fl, perturb(vs, f), max([x.mag for x in vs if x] + [1]) ** 2))
    return R((da[0],) if db[1] == 1 else (da[0], db[1]), out)
def e_matmul(g):
    ch = g.pick(g.rng.choice([2, 2, 2, 3])); rs = [g.model[c] for c in ch]
    need(not any(r.missing for r in rs) and any(r.dims for r in rs))
    # the missing-plane behaviour of a matrix product is not specified
    need(not any(x.v is None for r in rs for x in r.vs))
    kw, ms = g.masks(len(ch))
    # masked copies of the operands
    def masked(r, m):
        if m == FULL: return r
        return R(r.dims, [VS(x.v, None if x.f is None or not m else x.f & m, x.p, x.mag) for x in r.vs])
    r = masked(rs[0], ms[0])
    for c, m in zip(rs[1:], ms[1:]):
        need(not (any(x.isnull() for x in r.vs) and any(x.f is not None for q in (r, c) for x in q.vs)))
        r = mm(r, masked(c, m))
    return g.op('MeqMatrixMultiply', ch, r, **kw)
def e_inv22(g):
    c, = g.pick(1); r = g.model[c]; need(not r.missing)
    need(not any(x.v is None for x in r.vs))
    kw, m = g.masks(1)
    if not r.dims:
        x = r.vs[0]; need(not x.isnull())
        f = lambda xs: M.u_inv(xs[0])
        return g.op('MeqMatrixInvert22', [c], R((), [VS(ok(f([x.v])), x.f, perturb([x], f), max(x.mag, 1e3))]))
    need(r.dims == (2, 2))
    need(not any(x.isnull() for x in r.vs))
    def inv(k):
        def f(xs):
            d = n_sub([n_mul([xs[0], xs[3]]), n_mul([xs[1], xs[2]])]); M.domain_ok(np.abs(d) > 1e-2)
            a = [xs[3], -xs[1], -xs[2], xs[0]][k]; return b_div(a, d)
        return f
    fl = orflags(r.vs, m * 4)
    mag = max(x.mag for x in r.vs)
    out = [VS(ok(inv(k)([x.v for x in r.vs])), fl, perturb(r.vs, inv(k)), max(mag ** 2, 1) * 1e3) for k in range(4)]
    return g.op('MeqMatrixInvert22', [c], R((2, 2), out), **kw)
def e_stokes(g):
    c = g.pick(1, lambda n: g.model[n].dims and len(g.model[n].vs) == 4 and not any(x.v is None for x in g.model[n].vs) and not g.iscplx(n))[0]
    r = g.model[c]; s = g.rng.choice([1., .5]); kw = {} if s == 1. else dict(scale=s)
    need(not any(x.isnull() for x in r.vs))
    i, q, u, v = [x.v for x in r.vs]; mag = max(x.mag for x in r.vs)
    out = [n_add([i, q]), b_tocomplex(u, v), b_tocomplex(u, -v), n_sub([i, q])]
    need(not any(x.p or x.f is not None for x in r.vs))
    return g.op('MeqStokes', [c], R((2, 2), [VS(ok(o * s), mag=mag) for o in out]), **kw)

# ---------- reductions ----------
def unflagged(v, f, mask, shape):
    """elements of v over `shape`, and a keep-mask"""
    n = max(v.ndim, len(shape), f.ndim if f is not None else 0)
    sh = tuple(max(t) for t in zip(*[tuple(x) + (1,) * (n - len(x)) for x in ([v.shape, shape] + ([f.shape] if f is not None else []))]))
    V = np.broadcast_to(pad(v, n), sh)
    K = np.ones(sh, bool) if f is None or not mask else np.broadcast_to(pad(f, n) & mask, sh) == 0
    return V, K
UNDEF = object()
def red(cls, V, K, axis):
    cnt = K.sum(axis=axis, keepdims=True)
    if cls == 'MeqNElements': return cnt.astype(float), cnt
    if cls == 'MeqSum': return np.where(K, V, 0).sum(axis=axis, keepdims=True), cnt
    if cls == 'MeqProduct': return np.where(K, V, 1).prod(axis=axis, keepdims=True), cnt
    if cls == 'MeqMin': return np.where(K, V, np.inf).min(axis=axis, keepdims=True), cnt
    if cls == 'MeqMax': return np.where(K, V, -np.inf).max(axis=axis, keepdims=True), cnt
    s = np.where(K, V, 0).sum(axis=axis, keepdims=True) / np.maximum(cnt, 1)
    if cls == 'MeqMean': return s, cnt
    s2 = np.where(K, V * V, 0).sum(axis=axis, keepdims=True) / np.maximum(cnt, 1)
    if cls == 'MeqRms': return np.sqrt(s2), cnt
    var = s2 - s * s
    need((var > 1e-6 * np.maximum(1, s2)).all())
    return np.sqrt(var), cnt
REDS = ['MeqSum', 'MeqMean', 'MeqProduct', 'MeqMin', 'MeqMax', 'MeqNElements', 'MeqRms', 'MeqStdDev']
def e_reduce(g):
    cls = g.rng.choice(REDS)
    c = g.pick(1, (lambda n: not g.iscplx(n)) if cls not in ('MeqSum', 'MeqMean', 'MeqProduct') else None)[0]
    r = g.model[c]
    if r.missing:
        need(False)
    need(not any(x.v is None for x in r.vs))
    kw, ms = g.masks(1); mask = ms[0]
    axes = None
    if g.rng.random() < .5 and not r.dims and len(r.vs) == 1:
        axes = g.rng.choice([[0], [1], [0, 1]]) if len(g.gs) == 2 else sorted(g.rng.sample(range(len(g.gs)), g.rng.choice([1, 1, 2])))
        if g.rng.random() < .2: axes = axes[::-1]
    sh = mshape(r) or g.gs
    need(cls != 'MeqProduct' or np.prod(sh) <= 40)
    out = []
    for x in r.vs:
        need(x.f is None or x.f.any() or x.f.shape == (1,) or cls not in ('MeqSum', 'MeqProduct', 'MeqNElements'))
        if axes is not None:
            # slicing needs at least as many axes in the data (and flags) as are reduced
            nd = max(x.v.ndim, x.f.ndim if x.f is not None else 0)
            need(x.f is None or x.f.any() or nd == x.v.ndim)
            need(cls in ('MeqMean', 'MeqMin', 'MeqMax') or x.v.shape == sh and all(v.ndim >= 2 and v.shape == x.v.shape for l in x.p.values() for _, v in l))
            kw['reduction_axes'] = g.rng.choice([axes, [['time', 'freq'][a] for a in axes]]) if max(axes) < 2 else axes
            if kw['reduction_axes'] == axes and len(axes) == 1 and g.rng.random() < .5: kw['reduction_axes'] = axes[0]
            nx = max(len(g.gs), 2)
            shx = (1,) * nx if cls not in ('MeqSum', 'MeqProduct', 'MeqNElements') else sh + (1,) * (nx - len(sh))
        else:
            shx = (1,) if cls not in ('MeqSum', 'MeqProduct', 'MeqNElements') else sh
        ax = None if axes is None else tuple(axes)
        def f(xs):
            V, K = unflagged(xs[0], x.f, mask, shx)
            v, cnt = red(cls, V, K, ax)
            if cls in ('MeqMin', 'MeqMax', 'MeqRms', 'MeqStdDev'): need((cnt > 0).all())
            if ax is None: v = v.reshape((1,))
            return v
        fl = None
        if x.f is not None and mask:
            F = (pad(x.f, max(2, len(g.gs))) & mask) != 0
            # a reduced element is flagged when everything that went into it was
            if axes is None: fl = np.array([mask]) if F.all() else None
            else: fl = np.where(F.all(axis=tuple(a for a in ax if a < F.ndim), keepdims=True), mask, 0)
        mag = max(x.mag, 1.) * (np.prod(sh) if cls == 'MeqSum' else 1)
        v = ok(arr(f([x.v])))
        out.append(VS(v, fl, perturb([x], f), max(mag, M.mx(v), 1.)))
    return g.op(cls, [c], R(r.dims, out), **kw)
def e_multired(g):
    """multi-child Min/Max/Mean"""
    cls = g.rng.choice(['MeqMin', 'MeqMax', 'MeqMean'])
    ch = g.pick(g.rng.choice([2, 2, 3]), lambda n: not g.iscplx(n)); rs = [g.model[c] for c in ch]
    need(not any(x.v is None for r in rs for x in r.vs))
    need(cls == 'MeqMean' or all(x.f is None for r in rs for x in r.vs))
    def f(xs):
        if cls == 'MeqMean': return n_add(xs) / len(xs)
        v = xs[0]
        for x in xs[1:]:
            v, x = B(v, x); v = np.minimum(v, x) if cls == 'MeqMin' else np.maximum(v, x)
        return v
    r = pointwise(rs, f, [FULL] * len(ch), False)
    dims = r.dims
    for i, y in enumerate(r.vs):   # flagged where every child is flagged
        c = [q.vs[i] if q.rank() else q.vs[0] for q in rs]
        fl = None
        if all(x.f is not None for x in c):
            t = np.array([True])
            for x in c: a, b = B(t, x.f != 0); t = a & b
            fl = np.where(t, FULL, 0)
        if any(x.isnull() for x in c): need(all(x.f is None for x in c))
        y.f = fl
    return g.op(cls, ch, r)
def e_norm(g):
    c, = g.pick(1, lambda n: not g.iscplx(n)); r = g.model[c]
    need(not any(x.v is None for x in r.vs) and not r.missing)
    def f(xs):
        s = n_add([x * x for x in xs]); need((s > 1e-6).all()); return np.sqrt(s)
    kw, m = g.masks(1)
    mag = max(x.mag for x in r.vs) ** 2
    return g.op('MeqNorm', [c], R((), [VS(ok(arr(f([x.v for x in r.vs]))), orflags(r.vs, m * len(r.vs)), perturb(r.vs, f), max(1, mag))]), **kw)
def e_wsum(g):
    cls = g.rng.choice(['MeqWSum', 'MeqWSum', 'MeqWMean']); ch = g.pick(g.rng.choice([2, 3])); rs = [g.model[c] for c in ch]
    need(not any(x.v is None for r in rs for x in r.vs))
    kw = {}; w = [1.] * len(ch)
    if cls == 'MeqWMean' or g.rng.random() < .7:
        w = [round(g.rng.uniform(.2, 3), 3) for _ in ch]; kw['weights'] = np.array(w)
    if cls == 'MeqWMean': w = [x / sum(w) for x in w]
    r = pointwise(rs, lambda xs: n_add([x * k for x, k in zip(xs, w)]), [FULL] * len(ch))
    return g.op(cls, ch, r, **kw)

# ---------- flagging ----------
def e_zeroflagger(g):
    c, = g.pick(1, lambda n: not g.iscplx(n)); r = g.model[c]; need(not r.missing)
    op = g.rng.choice(['EQ', 'NE', 'LT', 'GT', 'LE', 'GE']); bit = g.rng.choice([1, 2, 4]); force = g.rng.random() < .3
    fn = dict(EQ=np.equal, NE=np.not_equal, LT=np.less, GT=np.greater, LE=np.less_equal, GE=np.greater_equal)[op]
    vs = []
    for x in r.vs:
        y = clone(x)
        if x.v is not None:
            need(not ((np.abs(x.v) < 1e-8) & (x.v != 0)).any())
            need(np.all((x.v != 0)) or c.startswith('l'))       # exact zeros only straight from a source
            f = np.where(fn(x.v, 0), bit, 0)
            if f.any(): y.f = f
            elif force: y.f = np.zeros(1, int)
        vs.append(y)
    return g.op('MeqZeroFlagger', [c], R(r.dims, vs), oper=op, flag_bit=bit, force_output=force)
def e_mergeflags(g):
    k = g.rng.choice([1, 2, 2, 3]); ch = g.pick(k); rs = [g.model[c] for c in ch]
    need(not any(r.missing for r in rs))
    kw, m = g.masks(k) if g.rng.random() < .7 else ({}, [FULL] * k)
    r0 = rs[0]; vs = [clone(x) for x in r0.vs]
    if k == 1:
        if len(vs) > 1:
            fl = None
            for x in r0.vs: fl = bor(fl, None if x.f is None or not m[0] else x.f & m[0])
            if fl is not None:
                for y in vs: y.f = fl
        need(not any(x.v is None for x in vs))
        return g.op('MeqMergeFlags', ch, R(r0.dims, vs), **kw)
    need(not any(x.v is None for r in rs for x in r.vs))
    all_ = g.rng.random() < .3
    if all_: kw['merge_all'] = True
    for r, mk in list(zip(rs, m))[1:]:
        if not mk: continue
        mf = [None if x.f is None else x.f & mk for x in r.vs]
        tot = None
        for f in mf: tot = bor(tot, f)
        if all_:
            for y in vs: y.f = bor(y.f, tot)
        elif r.dims == r0.dims:
            for y, f in zip(vs, mf): y.f = bor(y.f, f)
        elif not r.dims:
            for y in vs: y.f = bor(y.f, mf[0])
        elif not r0.dims: vs[0].f = bor(vs[0].f, tot)
        else: raise Reject('dims')
    return g.op('MeqMergeFlags', ch, R(r0.dims, vs), **kw)

EXTRA.update(composer=e_composer, selector=e_selector, paster=e_paster, transpose=e_transpose, stripper=e_stripper, matmul=e_matmul,
             inv22=e_inv22, stokes=e_stokes, reduce=e_reduce, multired=e_multired, norm=e_norm, wsum=e_wsum,
             zeroflagger=e_zeroflagger, mergeflags=e_mergeflags)
TENSOR = ['composer', 'selector', 'paster', 'transpose', 'stripper', 'matmul', 'inv22', 'stokes', 'norm']
REDUCE = ['reduce', 'multired', 'wsum']
FLAG = ['zeroflagger', 'mergeflags']

def run_dag(ctx, prefix, g, aspects, only=None, sig=None):
    """execute every node of g in random order and compare the aspects asked for"""
    ctx.describe(g.desc)
    g.F.build()
    req = g.request()
    order = list(g.nodes); g.rng.shuffle(order)
    cls = {n: g.F.recs[g.F.by_name[n]]['class'] for n in order}
    chd = {d[0]: d[2] for d in g.desc if isinstance(d[1], str)}
    out = {n: g.F.execute(n, req) for n in order}
    bad = set()
    for n in g.nodes:
        m = g.model[n]
        code, res = out[n]
        if cls[n] != 'vfsource' and bad & set(chd[n]): bad.add(n); continue     # blame the first node that went wrong
        sel = only is None or cls[n] in only
        if not compare(ctx if sel else NullCtx, prefix, n, m, code, res, ASPECTS if not sel else aspects, cls[n]): bad.add(n)
        if sel and cls[n] != 'vfsource':
            ctx.seen(sig(g, n, cls[n], chd[n]) if sig else (cls[n], m.dims, [g.model[c].dims for c in chd[n]],
                     [(x.v is not None and (x.v.shape, x.v.dtype.kind), x.f is not None and x.f.shape, len(x.p)) for c in chd[n] for x in g.model[c].vs[:2]]))
class NullCtx:
    @staticmethod
    def violation(*a): pass

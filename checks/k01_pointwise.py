"""Pointwise functions: values."""
from vf.mini import *
PROPERTY = 'K01'; LEVEL = 'exploration'
RULE = ('random directed acyclic graphs of function nodes over random gridded leaves (constant / time / freq / 2-D shapes, real and '
        'complex, scalar and tensor, missing planes); every node of the graph is executed and compared elementwise with numpy; '
        'non-trivial = a node whose value was compared, distinct by (class, operand shapes, kinds, tensor dims)')
def dag(ctx, i, rng):
    g = Gen(rng, perts=0, flags=.15)
    for _ in range(rng.choice([3, 4, 5])): g.leaf(missing=rng.choice([0, 0, .25]))
    g.grow(rng.choice([6, 10, 16]))
    ctx.describe(g.desc)
    g.F.build()
    req = g.request()
    order = list(g.nodes); rng.shuffle(order)
    for n in order:
        m = g.model[n]
        cls = g.F.recs[g.F.by_name[n]]['class']
        code, res = g.F.execute(n, req)
        compare(ctx, 'K01', n, m, code, res, ('structure', 'value'), cls)
        if cls != 'vfsource':
            ch = [d for d in g.desc if d[0] == n][0][2]
            ctx.seen((cls, m.dims, [tuple(None if x.v is None else (x.v.shape, x.v.dtype.kind) for x in g.model[c].vs[:2]) for c in ch]))
def grid(ctx, i, rng):
    """Time / Freq / Grid / Constant leaves against the request's own cells"""
    nt, nf = rng.choice([1, 2, 5]), rng.choice([1, 3, 4])
    t0, f0 = rng.uniform(-5, 5), rng.uniform(1, 5); t1, f1 = t0 + rng.uniform(.1, 9), f0 + rng.uniform(.1, 9)
    c = cells(nt, nf, t0, t1, f0, f1)
    ctx.describe((nt, nf, t0, t1, f0, f1))
    F = Forest()
    k = rng.uniform(-3, 3); kc = complex(rng.uniform(-3, 3), rng.uniform(-3, 3))
    ten = [rng.uniform(-3, 3) for _ in range(4)]
    F.node('MeqTime', 't'); F.node('MeqFreq', 'f'); F.node('MeqGrid', 'gt', axis='time'); F.node('MeqGrid', 'gf', axis='freq')
    F.node('MeqConstant', 'k', value=k); F.node('MeqConstant', 'kc', value=kc)
    F.node('MeqConstant', 'kt', value=np.array(ten).reshape(2, 2))
    F.node('MeqAdd', 'sum', ['t', 'f', 'k'])
    F.build()
    tt = t0 + (np.arange(nt) + .5) * (t1 - t0) / nt; ff = f0 + (np.arange(nf) + .5) * (f1 - f0) / nf
    exp = dict(t=tt.reshape(nt, 1), f=ff.reshape(1, nf), gt=tt.reshape(nt, 1), gf=ff.reshape(1, nf), k=np.array([k]), kc=np.array([kc]),
               sum=tt.reshape(nt, 1) + ff.reshape(1, nf) + k)
    req = request(c)
    for n, v in exp.items():
        code, res = F.execute(n, req)
        compare(ctx, 'K01', n, R((), [VS(v)]), code, res, ('structure', 'value'))
        ctx.seen(('grid', n, nt, nf))
    code, res = F.execute('kt', req)
    compare(ctx, 'K01', 'kt', R((2, 2), [VS(arr(x)) for x in ten]), code, res, ('structure', 'value'))
GROUPS = [('dag', 3000, 30000, dag), ('grid', 40, 400, grid)]

from vf.mini2 import *
PROPERTY = 'K04'; LEVEL = 'exploration'
RULE = ('random graphs of tensor nodes (compose, select, slice, paste, transpose/conjugate, strip, matrix multiply, 2x2 invert, Stokes, norm) '
        'mixed with pointwise nodes over tensors of rank 0-3; dimensions and every plane compared with numpy; distinct by (class, dims, settings)')
def sig(g, n, cls, ch):
    kw = [d for d in g.desc if d[0] == n][0][3]
    return (cls, g.model[n].dims, [g.model[c].dims for c in ch], sorted((k, str(v)) for k, v in kw.items() if k != 'flag_mask'))
def dag(ctx, i, rng):
    g = Gen(rng, perts=.15, flags=.15)
    for _ in range(rng.choice([3, 4, 5])):
        g.leaf(dims=rng.choice([(), (2, 2), (2, 2), (2,), (3,), (2, 3), (3, 2), (1, 2), (2, 1), (2, 2, 2), (2, 3, 2), (4,)]), missing=rng.choice([0, 0, 0, .15]))
    g.grow(rng.choice([6, 10, 16]), TENSOR * 3)
    run_dag(ctx, 'K04', g, ('value', 'structure'), sig=sig)
GROUPS = [('dag', 5000, 30000, dag)]

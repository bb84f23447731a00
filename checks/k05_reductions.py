from vf.mini2 import *
PROPERTY = 'K05'; LEVEL = 'exploration'
RULE = ('random reduction nodes (sum, mean, product, min, max, count, rms, stddev; whole or along axes; multi-child min/max/mean; weighted '
        'sums) over flagged data in every combination of data and flag shapes, checked in value, flags and perturbed values against numpy over '
        'the unflagged elements; distinct by (class, axes, mask, data shape, flag shape)')
def sig(g, n, cls, ch):
    kw = [d for d in g.desc if d[0] == n][0][3]
    return (cls, str(kw.get('flag_mask')), str(kw.get('reduction_axes')), [tuple((x.v is not None and (x.v.shape, x.v.dtype.kind), x.f is not None and x.f.shape) for x in g.model[c].vs[:3]) for c in ch])
def dag(ctx, i, rng):
    g = Gen(rng, perts=.2, flags=.7)
    for _ in range(rng.choice([3, 4, 5])): g.leaf(dims=rng.choice([(), (), (), (2, 2), (3,)]))
    g.grow(rng.choice([2, 4]))
    g.grow(rng.choice([6, 10]), REDUCE * 4)
    run_dag(ctx, 'K05', g, ('value', 'flags', 'perturbed', 'structure'),
            only=set(REDS) | {'MeqWSum', 'MeqWMean'}, sig=sig)
GROUPS = [('dag', 5000, 30000, dag)]

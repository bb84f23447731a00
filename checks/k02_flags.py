from vf.mini2 import *
PROPERTY = 'K02'; LEVEL = 'exploration'
RULE = ('random graphs of pointwise, tensor and flagging nodes over leaves with random flag arrays (any shape compatible with the data, '
        'many bits) and random flag masks; effective output flags of every node compared with the bitwise reference; distinct by '
        '(class, mask, flag shapes, dims)')
def sig(g, n, cls, ch):
    kw = [d for d in g.desc if d[0] == n][0][3]
    return (cls, str(kw.get('flag_mask')), g.model[n].dims, [tuple(x.f is not None and x.f.shape for x in g.model[c].vs[:3]) for c in ch])
def dag(ctx, i, rng):
    g = Gen(rng, perts=.1, flags=.8)
    for _ in range(rng.choice([3, 4, 5])): g.leaf(missing=rng.choice([0, 0, .15]))
    g.grow(rng.choice([6, 10, 16]), ['zeroflagger', 'mergeflags', 'mergeflags', 'composer', 'selector', 'matmul', 'inv22', 'norm'])
    run_dag(ctx, 'K02', g, ('flags', 'structure'), sig=sig)
GROUPS = [('dag', 5000, 30000, dag)]

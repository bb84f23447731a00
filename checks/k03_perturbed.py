from vf.mini2 import *
PROPERTY = 'K03'; LEVEL = 'exploration'
RULE = ('random graphs whose leaves carry perturbed values for overlapping sets of solvable-parameter ids (one or two perturbation sets); '
        'the id list, perturbations and every perturbed value of every node are compared with re-evaluating the reference at the perturbed '
        'leaves; distinct by (class, id sets of the operands, sets)')
def sig(g, n, cls, ch):
    return (cls, g.npset, [tuple(tuple(x.p) for x in g.model[c].vs[:4]) for c in ch])
def dag(ctx, i, rng):
    g = Gen(rng, perts=.8, flags=.15)
    for _ in range(rng.choice([3, 4, 5])): g.leaf(missing=rng.choice([0, 0, .15]))
    g.grow(rng.choice([6, 10, 16]), ['composer', 'selector', 'transpose', 'matmul', 'inv22', 'norm', 'stripper', 'paster', 'wsum', 'reduce'])
    run_dag(ctx, 'K03', g, ('perturbed', 'structure'), sig=sig)
GROUPS = [('dag', 5000, 30000, dag)]

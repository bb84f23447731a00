"""Value semantics of counted references and containers; serialization in the middle of histories."""
import copy
from vf.forest import *
PROPERTY = 'D03'; LEVEL = 'exploration'
RULE = ('random histories of operations (copy and privatize references, take sub-objects, assign by copy or transfer, insert, remove, overwrite scalars and array elements in nested containers, '
        'serialize and unpack sharing the blocks, merge) over a pool of references to nested records, lists, vectors and arrays; all live references compared with a deep-copy model; '
        'distinct by (operation, kind of target, nesting depth, mode)')
FIELDS = ['a', 'b', 'c', 'd']
class Vec_(list):
    'model of a vector of integers'
    def __deepcopy__(self, memo): return Vec_(self)
def rnd(rng, d=0):
    x = rng.random()
    if d < 3 and x < .3: return {f: rnd(rng, d + 1) for f in rng.sample(FIELDS, rng.choice([0, 1, 2, 3]))}
    if d < 3 and x < .5: return [rnd(rng, d + 1) for _ in range(rng.choice([1, 2, 3]))] + ['']
    if x < .57: return Vec_(rng.randrange(100) for _ in range(rng.choice([2, 3, 5])))
    if x < .75:
        n = rng.choice([(3,), (2, 2), (1, 3)]); return np.array([rng.randrange(100) for _ in range(int(np.prod(n)))], float).reshape(n)
    return rng.choice([rng.randrange(1000), rng.randrange(1000) / 8., 'str%d' % rng.randrange(10), complex(rng.randrange(9), 2)])
def to_py(m):
    if isinstance(m, dict):
        r = record()
        for k, x in m.items(): r[k] = to_py(x)
        return r
    if isinstance(m, Vec_): return list(m)
    if isinstance(m, list): return dmilist([to_py(x) for x in m])
    return np.array(m) if isinstance(m, np.ndarray) else m
def norm(p):
    if isinstance(p, record): return {str(k).lower(): norm(p[k]) for k in p.keys()}
    if isinstance(p, (list, tuple)): return [norm(x) for x in p]
    return p
def eq(a, b):
    if isinstance(a, dict): return isinstance(b, dict) and set(a) == set(b) and all(eq(a[k], b[k]) for k in a)
    if isinstance(a, list): return isinstance(b, list) and len(a) == len(b) and all(eq(x, y) for x, y in zip(a, b))
    if isinstance(a, np.ndarray): return np.shape(b) == a.shape and bool(np.all(np.asarray(b) == a))
    return type(a) == type(b) and a == b
def paths(m, pre=()):
    """all (path, object) below a container"""
    if isinstance(m, Vec_): return
    if isinstance(m, dict): it = m.items()
    elif isinstance(m, list): it = enumerate(m)
    else: return
    for k, x in it:
        yield pre + (k,), x
        yield from paths(x, pre + (k,))
def at(m, p):
    for k in p: m = m[k]
    return m
class CONT_(type):
    def __instancecheck__(c, x): return isinstance(x, dict) or type(x) is list
class CONT(metaclass=CONT_): 'containers one may put any object into'
def kindof(x): return {dict: 'rec', list: 'list', Vec_: 'vec', np.ndarray: 'arr', str: 'str'}.get(type(x), 'num')
def size(m): return 1 + sum(1 for _ in paths(m))
def history(ctx, i, rng):
    v = vdrv; v.dm_drop(0)
    H = {}; S = {}; log = []
    def compare(h, why):
        got = norm(v.dm_py(h))
        return ctx.check(eq(H[h], got), 'isolation:%s' % why, lambda: (h, 'want', str(H[h])[:300], 'got', str(got)[:300]))
    def add(h, m): H[h] = m; return h
    for _ in range(rng.choice([1, 2, 3])):
        m = rnd(rng)
        while not isinstance(m, CONT): m = rnd(rng)
        add(v.dm_new(to_py(m)), m)
    log.append(('start', copy.deepcopy(H)))
    for step in range(rng.choice([10, 25, 60])):
        h = rng.choice(sorted(H)) if rng.random() < .6 else min(H); m = H[h]; op = rng.choice(['copy', 'get', 'getw', 'setobj', 'setobj', 'setobj', 'list', 'setval', 'setval', 'poke', 'poke', 'remove', 'blocks', 'blocks', 'unblock', 'unblock', 'priv', 'drop', 'new', 'merge', 'pywrite', 'num', 'index'])
        if len(H) > 8: op = 'drop'
        ps = list(paths(m)) if isinstance(m, CONT) else []
        kind = ''; mode = 0; depth = 0
        ctx.describe(log)
        if op == 'copy':
            mode = rng.choice([0, 0, 1, 2]); log.append((op, h, mode)); kind = kindof(m)
            # plain copy, deep copy, privatized copy
            n = v.dm_copy(h, *[(0, -1), (0x10000, 0), (0, 0)][0]) if mode == 0 else v.dm_copy(h, 0, -1)
            if mode == 1: v.dm_priv(n, 0, 1)
            if mode == 2: v.dm_priv(n, 0, 100)
            add(n, copy.deepcopy(m))
        elif op == 'priv':
            mode = rng.choice([0, 1, 2, 100]); log.append((op, h, mode)); v.dm_priv(h, 0, mode); kind = kindof(m)
        elif op == 'new':
            x = rnd(rng); log.append((op, x)); add(v.dm_new(to_py(x)), copy.deepcopy(x)); kind = kindof(x)
        elif op in ('get', 'getw'):
            if not ps: continue
            p, x = rng.choice(ps); log.append((op, h, p)); kind = kindof(x); depth = len(p)
            add(v.dm_get(h, p, int(op == 'getw')), copy.deepcopy(x))
        elif op == 'setobj':
            if not isinstance(m, CONT): continue
            h2 = rng.choice(sorted(H))
            if h2 == h or size(H[h2]) + size(m) > 60: continue
            x = copy.deepcopy(H[h2]); kind = kindof(x)
            cand = [p for p, y in ps] + [p + (f,) for p, y in [((), m)] + ps if isinstance(y, dict) for f in FIELDS]
            if not cand: continue
            p = rng.choice(cand); par = at(m, p[:-1])
            mode = rng.choice([1, 1, 2]); depth = len(p)
            if isinstance(par, dict) and p[-1] not in par and rng.random() < .5: mode = 0
            log.append((op, h, p, h2, mode)); v.dm_setobj(h, p, h2, mode); par[p[-1]] = x
            if mode == 2: del H[h2]
        elif op == 'list':
            c = [((), m)] if type(m) is list else []
            c += [(p, y) for p, y in ps if type(y) is list]
            h2 = rng.choice(sorted(H))
            if not c or h2 == h or size(H[h2]) + size(m) > 60: continue
            p, y = rng.choice(c); mode = rng.choice([3, 4, 5]); x = copy.deepcopy(H[h2]); kind = kindof(x); depth = len(p)
            if mode == 3: log.append((op, h, p, h2, mode)); v.dm_setobj(h, p, h2, 3); y.append(x)
            else:
                if not y: continue
                n = rng.randrange(len(y)); log.append((op, h, p + (n,), h2, mode)); v.dm_setobj(h, p + (n,), h2, mode)
                if mode == 4: y.insert(n, x)
                else: y[n] = x
        elif op == 'setval':
            if not isinstance(m, CONT): continue
            cand = [p for p, y in ps] + [p + (f,) for p, y in [((), m)] + ps if isinstance(y, dict) for f in FIELDS]
            if not cand: continue
            p = rng.choice(cand); par = at(m, p[:-1]); x = rng.choice([rng.randrange(1000), rng.randrange(999) / 4., 's%d' % rng.randrange(9), 1j + rng.randrange(5)])
            old = par[p[-1]] if isinstance(par, list) or p[-1] in par else None
            if type(old) in (int, float, str) and rng.random() < .6: x = type(old)(rng.randrange(1000))
            mode = 0 if type(old) == type(x) and rng.random() < .7 else 1; kind = kindof(old); depth = len(p)
            log.append((op, h, p, x, mode)); v.dm_setval(h, p, x, mode); par[p[-1]] = x
        elif op in ('poke', 'num'):
            c = [(p, y) for p, y in [((), m)] + ps if isinstance(y, (np.ndarray, Vec_))]
            if not c: continue
            p, y = rng.choice(c); j = rng.randrange(np.size(y)); x = float(rng.randrange(1000)); kind = 'arr'; depth = len(p); ij = np.unravel_index(j, np.shape(y))
            if isinstance(y, Vec_):
                if op == 'num':
                    if not ctx.check(v.dm_num(h, p + (j,)) == y[j], 'element', lambda: (p, j, y[j])): return
                else: log.append(('setvec', h, p, j, int(x))); v.dm_setval(h, p + (j,), int(x), 0); y[j] = int(x)
                kind = 'vec'
            elif op == 'num':
                log.append((op, h, p, ij)); got = v.dm_num(h, p + ('.'.join(str(k) for k in ij),))
                if not ctx.check(got == y[ij], 'element', lambda: (p, ij, got, y[ij])): return
            elif rng.random() < .5: log.append((op, h, p, j, x)); v.dm_poke(h, p, j, x); y[ij] = x
            else: mode = 1; log.append((op, h, p, ij, x)); v.dm_setval(h, p + ('.'.join(str(k) for k in ij),), x, 0); y[ij] = x
        elif op == 'remove':
            c = [(p, y) for p, y in ps if isinstance(at(m, p[:-1]), CONT)]
            if not c: continue
            p, y = rng.choice(c); log.append((op, h, p)); kind = kindof(y); depth = len(p)
            n = v.dm_remove(h, p); del at(m, p[:-1])[p[-1]]; add(n, y)
        elif op == 'blocks':
            log.append((op, h)); kind = kindof(m); S[v.dm_blocks(h)] = copy.deepcopy(m)
        elif op == 'unblock':
            if not S: continue
            b = max(S) if rng.random() < .5 else rng.choice(sorted(S)); log.append((op, b)); kind = kindof(S[b]); add(v.dm_unblock(b), copy.deepcopy(S[b]))
        elif op == 'merge':
            h2 = rng.choice(sorted(H))
            if h2 == h or not isinstance(m, dict) or not isinstance(H[h2], dict): continue
            mode = rng.randrange(2); log.append((op, h, h2, mode)); v.dm_merge(h, h2, mode)
            for k, x in copy.deepcopy(H[h2]).items():
                if mode or k not in m: m[k] = x
        elif op == 'pywrite':
            # an array handed to python is the caller's own
            c = [p for p, y in ps if isinstance(y, np.ndarray)]
            if not c: continue
            p = rng.choice(c); log.append((op, h, p)); o = v.dm_py(h)
            for k in p: o = o[k]
            try: o[...] = -77
            except (ValueError, TypeError): continue
            kind = 'arr'; depth = len(p)
        elif op == 'index':
            # list indices count from either end, and anything outside is refused
            if type(m) is not list: continue
            mode = rng.choice([0, 0, 0, 1, 2, 3]); n = rng.randrange(-len(m) - 2, len(m) + 2); L = len(m); kind = 'list'
            h2 = rng.choice(sorted(H))
            if mode > 1 and (h2 == h or size(H[h2]) + size(m) > 60): continue
            log.append((op, h, mode, n, h2)); x = copy.deepcopy(H[h2]) if mode > 1 else None
            ok = -L <= n < L if mode != 2 else -L - 1 <= n <= L
            try: g = v.dm_list(h, mode, n, h2); got = 1
            except v.Error: got = 0
            if not ctx.check(ok == bool(got), 'list-range', lambda: (mode, n, L, got)): return
            if got:
                if mode == 0: add(g, copy.deepcopy(m[n]))
                elif mode == 1: add(g, m.pop(n))
                elif mode == 2: m.insert(n if n >= 0 else L + 1 + n, x)
                else: m[n] = x
            depth = 0 if n == 0 else 1 if n > 0 else -1; kind += str(ok)
        elif op == 'drop':
            if len(H) < 2: continue
            log.append((op, h)); v.dm_drop(h); del H[h]
        ctx.describe(log); ctx.count(op)
        if not all([compare(k, op) for k in H]): return
        ctx.seen((op, kind, depth, mode, len(H) > 3))
    v.dm_drop(0)
GROUPS = [('history', 8000, 300000, history)]

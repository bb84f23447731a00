"""Python values, records and ids behave the same on both sides of the python bridge."""
from vf.forest import *
import importlib.util, sys, os
PROPERTY = 'Y01'; LEVEL = 'exploration'
RULE = ('random python values sent into the kernel and back, records arriving from the kernel (lazily converted) operated on next to a plain dict, and random hierarchical ids against a model of their syntax and matching; '
        'distinct by (kinds of value), (operation, lazy or not) and (form of the ids)')
from checks.d01_serialize import leaf, obj, rhiid, same_obj, kinds
def expect(x):
    """documented normalizations of a value that crosses the bridge"""
    if isinstance(x, record):
        r = type(x)()
        for k in x.keys(): dict.__setitem__(r, k.lower().replace('.', '_'), expect(x[k]))
        return r
    if isinstance(x, message):
        m = message(x.msgid, payload=expect(x.payload), priority=x.priority); return m
    if isinstance(x, hiid): return x
    if isinstance(x, (list, tuple)):
        ys = [expect(y) for y in x]
        # homogenous sequences come back as tuples, others as lists
        t = set((type(y), isinstance(y, int) and not -2**31 <= y < 2**31) for y in x)
        if isinstance(x, dmilist) or len(t) > 1 or any(y is None for y in x): return dmilist(ys)
        return tuple(ys)
    if isinstance(x, np.ndarray): return x.reshape(()).item() if x.ndim == 0 or (x.shape == (1,) and type(x) is np.ndarray) else np.ascontiguousarray(x)
    if isinstance(x, bool): return int(x)
    return x
def convert(ctx, i, rng):
    v = vdrv; v.dm_drop(0)
    x = obj(rng, plain=True); ctx.describe(x); h = v.dm_new(x); want = expect(x)
    y = v.dm_py(h)
    ks = tuple(sorted(kinds(x, set()))); ctx.seen(('conv', ks))
    ctx.check(same_obj(want, y), 'convert', lambda: (repr(want)[:400], repr(y)[:400]))
    ctx.check(v.dm_type(h) == v.dm_type(v.dm_new(y)), 'type', lambda: (v.dm_type(h), v.dm_type(v.dm_new(y))))
    # what the caller does to its own objects afterwards is its own business
    def spoil(o):
        if isinstance(o, np.ndarray) and o.size and o.flags.writeable: o[...] = 0 if o.dtype.kind != 'b' else True
        elif isinstance(o, record):
            for k in list(o.keys()): spoil(o[k])
            o['zz'] = 5
        elif isinstance(o, (list, tuple)) and not isinstance(o, hiid): [spoil(q) for q in o]
    if isinstance(x, message): return
    spoil(y); z = v.dm_py(h)
    ctx.check(same_obj(want, z), 'shared-out', lambda: (repr(want)[:300], repr(z)[:300]))
    import copy
    want = copy.deepcopy(want); spoil(x); z = v.dm_py(h)
    ctx.check(same_obj(want, z), 'shared-in', lambda: (repr(want)[:300], repr(z)[:300]))
KEYS = ['a', 'foo', 'value', 'bar_x', 'x_1', 'foo_3_b', 'zork', 'zork_a', 'qq7', 'a_b_c', '_a', 'a_', 'b__c', 'node_class']
def recops(ctx, i, rng):
    """operations on a record from the kernel, whose fields are converted when first touched"""
    v = vdrv; v.dm_drop(0)
    m = {k: rng.choice([rng.randrange(99), 's%d' % rng.randrange(9), (1, 2), 1.5]) for k in rng.sample(KEYS, rng.randrange(1, 7))}
    if rng.random() < .5: m['sub'] = record(p=1, q=(rng.randrange(9), 2))
    lazy = rng.random() < .8
    r = record()
    for k, x in m.items(): r[k] = x
    if lazy: r = v.dm_py(v.dm_new(r))
    log = [sorted(m.items(), key=str)]
    if not ctx.check(sorted(r.keys()) == sorted(m), 'keys', lambda: (sorted(r.keys()), sorted(m))): return
    for step in range(rng.choice([3, 8, 20])):
        op = rng.choice(['get', 'attr', 'in', 'has', 'len', 'keys', 'values', 'items', 'itervalues', 'iteritems', 'iter', 'set', 'setattr', 'del', 'delattr', 'pop', 'popd', 'popitem', 'getd', 'str', 'repr', 'eq', 'copy', 'back', 'dictcopy', 'missing'])
        k = rng.choice(sorted(m) or ['a']) if rng.random() < .8 else rng.choice(KEYS); x = rng.choice([rng.randrange(99), 't%d' % rng.randrange(9)])
        log.append((op, k, x)); ctx.describe(log)
        def out(f):
            try: return ('ok', f())
            except (KeyError, AttributeError) as e: return ('none',)
            except Exception as e: return ('exc', type(e).__name__, str(e)[:100])
        w = g = None; has = k in m; no = ('none',)
        if op == 'get': w = ('ok', m[k]) if has else no; g = out(lambda: r[k])
        elif op == 'attr': w = ('ok', m[k]) if has else no; g = out(lambda: getattr(r, k))
        elif op == 'in': w = ('ok', has); g = out(lambda: k in r)
        elif op == 'has': w = ('ok', has); g = out(lambda: r.has_field(k))
        elif op == 'len': w = ('ok', len(m)); g = out(lambda: len(r))
        elif op == 'keys': w = ('ok', sorted(m)); g = out(lambda: sorted(r.keys()))
        elif op == 'iter': w = ('ok', sorted(m)); g = out(lambda: sorted(iter(r)))
        elif op == 'values': w = ('ok', sorted(map(str, m.values()))); g = out(lambda: sorted(map(str, r.values())))
        elif op == 'itervalues': w = ('ok', sorted(map(str, m.values()))); g = out(lambda: sorted(map(str, r.itervalues())))
        elif op == 'items': w = ('ok', sorted((a, str(b)) for a, b in m.items())); g = out(lambda: sorted((a, str(b)) for a, b in r.items()))
        elif op == 'iteritems': w = ('ok', sorted((a, str(b)) for a, b in m.items())); g = out(lambda: sorted((a, str(b)) for a, b in r.iteritems()))
        elif op == 'set': w = ('ok', None); m[k] = x; g = out(lambda: r.__setitem__(k, x))
        elif op == 'setattr': w = ('ok', None); m[k] = x; g = out(lambda: setattr(r, k, x))
        elif op == 'del': w = ('ok', None) if has else no; m.pop(k, 0); g = out(lambda: r.__delitem__(k))
        elif op == 'delattr': w = ('ok', None) if has else no; m.pop(k, 0); g = out(lambda: delattr(r, k))
        elif op == 'pop': w = ('ok', m.pop(k)) if has else no; g = out(lambda: r.pop(k))
        elif op == 'popd': w = ('ok', m.pop(k, x)); g = out(lambda: r.pop(k, x))
        elif op == 'popitem':
            g = out(lambda: r.popitem())
            if not m: w = no
            elif g[0] == 'ok' and g[1][0] in m: w = ('ok', (g[1][0], m.pop(g[1][0])))
            else: w = ('ok', 'one of the fields')
        elif op == 'getd': w = ('ok', m.get(k, x)); g = out(lambda: r.get(k, x))
        elif op in ('str', 'repr'): w = ('ok', True); g = out(lambda: all(a + '=' in (str if op == 'str' else repr)(r) for a in m) and 'lazy' not in str(r))
        elif op == 'eq':
            c = record()
            for a, b in m.items(): c[a] = b
            if m and rng.random() < .5: a = rng.choice(sorted(m)); c[a] = 'other'; w = ('ok', (False, True))
            else: w = ('ok', (True, False))
            g = out(lambda: (c == r, c != r) if rng.random() < .5 else (r == c, r != c))
        elif op == 'copy': w = ('ok', sorted((a, str(b)) for a, b in m.items())); g = out(lambda: sorted((a, str(b)) for a, b in r.copy().items()))
        elif op == 'back': w = ('ok', None); g = out(lambda: None); r = v.dm_py(v.dm_new(r)) if m else r
        elif op == 'dictcopy': continue
        elif op == 'missing': w = ('ok', ('none',)); g = out(lambda: out(lambda: r['no_such']))
        ctx.seen((op, lazy, has, w[0]))
        if not ctx.check(w == g, 'record:%s' % op, lambda: (k, 'want', str(w)[:200], 'got', str(g)[:200])): return
AT = ['a', 'b', 'Node', 'Add', 'foo', 'zork', 'q9x', '0', '7', '123', '*', '?', '']
def norm1(t): return str(int(t)) if t.isdigit() else t.lower()
def match(a, b):
    for x, y in zip(a, b):
        if x == '*' or y == '*': return True
        if not (x == y or x == '?' or y == '?'): return False
    n = min(len(a), len(b))
    return len(a) == len(b) or (len(a) > n and a[n] == '*' and len(b) == n) or (len(b) > n and b[n] == '*' and len(a) == n)
def hiids(ctx, i, rng):
    def one(wild=1): return [rng.choice(AT[:10] if not wild else AT[:12] + (AT[12:] if wild > 1 else [])) for _ in range(rng.choice([1, 1, 2, 3, 4]))]
    a = one(2) if rng.random() < .5 else one(1)
    if a == ['']: a = ['a']
    s = '.'.join(a); h = hiid(s); sep = rng.choice('._')
    ctx.describe((a,)); ctx.seen(('str', tuple(sorted(set(norm1(x) for x in a)))))
    low = lambda t: t.replace('$', '').lower()
    ctx.check(low(str(h)) == '.'.join(norm1(x) for x in a), 'str', lambda: (s, str(h)))
    ctx.check(hiid(str(h)) == h, 'parse', lambda: (s, str(h), tuple(h), tuple(hiid(str(h)))))
    ctx.check(low(h.as_str('_')) == '_'.join(norm1(x) for x in a), 'as-str', lambda: (s, h.as_str('_')))
    y = vdrv.dm_py(vdrv.dm_new(record(x=h))); vdrv.dm_drop(0)
    ctx.check(y.x == h and type(y.x) is hiid, 'through', lambda: (s, str(y.x)))
    ctx.check(hiid(h, 'foo') == hiid(s + '.foo') and h + 'foo' == hiid(s + '.foo') and 'foo' + h == hiid('foo.' + s), 'concat', lambda: s)
    c = one(1); d = list(c)
    for j in range(len(d)):
        if rng.random() < .3: d[j] = rng.choice(['*', '?', 'a', 'zork'])
    if rng.random() < .4: d = d[:rng.randrange(len(d) + 1)] + rng.choice([[], ['*'], ['a'], ['?']])
    if not d: return
    lit = any('$' in str(hiid(x)) for x in c + d)
    hc, hd = hiid('.'.join(c)), hiid('.'.join(d)); w = match([norm1(x) for x in c], [norm1(x) for x in d])
    if lit and ('?' in c or '?' in d): return     # a literal takes several places
    ctx.seen(('match', w, tuple('*' if x == '*' else '?' if x == '?' else 'n' for x in c), tuple('*' if x == '*' else '?' if x == '?' else 'n' for x in d)))
    ctx.check(bool(hc.matches(hd)) == w and bool(hd.matches(hc)) == w, 'match', lambda: (c, d, 'want', w, hc.matches(hd), hd.matches(hc)))
    ctx.check((hc == hd) == ([norm1(x) for x in c] == [norm1(x) for x in d]), 'equal', lambda: (c, d))
    ctx.check(hd.startswith(hc) == ([norm1(x) for x in d][:len(c)] == [norm1(x) for x in c]), 'startswith', lambda: (c, d))
GROUPS = [('convert', 4000, 150000, convert), ('recops', 2500, 60000, recops), ('hiids', 3000, 60000, hiids)]

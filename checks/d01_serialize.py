"""Objects survive serialization (blocks, BOIO files), and truncated files give the objects that are complete, then a clean end or an error."""
import os, tempfile
from vf.forest import *
PROPERTY = 'D01'; LEVEL = 'exploration'
RULE = ('random objects of every kind (numeric scalars and arrays of all supported element types and ranks, strings, ids, vectors, lists, records, MEQ requests, cells, results, funklets, messages) written to block sets and files, '
        'read back lazily or fully, re-serialized, appended to; files truncated at every byte; distinct by (kinds present, number of objects, form) and by the structural place of the truncation')
DT = ['i4', 'f4', 'f8', 'c8', 'c16', '?']
def arr(rng):
    nd = rng.choice([1, 1, 2, 3, 4, 6]); shp = tuple(rng.choice([1, 2, 3, 4]) for _ in range(nd))
    if shp == (1,): shp = (2,)
    if rng.random() < .05: shp = (0,) + shp
    dt = np.dtype(rng.choice(DT)); n = int(np.prod(shp))
    if dt.kind == '?b'[1]: a = np.array([rng.random() < .5 for _ in range(n)])
    elif dt.kind in 'iu': a = np.array([rng.randrange(0 if dt.kind == 'u' else -100, 120) for _ in range(n)])
    else:
        a = np.array([rng.choice([rng.uniform(-1e3, 1e3), rng.uniform(-1, 1), 0., float('inf'), float('nan'), -0., 1e-300]) for _ in range(n)])
        if dt.kind == 'c': a = a + 1j * np.array([rng.uniform(-5, 5) for _ in range(n)])
    with np.errstate(all='ignore'): a = a.astype(dt).reshape(shp)
    return np.asfortranarray(a) if rng.random() < .2 else a
def rhiid(rng): return hiid('.'.join(rng.choice(['a', 'B', 'Node', 'x1', '3', '0', '*', '?', 'Foo', '17']) for _ in range(rng.choice([1, 2, 3, 6]))))
def leaf(rng):
    k = rng.randrange(12)
    if k == 0: return rng.choice([0, 1, -1, 2**31 - 1, -2**31, rng.randrange(-1000, 1000)])
    if k == 1: return rng.choice([2**31, -2**31 - 1, 2**40, -2**63, 2**63 - 1])
    if k == 2: return rng.choice([0., -0., 1.5, 1e300, 5e-324, float('inf'), -float('inf'), float('nan'), rng.uniform(-1, 1)])
    if k == 3: return complex(rng.uniform(-1, 1), rng.choice([0., 1., -2.5]))
    if k == 4: return rng.choice(['', 'a', 'hello world', 'x' * rng.choice([10, 1000, 70000]), '\xfc\u20ac', '\n\t"'])
    if k == 5: return rhiid(rng)
    if k == 6: return tuple(rng.randrange(-9, 9) for _ in range(rng.choice([1, 2, 5, 40])))
    if k == 7: return tuple(rng.uniform(-9, 9) for _ in range(rng.choice([1, 2, 5])))
    if k == 8: return tuple(rng.choice(['', 'a', 'bcd', 'e' * 30]) for _ in range(rng.choice([1, 2, 5])))
    if k == 9: return tuple(rhiid(rng) for _ in range(rng.choice([1, 2, 3])))
    return arr(rng)
def obj(rng, d=0, plain=False):
    k = rng.random()
    if d > 3 or k < .4: return leaf(rng)
    if k < .65:
        r = record()
        for _ in range(rng.choice([0, 1, 2, 3, 6])): r[rng.choice(['a', 'b', 'c_d', 'value', 'x1', 'e_f_g', 'h2'])] = obj(rng, d + 1, plain)
        return r
    if k < .75: return dmilist([obj(rng, d + 1, plain) for _ in range(rng.choice([0, 1, 2, 3]))])
    if k < .78: return tuple(arr(rng) for _ in range(rng.choice([1, 2])))
    if k < .81: return tuple(record(a=leaf(rng)) for _ in range(rng.choice([1, 2, 3])))
    if k < .84: return message(rhiid(rng), payload=obj(rng, d + 1, plain), priority=rng.choice([0, 1, -1]))
    if plain: return leaf(rng)
    nt = rng.choice([1, 3]); c = cells(nt, rng.choice([1, 4]), f1=rng.choice([1., 2.]))
    if k < .87: return c
    if k < .90: return request(c if rng.random() < .7 else None, dom=rng.randrange(9))
    if k < .95: return mkresult([mkvellset(np.array([rng.uniform(-1, 1) for _ in range(rng.choice([1, nt]))]), flags=np.array([1, 0, 2][:nt]) if rng.random() < .4 else None,
                                          **(dict(spids=[1, 4], perts=[.1, .2], pvals=[np.zeros(1), np.ones(nt)]) if rng.random() < .4 else {})) for _ in range(rng.choice([1, 2, 4]))], c)
    return meq.polc(np.array([rng.uniform(-1, 1) for _ in range(4)]).reshape((2, 2)), domain=meq.domain(0, 1, 0, 1) if rng.random() < .5 else None)
def same_obj(a, b):
    """b is what a must come back as"""
    if isinstance(a, record):
        return type(a) is type(b) and sorted(a.keys()) == sorted(b.keys()) and all(same_obj(a[k], b[k]) for k in a.keys())
    if isinstance(a, hiid): return isinstance(b, hiid) and tuple(a) == tuple(b)
    if isinstance(a, message):
        return isinstance(b, message) and same_obj(a.msgid, b.msgid) and a.priority == b.priority and same_obj(getattr(a, 'payload', None), getattr(b, 'payload', None))
    if isinstance(a, np.ndarray):
        return type(a) is type(b) and a.dtype == b.dtype and a.shape == b.shape and np.ascontiguousarray(a).tobytes() == np.ascontiguousarray(b).tobytes()
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and isinstance(a, list) == isinstance(b, list) and len(a) == len(b) and all(same_obj(x, y) for x, y in zip(a, b))
    if isinstance(a, float): return isinstance(b, float) and np.float64(a).tobytes() == np.float64(b).tobytes()
    return type(a) is type(b) and a == b
def kinds(x, out):
    out.add(type(x).__name__ + (x.dtype.str[1:] if isinstance(x, np.ndarray) else ''))
    if isinstance(x, record): [kinds(x[k], out) for k in x.keys()]
    elif isinstance(x, (list, tuple)) and not isinstance(x, hiid): [kinds(y, out) for y in x]
    return out
def load(v, rng):
    """a random object in the kernel -> handle, python view; the python->kernel conversion itself is checked first"""
    while 1:
        x = obj(rng)
        if not isinstance(x, (record, list, tuple, message, np.ndarray)): x = record(a=x)
        h = v.dm_new(x)
        return x, h, v.dm_py(h)
def roundtrip(ctx, i, rng):
    v = vdrv; v.dm_drop(0)
    fn = os.path.join(tempfile.mkdtemp(prefix='d01-'), 'f.boio')
    try:
        objs = [load(v, rng) for _ in range(rng.choice([1, 1, 2, 3]))]
        ctx.describe([o[0] for o in objs])
        for x, h, y in objs:
            ks = kinds(y, set())
            for k in ks: ctx.seen(k)
            b = v.dm_blocks(h); g = v.dm_unblock(b)
            if rng.random() < .5: g2 = v.dm_unblock(v.dm_blocks(g))        # before any part of it is unpacked
            else: v.dm_py(g); g2 = v.dm_unblock(v.dm_blocks(g))
            z = v.dm_py(g); z2 = v.dm_py(g2)
            ctx.check(same_obj(y, z) and v.dm_type(h) == v.dm_type(g), 'blocks', lambda: (repr(y)[:300], repr(z)[:300]))
            ctx.check(same_obj(y, z2), 'blocks-twice', lambda: (repr(y)[:300], repr(z2)[:300]))
            ctx.check(same_obj(y, v.dm_py(h)), 'original-changed', lambda: (repr(y)[:300],))
            ctx.seen(('blocks', tuple(sorted(ks))))
        n = rng.randrange(len(objs) + 1)
        hs = [h for x, h, y in objs]
        v.dm_fwrite(fn, hs[:n]); v.dm_fwrite(fn, hs[n:], 1)
        got, err = v.dm_fread(fn)
        ctx.check(not err and len(got) == len(hs), 'file-count', lambda: (err, len(got), len(hs)))
        for (x, h, y), g in zip(objs, got): z = v.dm_py(g); ctx.check(same_obj(y, z), 'file', lambda: (repr(y)[:300], repr(z)[:300]))
        ctx.seen(('file', len(hs), n))
    finally:
        os.path.exists(fn) and os.unlink(fn); os.rmdir(os.path.dirname(fn)); v.dm_drop(0)
def truncate(ctx, i, rng):
    """a writer that died: the file ends at an arbitrary byte"""
    v = vdrv; v.dm_drop(0)
    d = tempfile.mkdtemp(prefix='d01-'); fn = d + '/f'
    try:
        objs = []
        while len(objs) < rng.choice([2, 3, 4]):
            o = load(v, rng)
            if len(repr(o[2])) < 3000: objs.append(o)
        offs = v.dm_fwrite(fn, [h for x, h, y in objs]); data = open(fn, 'rb').read()
        ctx.describe(([o[0] for o in objs], offs))
        if not ctx.check(offs[-1] == len(data), 'size', lambda: (offs, len(data))): return
        cuts = range(len(data)) if len(data) < 400 else sorted(set([x for o in [0] + offs for x in range(o - 30, o + 60) if 0 <= x < len(data)] + [rng.randrange(len(data)) for _ in range(200)]))
        for cut in cuts:
            open(fn, 'wb').write(data[:cut])
            base = max(g for g in [0] + objs_handles(objs))
            got, err = v.dm_fread(fn); n = sum(1 for o in offs if o <= cut); atb = cut in [0] + offs; start = max([0] + [o for o in offs if o <= cut])
            if not ctx.check(len(got) == n, 'truncated-count', lambda: (cut, offs, 'objects', len(got), 'want', n, err)): return
            if not ctx.check(not err.startswith('harness'), 'object-after-end', lambda: (cut, offs, err)): return
            if not ctx.check(not (atb and err), 'error-at-clean-end', lambda: (cut, offs, err)): return
            for (x, h, y), g in zip(objs, got):
                if not ctx.check(same_obj(y, v.dm_py(g)), 'truncated-value', lambda: (cut, repr(y)[:300], repr(v.dm_py(g))[:300])): return
            for g in got: v.dm_drop(g)
            ctx.seen(('cut', n, 'boundary' if atb else cut - start if cut - start < 40 else 'data', bool(err)))
    finally:
        os.path.exists(fn) and os.unlink(fn); os.rmdir(d); v.dm_drop(0)
def objs_handles(objs): return [h for x, h, y in objs]
GROUPS = [('roundtrip', 4000, 120000, roundtrip), ('truncate', 160, 3000, truncate)]

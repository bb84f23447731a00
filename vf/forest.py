"""In-process forest builder over vdrv (the real MEQ kernel linked into this process)."""
import itertools, os
import numpy as np
if not os.environ.get('VF_META'):   # the orchestrator only reads a check's metadata
    import vdrv
    from Timba import dmi
    from Timba.dmi import *
    from Timba.Meq import meq

class Forest:
    """F.node(cls,name,children,**state) -> index; nodes are created in the order given (children first)"""
    def __init__(self):
        vdrv.forest_new()
        self.n = 0; self.recs = {}; self.by_name = {}; self.inited = False
    def node(self, cls, name, children=None, step_children=None, **kw):
        r = record(**kw)
        r['class'] = cls; r.name = name
        self.n += 1
        idx = self.n
        r.nodeindex = idx
        if children:
            if isinstance(children, dict):
                r.children = record(**{k: self.ix(v) for k, v in children.items()})
            else:
                r.children = [self.ix(c) for c in children]
        if step_children:
            r.step_children = [self.ix(c) for c in step_children]
        self.recs[idx] = r; self.by_name[name] = idx
        return idx
    def ix(self, c): return c if isinstance(c, int) else self.by_name[c]
    def build(self):
        parents = {}
        for i, r in self.recs.items():
            for f in ('children', 'step_children'):
                ch = r.get(f)
                if ch is None: continue
                for c in (ch.values() if isinstance(ch, record) else ch):
                    c = c[1] if isinstance(c, tuple) else c
                    parents.setdefault(int(c), []).append(i)
        for i, r in self.recs.items():
            if i in parents: r.parents = sorted(set(parents[i]))
        for i, r in self.recs.items():
            j = vdrv.create(r)
            assert j == i, (i, j)
        vdrv.init_all()
        return self
    def execute(self, node, req, depth=0):
        return vdrv.execute(self.ix(node), req, depth)
    def clear(self, node, rec=1): vdrv.clear_cache(self.ix(node), rec)
    def state(self, node): return vdrv.get_state(self.ix(node))
    def set_state(self, node, **kw): vdrv.set_state(self.ix(node), record(**kw))

_dom = itertools.count(1)
def domain(t0=0., t1=1., f0=0., f1=1., **kw):
    return meq.gen_domain(time=(t0, t1), freq=(f0, f1), **kw)
def cells_n(gs):
    """cells over len(gs) axes (time, freq, 2, 3...)"""
    ax = ['time', 'freq'] + [str(i) for i in range(2, len(gs))]
    return meq.gen_cells(meq.gen_domain(**{a: (float(i), float(i + n)) for i, (a, n) in enumerate(zip(ax, gs))}),
                         **{'num_' + a: n for a, n in zip(ax, gs)})
def cells(nt=1, nf=1, t0=0., t1=1., f0=0., f1=1.):
    return meq.gen_cells(meq.gen_domain(time=(t0, t1), freq=(f0, f1)), num_time=nt, num_freq=nf)
def request(c=None, rqtype='ev', dom=None, ds=0, **kw):
    r = record(**kw)
    rq = meq.request(c, rqtype=rqtype) if c is not None else meq.request(rqtype=rqtype)
    if dom is None: dom = next(_dom)
    rq.request_id = make_hiid(['%s' % rqtype, 0, 0, 0, dom, ds]) if False else hiid(rqtype, 0, 0, 0, dom, ds)
    for k, v in kw.items(): rq[k] = v
    return rq

RES = dict(UPDATED=0x01 << 16, MISSING=0x04 << 16, WAIT=0x20 << 16, ABORT=0x40 << 16, FAIL=0x80 << 16)

def vellsets(res):
    vs = res.get('vellsets')
    if vs is None: return []
    return list(vs)
def value(vs):
    v = vs.get('value')
    return None if v is None else np.asarray(v)
def flags(vs):
    f = vs.get('flags')
    return None if f is None else np.asarray(f)
def is_fail(vs): return 'fail' in vs

def pad(a, nd):
    """MeqTrees broadcasting appends trailing axes"""
    a = np.asarray(a)
    if a.ndim == 0: a = a.reshape((1,))
    return a.reshape(a.shape + (1,) * (nd - a.ndim)) if a.ndim < nd else a
def bcast(*arrs):
    nd = max(max(np.asarray(a).ndim, 1) for a in arrs)
    return [pad(a, nd) for a in arrs]
def same(a, b, rtol=1e-9, atol=0.):
    """a, b equal as functions on the grid: shapes broadcast against each other; NaN==NaN, inf==inf"""
    a, b = bcast(a, b)
    try: a, b = np.broadcast_arrays(a, b)
    except ValueError: return False
    if a.size == 0: return True
    with np.errstate(all='ignore'):
        def cmp(x, y):
            fx, fy = np.isfinite(x), np.isfinite(y)
            if (fx != fy).any(): return False
            ok = np.isclose(x, y, rtol=rtol, atol=atol) | ~fx
            nf = ~fx
            ok[nf] = ((x[nf] == y[nf]) | (np.isnan(x[nf]) & np.isnan(y[nf])))
            return ok.all()
        if np.iscomplexobj(a) or np.iscomplexobj(b):
            # complex non-finite patterns vary; compare only where both parts are finite
            fin = np.isfinite(a.real) & np.isfinite(a.imag) if np.iscomplexobj(a) else np.isfinite(a)
            fin2 = np.isfinite(b.real) & np.isfinite(b.imag) if np.iscomplexobj(b) else np.isfinite(b)
            if (fin != fin2).any(): return False
            return bool(np.isclose(a[fin], b[fin], rtol=rtol, atol=atol).all())
        return bool(cmp(a.astype(float), b.astype(float)))

# ---- building results for VfSource leaves ----
def mkvells(a):
    a = np.ascontiguousarray(a)
    if a.ndim == 0: a = a.reshape((1,))
    t = {'f': np.float64, 'c': np.complex128, 'i': np.int32, 'b': np.int32}[a.dtype.kind]
    a = a.astype(t)
    return meq._vells(a.shape, t, a)
def mkvellset(value=None, flags=None, spids=None, perts=None, pvals=None, fail=None, perts1=None, pvals1=None):
    r = record()
    if fail is not None:
        r.fail = dmilist([record(message=fail, type='Fail', object='vf', lineno=1, filename='vf')]); return meq._vellset_type(r)
    if value is not None: r.value = mkvells(value)
    if flags is not None: r.flags = mkvells(np.asarray(flags).astype(np.int32))
    if spids:
        r.spid_index = tuple(int(s) for s in spids); r.perturbations = tuple(float(p) for p in perts)
        r.perturbed_value = tuple(mkvells(p) for p in pvals)
        if pvals1:
            r.perturbations_1 = tuple(float(p) for p in perts1); r.perturbed_value_1 = tuple(mkvells(p) for p in pvals1)
    return meq._vellset_type(r)
def mkresult(vss, c=None, dims=None):
    r = record()
    shaped = any(np.asarray(v.get('value', 0)).size > 1 or np.asarray(v.get('flags', 0)).size > 1 or
                 any(np.asarray(p).size > 1 for p in v.get('perturbed_value', ())) for v in vss)
    if shaped: r.cells = c
    r.vellsets = tuple(vss)
    if dims: r.dims = tuple(int(d) for d in dims)
    return meq._result_type(r)

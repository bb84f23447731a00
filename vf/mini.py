"""Reference model of function-node arithmetic on gridded tensors, and a random DAG generator.
A model result is R(dims, [VS...]); VS holds value, flags, perturbed values keyed by spid."""
import math
import numpy as np
from . import forest as FR
from .forest import *

FULL = -1
class Reject(Exception): pass

class VS:
    __slots__ = ('v', 'f', 'p', 'mag')
    def __init__(self, v=None, f=None, p=None, mag=None):
        self.v = v            # ndarray or None (missing)
        self.f = f            # int ndarray or None
        self.p = p or {}      # spid -> [(pert, ndarray), ...]
        self.mag = mag if mag is not None else (mx(v) if v is not None else 0.)
    def isnull(self): return self.v is None or (self.v.size == 1 and abs(self.v.reshape(-1)[0]) < 1e-9)
class R:
    __slots__ = ('dims', 'vs', 'missing', 'pure')
    def __init__(self, dims, vs): self.pure = True; self.dims = tuple(dims) if len(vs) > 1 else (); self.vs = vs; self.missing = all(x.v is None for x in vs)
    def rank(self): return len(self.dims)

def MISSING(): return R((), [VS()])
def mx(a): return float(np.max(np.abs(a))) if np.asarray(a).size else 0.
def arr(x):
    x = np.asarray(x)
    if x.ndim == 0: x = x.reshape((1,))
    return x.astype(complex) if np.iscomplexobj(x) else x.astype(float)
LIM = 1e6
def ok(a):
    if not np.isfinite(a).all() or mx(a) > LIM: raise Reject('range')
    return a
def B(*a):
    """broadcast with trailing-axis padding"""
    nd = max(x.ndim for x in a)
    return [pad(x, nd) for x in a]
def bor(a, b):
    if a is None: return b
    if b is None: return a
    a, b = B(a, b); return a | b
def full(a, shape):
    return np.broadcast_to(pad(a, len(shape)), shape)

# ---- pointwise math (oracle: numpy) ----
def nocut(x):
    if np.iscomplexobj(x):
        if ((np.abs(x.imag) < 1e-9) & (x.real <= 0)).any(): raise Reject('cut')
    return x
def domain_ok(c):
    if not np.all(c): raise Reject('domain')
def u_tan(x):
    r = np.tan(x)
    domain_ok(np.abs(r) < 1e3); return r
def u_log(x):
    nocut(x); domain_ok(np.abs(x) > 1e-6)
    if not np.iscomplexobj(x): domain_ok(x > 0)
    return np.log(x)
def u_sqrt(x):
    nocut(x)
    if not np.iscomplexobj(x): domain_ok(x >= 0)
    domain_ok(np.abs(x) > 1e-6)
    return np.sqrt(x)
def u_exp(x): domain_ok(np.real(x) < 12); return np.exp(x)
def u_sinh(x): domain_ok(np.abs(np.real(x)) < 12); return np.sinh(x)
def u_cosh(x): domain_ok(np.abs(np.real(x)) < 12); return np.cosh(x)
def u_tanh(x):
    r = np.tanh(x); domain_ok(np.abs(r) < 1e3); return r
def u_inv(x): domain_ok(np.abs(x) > 1e-3); return 1 / x
def u_asin(x): domain_ok(np.abs(x) < .999); return np.arcsin(x)
def u_acos(x): domain_ok(np.abs(x) < .999); return np.arccos(x)
def away(x): domain_ok(np.abs(x - np.round(x)) > 1e-5); return x
def u_floor(x): return np.floor(away(x))
def u_ceil(x): return np.ceil(away(x))
def u_arg(x): domain_ok(np.abs(x) > 1e-6); return np.angle(nocut(x))
def u_abs(x): return np.abs(x)
def u_cplxangle(x): return x
ANY, REAL, CPLX = 'any', 'real', 'cplx'
UNARY = {
 'MeqSin': (ANY, lambda x: np.sin(small(x))), 'MeqCos': (ANY, lambda x: np.cos(small(x))), 'MeqTan': (ANY, u_tan),
 'MeqExp': (ANY, u_exp), 'MeqLog': (ANY, u_log), 'MeqSqrt': (ANY, u_sqrt), 'MeqSqr': (ANY, lambda x: x * x),
 'MeqNegate': (ANY, lambda x: -x), 'MeqInvert': (ANY, u_inv), 'MeqConj': (ANY, np.conj), 'MeqAbs': (ANY, u_abs),
 'MeqFabs': (ANY, u_abs), 'MeqReal': (ANY, np.real), 'MeqImag': (ANY, np.imag), 'MeqArg': (ANY, u_arg),
 'MeqSinh': (ANY, u_sinh), 'MeqCosh': (ANY, u_cosh), 'MeqTanh': (ANY, u_tanh),
 'MeqPow2': (ANY, lambda x: x ** 2), 'MeqPow3': (ANY, lambda x: x ** 3), 'MeqPow4': (ANY, lambda x: x ** 4),
 'MeqPow5': (ANY, lambda x: x ** 5), 'MeqPow6': (ANY, lambda x: x ** 6), 'MeqPow7': (ANY, lambda x: x ** 7),
 'MeqPow8': (ANY, lambda x: x ** 8), 'MeqAsin': (REAL, u_asin), 'MeqAcos': (REAL, u_acos), 'MeqAtan': (REAL, np.arctan),
 'MeqFloor': (REAL, u_floor), 'MeqCeil': (REAL, u_ceil),
}
def small(x):
    domain_ok(np.abs(np.imag(x)) < 12); domain_ok(np.abs(x) < 1e4); return x
def b_div(a, b): domain_ok(np.abs(b) > 1e-3); a, b = B(a, b); return a / b
def b_pow(a, b):
    nocut(a); domain_ok(np.abs(a) > 1e-3); domain_ok(np.abs(b) < 6)
    if not np.iscomplexobj(a) and not np.iscomplexobj(b): domain_ok(a > 0)
    a, b = B(a, b); return np.power(a, b)
def b_tocomplex(a, b): a, b = B(a, b); return a + 1j * b
def b_polar(a, b): domain_ok(np.abs(b) < 1e4); a, b = B(a, b); return a * np.exp(1j * b)
def b_atan2(a, b):
    a, b = B(a, b); domain_ok(np.abs(a) > 1e-6); return np.arctan2(a, b)
def b_fmod(a, b):
    domain_ok(np.abs(b) > 1e-3); a, b = B(a, b); q = a / b; away(q); return np.fmod(a, b)
BINARY = {'MeqDivide': (ANY, b_div), 'MeqPow': (ANY, b_pow), 'MeqToComplex': (REAL, b_tocomplex),
          'MeqPolar': (REAL, b_polar), 'MeqAtan2': (REAL, b_atan2), 'MeqFMod': (REAL, b_fmod)}
def n_add(xs):
    r = xs[0]
    for x in xs[1:]: r, x = B(r, x); r = r + x
    return r
def n_mul(xs):
    r = xs[0]
    for x in xs[1:]: r, x = B(r, x); r = r * x
    return r
def n_sub(xs):
    r = xs[0]
    for x in xs[1:]: r, x = B(r, x); r = r - x
    return r
NARY = {'MeqAdd': (ANY, n_add), 'MeqMultiply': (ANY, n_mul), 'MeqSubtract': (ANY, n_sub)}
ALLOW_MISSING = ('MeqAdd', 'MeqMultiply')

def spids_of(vss):
    """spid -> list of perturbations, in order"""
    out = {}
    for x in vss:
        if x is None: continue
        for s, l in x.p.items(): out.setdefault(s, [p for p, _ in l])
    return dict(sorted(out.items()))
def perturb(vss, fn):
    """perturbed values of fn(list of arrays) over children vss (None = missing)"""
    out = {}
    for s, perts in spids_of(vss).items():
        l = []
        for k, pt in enumerate(perts):
            xs = [None if x is None else (x.p[s][k][1] if s in x.p else x.v) for x in vss]
            l.append((pt, ok(arr(fn(xs)))))
        out[s] = l
    return out
def orflags(vss, masks):
    out = None
    for x, m in zip(vss, masks):
        if x is not None and not x.isnull() and x.f is not None and m: out = bor(out, x.f & m)
    return out

def pointwise(children, fn, masks, allow_missing=False):
    """plane-by-plane function node; children: list of R"""
    if any(c.missing for c in children) and not allow_missing: return MISSING()
    dims = children[0].dims
    for c in children[1:]:
        if c.rank():
            if not dims: dims = c.dims
            elif c.dims != dims: raise Reject('dims')
    n = int(np.prod(dims)) if dims else 1
    vs = []
    for i in range(n):
        ch = [c.vs[i] if c.rank() else c.vs[0] for c in children]
        ch = [None if c.v is None else c for c in ch]
        miss = sum(c is None for c in ch)
        if miss and (miss == len(ch) or not allow_missing): vs.append(VS()); continue
        f2 = (lambda xs: fn([x for x in xs if x is not None])) if miss else fn
        m = max(c.mag for c in ch if c is not None)
        v = ok(arr(f2([None if c is None else c.v for c in ch])))
        vs.append(VS(v, orflags(ch, masks), perturb(ch, f2), max(m, mx(v))))
    return R(dims, vs)

# ---- comparison with kernel results ----
def tol(vs): return 1e-9 * max(vs.mag, 1.) * 10
def from_kernel(res):
    dims = res.get('dims')
    vss = vellsets(res)
    if dims is None: dims = (len(vss),) if len(vss) > 1 else ()
    else: dims = tuple(int(d) for d in np.asarray(dims).reshape(-1))
    if len(vss) == 1: dims = ()
    return dims, vss
def seq(x): return [x[i] for i in range(len(x))] if not np.isscalar(x) else [x]
def kperts(vs):
    """spid -> [(pert,val)..]"""
    sp = vs.get('spid_index')
    if sp is None: return {}
    sp = [int(s) for s in np.asarray(sp).reshape(-1)]
    out = {s: [] for s in sp}
    k = 0
    while True:
        sfx = '' if k == 0 else '_%d' % k
        p = vs.get('perturbations' + sfx); pv = vs.get('perturbed_value' + sfx)
        if p is None: break
        p = [float(x) for x in np.asarray(p).reshape(-1)]
        pv = list(pv) if pv is not None else [None] * len(sp)
        for s, a, b in zip(sp, p, pv): out[s].append((a, None if b is None else np.asarray(b)))
        k += 1
    return out
def flags_equal(a, b):
    a = np.zeros((1,), int) if a is None else np.asarray(a)
    b = np.zeros((1,), int) if b is None else np.asarray(b)
    a, b = B(arr_i(a), arr_i(b))
    try: a, b = np.broadcast_arrays(a, b)
    except ValueError: return False
    return bool((a == b).all())
def arr_i(a): return a.reshape((1,)) if a.ndim == 0 else a

# ---- random leaves ----
class Gen:
    """builds a random forest; keeps model results of every node"""
    def __init__(self, rng, nt=None, nf=None, perts=0.4, flags=0.4, npset=None, complexity=1.0):
        self.rng = rng; self.np = np.random.RandomState(rng.randrange(1 << 30))
        self.nt = nt or rng.choice([1, 2, 3, 4, 5, 7]); self.nf = nf or rng.choice([1, 2, 3, 4, 6])
        self.gs = (self.nt, self.nf)
        if nt is None and rng.random() < .3:
            self.gs += tuple(rng.choice([1, 2, 3]) for _ in range(rng.choice([1, 1, 2])))
        self.c = cells(self.nt, self.nf, 0., float(self.nt), 1., 1. + self.nf) if len(self.gs) == 2 else cells_n(self.gs)
        self.F = Forest(); self.nodes = []; self.model = {}; self.desc = []
        self.pperts = perts; self.pflags = flags
        self.npset = npset or rng.choice([1, 1, 2])
        self.pert = {}
        self.k = 0
    def shape(self):
        r = self.rng.random()
        nt, nf = self.nt, self.nf
        if len(self.gs) > 2 and r < .7:
            s = tuple(n if self.rng.random() < .6 else 1 for n in self.gs)
            if self.rng.random() < .5:
                while len(s) > 1 and s[-1] == 1: s = s[:-1]
            return s
        return self.rng.choice([(1,), (nt,), (nt, 1), (1, nf), (nt, nf), (nt, nf)])
    def subshape(self):
        return self.shape()
    def values(self, shape, kind):
        r = self.np; k = self.rng.random()
        def one():
            if k < .5: return r.uniform(-3, 3, shape)
            if k < .7: return r.uniform(.1, .9, shape)
            if k < .85: return np.round(r.uniform(-4, 4, shape))
            return r.uniform(-30, 30, shape)
        v = one()
        if kind == CPLX: v = v + 1j * one()
        return v
    def vs(self, kind=None, missing=0.):
        rng = self.rng
        if rng.random() < missing: return VS()
        kind = kind or rng.choice([REAL, REAL, CPLX])
        v = self.values(self.shape(), kind)
        f = None
        if rng.random() < self.pflags:
            f = self.np.choice([0, 0, 0, 1, 2, 3, 4, 7, 0x40, -1 & 0x7fffffff], size=self.shape())
            if rng.random() < .1: f = np.zeros(f.shape, int) + rng.choice([1, 2, 6])
        p = {}
        if rng.random() < self.pperts:
            for s in sorted(rng.sample(range(1, 9), rng.choice([1, 1, 2, 3]))):
                pts = self.pert.setdefault(s, [round(rng.uniform(.01, .5), 4) * (1, -1)[k] for k in range(self.npset)])
                p[s] = [(pts[k], arr(v + self.values(rng.choice([v.shape, v.shape, (1,)]), kind) * .1)) for k in range(self.npset)]
        return VS(arr(v), f, p)
    def leaf(self, dims=None, kind=None, missing=0.):
        rng = self.rng
        if dims is None:
            dims = rng.choice([(), (), (), (2, 2), (2,), (3,), (2, 3)])
        n = int(np.prod(dims)) if dims else 1
        r = R(dims, [self.vs(kind, missing) for _ in range(n)])
        return self.addleaf(r)
    def addleaf(self, r):
        vss = []
        for x in r.vs:
            sp = sorted(x.p)
            vss.append(mkvellset(x.v, x.f, sp, [x.p[s][0][0] for s in sp], [x.p[s][0][1] for s in sp],
                                 perts1=[x.p[s][1][0] for s in sp] if self.npset > 1 and sp else None,
                                 pvals1=[x.p[s][1][1] for s in sp] if self.npset > 1 and sp else None))
        res = mkresult(vss, self.c, r.dims if len(r.dims) > 1 else None)
        name = 'l%d' % self.k; self.k += 1
        self.F.node('vfsource', name, vf_result=res, **(dict(vf_code=RES['MISSING']) if r.missing else {}))
        self.nodes.append(name); self.model[name] = r
        self.desc.append((name, r.dims, [None if x.v is None else (x.v.shape, x.v.dtype.kind, x.f is not None and x.f.shape, sorted(x.p)) for x in r.vs]))
        return name
    def op(self, cls, children, r, **kw):
        # a literal scalar zero is 'null' to the kernel, which may ignore flags next to it: not specified
        pl = [x for c in children for x in self.model[c].vs if x.v is not None]
        if any(x.isnull() for x in pl) and any(x.f is not None for x in pl): raise Reject('null')
        # a complex constant 0 or 1 is dropped from a sum or product, which may then be real-valued: not specified
        if cls in ('MeqAdd', 'MeqMultiply', 'MeqMatrixMultiply') and any(x.v.size == 1 and np.iscomplexobj(x.v) and min(abs(x.v.flat[0]), abs(x.v.flat[0] - 1)) < 1e-9 for x in pl): raise Reject('complex unity')
        # a single plane picked out of (or composed into) a tensor may count as a scalar or as a 1-vector: not specified
        rs = [self.model[c] for c in children]
        if not all(x.pure for x in rs) and (any(len(x.vs) > 1 for x in rs) or cls in ('MeqMatrixInvert22', 'MeqTranspose')): raise Reject('1-vector')
        r.pure = len(r.vs) > 1 or (all(x.pure and len(x.vs) == 1 for x in rs) and cls not in ('MeqComposer', 'MeqSelector', 'MeqPatchComposer'))
        name = 'n%d' % self.k; self.k += 1
        self.F.node(cls, name, children, **kw)
        self.nodes.append(name); self.model[name] = r
        self.desc.append((name, cls, children, kw))
        return name
    def iscplx(self, n): return any(x.v is not None and np.iscomplexobj(x.v) or any(np.iscomplexobj(v) for l in x.p.values() for _, v in l) for x in self.model[n].vs)
    def masks(self, n):
        """flag_mask state field and effective masks"""
        r = self.rng.random()
        if r < .6: return {}, [FULL] * n
        if r < .7: return dict(flag_mask=0), [0] * n
        if r < .75: return dict(flag_mask=-1), [FULL] * n
        if r < .87: m = self.rng.choice([1, 2, 3, 6]); return dict(flag_mask=m), [m] * n
        ms = [self.rng.choice([0, -1, 1, 2, 5]) for _ in range(n)]
        if n == 1: ms = [self.rng.choice([1, 2, 5])]
        return dict(flag_mask=ms), ms
    def pick(self, k=1, cond=None):
        c = [n for n in self.nodes if cond is None or cond(n)]
        if not c: raise Reject('none')
        return [self.rng.choice(c) for _ in range(k)]
    def random_op(self, extra=()):
        rng = self.rng
        kind = rng.choice(['u', 'u', 'u', 'b', 'b', 'n', 'n'] + list(extra))
        if kind == 'u':
            cls = rng.choice(sorted(UNARY)); t, fn = UNARY[cls]
            ch = self.pick(1, (lambda n: not self.iscplx(n)) if t == REAL else None)
            kw, m = self.masks(1)
            return self.op(cls, ch, pointwise([self.model[ch[0]]], lambda xs: fn(xs[0]), m), **kw)
        if kind == 'b':
            cls = rng.choice(sorted(BINARY)); t, fn = BINARY[cls]
            ch = self.pick(2, (lambda n: not self.iscplx(n)) if t == REAL else None)
            kw, m = self.masks(2)
            return self.op(cls, ch, pointwise([self.model[c] for c in ch], lambda xs: fn(*xs), m), **kw)
        if kind == 'n':
            cls = rng.choice(sorted(NARY)); t, fn = NARY[cls]
            ch = self.pick(rng.choice([2, 2, 3, 4]))
            kw, m = self.masks(len(ch))
            r = pointwise([self.model[c] for c in ch], fn, m, cls in ALLOW_MISSING)
            if cls == 'MeqMultiply': fixmul(r, [self.model[c] for c in ch])
            return self.op(cls, ch, r, **kw)
        return EXTRA[kind](self)
    def grow(self, n, extra=()):
        tries = 0
        while n and tries < 400:
            tries += 1
            try: self.random_op(extra); n -= 1
            except Reject: pass
        return self
    def request(self, **kw): return request(self.c, dom=self.rng.randrange(1, 1 << 20), **kw)

def fixmul(r, ch):
    """a null factor makes the product null: its flags do not apply"""
    for i, x in enumerate(r.vs):
        if any((c.vs[i] if c.rank() else c.vs[0]).isnull() and (c.vs[i] if c.rank() else c.vs[0]).v is not None for c in ch): x.f = None
EXTRA = {}

ASPECTS = ('structure', 'value', 'flags', 'perturbed')
def compare(ctx, prefix, name, model, code, res, aspects=ASPECTS, cls=''):
    """kernel result of node `name` against the model; reports mismatches of the aspects asked for"""
    tag = '%s:%%s:%s' % (prefix, cls or name)
    if res is None:
        if 'structure' in aspects and model.vs: ctx.violation(tag % 'noresult', (name, code))
        return False
    dims, vss = from_kernel(res)
    good = True
    if len(vss) and all(is_fail(k) for k in vss):
        if 'structure' in aspects: ctx.violation(tag % 'fail', (name, repr([f.get('message') for k in vss for f in seq(k.fail)])[:600]))
        return False
    if len(vss) != len(model.vs) or (len(vss) > 1 and tuple(dims) != tuple(model.dims)):
        if 'structure' in aspects: ctx.violation(tag % 'dims', (name, dims, model.dims, len(vss)))
        return False
    for i, (k, m) in enumerate(zip(vss, model.vs)):
        if is_fail(k):
            if 'structure' in aspects: ctx.violation(tag % 'unexpectedfail', (name, i, repr(k.fail)[:400]))
            good = False; continue
        kv = value(k)
        if (kv is None) != (m.v is None):
            if 'structure' in aspects: ctx.violation(tag % 'missing', (name, i, kv is None, m.v is None))
            good = False; continue
        if m.v is None: continue
        if 'value' in aspects and not same(kv, m.v, 1e-7, tol(m)):
            ctx.violation(tag % 'value', (name, i, kv, m.v)); good = False
        if 'flags' in aspects and not flags_equal(flags(k), m.f):
            ctx.violation(tag % 'flags', (name, i, flags(k), m.f)); good = False
        if 'perturbed' in aspects:
            kp = kperts(k)
            if list(kp) != list(m.p):
                ctx.violation(tag % 'spids', (name, i, list(kp), list(m.p))); good = False; continue
            for s in m.p:
                if len(kp[s]) != len(m.p[s]): ctx.violation(tag % 'npertsets', (name, i, s)); good = False; continue
                for (ka, kb), (ma, mb) in zip(kp[s], m.p[s]):
                    if abs(ka - ma) > 1e-12: ctx.violation(tag % 'perturbation', (name, i, s, ka, ma)); good = False
                    if kb is None or not same(kb, mb, 1e-7, tol(m)): ctx.violation(tag % 'pertvalue', (name, i, s, kb, mb)); good = False
    return good

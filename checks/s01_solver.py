"""Solver: reaches the weighted least-squares optimum of the unflagged equations, and parameters receive exactly their own increments."""
from vf.forest import *
from checks.s02_parm import Poly, mkfunk, defmask
PROPERTY = 'S01'; LEVEL = 'exploration'
RULE = ('random linear systems of condition equations over polynomial parameters: real and complex data, flags and masks, weights, invalid and missing data, failing equations, parameters tiled differently along each axis, solve groups, single and double '
        'derivatives, one and several threads, successive domains, with and without the last update; distinct by (tilings, shapes, number of unknowns, derivative mode, data type, flags, weights, threads)')
CASE_TIMEOUT = 90; FLAVOURS = ['asan', 'tsan']
import os; FL = os.environ.get('VF_FLAVOUR', 'asan')
NW = [1, 2, 3, 4, 6, 2, 5, 3]; started = []
def setup(ctx, rng, mode):
    q = type('Q', (), {})()
    q.nt, q.nf = rng.choice([(1, 3), (4, 1), (4, 3), (5, 4), (6, 6), (8, 4)])
    q.np = rng.choice([1, 1, 2, 3])
    q.groups = [0] * q.np if mode != 'groups' else [rng.randrange(2) for _ in range(q.np)]
    q.tens = rng.choice([1, 1, 1, 2])
    q.P = []
    common = rng.choice([(1, 0), (2, 0), (0, 2), (2, 2)])
    for k in range(q.np):
        p = type('P', (), {})(); p.shape = rng.choice([(1, 1), (1, 1), (2, 1), (1, 2), (2, 2), (3, 1)])
        p.tiling = (0, 0) if mode == 'plain' else common if rng.random() < .3 else rng.choice([(0, 0), (1, 0), (2, 0), (3, 0), (0, 1), (0, 2), (1, 1), (2, 1), (1, 2), (2, 2), (4, 2)])
        p.c = np.array([rng.uniform(-2, 2) for _ in range(int(np.prod(p.shape)))]).reshape(p.shape); p.mask = defmask(p.shape); p.c = np.where(p.mask, p.c, 0.)
        q.P.append(p)
    q.neq = rng.choice([1, 2, 3, 5]) + (q.np if rng.random() < .7 else 0)
    return q
def tiles(q, p):
    tt = p.tiling[0] or q.nt; tf = p.tiling[1] or q.nf
    return [(a, min(a + tt, q.nt), b, min(b + tf, q.nf)) for a in range(0, q.nt, tt) for b in range(0, q.nf, tf)]
def case(ctx, i, rng, mode):
    q = setup(ctx, rng, mode); F = Forest()
    cplx = rng.random() < .3; two = rng.random() < .3; mask = rng.choice([-1, -1, 1, 2]); last = rng.random() < .8; usew = rng.random() < .5
    nthr = 1
    if mode == 'threads': nthr = NW[i % 8]; started or (vdrv.mt_start(nthr, 2), started.append(nthr))
    how = rng.choice(['state', 'solvable'])
    fl = rng.choice([0., .2, .5]); bad = rng.choice([0, 0, 0, 1]); iters = rng.choice([30, 30, 30, 1, 2])
    text = ('%s: %dx%d cells, %d equations, tensors %d, parameters %r, complex %s double %s mask %d weights %s flagged %g invalid %d threads %d last update %s, %d iterations' % (mode, q.nt, q.nf, q.neq, q.tens, [(p.shape, p.tiling, g) for p, g in zip(q.P, q.groups)], cplx, two, mask, usew, fl, bad, nthr, last, iters)); ctx.describe(text)
    for k, p in enumerate(q.P):
        st = dict(init_funklet=mkfunk(p.shape, p.c, None, None, None, rng.choice([1e-6, 1e-3]), None, None), node_groups=hiid('Parm'), cache_funklet=True, use_previous=0)
        if any(p.tiling): st['tiling'] = record(**{n: v for n, v in zip(('time', 'freq'), p.tiling) if v})
        if how == 'state': st['solvable'] = True
        if mode == 'groups': st['solve_group'] = 'g%d' % q.groups[k]
        F.node('MeqParm', 'p%d' % k, **st)
    F.node('MeqParm', 'fixed', node_groups=hiid('Parm'), default_value=1.5)
    uses = {}; hasw = {}; ctx.qn = [0]
    def one():
        def arr(): return np.array([rng.uniform(-2, 2) + (1j * rng.uniform(-2, 2) if cplx else 0) for _ in range(q.nt * q.nf)]).reshape(q.nt, q.nf)
        def shaped():
            a = arr(); x = rng.random()
            return a[:1] if x < .15 else a[:, :1] if x < .3 else a
        eqs = []; cond = []; used_p = set()
        dm = (0., 1., 0., 1.) if not rnd or rng.random() < .4 else rng.choice([(1., 2., 0., 1.), (0., 2., 0., 3.), (.25, .5, 0., .5), (3., 4., 5., 7.)])
        cl = cells(q.nt, q.nf, *dm)
        src = (lambda n, r: F.node('vfsource', n, vf_result=r)) if not rnd else (lambda n, r: F.set_state(n, vf_result=r))
        full = lambda a: np.broadcast_to(a, (q.nt, q.nf))
        for e in range(q.neq):
            g = rng.randrange(2) if mode == 'groups' else 0
            if not rnd: uses[e] = [k for k in range(q.np) if q.groups[k] == g and (rng.random() < .8 or e < q.np and k == e % q.np)]; hasw[e] = usew and rng.random() < .8
            use = uses[e]
            used_p |= set(use)
            state = rng.choice(['ok'] * 8 + ['fail', 'empty']); planes = [dict(data=shaped(), co=[shaped() for _ in use]) for _ in range(q.tens)]
            w = None
            for pl in planes:
                if rng.random() < .5 and fl: pl['flags'] = np.array([rng.choice([0, 0, 1, 2, 3]) if rng.random() < fl * 2 else 0 for _ in range(q.nt * q.nf)]).reshape(q.nt, q.nf); z = rng.random(); pl['flags'] = pl['flags'][:1] if z < .15 else pl['flags'][:, :1] if z < .3 else pl['flags']
                if bad and rng.random() < .5: pl['data'] = full(pl['data']).copy(); pl['data'][rng.randrange(q.nt), rng.randrange(q.nf)] = rng.choice([np.nan, np.inf])
            if hasw[e]: w = np.array([rng.choice([0., 1., 1., 2., .25, -1.]) for _ in range(q.nt * q.nf)]).reshape(q.nt, q.nf)
            dims = [q.tens] if q.tens > 1 else None
            src('d%d' % e, mkresult([mkvellset(pl['data'], flags=pl.get('flags')) if state == 'ok' else mkvellset(fail='broken') if state == 'fail' else mkvellset() for pl in planes], cl, dims=dims))
            terms = []
            for j, k in enumerate(use):
                src('c%d_%d' % (e, j), mkresult([mkvellset(pl['co'][j]) for pl in planes], cl, dims=dims))
                if not rnd: F.node('MeqMultiply', 't%d_%d' % (e, j), ['c%d_%d' % (e, j), 'p%d' % k])
                terms.append('t%d_%d' % (e, j))
            terms.append('fixed')
            if not rnd: F.node('MeqAdd', 'm%d' % e, terms)
            ch = ['d%d' % e, 'm%d' % e]
            if rng.random() < .5: ch.reverse()
            if w is not None: src('w%d' % e, mkresult([mkvellset(w)], cl)); ch.append('w%d' % e)
            if not rnd: F.node('MeqCondeq', 'q%d' % e, ch); cond.append('q%d' % e)
            if state == 'ok':
                for pl in planes:
                    f = full(pl.get('flags', np.zeros((1, 1), int))); ok = ((f & mask) == 0) & np.isfinite(full(pl['data']))
                    ww = full(w if w is not None else np.ones((1, 1))); ok = ok & (ww > 0)
                    if use: eqs.append((use, [full(c) for c in pl['co']], full(pl['data']) - 1.5, ww, ok))
        if not rnd:
            ss = dict(num_iter=iters, epsilon=1e-8, epsilon_deriv=1e-8, last_update=last, eval_mode=2 if two else 1, flag_mask=mask, mt_solve=nthr > 1, debug_level=rng.choice([0, 0, 0, 3]), convergence_quota=1.)
            if rng.random() < .3: ss['lm_factor'] = rng.choice([1e-3, 1., 1e-6])
            if how == 'solvable': ss['solvable'] = record(command_by_list=[record(name=['p%d' % k for k in range(q.np)], state=record(solvable=True)), record(state=record(solvable=False))])
            if mode == 'threads': ss['mt_polling'] = rng.random() < .7
            F.node('MeqSolver', 's', cond, **ss); F.build()
        # the least-squares problem
        T = (np.arange(q.nt) + .5) / q.nt; Fq = (np.arange(q.nf) + .5) / q.nf
        cols = []
        for k, p in enumerate(q.P):
            if k not in used_p: continue
            for t, (a, b, c, d) in enumerate(tiles(q, p)):
                for x, y in zip(*np.nonzero(p.mask)):
                    z = np.zeros((q.nt, q.nf)); z[a:b, c:d] = np.outer(T ** x, Fq ** y)[a:b, c:d]; cols.append((k, z))
        A = []; B = []; W = []
        for use, co, data, w, ok in eqs:
            r = np.stack([sum((c for kk, c in zip(use, co) if kk == k), np.zeros(z.shape)) * z for k, z in cols], -1)[ok]
            for part in (np.real, np.imag) if cplx else (np.real,):
                A.append(part(r)); B.append(part(data)[ok]); W.append(w[ok])
        A = np.concatenate(A) if A else np.zeros((0, len(cols))); B = np.concatenate(B) if B else np.zeros(0); W = np.concatenate(W) if W else np.zeros(0)
        s = np.sqrt(W); sv = np.linalg.svd(A * s[:, None], compute_uv=False) if len(B) else np.zeros(1)
        rank_ok = len(B) >= len(cols) and len(sv) and sv[-1] > 1e-2 * sv[0] and sv[0] > 0
        sol = np.linalg.lstsq(A * s[:, None], B * s, rcond=None)[0] if len(B) else np.zeros(len(cols))
        def funcs(x): return [sum((v * z for v, (kk, z) in zip(x, cols) if kk == k), np.zeros((q.nt, q.nf))) if k in used_p else finals[k] for k in range(q.np)]
        dom = next(_dom)
        def ask(node, how='ev', state=ctx.qn):
            state[0] += 1; rq = request(cl, rqtype=how, dom=dom); rq.request_id = hiid(how, 0, state[0], 0, dom, 0); return F.execute(node, rq)
        init = [Poly(p.c)([T, Fq]) for p in q.P]
        if rnd:
            if rng.random() < .3: init = None
            else: init = [np.broadcast_to(np.asarray(value(ask('p%d' % k)[1].vellsets[0]), float), (q.nt, q.nf)) for k in range(q.np)]
        elif rng.random() < .3: ask('p0')
        if not used_p:
            code, res = ask('s'); ctx.count('nothing solvable'); ctx.check(code & 0x80 << 16, 'nosolvables', 'no solvable parameters, but the solver does not fail'); return True
        code, res = ask('s'); ctx.count('solutions')
        ctx.seen((mode, tuple((p.shape, p.tiling) for p in q.P), cplx, two, usew, fl > 0, nthr, iters))
        sr = res.get('solver_result')
        if not ctx.check(sr is not None, 'fail', 'the solver fails: %r' % (res,)): return True
        finals = []
        for k in range(q.np):
            c, r = ask('p%d' % k); v = r.vellsets[0]
            if not ctx.check(not is_fail(v), 'parm', 'parameter fails after solution: %r' % (v,)): return True
            finals.append(np.broadcast_to(np.asarray(value(v), float), (q.nt, q.nf)))
        c, r = ask('fixed'); ctx.check(float(np.ravel(value(r.vellsets[0]))[0]) == 1.5, 'fixed', 'a parameter that is not solvable has changed')
        inc = np.asarray(sr.incremental_solutions, float); nit = int(sr.iterations)
        if not len(B):
            init is None or ctx.check(nit == 0 and all(same(f, g, 1e-9, 1e-9) for f, g in zip(finals, init)), 'noequations', 'parameters change although there are no equations'); ctx.count('no equations'); return True
        nunk = sum(len(tiles(q, p)) * int(p.mask.sum()) for k, p in enumerate(q.P) if k in used_p)
        if not ctx.check(inc.shape == (nit, nunk), 'unknowns', 'increments are %r for %d iterations of %d unknowns' % (inc.shape, nit, nunk)): return True
        # increments of a single subsolver are those of the coefficients, spid by spid
        used = inc if last else inc[:-1]
        if init and dm[1] == 1 and not any(any(p.tiling) for p in q.P) and mode != 'groups':
            j = 0; ctx.count('increments')
            for k, p in enumerate(q.P):
                if k not in used_p: continue
                n = int(p.mask.sum()); tot = used[:, j:j + n].sum(0); j += n
                z = np.zeros(p.shape); z[np.nonzero(p.mask)] = tot
                # coefficients are over the solve domain, [0,1]
                want = init[k] + Poly(z)([T, Fq])
                if not ctx.check(same(finals[k], want, 1e-6, 1e-6), 'increments', 'parameter %d is not its starting value plus the increments of the solver\ngot  %s\nwant %s\nincrements %s' % (k, finals[k].tolist(), want.tolist(), inc.tolist())): return True
        if iters < 30:
            ctx.count('short'); return True
        if not last: return True
        def resid(fn):
            out = []
            for use, co, data, w, ok in eqs:
                r = (data - sum(c * fn[k] for k, c in zip(use, co)))[ok] * np.sqrt(w[ok]); out += list(np.real(r)) + list(np.imag(r))
            return np.array(out)
        best = resid(funcs(sol)); got = resid(finals)
        tol = 1e-5 * max(1., np.linalg.norm(best))
        if not rank_ok:
            ctx.count('singular'); return True
        ctx.count('optima')
        if not ctx.check(bool(sr.converged) or np.abs(inc[-1]).max() < 1e-5, 'convergence', 'well-conditioned linear problem not converged in %d iterations: singular values %s, increments\n%s\n%r' % (nit, sv.tolist(), inc[:].tolist(), sr.get('metrics_array'))): return True
        ctx.check(abs(np.linalg.norm(got) - np.linalg.norm(best)) < tol and all(same(f, g, 1e-4, 1e-4) for f, g in zip(finals, funcs(sol))), 'optimum',
                  'solution is not the weighted least-squares optimum: residual %.9g, optimum %.9g singular values %s\ngot  %s\nwant %s\nflags/weights used: %s' % (np.linalg.norm(got), np.linalg.norm(best), sv.tolist(), [f.tolist() for f in finals], [f.tolist() for f in funcs(sol)], [int(e[4].sum()) for e in eqs]))
        m = sr.get('metrics')
        if m:
            rk = sum(int(x.rank) for x in np.ravel(m[-1]) if isinstance(x, record) or hasattr(x, 'rank'))
        return True
    for rnd in range(rng.choice([1, 1, 2, 3])):
        if rnd: q.nt, q.nf = rng.choice([(1, 3), (4, 1), (4, 3), (5, 4), (6, 6), (2, 2), (q.nt, q.nf)]); ctx.describe(text + '; then %dx%d cells' % (q.nt, q.nf))
        if not one(): return
def plain(ctx, i, rng): case(ctx, i, rng, 'plain')
def tiled(ctx, i, rng): case(ctx, i, rng, 'tiled')
def groups(ctx, i, rng): case(ctx, i, rng, 'groups')
def threads(ctx, i, rng): case(ctx, i, rng, 'threads')
from vf.forest import _dom
if FL == 'tsan': GROUPS = [('threads', 120, 1500, threads)]
else: GROUPS = [('plain', 300, 4000, plain), ('tiled', 500, 6000, tiled), ('groups', 200, 2500, groups), ('threads', 120, 1500, threads)]

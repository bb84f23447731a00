"""Error containment."""
from vf.forest import *
PROPERTY = 'K09'; LEVEL = 'exploration'
RULE = ('random graphs with leaves that throw, return fail results or missing data, and nodes that fail by themselves (incompatible shapes or dimensions), random policies for failed and missing '
        'children, multiplexers that ignore failures of branches they do not select; histories of requests to all nodes with failures switched off and on between requests; distinct by (class, kind of trouble, policies, history step)')
POLS = ['CollectPropagate', 'CollectPropagate', 'AbandonPropagate']
def msgs(res):
    out = []
    for v in (vellsets(res) if res is not None else []):
        if is_fail(v):
            f = v.get('fail')
            for x in (f if isinstance(f, (list, tuple)) else [f]): out.append(str(x.get('message')))
    return out
def history(ctx, i, rng):
    F = Forest(); kind = {}; deps = {}; ch_ = {}; cls = {}; pol = {}; mux = {}; single = {}; odd = {}; now = [0]
    def add(n, c, ch, k, **kw):
        F.node(c, n, ch, cache_policy=rng.choice([-10, -1, 0, 10, 20]), **kw)
        ch_[n] = list(ch or []); cls[n] = c; kind[n] = k
    for k in range(rng.choice([3, 5, 7])):
        n = 'l%d' % k; x = rng.random()
        if x < .3: add(n, 'vfsource', None, 'switch', vf_c=k + 1., vf_throw='boom-%s' % n if rng.random() < .5 else '', **(dict(vf_odd=1, vf_deps=[hiid('domain'), hiid('resolution')]) if rng.random() < .4 else {}))
        elif x < .4: add(n, 'vfsource', None, 'fail', vf_result=mkresult([mkvellset(fail='told-%s' % n)]), vf_code=RES['FAIL'])
        elif x < .5: add(n, 'vfsource', None, 'miss', vf_result=mkresult([mkvellset()], None), vf_code=RES['MISSING'])
        elif x < .6: q = rng.choice([2, 3]); add(n, 'vfsource', None, ('shape', q), vf_result=mkresult([mkvellset(np.arange(float(q)).reshape(q, 1))], cells(q, 1)))
        else: add(n, 'vfsource', None, k + 1., vf_c=k + 1.)
        if kind[n] == 'switch': single[n] = F.recs[F.by_name[n]].vf_throw; odd[n] = 'vf_odd' in F.recs[F.by_name[n]]
    names = list(kind); fn = []
    for k in range(rng.choice([3, 5, 8])):
        n = 'f%d' % k; x = rng.random()
        if x < .55:
            p, q = rng.choice(POLS), rng.choice(POLS + ['Ignore', 'Ignore'])
            ch = [rng.choice(names) for _ in range(rng.choice([1, 2, 3]))]
            add(n, 'MeqAdd', ch, 'add', fail_policy=hiid(p), missing_data_policy=hiid(q)); pol[n] = (p, q)
        elif x < .75:
            ch = [rng.choice(names) for _ in range(rng.choice([2, 3]))]; w = rng.randrange(len(ch))
            add(n, rng.choice(['MeqReqMux', 'MeqReqSeq']), ch, 'mux', result_index=w); mux[n] = w
        else: add(n, 'MeqNegate', [rng.choice(names)], 'neg')
        names.append(n); fn.append(n)
    F.build()
    def model(n):
        """('ok', value) | ('fail', set of messages) | ('miss',) | ('any',): unspecified mixture"""
        k = kind[n]
        if k == 'switch': return ('fail', {'boom-' + n}) if single[n] and (now[0] % 2 or not odd[n]) else ('ok', np.array([[int(n[1:]) + 1.]]))
        if k == 'fail': return ('fail', {'told-' + n})
        if k == 'miss': return ('miss',)
        if isinstance(k, tuple): return ('ok', np.arange(float(k[1])).reshape(k[1], 1))
        if isinstance(k, float): return ('ok', np.array([[k]]))
        if k == 'mux':
            # a multiplexer requires all of its branches to be on compatible grids, selected or not
            if cls[n] == 'MeqReqMux':
                c = [model(x) for x in ch_[n]]
                if any(x[0] == 'skip' for x in c) or len({x[1].shape for x in c if x[0] == 'ok'} - {(1, 1)}) > 1: return ('skip',)
            return model(ch_[n][mux[n]])
        c = [model(x) for x in ch_[n]]
        if any(x[0] == 'skip' for x in c): return ('skip',)
        if any(x[0] == 'any' for x in c): return ('skip' if pol.get(n, ('', ''))[1] == 'Ignore' else 'any',)
        f = [x for x in c if x[0] == 'fail']; m = [x for x in c if x[0] == 'miss']
        ignore = pol.get(n, ('', ''))[1] == 'Ignore'
        if f and m and not ignore: return ('any',)
        if f:
            if pol.get(n, ('',))[0] == 'AbandonPropagate': return ('fail', None, f)
            return ('fail', set().union(*[x[1] or set() for x in f])) if all(x[1] is not None for x in f) else ('fail', None, f)
        if m and not (ignore and len(m) < len(c)): return ('miss',)
        c = [x for x in c if x[0] == 'ok']
        if k == 'neg': return ('ok', -c[0][1])
        # operands on different grids cannot be combined
        return ('fail', set()) if len({x[1].shape for x in c} - {(1, 1)}) > 1 else ('ok', sum(x[1] for x in c))
    st = 0; hist = []
    ctx.describe((list(kind.items()), cls, ch_, pol))
    for step in range(rng.choice([6, 12])):
        if rng.random() < .4 and single:
            n = rng.choice(sorted(single)); single[n] = '' if single[n] else 'boom-' + n
            F.set_state(n, vf_throw=single[n]); st += 100
        n = rng.choice(names if rng.random() < .3 else fn)
        now[0] = dom = rng.randrange(3)
        hist.append((n, st, dom, dict(single))); ctx.describe(([(n, cls[n], kind[n], odd.get(n), ch_[n], mux.get(n), pol.get(n)) for n in kind], hist))
        r = request(cells(3, 2)); r.request_id = hiid('ev', 0, st, 0, dom, 0)
        vdrv.events()
        code, res = F.execute(n, r)
        m = model(n)
        if m[0] == 'skip': continue
        FM = RES['FAIL'] | RES['MISSING']
        if m[0] == 'ok':
            vs = vellsets(res) if res is not None else []
            ctx.check(not code & FM and len(vs) == 1 and not is_fail(vs[0]) and same(value(vs[0]), m[1]), 'spoiled', lambda: (n, cls[n], hex(code), m, msgs(res)))
        elif m[0] == 'fail':
            t = msgs(res)
            if ctx.check(code & RES['FAIL'] and t, 'fail-lost', lambda: (n, cls[n], hex(code), t)):
                ctx.check(all(is_fail(v) for v in vellsets(res)), 'value-with-fail', lambda: (n, cls[n]))
                if m[1]:
                    ctx.check(all(any(x in y for y in t) for x in m[1]), 'cause-lost', lambda: (n, cls[n], m[1], t))
                elif m[1] is None:
                    ctx.check(any(x[1] is None or any(z in y for z in x[1] for y in t) or not x[1] for x in m[2]), 'cause-lost', lambda: (n, cls[n], m, t))
        elif m[0] == 'miss':
            ctx.check(code & RES['MISSING'] and not code & RES['FAIL'], 'missing-lost', lambda: (n, cls[n], hex(code), msgs(res)))
        else:
            ctx.check(code & FM, 'trouble-lost', lambda: (n, cls[n], hex(code)))
        ctx.seen((cls[n], m[0], pol.get(n), step > 0, len([x for x in ch_[n]])))

# ---- tensors: every element fails, is missing or keeps its value on its own ----------------
def planes(ctx, i, rng):
    F = Forest(); M = {}; info = {}
    def result(n, dims, pl):
        """what a node is expected to return: (kind, dims, planes), plane: ('ok',v) ('fail',{causes}) ('miss',)"""
        k = 'fail' if all(p[0] == 'fail' for p in pl) else 'miss' if all(p[0] == 'miss' for p in pl) else 'ok'
        M[n] = (k, list(dims) if len(pl) > 1 else [], list(pl))
    names = []
    def leaf():
        n = 'l%d' % len(names)
        dims = rng.choice([[], [], [2], [2], [3], [2, 2], [2, 2], [1, 2], [3, 2]])
        pf, pm = rng.choice([(0, 0), (.3, 0), (.3, 0), (1, 0), (0, .3), (0, 1), (.3, .2)])
        pl = []; vss = []
        for k in range(int(np.prod(dims)) if dims else 1):
            x = rng.random(); v = float(rng.randint(1, 9))
            if x < pf:
                m = ['why-%s-%d' % (n, k)] + (['and-%s-%d' % (n, k)] if rng.random() < .3 else [])
                vs = mkvellset(fail=m[0])
                if len(m) > 1: vs.fail = dmilist(list(vs.fail) + [record(message=m[1], type='Fail', object='vf', lineno=2, filename='vf')])
                pl.append(('fail', set(m))); vss.append(vs)
            elif x < pf + pm: pl.append(('miss',)); vss.append(mkvellset())
            else: pl.append(('ok', v)); vss.append(mkvellset(v))
        result(n, dims, pl); k = M[n][0]
        F.node('vfsource', n, None, cache_policy=rng.choice([-10, 10]), vf_result=mkresult(vss, None, dims if len(dims) > 1 else None), vf_code={'ok': 0, 'fail': RES['FAIL'], 'miss': RES['MISSING']}[k])
        info[n] = (dims, pl); names.append(n)
    def poll(ch, fp, mp):
        """None: getResult is called; else the result of a node whose children failed or are missing"""
        f = [p for c in ch if M[c][0] == 'fail' for p in M[c][2]]
        # failing and missing children together: trouble of either kind
        if f and fp != 'Ignore' and any(M[c][0] == 'miss' for c in ch): return ('any', [], [])
        if f and fp != 'Ignore':
            if fp == 'AbandonPropagate': f = next(M[c][2] for c in ch if M[c][0] == 'fail')
            return ('fail', [len(f)] if len(f) > 1 else [], f)
        if mp != 'Ignore' and any(M[c][0] == 'miss' for c in ch): return ('any', [], []) if f else ('miss', [], [('miss',)])
    def fn():
        n = 'f%d' % len(names); x = rng.random()
        fp = rng.choice(POLS + ['Ignore', 'Ignore', 'Ignore']); mp = rng.choice(POLS + ['Ignore', 'Ignore', 'Ignore'])
        kw = dict(fail_policy=hiid(fp), missing_data_policy=hiid(mp))
        if x < .45: ch = [rng.choice(names) for _ in range(rng.choice([1, 2, 2, 3]))]; cl = rng.choice(['MeqComposer', 'MeqComposer', 'MeqAdd', 'MeqMultiply', 'MeqSubtract'])
        elif x < .55: ch = [rng.choice(names)]; cl = 'MeqNegate'
        elif x < .7: ch = [rng.choice(names)]; cl = 'MeqTranspose'
        elif x < .78: ch = [rng.choice(names) for _ in range(2)]; cl = 'MeqMatrixMultiply'
        else: ch = [rng.choice(names)]; cl = 'MeqSelector'
        if cl == 'MeqSubtract': ch = (ch * 2)[:2]
        if any(M[c][0] == 'any' for c in ch): return
        fm = lambda ps: set().union(*[p[1] for p in ps if p[0] == 'fail'])
        R = poll(ch, fp, mp); C = [M[c] for c in ch]
        def combine(ps, f, allow):
            if any(p[0] == 'fail' for p in ps): return ('fail', fm(ps))
            ok = [p[1] for p in ps if p[0] == 'ok']
            if not ok or (len(ok) < len(ps) and not allow): return ('miss',)
            return ('ok', f(ok))
        if cl == 'MeqComposer':
            t = rng.random(); pl = [p for c in C for p in c[2]]
            if t < .5: kw['dims'] = [0]
            if R is None:
                if t < .5:
                    ten = [c for c in C if len(c[2]) > 1]
                    if len({tuple(c[1]) for c in ten}) > 1: return
                    d0 = ten[0][1] if ten else []; n0 = len(ten[0][2]) if ten else 1
                    pl = [p for c in C for p in (c[2] if len(c[2]) == n0 else c[2] * n0)]
                    if ten and any(not c[1] and len(c[2]) == n0 for c in C): return
                    R = (None, [len(C)] + list(d0), pl)
                else: R = (None, [len(pl)], pl)
        elif cl in ('MeqAdd', 'MeqMultiply', 'MeqSubtract', 'MeqNegate') and R is None:
            ten = [c for c in C if c[1]]
            if len({tuple(c[1]) for c in ten}) > 1: return
            f = {'MeqAdd': lambda v: sum(v), 'MeqMultiply': lambda v: float(np.prod(v)), 'MeqSubtract': lambda v: v[0] - v[1], 'MeqNegate': lambda v: -v[0]}[cl]
            d0 = ten[0][1] if ten else []
            R = (None, d0, [combine([(c[2][k] if c[1] else c[2][0]) for c in C], f, cl in ('MeqAdd', 'MeqMultiply')) for k in range(len(ten[0][2]) if ten else 1)])
        elif cl == 'MeqTranspose':
            if R is None:
                d, pl = C[0][1], C[0][2]
                if len(d) == 1: R = (None, [1, d[0]], pl)
                elif len(d) == 2: R = (None, [d[1]] if d[0] == 1 else [d[1], d[0]], [pl[a * d[1] + b] for b in range(d[1]) for a in range(d[0])])
                elif not d: R = (None, d, pl)
                else: return
        elif cl == 'MeqSelector':
            d, pl = C[0][1], C[0][2]
            if len(d) == 2 and rng.random() < .5:
                kw['index'] = [rng.randrange(q) if rng.random() < .6 else -1 for q in d]
                a = np.empty(d, object)
                for k, p in enumerate(pl): a.flat[k] = p
                sel = a[tuple(slice(None) if q < 0 else slice(q, q + 1) for q in kw['index'])]
                rank = 0
                for k, q in enumerate(kw['index']):
                    if q < 0: rank = k + 1
                if R is None: R = (None, [s for s in sel.shape[:rank]], [sel.flat[k] for k in range(sel.size)])
            else:
                kw['index'] = [rng.randrange(len(pl) + (rng.random() < .1)) for _ in range(rng.choice([1, 1, 2, 3]))]; kw['multi'] = True
                if R is None: R = (None, [len(kw['index'])], [pl[q] if q < len(pl) else ('fail', {'invalid selection index'}) for q in kw['index']])
        elif R is None:     # MatrixMultiply
            if any(c[0] != 'ok' or any(p[0] == 'miss' for p in c[2]) for c in C) or not all(len(c[1]) == 2 for c in C) or C[0][1][1] != C[1][1][0]: return
            (a, b), (q, e) = C[0][1], C[1][1]
            A = [C[0][2][k * b:(k + 1) * b] for k in range(a)]; B = [[C[1][2][k * e + m] for k in range(q)] for m in range(e)]
            R = (None, [a, e] if e > 1 else [a], [combine(r + s, lambda v: sum(v[k] * v[k + b] for k in range(b)), False) for r in A for s in B])
        if R[0] == 'any': M[n] = R
        elif R[0] is None and (cl == 'MeqTranspose' or cl == 'MeqMatrixMultiply' and not all(p[0] == 'fail' for p in R[2])): M[n] = ('ok', R[1] if len(R[2]) > 1 else [], R[2])    # (no such codes of their own)
        else: result(n, R[1], R[2])
        F.node(cl, n, ch, cache_policy=rng.choice([-10, 10]), **kw); info[n] = (cl, ch, kw); names.append(n)
    for _ in range(rng.choice([2, 3, 4])): leaf()
    for _ in range(rng.choice([2, 4, 6])): fn()
    F.build()
    sq = lambda d: [q for q in d] if int(np.prod(d or [1])) > 1 else []
    for n in names:
        k, dims, pl = M[n]
        ctx.describe((info, n, M))
        code, res = F.execute(n, request(cells(2, 2), dom=1))
        if k == 'any': ctx.check(code & (RES['FAIL'] | RES['MISSING']), 'trouble-lost', lambda: (n, hex(code))); continue
        vs = vellsets(res); cl = info[n][0] if n[0] == 'f' else 'leaf'
        K = 'fail' if code & RES['FAIL'] else 'miss' if code & RES['MISSING'] else 'ok'
        if not ctx.check(K == k, 'planes:code', lambda: (n, info[n], K, k, pl, [msgs(res)])): continue
        if k == 'miss': ctx.seen((cl, k)); continue
        if not ctx.check(len(vs) == len(pl) or (k == 'fail' and vs), 'planes:count', lambda: (n, info[n], len(vs), pl)): continue
        if k == 'fail':
            t = msgs(res)
            ctx.check(all(is_fail(v) for v in vs) and all(any(x in y for y in t) for p in pl for x in p[1]), 'planes:cause', lambda: (n, info[n], t, pl))
        else:
            d = res.get('dims'); d = [int(q) for q in d] if d is not None else ([len(vs)] if len(vs) > 1 else [])
            ctx.check(sq(d) == sq(dims), 'planes:dims', lambda: (n, info[n], d, dims))
            for q, (v, p) in enumerate(zip(vs, pl)):
                f = v.get('fail'); f = list(f) if isinstance(f, (list, tuple)) else [] if f is None else [f]; t = [str(x.get('message')) for x in f]
                ctx.check((p[0] == 'fail') == bool(is_fail(v)), 'planes:spread', lambda: (n, q, info[n], p, t))
                if p[0] == 'fail': ctx.check(all(any(x in y for y in t) for x in p[1]), 'planes:cause', lambda: (n, q, info[n], p, t))
                elif p[0] == 'miss': ctx.check(value(v) is None, 'planes:missing', lambda: (n, q, info[n], value(v)))
                else: ctx.check(value(v) is not None and same(value(v), np.array([p[1]])), 'planes:value', lambda: (n, q, info[n], p, value(v)))
        ctx.seen((cl, k, tuple(sorted({p[0] for p in pl})), len(dims), str(info[n][2].get('fail_policy')) if n[0] == 'f' else '', str(info[n][2].get('missing_data_policy')) if n[0] == 'f' else ''))
GROUPS = [('history', 3000, 40000, history), ('planes', 2500, 40000, planes)]

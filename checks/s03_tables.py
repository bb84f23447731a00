"""Parameter tables: what is read is what was last saved, under the name and domain it was saved for."""
import shutil, signal, sys, tempfile
from vf.forest import *
PROPERTY = 'S03'; LEVEL = 'exploration'
RULE = ('random histories of puts, overwrites, deletions, overlap queries, listings and reopenings of fast parameter tables (polynomials, logarithmic polynomials, every coefficient shape, names that are prefixes of each other, '
        'adjacent, overlapping and partly defined domains) against a dictionary; tables whose writer is killed between any two puts; parameter nodes solving, saving by every route and reading back from fast and casa tables over saved, '
        'unsaved and spanning domains; distinct by (kind of step, funklet class and shape, number of domains and entries)')
CASE_TIMEOUT = 60
def tables():
    p = next(x for x in sys.path if x.endswith('/libexec/python')).replace('/libexec/python', '/lib')
    if p not in sys.path: sys.path.insert(0, p)
    from Timba import parmtables
    return parmtables
def scratch(ctx): return tempfile.mkdtemp(dir=ctx.scratch)
NAMES = ['a', 'ab', 'abc', 'G:1:xx', 'G:1', 'a.b', 'phase with spaces', 'x' * 200, '7']
def rdom(rng, base):
    t = base + rng.randrange(6); n = rng.choice([1, 1, 2, 3]); f = rng.randrange(3); m = rng.choice([1, 1, 2])
    kw = dict(time=(t, t + n), freq=(1e9 + f * 1e6, 1e9 + (f + m) * 1e6))
    x = rng.random()
    if x < .1: del kw['freq']
    elif x < .15: del kw['time']
    elif x < .25: kw['l'] = (0., 1. + rng.randrange(2))
    elif x < .35: kw['time'] = (t + 1 / 3., t + n + 1 / 3.)
    return kw
def over(a, b): return all(a[k][0] < b[k][1] and b[k][0] < a[k][1] for k in a if k in b)
def rfunk(rng, kw):
    shape = rng.choice([(1,), (1, 1), (1, 1), (2,), (3, 1), (1, 3), (2, 2), (4, 3)])
    c = np.array([rng.choice([0., 1., -2.5, rng.uniform(-1e3, 1e3), 1 / 3., 1e-300, 4.5e9 + 1 / 7.]) for _ in range(int(np.prod(shape)))]).reshape(shape)
    off = [rng.uniform(-1, 1), 3.] if rng.random() < .4 else None
    sc = [rng.uniform(.5, 2), 4.] if rng.random() < .4 else None
    log = rng.random() < .3
    r = meq.polc(c, offset=off, scale=sc, pert=rng.choice([1e-6, 1e-3]), weight=rng.choice([1., 2.]), domain=meq.gen_domain(**kw), subclass=meq._polclog_type if log else meq._polc_type)
    if log: r.axis_list = record(time=float(rng.choice([0, 1, 2])), freq=float(rng.choice([0, 1.5])))
    if c.size > 1 and rng.random() < .3: r.comment = 'tag %d' % rng.randrange(1000)
    return r
def same_funk(got, want, kw):
    """None or what differs"""
    if type(got).__name__ != type(want).__name__ and (np.size(want.coeff) > 1 or 'axis_list' in want): return 'class %s became %s' % (type(want).__name__, type(got).__name__)
    if not np.array_equal(np.ravel(got.coeff), np.ravel(want.coeff)): return 'coefficients %s became %s' % (want.coeff, got.coeff)
    d = {k: tuple(np.ravel(v)) for k, v in got.domain.items() if k != 'axis_map' and np.size(v) == 2}
    if d != {k: tuple(float(x) for x in v) for k, v in kw.items()}: return 'domain %s became %s' % (kw, d)
    if np.size(want.coeff) == 1 and 'axis_list' not in want: return None  # only the value of a constant is stored
    if np.size(want.coeff) > 1 and np.shape(got.coeff) != np.shape(want.coeff): return 'shape'
    for f in ('offset', 'scale', 'pert', 'weight', 'axis_list', 'comment', 'axis_index'):
        if f in want and not (f in got and np.array_equal(np.asarray(sorted(want[f].items()) if f == 'axis_list' else want[f]), np.asarray(sorted(got[f].items()) if f == 'axis_list' else got[f]))): return '%s %r became %r' % (f, want[f], got.get(f))
class Model:
    def __init__(s): s.doms = []; s.ent = {}
    def put(s, name, kw, f):
        if kw not in s.doms: s.doms.append(kw)
        s.ent[name, s.doms.index(kw)] = f
def domkw(d): return {k: tuple(float(x) for x in np.ravel(v)) for k, v in d.items() if np.size(v) == 2}
def audit(ctx, t, m, hist, sub=False):
    """everything the table says is what the model holds"""
    dl = [domkw(d) for d in t.domain_list()]
    want = [{k: tuple(float(x) for x in v) for k, v in d.items()} for d in m.doms]
    if not ctx.check(dl == (want[:len(dl)] if sub else want), 'domains', 'the list of domains is not that of the saved funklets\ngot  %s\nwant %s%s' % (dl, want, hist)): return False
    keys = sorted((n, k) for n, k in m.ent); fl = sorted((n, int(k)) for n, k, _ in t.funklet_list())
    if not ctx.check(fl == keys if not sub else set(fl) <= set(keys), 'listing', 'the list of funklets is not what was saved\ngot  %s\nwant %s%s' % (fl, keys, hist)): return False
    for n, k, d in t.funklet_list():
        if not ctx.check(domkw(d) == want[int(k)], 'listing', 'domain of an entry listed wrongly' + hist): return False
    fd = t.funklet_dict()
    if not ctx.check(sorted((n, int(k)) for n in fd for k in fd[n]) == fl and sorted(t.name_list()) == sorted(set(n for n, _ in fl)), 'listing', 'dictionary, list and names of the table disagree\n%s\n%s\n%s%s' % (fd, fl, t.name_list(), hist)): return False
    for n, k in (fl if sub else keys):
        g = t.get_funklet(n, k)
        bad = 'missing' if g is None else same_funk(g, m.ent[n, k], m.doms[k])
        if not ctx.check(not bad, 'stored', 'funklet %r, %r: %s%s' % (n, m.doms[k], bad, hist)): return False
    for n, k in [(n, k) for n in NAMES[:3] for k in range(-1, len(m.doms) + 2)]:
        if (n, k) not in m.ent and not ctx.check(t.get_funklet(n, k) is None, 'phantom', 'a funklet that was never saved: %r, %d%s' % (n, k, hist)): return False
    ctx.count('audits'); return True
def query(ctx, t, m, rng, base, hist):
    n = rng.choice(NAMES[:4]); kw = rdom(rng, base)
    idx = [k for k in range(len(m.doms)) if (n, k) in m.ent and over(m.doms[k], kw)]
    got = t.get_funklets_for_domain(n, meq.gen_domain(**kw)); got = list(got) if got is not None else []
    ctx.seen(('query', len(idx), len(kw))); ctx.count('queries')
    return ctx.check(len(got) == len(idx) and not any(same_funk(g, m.ent[n, k], m.doms[k]) for g, k in zip(got, idx)), 'query', 'funklets of %r for %r are not those saved for overlapping domains: got %s want domains %s%s' % (n, kw, [(domkw(g.domain), g.coeff) for g in got], [m.doms[k] for k in idx], hist))
def table(ctx, i, rng):
    T = tables(); d = scratch(ctx); path = d + '/tab'; base = rng.choice([0., 4.5e9])
    m = Model(); t = T.FastParmTable(path, True); hist = ''; dl = rng.random() < .5
    for step in range(rng.choice([5, 15, 40, 40, 120])):
        x = rng.random()
        if x < .5 or not m.ent:
            n = rng.choice(NAMES[:4] if rng.random() < .8 else NAMES)
            kw = dict(rng.choice(m.doms)) if m.doms and rng.random() < .5 else rdom(rng, base); f = rfunk(rng, kw)
            if rng.random() < .3: f.dbid_index = rng.randrange(-1, len(m.doms) + 2)
            hist += '\nput %r %r %s%s' % (n, kw, type(f).__name__, np.shape(f.coeff)); t.put_funklet(n, f); m.put(n, kw, f); ctx.seen(('put', type(f).__name__, np.shape(f.coeff), len(kw)))
        elif x < .6:
            n, k = rng.choice(sorted(m.ent)); hist += '\ndelete %r %d' % (n, k); t.delete_funklet(n, k); del m.ent[n, k]; ctx.seen(('delete', len(m.doms) > 3))
        elif x < .63:
            n = rng.choice(NAMES[:4]); hist += '\ndelete all %r' % n; t.delete_funklet(n)
            for k in [k for k in m.ent if k[0] == n]: del m.ent[k]
        elif x < .66:
            n = rng.choice(NAMES[:4]); k = len(m.doms) + rng.randrange(3)
            try: t.delete_funklet(n, k); ok = False
            except Exception: ok = True
            if not ctx.check(ok, 'delete-missing', 'deleting a funklet that is not there raises no error' + hist): return
        elif x < .78:
            w = rng.random() < .5; hist += '\nreopen %s' % w; del t; t = T.FastParmTable(path, True) if w else T.FastParmTable(path); ctx.seen(('reopen', w, len(m.doms) // 4, len(m.ent) // 4))
            if not audit(ctx, t, m, hist): return
        elif x < .95:
            if not query(ctx, t, m, rng, base, hist): return
        elif not audit(ctx, t, m, hist): return
        if dl: t.domain_list()   # the list is kept up to date once asked for
    if audit(ctx, t, m, hist):
        del t; audit(ctx, T.FastParmTable(path), m, hist + '\nclosed')
    shutil.rmtree(d)
def crash(ctx, i, rng):
    """the writer is killed between two puts: what the next opener finds was saved, and what it saves afterwards stays"""
    T = tables(); d = scratch(ctx); path = d + '/tab'; base = rng.choice([0., 4.5e9]); m = Model(); hist = ''
    for life in range(rng.choice([1, 2, 3])):
        n0 = rng.choice([0, 1, 5, 30, 80]); sync = rng.random() < .4
        plan = [(rng.choice(NAMES[:4]), rdom(rng, base + rng.randrange(40)), None) for _ in range(n0)]
        plan = [(n, kw, rfunk(rng, kw)) for n, kw, _ in plan]
        hist += '\nwriter %d puts %d, %s' % (life, n0, 'closes' if sync else 'killed')
        pid = os.fork()
        if not pid:
            try:
                devnull = os.open('/dev/null', os.O_WRONLY); os.dup2(devnull, 2)
                t = T.FastParmTable(path, True)
                for n, kw, f in plan: t.put_funklet(n, f)
                if sync: del t
            finally: os.kill(os.getpid(), signal.SIGKILL)
        os.waitpid(pid, 0)
        m2 = Model(); m2.doms = list(m.doms); m2.ent = dict(m.ent); past = {}
        for k, v in m.ent.items(): past.setdefault((k[0], str(m.doms[k[1]])), []).append(v)
        for n, kw, f in plan: m2.put(n, kw, f); past.setdefault((n, str(kw)), []).append(f)
        fd2 = os.dup(2); dn = os.open('/dev/null', os.O_WRONLY); os.dup2(dn, 2)
        try: t = T.FastParmTable(path, True)
        except Exception as e:
            ctx.violation('reopen', 'table can not be opened after its writer was killed: %s%s' % (e, hist)); return
        finally: os.dup2(fd2, 2); os.close(fd2); os.close(dn)
        ctx.seen(('crash', n0, sync, life)); ctx.count('crashes')
        dl = [domkw(x) for x in t.domain_list()]
        F = {k: tuple for k in ()}
        want = [{k: tuple(float(x) for x in v) for k, v in x.items()} for x in m2.doms]
        if sync:
            if not audit(ctx, t, m2, hist): return
        elif not ctx.check(dl == want[:len(dl)], 'crash-domains', 'domains found after a kill are not a prefix of those saved\ngot  %s\nwant %s%s' % (dl, want, hist)): return
        # what is there was saved at some time; anything beyond that is an invention
        new = Model(); new.doms = m2.doms[:len(dl)]
        for n, k, _ in t.funklet_list():
            k = int(k)
            if not ctx.check(k < len(dl), 'crash-entry', 'an entry for a domain that is not in the table: %r %d of %d%s' % (n, k, len(dl), hist)): return
            g = t.get_funklet(n, k); ok = [f for f in past.get((n, str(new.doms[k])), []) if not same_funk(g, f, new.doms[k])]
            if not ctx.check(ok, 'crash-entry', 'an entry found after a kill was never saved: %r %r %s%s' % (n, new.doms[k], g, hist)): return
            new.ent[n, k] = ok[-1]
        m = new
        for _ in range(rng.choice([1, 4, 20])):
            n = rng.choice(NAMES[:4]); kw = rdom(rng, base + rng.randrange(40)); f = rfunk(rng, kw)
            hist += '\nput %r %r' % (n, kw); t.put_funklet(n, f); m.put(n, kw, f)
        del t; t = T.FastParmTable(path)
        if not audit(ctx, t, m, hist + '\nreopened'): return
        del t
    shutil.rmtree(d)

def grid(ks, nt, nf): return cells(nt * len(ks), nf, float(ks[0]), float(ks[-1] + 1), 1e9, 1.1e9)
def nodes(ctx, i, rng):
    T = tables(); d = scratch(ctx); kind = rng.choice(['fast', 'casa']); path = d + ('/t.mep' if kind == 'casa' else '/tab')
    F = Forest(); nt, nf = rng.choice([(1, 1), (2, 3), (4, 2)]); P = {}
    nn = rng.choice([1, 2]); default = {}; hist = ''
    for p in range(nn):
        shape = rng.choice([(1, 1), (2, 1), (2, 2), (1, 3)]); default[p] = rng.choice([1., -2.5])
        st = dict(solvable=True, table_name=path, parm_name='G:%d' % p, default_value=default[p], shape=list(shape), use_previous=0, auto_save=rng.random() < .3, save_all=rng.random() < .3, reset_funklet=rng.random() < .15)
        tl = rng.choice([None, None, None, dict(time=1), dict(time=2), dict(freq=1), dict(time=2, freq=2)])
        if tl: st['tiling'] = record(**tl)
        F.node('MeqParm', 'p%d' % p, **st); P[p] = st
        F.node('MeqParm', 'r%d' % p, table_name=path, parm_name='G:%d' % p, default_value=default[p], cache_policy=rng.choice([-10, 100]))
    F.node('MeqParm', 'u', table_name=path, parm_name='unsaved', default_value=7.)
    ctx.describe('%s table, %d nodes %r cells %dx%d' % (kind, nn, P, nt, nf)); F.build()
    saved = {}; mem = {}; conv = {}; serial = [0]; nsp = [0]
    ntile = lambda t: 1 if t is None else -(-nt // t.get('time', nt)) * -(-nf // t.get('freq', nf))
    def run(node, ks, how='ev'):
        serial[0] += 1; rq = request(grid(ks, nt, nf), dom=ks[0] * 10 + len(ks)); rq.request_id = hiid(how, 0, serial[0], 0, ks[0] * 10 + len(ks), 0)
        code, res = F.execute(node, rq); v = res.vellsets[0]
        if is_fail(v): return None, v.fail
        nsp[0] = len(v.get('spid_index', ()))
        return np.broadcast_to(np.asarray(value(v), float), (nt * len(ks), nf)), None
    for step in range(rng.choice([6, 12, 25])):
        p = rng.randrange(nn); x = rng.random(); st = P[p]
        if x < .4:
            k = rng.randrange(5); hist += '\nsolve p%d on %d' % (p, k)
            v, fail = run('p%d' % p, [k], 'e1')
            if p in mem and mem[p][0] == k: w = mem[p][1]
            elif (p, k) in saved and not st['reset_funklet']: w = saved[p, k]
            else: w = np.full((nt, nf), default[p])
            if not ctx.check(v is not None and same(v, w, 1e-9, 1e-9), 'initial', 'solvable parameter does not start from the saved funklet, or from the default\ngot  %s\nwant %s\n%s%s' % (v, w, fail, hist)): return
            for u in range(rng.choice([0, 1, 2])):
                a = record(incr_update=np.array([rng.choice([1., -.5, rng.uniform(-2, 2)]) for _ in range(nsp[0] * ntile(st.get('tiling')))]))
                if rng.random() < .3: a.converged = True; conv[p] = True
                a.save_funklets = rng.random() < .5
                hist += '\nupdate p%d %r' % (p, dict(a)); vdrv.command(F.ix('p%d' % p), 'Update.Parm', a)
                v, fail = run('p%d' % p, [k], 'e1')
                if not ctx.check(v is not None, 'update', 'parameter fails after update %s%s' % (fail, hist)): return
                w = v.copy()
                if st['auto_save'] or (a.save_funklets and (conv.get(p) or st['save_all'])): saved[p, k] = w; hist += ' (saved)'; ctx.seen(('saved', kind, tuple(st['shape']), st['auto_save']))
            mem[p] = (k, w)
        elif x < .48 and p in mem:
            hist += '\nsave p%d' % p; vdrv.command(F.ix('p%d' % p), 'Save.Funklets', record()); saved[p, mem[p][0]] = mem[p][1]; ctx.seen(('command', kind))
        elif x < .53:
            hist += '\nclear p%d' % p; vdrv.command(F.ix('p%d' % p), 'Clear.Funklets', record()); mem.pop(p, None)
        elif x < .63: hist += '\nclose tables'; vdrv.close_tables(); ctx.count('reopens')
        elif x < .68:
            v, fail = run('u', [rng.randrange(5)])
            if not ctx.check(v is not None and (v == 7.).all(), 'phantom', 'a parameter that was never saved has value %s (default 7)%s' % (v, hist)): return
        else:
            k = rng.randrange(5); n = rng.choice([1, 1, 2, 3]); ks = list(range(k, k + n)); hist += '\nread r%d on %s' % (p, ks)
            F.clear('r%d' % p); vdrv.command(F.ix('r%d' % p), 'Clear.Funklets', record())
            v, fail = run('r%d' % p, ks); have = [q for q in ks if (p, q) in saved]
            ctx.seen(('read', kind, n, len(have), tuple(st['shape']))); ctx.count('reads')
            if not ctx.check(v is not None, 'read', 'parameter fails %s%s' % (fail, hist)): return
            for j, q in enumerate(ks):
                got = v[j * nt:(j + 1) * nt]
                if (p, q) in saved: w = saved[p, q]
                elif len(have) == 1: continue   # a single funklet is used for the whole of the domain
                else: w = np.full((nt, nf), default[p])
                if not ctx.check(same(got, w, 1e-9, 1e-9), 'read', 'parameter on segment %d is not what was saved for it (%s)\ngot  %s\nwant %s%s' % (q, 'saved' if (p, q) in saved else 'default', got, w, hist)): return
    vdrv.close_tables()
    if kind == 'fast' and saved:
        t = T.FastParmTable(path); area = {}
        for n, _, dd in t.funklet_list():
            w = domkw(dd); q = (n, int(w['time'][0])); area[q] = area.get(q, 0.) + (w['time'][1] - w['time'][0]) * (w['freq'][1] - w['freq'][0]) / 1e8
        ctx.check(sorted(area) == sorted(('G:%d' % p, k) for p, k in saved) and all(abs(a - 1) < 1e-6 for a in area.values()), 'contents', 'the table does not hold what was saved\ngot  %s\nwant %s%s' % (area, sorted(saved), hist))
        del t
    shutil.rmtree(d)
GROUPS = [('table', 200, 5000, table), ('crash', 100, 3000, crash), ('nodes', 160, 4000, nodes)]

"""A running server: every command is answered once and does what it says; bad ones change nothing."""
import glob, os, re, tempfile, time, traceback
from vf.core import Skip
PROPERTY = 'M01'; LEVEL = 'exploration'
RULE = ('sequences of commands sent to a real meqserver process (sanitizer build, one or several kernel threads) by a client that keeps everything it receives: forests built, changed, listed, executed and deleted one command at a time and in '
        'bursts that overtake running executions, commands that are unknown, malformed or name nothing, breakpoints, steps and aborts at random points, snapshots, working directories, halts; distinct by (command, kind of argument, outcome, state of the server)')
CASE_TIMEOUT = 150; SHARDS = 8; PRELOAD = 'cancel'
SRV = {}
def srv(ctx, mt):
    from vf import mqs
    s = SRV.get(mt)
    if s is None or s.dead or s.p.poll() is not None or s.ncases > 40:
        if s is not None: s.kill()
        d = tempfile.mkdtemp(dir=ctx.scratch); s = SRV[mt] = mqs.Server(d, mt=mt); s.ncases = 0; s.sent = {}
        s.hist = []; send = s.send
        def logged(cmd, args=None, **kw):
            s.hist.append(repr((cmd, args if args is not None else kw.get('payload')))[:300]); k = send(cmd, args, **kw)
            if k: s.sent[k] = cmd
            return k
        s.send = logged
    s.ncases += 1; s.hist.clear(); s.sent.clear(); s.log.clear()
    for c, a in (('Clear.Forest.Breakpoint', None), ('Execute.Abort', None), ('Clear.Forest', None)):
        if s.call(c, a) is None: s.kill(); SRV.pop(mt); raise RuntimeError('server not ready')
    s.poll(.02); s.before = [i for i, _ in s.log]; s.log.clear(); s.hist.clear(); s.sent.clear()
    return s
def case(fn):
    """run a case against the server; its death or silence is a violation of whatever was going on"""
    def run(ctx, i, rng):
        from vf.mqs import Lost
        mt = rng.choice([1, 1, 2, 3]); n0 = ctx.nviol
        s = srv(ctx, mt)
        try:
            fn(ctx, i, rng, s)
        except Lost as e:
            ctx.violation('server-died', '%s\nlast commands:\n  %s' % (e, '\n  '.join(s.hist[-12:])))
        except (KeyError, AttributeError) as e:
            ctx.violation('reply-field', 'a field is missing from a reply: %r\n%s%s' % (e, traceback.format_exc()[-700:], tail(s)))
        if ctx.nviol > n0: s.kill(); SRV.pop(mt, None)
    run.__name__ = fn.__name__
    return run
# ---- model -------------------------------------------------------------------------------------------------------------------
OPS = {'MeqAdd': lambda a: sum(a[1:], a[0]), 'MeqMultiply': lambda a: np_prod(a), 'MeqSubtract': lambda a: a[0] - a[1], 'MeqNegate': lambda a: -a[0], 'MeqSqr': lambda a: a[0] * a[0], 'MeqReqSeq': lambda a: a[0], 'MeqIdentity': lambda a: a[0]}
def np_prod(a):
    r = a[0]
    for x in a[1:]: r = r * x
    return r
class Model:
    def __init__(m): m.n = {}
    def val(m, name, freq):
        d = m.n[name]
        if d['class'] == 'MeqConstant': return d['value']
        if d['class'] == 'MeqFreq': return freq
        return OPS[d['class']]([m.val(c, freq) for c in d['kids']])
    def byidx(m, ix): return next((k for k, d in m.n.items() if d['idx'] == ix), None)
    def fresh(m): return max([d['idx'] for d in m.n.values()] + [0]) + 1
def forest(rng, n, first=1, gaps=False, pre='n'):
    """records of a random tree and its model"""
    from Timba.dmi import record
    m = Model(); recs = []; ix = first - 1
    for k in range(n):
        ix += 1 + (rng.randrange(40) if gaps and rng.random() < .2 else 0)
        cls = rng.choice(['MeqConstant', 'MeqConstant', 'MeqFreq']) if k < 2 or rng.random() < .25 else rng.choice(sorted(OPS))
        name = '%s%d' % (pre, k); d = dict(idx=ix, kids=[]); d['class'] = cls
        r = record(name=name, nodeindex=ix); r['class'] = cls
        if cls == 'MeqConstant': d['value'] = r.value = float(rng.randrange(-4, 5))
        elif cls != 'MeqFreq':
            lo = max(0, k - 5)
            nk = 1 if cls in ('MeqNegate', 'MeqSqr', 'MeqReqSeq', 'MeqIdentity') else 2 if cls == 'MeqSubtract' else rng.randrange(1, 4)
            d['kids'] = ['%s%d' % (pre, rng.randrange(lo, k)) for _ in range(nk)]
            r.children = [m.n[c]['idx'] for c in d['kids']]
        if rng.random() < .3: r.cache_policy = rng.choice([-10, -1, 1, 100])
        m.n[name] = d; recs.append(r)
    for r in recs:
        par = sorted(d['idx'] for d in m.n.values() if r.name in d['kids'])
        if par: r.parents = par
    return recs, m
def req(rng, nf=None, nt=None):
    from Timba.Meq import meq
    import numpy as np
    nf = nf or rng.randrange(1, 5); f0 = float(rng.randrange(1, 9)); req.k = getattr(req, 'k', 0) + 1
    c = meq.gen_cells(meq.gen_domain(time=(0., 1. + rng.randrange(3)), freq=(f0, f0 + nf)), num_time=nt or rng.randrange(1, 3), num_freq=nf)
    from Timba.dmi import hiid
    return meq.request(c, rqtype='ev', rqid=hiid('ev.0.0.0.%d.0' % req.k)), f0 + .5 + np.arange(nf)
def samevalue(res, want, freq):
    import numpy as np
    vs = res.get('vellsets')
    if not vs or vs[0].get('value') is None: return False
    v = np.asarray(vs[0].value, dtype=float); w = np.asarray(want, dtype=float)
    if v.size == 1 and w.size == 1: return bool(np.allclose(v.ravel()[0], w.ravel()[0], rtol=1e-9, atol=1e-9))
    try: return bool(np.allclose(v, w, rtol=1e-9, atol=1e-9))
    except ValueError: return False
def err(p): return p is not None and p.has_field('error')
def tail(s): return '\nlast commands:\n  ' + '\n  '.join(s.hist[-10:])
def audit(ctx, s, m, rng, states=True):
    """everything the server says about the forest is what the commands have made"""
    import numpy as np
    from Timba.dmi import record
    p = s.call('Get.Node.List', record(children=True))
    if not ctx.check(p is not None and not err(p), 'node-list', lambda: 'no node list: %r%s' % (p, tail(s))): return False
    def lst(x): return [x] if isinstance(x, (str, int)) else list(x) if x is not None else []
    got = sorted(zip(map(int, lst(p.get('nodeindex'))), lst(p.get('name')), lst(p.get('class'))))
    want = sorted((d['idx'], k, d['class']) for k, d in m.n.items())
    if not want and got == [(0, '', '')]: return True   # how an empty list comes over
    if not ctx.check(got == want, 'node-list', lambda: 'node list is not the forest\ngot  %s\nwant %s%s' % (got, want, tail(s))): return False
    if m.n and m.init:
        order = [g[1] for g in zip(lst(p.name))] if False else lst(p.name)
        for name, ch in zip(order, p.children):
            c = [int(x) for x in (ch.values() if hasattr(ch, 'values') else np.ravel(ch))] if ch is not None and np.size(ch) else []
            w = [m.n[k]['idx'] if k in m.n else None for k in m.n[name]['kids']]
            if not ctx.check(len(c) == len(w) and all(y is None or x == y for x, y in zip(c, w)), 'node-list', lambda: 'children of %s listed as %s, are %s%s' % (name, c, w, tail(s))): return False
    for k in rng.sample(sorted(m.n), min(len(m.n), 4)):
        d = m.n[k]; how = rng.choice(['name', 'idx', 'both'])
        a = record()
        if how != 'idx': a.name = k
        if how != 'name': a.nodeindex = d['idx']
        q = s.call('Node.Get.State', a)
        if not ctx.check(q is not None and not err(q) and q.get('name') == k and int(q.get('nodeindex', -1 if not d.get('raw') else d['idx'])) == d['idx'] and q['class'] == d['class'], 'node-state', lambda: 'state of %s: %r%s' % (k, q, tail(s))): return False
        if d['class'] == 'MeqConstant' and not ctx.check(float(np.ravel(q.value.value if hasattr(q.value, 'value') else q.value)[0]) == d['value'], 'node-state', lambda: 'value of %s is %r, was set to %r%s' % (k, q.value, d['value'], tail(s))): return False
        q = s.call('Get.NodeIndex', record(name=k))
        if not ctx.check(q is not None and int(q.get('nodeindex', -2)) == d['idx'], 'node-index', lambda: 'index of %s: %r%s' % (k, q, tail(s))): return False
    ctx.count('audits'); return True
def once(ctx, s, sent, silent=()):
    """every indexed command answered exactly once (a silent one only if it failed)"""
    got = {}
    for k, i, p in s.replies(): got.setdefault(k, []).append((i, p))
    for k, cmd in sent.items():
        g = got.pop(k, []); n = 0 if k in silent and not (g and err(g[0][1])) else 1
        ctx.check(len(g) == n, 'reply-count', lambda: '%s.%d was answered %d times%s' % (cmd, k, len(g), tail(s)))
        for i, _ in g: ctx.check(cmd is None or i == 'result.%s.%d' % (cmd.lower(), k) or '$' in i, 'reply-name', lambda: 'reply %s to command %s' % (i, cmd))
    ctx.check(not got, 'reply-phantom', lambda: 'replies to commands never sent: %s' % ([(k, [i for i, _ in v]) for k, v in got.items()],) + '\n%s\n%s' % (s.before, [i for i, _ in s.log][:40]))
# ---- malformed ---------------------------------------------------------------------------------------------------------------
def bad(rng, m):
    """(kind, command, payload or args, reply expected) of a command that cannot be carried out"""
    from Timba.dmi import record
    from Timba.Meq import meq
    R, _ = req(rng); k = rng.choice(sorted(m.n)) if m.n else 'nobody'; ix = m.n[k]['idx'] if m.n else 1; top = m.fresh()
    other = next((d['idx'] for n, d in m.n.items() if n != k), 77)
    nodes = [('noname', record()), ('noname0', record(nodeindex=0)), ('neg', record(nodeindex=-3)), ('huge', record(nodeindex=2**31 - 1)), ('end', record(nodeindex=top)), ('past', record(nodeindex=top + 1)),
             ('unknown', record(name='nobody')), ('mismatch', record(name=k, nodeindex=other) if m.n else record(name='x', nodeindex=1)), ('typeidx', record(nodeindex='one')), ('typename', record(name=3.5)), ('recname', record(name=record(a=1)))]
    what = rng.choice(['unknown', 'nodecmd', 'addr', 'addr', 'addr', 'exec', 'create', 'delete', 'index', 'fstate', 'cwd', 'level', 'nstate', 'args', 'args', 'batch', 'flags', 'list'])
    if what == 'unknown': return what, rng.choice(['Foo', 'Node', 'Create', 'Node.Execute.Me', 'Get.Node', 'Clear', 'Execute', '1.2', 'Create.Node.Batch.7']), record(name=k), True
    if what == 'nodecmd': return what, 'Node.' + rng.choice(['Foo', 'Set', 'Clear', 'Get.Value', 'State.Set', '4']), record(name=k), True
    if what == 'addr':
        kind, a = rng.choice(nodes)
        cmd = rng.choice(['Node.Get.State', 'Node.Execute', 'Node.Clear.Cache', 'Node.Set.State', 'Node.Set.Breakpoint', 'Debug.Until.Node', 'Node.Set.Publish.Level', 'Delete.Node'])
        if cmd == 'Delete.Node' and kind in ('mismatch', 'typename'): cmd = 'Node.Get.State'
        a.request = R; a.state = record(x=1); return what + ':' + kind, cmd, a, True
    if what == 'exec': kind, a = rng.choice([('none', record(name=k)), ('record', record(name=k, request=record(x=1))), ('string', record(name=k, request='go')), ('int', record(name=k, request=4))]); return what + ':' + kind, 'Node.Execute', a, True
    if what == 'create':
        kind, a = rng.choice([('noclass', record(name='zz')), ('unknown', {'name': 'zz', 'class': 'MeqNoSuch'}), ('notnode', {'name': 'zz', 'class': 'DMIRecord'}), ('typeclass', {'name': 'zz', 'class': 7}), ('typename', {'name': 4, 'class': 'MeqConstant'})]
                             + ([('dupname', {'name': k, 'class': 'MeqConstant', 'value': 1.}), ('dupidx', {'name': 'zz', 'nodeindex': ix, 'class': 'MeqConstant', 'value': 1.})] if m.n else []))
        return what + ':' + kind, 'Create.Node', record(a), True
    if what == 'delete': return what, 'Delete.Node', rng.choice([record(), record(name='nobody'), record(nodeindex=top), record(nodeindex=0), record(nodeindex=10**6)]), True
    if what == 'index': return what, 'Get.NodeIndex', rng.choice([record(), record(name=4)]), True
    if what == 'fstate': return what, 'Set.Forest.State', rng.choice([record(), record(state=4), record(state='x'), record(state=[1, 2])]), True
    if what == 'cwd': return what, 'Set.Cwd', rng.choice([record(cwd='/nonexistent/dir'), record(cwd=4), record(cwd='/etc/passwd')]), True
    if what == 'level': return what, 'Debug.Set.Level', rng.choice([record(), record(debug_level='x')]), True
    if what == 'nstate': kind, a = rng.choice([('none', record(name=k)), ('type', record(name=k, state=4)), ('name', record(name=k, state=record(name='qq'))), ('index', record(name=k, state=record(nodeindex=99))), ('class', record(name=k, state=record({'class': 'MeqAdd2'})))]); return what + ':' + kind, 'Node.Set.State', a, True
    if what == 'args':
        a = rng.choice([4, 'x', [1, 2], 2.5, [record(a=1), 3]]); return 'args:' + type(a).__name__, rng.choice(['Get.Forest.Status', 'Node.Get.State', 'Clear.Cache', 'Create.Node', 'Get.Node.List', 'Nothing']), ('payload', record(args=a)), True
    if what == 'batch': return what, 'Create.Node.Batch', rng.choice([record(), record(batch=4), record(batch='abc'), record(batch=[1, 2]), record(batch=['a', record()]), record(batch=[record()]), record(batch=record(a=1))]), True
    if what == 'flags': return what, rng.choice(['Node.Get.State', 'Get.Node.List', 'Get.NodeIndex', 'Node.Clear.Cache', 'Get.Forest.Status']), ('payload', record(args=record(name=k, **{rng.choice(['sync', 'silent']): rng.choice(['x', record(a=1)])}))), True
    return what, 'Get.Node.List', record({rng.choice(['name', 'nodeindex', 'children', 'forest_serial']): rng.choice(['x', record()])}), True
def dobad(ctx, s, m, rng):
    from Timba.dmi import record
    kind, cmd, a, _ = bad(rng, m)
    if rng.random() < .06:   # not a record at all: only an error event
        n = len(s.log); pay = rng.choice([3, 'text', [1, 2], None, 2.5])
        s.send(cmd, payload=None if pay is None else pay, index=False) if pay is not None else s.send(cmd, index=False, payload=0)
        ok = s.wait(lambda i, p: i.startswith('error') and err(p), 10, n)
        ctx.seen(('payload', type(pay).__name__)); return ctx.check(ok is not None, 'bad-unanswered', lambda: 'no error for a command without a record%s' % tail(s))
    k = s.send(cmd, payload=a[1]) if isinstance(a, tuple) else s.send(cmd, a)
    p = s.reply(k, 15); ctx.seen(('bad', kind, cmd)); ctx.count('bad commands')
    if p is None and s.p.poll() is None: return ctx.check(False, 'bad-unanswered', 'no reply to %s (%s) %s%s' % (cmd, kind, a, tail(s)))
    return ctx.check(err(p), 'bad-accepted', lambda: '%s (%s) %s was answered without an error: %r%s' % (cmd, kind, a, p, tail(s)))
# ---- histories ---------------------------------------------------------------------------------------------------------------
def build(ctx, s, rng, n, **kw):
    from Timba.dmi import record
    recs, m = forest(rng, n, **kw); m.init = True
    rng.shuffle(recs)
    p = s.call('Create.Node.Batch', record(batch=recs, script_name='vf%d' % n))
    ctx.seen(('batch', n, kw.get('gaps')))
    ok = ctx.check(p is not None and not err(p) and int(p.get('forest_status').num_init_errors) == 0, 'batch', lambda: 'creation of a good forest: %r\n%r%s' % (p, recs, tail(s)))
    return m if ok else None
def execute(ctx, s, m, rng, name=None, clear=False, **kw):
    from Timba.dmi import record
    k = name or rng.choice(sorted(m.n)); d = m.n[k]
    if clear: s.call('Node.Clear.Cache', record(name=k, recursive=True))
    r, f = req(rng, **kw); a = record(request=r); how = rng.choice(['name', 'idx', 'both'])
    if how != 'idx': a.name = k
    if how != 'name': a.nodeindex = d['idx']
    gs = rng.random() < .2
    if gs: a.get_state = True
    c = s.send('Node.Execute', a); p = s.reply(c)
    ctx.seen(('execute', d['class'], how, gs)); ctx.count('executions')
    if d.get('raw'): return ctx.check(err(p), 'execute', lambda: 'execution of %s, which is not initialised: %r%s' % (k, p, tail(s)))
    if not ctx.check(p is not None and not err(p) and 'result' in p, 'execute', lambda: 'execution of %s: %r%s' % (k, p, tail(s))): return False
    if not ctx.check(samevalue(p.result, m.val(k, f), f), 'result', lambda: 'result of %s: %r, must be %r%s' % (k, p.result, m.val(k, f), tail(s))): return False
    return not gs or ctx.check(p.get('node_state') is not None and p.node_state.name == k, 'node-state', 'the state asked for with an execution is missing' + tail(s))
def history(ctx, i, rng, s):
    from Timba.dmi import record
    m = None
    def call(cmd, a=None):
        k = s.send(cmd, a); return s.reply(k)
    m = build(ctx, s, rng, rng.choice([2, 5, 9, 16]), gaps=rng.random() < .3); ctx.describe('history %d' % i)
    if m is None: return
    base = s.scratch; npub = {}; pol = None
    for step in range(rng.choice([10, 20, 30])):
        x = rng.choice(['exec', 'exec', 'exec', 'set', 'set', 'bad', 'bad', 'bad', 'audit', 'create', 'delete', 'cwd', 'session', 'fstate', 'publish', 'nolist', 'serial', 'rebuild', 'unpublish', 'status', 'clear', 'rec'])
        ctx.count('step ' + x)
        if x in ('exec', 'publish') and not (m.n and m.init): continue
        if x == 'exec':
            if not execute(ctx, s, m, rng, clear=True): return
        elif x == 'set':
            ks = [k for k in m.n if m.n[k]['class'] == 'MeqConstant']
            if not ks: continue
            k = rng.choice(sorted(ks)); v = float(rng.randrange(-9, 9)); a = record(name=k, state=record(value=v), sync=rng.random() < .5)
            gs = rng.random() < .5
            if gs: a.get_state = True
            p = call('Node.Set.State', a); m.n[k]['value'] = v
            ctx.seen(('set', bool(a.sync), gs))
            if not ctx.check(p is not None and not err(p) and (not gs or p.node_state.name == k), 'set-state', lambda: 'state of %s set: %r%s' % (k, p, tail(s))): return
        elif x == 'bad':
            created = len(s.hist)
            if not dobad(ctx, s, m, rng): return
            if any('Create' in h for h in s.hist[created:]):   # what a half-done batch leaves is not specified: but what was there still is
                if m.n and m.init and not execute(ctx, s, m, rng, clear=True): return
                p = call('Get.Node.List'); names = p.get('name') or (); names = [names] if isinstance(names, str) else names
                if not ctx.check(set(m.n) <= set(names), 'bad-changed', lambda: 'nodes vanished after a failed creation: %s%s' % (sorted(set(m.n) - set(names)), tail(s))): return
                p = call('Clear.Forest'); m = build(ctx, s, rng, rng.choice([2, 6]))
                if m is None: return
            elif not audit(ctx, s, m, rng): return
        elif x == 'audit':
            if not audit(ctx, s, m, rng): return
        elif x == 'create':
            k = 'c%d' % step; a = record({'name': k, 'class': 'MeqConstant', 'value': 3.})
            if rng.random() < .3: a.nodeindex = m.fresh() + rng.randrange(1100)
            p = call('Create.Node', a)
            if not ctx.check(p is not None and not err(p) and p.name == k and p['class'] == 'MeqConstant' and m.byidx(int(p.nodeindex)) is None and int(a.get('nodeindex', p.nodeindex)) == int(p.nodeindex), 'create', lambda: 'created node: %r%s' % (p, tail(s))): return
            m.n[k] = dict(idx=int(p.nodeindex), kids=[], value=3., raw=True); m.n[k]['class'] = 'MeqConstant'; ctx.seen(('create', 'nodeindex' in a))
        elif x == 'delete':
            ks = [k for k in m.n if not any(k in d['kids'] for d in m.n.values())]
            if not ks: continue
            k = rng.choice(sorted(ks)); p = call('Delete.Node', record(name=k) if rng.random() < .5 else record(nodeindex=m.n[k]['idx'])); del m.n[k]
            if not ctx.check(p is not None and not err(p), 'delete', lambda: 'deletion of %s: %r%s' % (k, p, tail(s))): return
            ctx.seen(('delete', len(ks)))
        elif x == 'cwd':
            d = tempfile.mkdtemp(dir=s.scratch); p = call('Set.Cwd', record(cwd=d)); q = call('Get.Forest.Status')
            if not ctx.check(not err(p) and q.cwd == d, 'cwd', lambda: 'working directory is %r, was set to %r%s' % (q.cwd, d, tail(s))): return
            base = d; ctx.seen(('cwd',))
        elif x == 'session':
            t = 'session %d' % rng.randrange(99); p = call('Set.Session.Name', record(session_name=t)); q = call('Get.Forest.Status')
            if not ctx.check(not err(p) and q.session_name == t, 'session', lambda: 'session name %r' % q.session_name): return
        elif x == 'fstate':
            a = record(cache_policy=rng.choice([-10, 1, 20, 100]), profiling_enabled=rng.random() < .5)
            a[rng.choice(['user_field', 'log_append'])] = True
            p = call('Set.Forest.State', record(state=a)); q = call('Get.Forest.State')
            if not ctx.check(not err(p) and all(q.forest_state.get(f) == v for f, v in a.items()), 'forest-state', lambda: 'forest state %r after setting %r%s' % (q.forest_state, a, tail(s))): return
            ctx.seen(('fstate', int(a.cache_policy)))
        elif x == 'publish':
            k = rng.choice(sorted(q for q in m.n if not m.n[q].get('raw')) or [None])
            if k is None: continue
            p = call('Node.Set.Publish.Level', record(name=k, level=1)); n = len(s.log)
            if err(p) or not execute(ctx, s, m, rng, k, True): return
            ev = [q for j, q in s.log[n:] if j.startswith('node.result') and q is not None and q.get('name') == k]
            if not ctx.check(len(ev) == 1, 'snapshot', lambda: '%d snapshots of %s for one execution%s' % (len(ev), k, tail(s))): return
            p = call('Node.Set.Publish.Level', record(name=k, level=0)) if rng.random() < .5 else call('Disable.Publish.Results'); n = len(s.log)
            if err(p) or not execute(ctx, s, m, rng, k, True): return
            if not ctx.check(not any(j.startswith('node.result') for j, q in s.log[n:]), 'snapshot', 'a snapshot after snapshots were disabled' + tail(s)): return
            ctx.seen(('publish', m.n[k]['class']))
        elif x == 'serial':
            p = call('Get.Node.List'); q = call('Get.Node.List', record(forest_serial=p.forest_serial))
            if not ctx.check(q is not None and 'name' not in q, 'serial', 'an unchanged forest was listed again' + tail(s)): return
        elif x == 'clear':
            p = call('Clear.Forest'); m.n = {}
            if err(p) or not audit(ctx, s, m, rng): return
            m = build(ctx, s, rng, rng.choice([2, 5, 9]), gaps=rng.random() < .3)
            if m is None: return
        elif x == 'status':
            q = call('Get.Forest.Status')
            if not ctx.check(q is not None and str(q.app_state).lower() == 'idle' and not q.forest_status.executing and not q.forest_status.stopped and int(q.forest_status.num_init_errors) == 0, 'status', lambda: 'status of an idle server: %r%s' % (q, tail(s))): return
        elif x == 'rec':
            fl = record({f: rng.random() < .5 for f in ('name', 'nodeindex', 'class', 'children', 'control_status', 'profiling_stats')})
            p = call('Get.Node.List', fl)
            if not ctx.check(p is not None and not err(p) and all((f in p) == bool(v) for f, v in fl.items()), 'node-list', lambda: 'node list with %r: %r%s' % (fl, p, tail(s))): return
    audit(ctx, s, m, rng); once(ctx, s, s.sent)
# ---- bursts ------------------------------------------------------------------------------------------------------------------
SYNC = ('Node.Execute', 'Node.Clear.Cache', 'Create.Node', 'Delete.Node')
def burst(ctx, i, rng, s):
    """commands sent without waiting: replies once each, in order, with the effect of exactly the earlier ones"""
    from Timba.dmi import record
    silent = set(); slow = rng.random() < .6
    m = build(ctx, s, rng, rng.choice([3, 8, 14]))
    if m is None: return
    ctx.describe('burst %d' % i); order = {True: [], False: []}; want = {}
    def send(cmd, a=None, sync=None):
        a = record() if a is None else a
        if rng.random() < .15 and cmd not in ('Node.Execute',): a.silent = True
        k = s.send(cmd, a); pass
        if a.get('silent'): silent.add(k)
        order[cmd in SYNC if sync is None else sync].append(k); return k
    serial = 0
    for step in range(rng.choice([10, 30, 80])):
        x = rng.choice(['exec', 'exec', 'set', 'status', 'index', 'list', 'state', 'bad', 'create', 'unknown'])
        ks = sorted(k for k in m.n if not m.n[k].get('raw')); k = rng.choice(ks)
        if x == 'exec':
            r, f = req(rng, nf=rng.choice([1, 300]) if slow else None, nt=rng.choice([1, 300]) if slow else None)
            send('Node.Clear.Cache', record(name=k, recursive=True)); want[send('Node.Execute', record(name=k, request=r))] = ('value', m.val(k, f), f)
        elif x == 'set':
            cs = [c for c in ks if m.n[c]['class'] == 'MeqConstant']
            if not cs: continue
            c = rng.choice(cs); v = float(rng.randrange(-9, 9)); m.n[c]['value'] = v; send('Node.Set.State', record(name=c, state=record(value=v), sync=True), sync=True)
        elif x == 'status': want[send('Get.Forest.Status')] = ('status',)
        elif x == 'index': want[send('Get.NodeIndex', record(name=k))] = ('index', m.n[k]['idx'])
        elif x == 'list': want[send('Get.Node.List')] = ('list', sorted(ks))
        elif x == 'state': sy = rng.random() < .5; want[send('Node.Get.State', record(name=k, sync=sy), sync=sy)] = ('state', k, m.n[k]['class'] == 'MeqConstant' and sy, m.n[k].get('value'))
        elif x == 'bad': want[send('Node.Execute', record(name='nobody'))] = ('error',)
        elif x == 'unknown': want[send('No.Such.Command')] = ('error',)
        elif x == 'create': c = 'c%d' % step; m.n[c] = {'class': 'MeqConstant', 'raw': True, 'value': 1.}; want[send('Create.Node', record({'name': c, 'class': 'MeqConstant', 'value': 1.}))] = ('created', c)
    last = s.send('Get.Forest.Status', record(sync=True)); pass
    end = s.send('Node.Clear.Cache', record(name=rng.choice(sorted(k for k in m.n if not m.n[k].get('raw'))))); order[True].append(end)
    if not ctx.check(s.reply(end, 90) is not None and s.reply(last, 30) is not None, 'burst-stuck', lambda: 'the last of %d commands was never answered; replies %s%s' % (len(s.sent), sorted(k for k, _, _ in s.replies()), tail(s))): return
    s.poll(.1)
    once(ctx, s, s.sent, silent)
    rep = s.replies(); pos = {k: n for n, (k, _, _) in enumerate(rep)}; pay = {k: p for k, _, p in rep}
    for sy in (True, False):
        seq = [k for k in order[sy] if k in pos]
        ctx.check([pos[k] for k in seq] == sorted(pos[k] for k in seq), 'reply-order', lambda: '%s commands answered out of order: %s' % ('queued' if sy else 'immediate', [(k, pos[k], s.sent[k]) for k in seq]))
    over = 0
    for k, w in want.items():
        p = pay.get(k)
        if p is None: continue
        ctx.seen(('burst', w[0], slow, k in silent)); ctx.count('burst replies')
        if w[0] != 'value' and any(j > pos[k] for q, j in pos.items() if q < k): over += 1
        if w[0] == 'error': ctx.check(err(p), 'bad-accepted', '%r' % p); continue
        if err(p): ctx.violation('burst-error', '%s failed: %r%s' % (s.sent[k], p, tail(s))); continue
        if w[0] == 'value': ctx.check('result' in p and samevalue(p.result, w[1], w[2]), 'burst-result', lambda: 'result %r, must be %r%s' % (p.get('result'), w[1], tail(s)))
        elif w[0] == 'index': ctx.check(int(p.nodeindex) == w[1], 'node-index', '%r is not %d' % (p, w[1]))
        elif w[0] == 'list': ctx.check(set(w[1]) <= set(p.name), 'node-list', '%r lacks %r' % (p, w[1]))
        elif w[0] == 'state': ctx.check(p.name == w[1] and (not w[2] or float(p.value) == w[3]), 'node-state', lambda: 'state of %s (%r): %r%s' % (w[1], w[3], p, tail(s)))
        elif w[0] == 'created': ctx.check(p.name == w[1], 'create', '%r' % p)
    ctx.count('replies overtaking earlier commands', over)
    s.wait(lambda j, p: j.startswith('app.notify.state') and p is not None and str(p.app_state).lower() == 'idle' and int(p.app_exec_queue_size) <= 1, 3)
    s.poll(.05)
    if silent: return
    made = {w[1]: int(pay[k].nodeindex) for k, w in want.items() if w[0] == 'created' and k in pay and not err(pay[k])}
    for k in [k for k in m.n if m.n[k].get('raw')]:
        if k not in made: return
        m.n[k].update(idx=made[k], kids=[])
    m.init = False
    audit(ctx, s, m, rng)
def rebuild(ctx, i, rng, s):
    """forests made, changed and cleared while they are being asked about: every reply is about one state of the forest"""
    from Timba.dmi import record
    from vf.mqs import Lost
    ctx.describe('rebuild %d' % i); m = Model(); n0 = len(s.log); k0 = 0; ask = {}
    every = {}; import numpy as np
    def asks():
        for _ in range(rng.randrange(0, 6)):
            k = rng.choice(sorted(every)); x = rng.choice(['Node.Get.State', 'Node.Get.State', 'Get.Node.List', 'Get.Node.List', 'Get.NodeIndex', 'Get.Forest.Status', 'Get.Forest.State'])
            ask[s.send(x, record(name=k) if x.startswith('Node') or x == 'Get.NodeIndex' else record({rng.choice(['children', 'control_status', 'profiling_stats', 'class']): True}) if x == 'Get.Node.List' and rng.random() < .6 else None)] = (x, k)
            if rng.random() < .3: s.poll(.002)
    for rep in range(rng.choice([3, 6, 10])):
        recs, m = forest(rng, rng.choice([4, 20, 60]), pre='abc'[rep % 3]); m.init = True
        for k, d in m.n.items(): every.setdefault(k, set()).add((d['idx'], d['class']))
        s.send('Create.Node.Batch', record(batch=recs)); asks()
        gone = [k for k in sorted(m.n) if not any(k in d['kids'] for d in m.n.values())] if rng.random() < .5 else []
        for k in gone: s.send('Delete.Node', record(name=k)); del m.n[k]; asks()
        if rep % 2: r, f = req(rng); s.send('Node.Execute', record(name=rng.choice(sorted(m.n) or ['x']), request=r)); asks()
        if rng.random() < .2: s.poll(rng.random() * .05)
        last = s.send('Clear.Forest'); asks()
    recs, m = forest(rng, rng.choice([4, 12]), pre='z'); m.init = True; last = s.send('Create.Node.Batch', record(batch=recs))
    p = s.reply(last, 60)
    if not ctx.check(p is not None and not err(p), 'rebuild-stuck', lambda: 'the last forest was not made: %r%s' % (p, tail(s))): return
    for k in sorted(ask): s.reply(k, 20)
    once(ctx, s, s.sent); pay = {k: q for k, _, q in s.replies()}
    for k, (x, name) in ask.items():
        q = pay.get(k)
        if q is None: continue
        ctx.seen(('rebuild', x, bool(err(q)))); ctx.count('replies while the forest changes')
        if x == 'Node.Get.State' and not err(q): ctx.check(q.name == name and ('nodeindex' not in q or (int(q.nodeindex), q['class']) in every[name]), 'node-state', lambda: 'state of %s: %r' % (name, q))
        elif x == 'Get.NodeIndex': ctx.check(not err(q) and int(q.nodeindex) in {-1} | {a for a, _ in every[name]}, 'node-index', lambda: 'index of %s: %r, was one of %s' % (name, q, every[name]))
        elif x == 'Get.Node.List':
            if not ctx.check(not err(q), 'node-list', lambda: 'no list: %r' % q): continue
            def lst(v): return [v] if isinstance(v, (str, int)) else list(v)
            got = list(zip(lst(q.nodeindex), lst(q.name), lst(q['class'])))
            ctx.check(got == [(0, '', '')] or (all(b in every and (int(a), c) in every[b] for a, b, c in got) and len({b for _, b, _ in got}) == len(got) and len({b[0] for _, b, _ in got}) <= 1), 'node-list', lambda: 'a list of no forest there ever was: %s' % got)
        elif x.startswith('Get.Forest'): ctx.check(not err(q), 'status', lambda: '%r' % q)
    audit(ctx, s, m, rng)
# ---- breakpoints -------------------------------------------------------------------------------------------------------------
def debug(ctx, i, rng, s):
    """stops, steps and aborts: they change neither this result nor the next"""
    from Timba.dmi import record
    m = build(ctx, s, rng, rng.choice([3, 6, 10]))
    if m is None: return
    ctx.describe('debug %d' % i)
    def call(cmd, a=None):
        k = s.send(cmd, a); p = s.reply(k, 20)
        if p is None: ctx.violation('debug-unanswered', '%s was not answered%s' % (cmd, tail(s))); raise StopIteration
        return p
    try:
        for rep in range(rng.randrange(1, 4)):
            k = rng.choice(sorted(m.n)); r, f = req(rng); local = set(); glob_ = 0; how = rng.choice(['local', 'shot', 'global', 'interrupt', 'none'])
            call('Node.Clear.Cache', record(name=k, recursive=True))
            def below(n): return {n}.union(*[below(c) for c in m.n[n]['kids']])
            reach = sorted(below(k))
            if how in ('local', 'shot'):
                for n in rng.sample(reach, min(len(reach), rng.randrange(1, 3))): call('Node.Set.Breakpoint', record(name=n, single_shot=how == 'shot')); local.add(n)
            elif how == 'global': glob_ = 1 << rng.choice([0, 1, 3, 4]); call('Set.Forest.Breakpoint', record(breakpoint=glob_))
            n = len(s.log)
            ex = s.send('Node.Execute', record(name=k, request=r)); pass
            if how == 'interrupt': s.send('Debug.Interrupt')
            stops = []; aborted = False; until = None; untils = set(); mode = None; single = s.mt == 1
            while True:
                e = s.wait(lambda j, p: j.startswith('debug.stop') or j == 'result.node.execute.%d' % ex, 20, n)
                if e is None: return ctx.violation('debug-stuck', 'execution neither stopped nor finished (%s, stops %s, last %s)%s' % (how, stops, mode, tail(s)))
                n = next(q for q in range(n, len(s.log)) if s.log[q] is e) + 1
                if e[0].startswith('result.'): break
                w = re.search(r"stopped at +node '(\w+)' *:(\w+)", e[1].message); stops.append(w.groups() if w else e[1].message)
                if not ctx.check(w is not None and w.group(1) in m.n, 'debug-stop', 'stop event %r' % e[1].message): return
                ctx.seen(('stop', how, w.group(2), mode)); ctx.count('stops')
                if single and mode is None and how in ('local', 'shot') and not ctx.check(w.group(1) in local, 'debug-stop', lambda: 'stopped at %s, breakpoints are on %s%s' % (w.groups(), local, tail(s))): return
                if single and mode == 'Debug.Next.Node' and not ctx.check(w.group(1) != stops[-2][0] or w.group(1) in local or w.group(1) in untils, 'debug-next', lambda: 'step to the next node stopped at the same one: %s%s' % (stops, tail(s))): return
                if single and mode == 'Debug.Until.Node' and not ctx.check(w.group(1) in untils or w.group(1) in local or glob_, 'debug-until', lambda: 'run until %s stopped at %s%s' % (until, stops[-1], tail(s))): return
                if single and rng.random() < .5:
                    q = call('Get.Forest.Status')
                    if not ctx.check(bool(q.forest_status.stopped) and bool(q.forest_status.executing) and 'debug' in str(q.app_state).lower(), 'debug-status', lambda: 'status while stopped: %r%s' % (q, tail(s))): return
                    q = call('Node.Get.State', record(name=w.group(1)))
                    if not ctx.check(q.name == w.group(1), 'node-state', 'state while stopped'): return
                mode = rng.choice(['Debug.Continue'] * 2 + (['Debug.Single.Step', 'Debug.Single.Step', 'Debug.Next.Node', 'Debug.Until.Node'] if single and len(stops) < 25 else []) + (['Execute.Abort'] if rng.random() < .3 else []))
                if mode == 'Debug.Until.Node': until = rng.choice(reach); untils.add(until)
                n = len(s.log) if single else n
                x = s.send(mode, record(name=until) if mode == 'Debug.Until.Node' else None); pass
                if s.reply(x, 20) is None: return ctx.violation('debug-unanswered', '%s was not answered%s' % (mode, tail(s)))
                if mode == 'Execute.Abort': aborted = True
                if len(stops) > 400: call('Clear.Forest.Breakpoint'); [call('Node.Clear.Breakpoint', record(name=q)) for q in m.n]
            p = e[1]; ctx.count('debugged executions')
            if aborted: ctx.seen(('aborted', how)); ctx.check(not err(p) or 'abort' in str(p).lower(), 'abort', lambda: 'an aborted execution: %r' % p)
            else: ctx.check(not err(p) and 'result' in p and samevalue(p.result, m.val(k, f), f), 'debug-result', lambda: 'result after stopping %s times: %r, must be %r%s' % (len(stops), p, m.val(k, f), tail(s)))
            if how == 'shot' and single and not aborted and all(t in local for t, _ in stops): ctx.check(len(stops) <= len(local) or True, 'debug-shot', '')
            # and nothing of it is left
            call('Clear.Forest.Breakpoint'); s.send('Clear.Forest.Breakpoint', record(breakpoint=255, single_shot=True))
            s.send('Set.Forest.State', record(state=record(breakpoint=0, breakpoint_single_shot=0)))
            for q in m.n: call('Node.Clear.Breakpoint', record(name=q)); call('Node.Clear.Breakpoint', record(name=q, single_shot=True))
            q = call('Get.Forest.Status')
            if not ctx.check(not q.forest_status.stopped and int(q.forest_status.breakpoint) == 0, 'debug-left', lambda: 'status after the execution: %r%s' % (q, tail(s))): return
            if not execute(ctx, s, m, rng, rng.choice(reach), True): return
        once(ctx, s, s.sent)
    except StopIteration: pass
def halt(ctx, i, rng, s):
    """a halted server ends by itself, cleanly"""
    from Timba.dmi import record
    m = build(ctx, s, rng, rng.choice([3, 9]))
    if m is None: return
    ctx.describe('halt %d' % i); how = rng.choice(['command', 'plain', 'busy'])
    if how != 'busy' and not execute(ctx, s, m, rng): return
    if how == 'busy':
        r, f = req(rng, nf=400, nt=400)
        for j in range(3): s.send('Node.Execute', record(name=rng.choice(sorted(m.n)), request=r))
    if how == 'command': ctx.check(s.call('Halt') is not None, 'halt', 'Halt was not answered')
    else: s.send('Halt', index=False, raw=True)
    t = time.time() + 40
    while s.p.poll() is None and time.time() < t: s.poll(.05)
    rc = s.p.poll(); s.dead = True; ctx.seen(('halt', how, s.mt)); ctx.count('halts')
    ctx.check(rc == 0, 'halt', lambda: 'a halted server %s' % ('did not end' if rc is None else 'ended with status %s' % rc))
GROUPS = [('history', 60, 900, case(history)), ('burst', 40, 600, case(burst)), ('rebuild', 40, 600, case(rebuild)), ('debug', 60, 800, case(debug)), ('halt', 8, 60, case(halt))]

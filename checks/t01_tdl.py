"""The forest that a TDL script compiles to is the expression graph that the script wrote."""
import os, sys, re, copy
from vf.forest import *
from vf.core import Skip
PROPERTY = 'T01'; LEVEL = 'exploration'
RULE = ('random TDL scripts compiled by the real compiler against a stub meqserver; the batch of init-records it sends is compared, node by node, with the '
        'structure the generator wrote down; distinct by (kinds of statement and naming), (kind of mistake, where) and (shape of executed expression)')
MIN_DISTINCT = 300

CL = ['Add', 'Multiply', 'Subtract', 'Divide', 'Sin', 'Cos', 'Composer', 'MatrixMultiply', 'WSum0', 'Max', 'ReqSeq', 'Polar']
class Scope:
    def __init__(s, text, prefix, quals): s.text, s.prefix, s.quals = text, prefix, quals
def qs(v):
    if isinstance(v, Node): return v.name
    if isinstance(v, (list, tuple)): return ','.join(qs(x) for x in v)
    return str(v)
class Node:
    def __init__(s, scope, base, quals, kw, text):
        s.scope, s.base, s.quals, s.kw, s.text = scope, base, list(quals), dict(kw), text
        s.name = ':'.join([(scope.prefix + '::' if scope.prefix else '') + base] + [qs(q) for q in list(scope.quals) + s.quals] + ['%s=%s' % (k, ','.join(qs(x) for x in v)) for k, v in s.kw.items()])
        s.key = (scope.prefix, tuple(scope.quals), base, tuple(map(qs, s.quals)), tuple((k, tuple(map(qs, v))) for k, v in s.kw.items()))
class E:
    """an expression: a node, a constant or a definition"""
    def __init__(s, kind, **kw): s.kind = kind; s.__dict__.update(kw)

class Gen:
    def __init__(s, rng, numeric=False):
        s.rng, s.numeric = rng, numeric
        s.lines = []; s.nodes = {}; s.defs = {}; s.later = []; s.roots = set(); s.kinds = set(); s.scopes = [Scope('ns', '', [])]; s.nsc = 0; s.nv = 0; s.shared = set(); s.uniq = 0
        s.orphans = []; s.bases = set(); s.taken = set(); s.nonable = False; s.sinks = []; s.spigots = []; s.vdm = None
    def emit(s, t): s.lines.append('  ' + t); return len(s.lines) - 1
    # --- names
    def quals(s):
        r = s.rng; q = [r.choice([1, 2, 'x', 'y', 'q-r', 3.5, (1, 2), ('p', 1)]) for _ in range(r.choice([0, 1, 1, 2]))]
        kw = {k: r.choice([1, 2, 'u', (1, 'z')]) for k in r.sample(['k', 'l', 'src'], r.choice([0, 0, 0, 1, 2]))}
        return q, kw
    def argtext(s, q, kw): return ', '.join([x.text if isinstance(x, Node) else repr(x) for x in q] + ['%s=%r' % (k, v) for k, v in kw.items()])
    def ext(s, n, q, kw, merge, text):
        q0 = list(n.quals) + ([x for x in q if True] if not merge else [])
        if merge:
            for x in q:
                if x not in n.quals: q0.append(x)
        k0 = {k: list(v) for k, v in n.kw.items()}
        for k, v in kw.items():
            l = k0.setdefault(k, [])
            for x in (v if isinstance(v, list) else [v]):
                if x not in l: l.append(x)
        return Node(n.scope, n.base, q0, k0, text)
    def stub(s):
        """text for, and identity of, a possibly new node"""
        r = s.rng
        for _ in range(50):
            sc = r.choice(s.scopes); base = r.choice('abcdefgh') + r.choice(['', '', '1', '_x'])
            n = Node(sc, base, [], {}, '%s.%s' % (sc.text, base) if r.random() < .8 else '%s[%r]' % (sc.text, base)); kinds = ['attr']
            basic = n
            chain = [n]
            for _ in range(r.choice([0, 0, 1, 1, 2])):
                q, kw = s.quals()
                if r.random() < .1 and s.nodes: q.append(r.choice(sorted([x for x in s.nodes.values() if not x.base.startswith('orphan')] or [Node(s.scopes[0], 'vfq', [], {}, 'ns.vfq')], key=lambda x: x.name))); kinds.append('nodequal')
                if r.random() < .15 and s.nodes:
                    o = r.choice(sorted(s.nodes.values(), key=lambda x: x.name)); m = r.random() < .5
                    n = s.ext(n, o.quals, o.kw, m, '%s.%s(%s)' % (n.text, 'qmerge' if m else 'qadd', o.text)); kinds.append('qmerge' if m else 'qadd')
                else:
                    n = s.ext(n, q, kw, False, '%s(%s)' % (n.text, s.argtext(q, kw))); kinds.append('call%d%d' % (len(q), len(kw)))
                chain.append(n)
            # a full name has one meaning only: names that several derivations share are not generated
            if len(n.name) < 150 and all(c.name not in s.nodes or s.nodes[c.name].key == c.key for c in chain):
                for c in chain: s.nodes.setdefault(c.name, c)
                for c in chain[:-1]: s.bases.add(c.name)
                s.kinds.update(kinds); return n
        s.uniq += 1
        n = Node(s.scopes[0], 'fresh%d' % s.uniq, [], {}, 'ns.fresh%d' % s.uniq); s.nodes[n.name] = n; return n
    def fresh(s):
        for _ in range(50):
            n = s.stub()
            if n.name not in s.defs and n.name not in s.taken: s.taken.add(n.name); return n
        s.uniq += 1
        n = Node(s.scopes[0], 'fresh%d' % s.uniq, [], {}, 'ns.fresh%d' % s.uniq); s.nodes[n.name] = n; return n
    def newscope(s):
        r = s.rng; p = r.choice(s.scopes); q, kw = s.quals(); s.nsc += 1; v = 'S%d' % s.nsc
        fl = [qs(x) for x in q] + ['%s=%s' % (k, qs(x)) for k, x in kw.items()]
        if r.random() < .5:
            nm = r.choice(['sub', 'unit', 'src']) + str(s.nsc); pre = (p.prefix + '::' if p.prefix else '') + nm
            s.emit('%s = %s.Subscope(%s)' % (v, p.text, ', '.join(filter(None, [repr(nm), s.argtext(q, kw)]))))
            s.scopes.append(Scope(v, ':'.join([pre] + list(p.quals) + fl), [])); s.kinds.add('subscope%d' % bool(p.prefix))
        else:
            if not fl: q = [s.nsc]; fl = [str(s.nsc)]
            s.emit('%s = %s%s(%s)' % (v, p.text, r.choice(['', '.QualScope']), s.argtext(q, kw)))
            s.scopes.append(Scope(v, p.prefix, list(p.quals) + fl)); s.kinds.add('qualscope%d%d' % (bool(p.prefix), bool(p.quals)))
    # --- expressions
    def fields(s):
        r = s.rng; f = {}; t = []
        if r.random() < .25: f['cache_policy'] = r.choice([0, 10, 100]); t.append('cache_policy=%d' % f['cache_policy'])
        if r.random() < .2:
            g = r.sample(['solvable', 'phase', 'gain', 'x1'], r.randint(1, 2)); f['tags'] = g; t.append('tags=%r' % (r.choice([' '.join(g), g])))
        if r.random() < .1: f['vf_arr'] = np.array([1., 2., r.randint(0, 9)]); t.append('vf_arr=numpy.array(%r)' % [float(x) for x in f['vf_arr']])
        if r.random() < .1: f['vf_s'] = r.choice(['hello', 'a b', '']); t.append('vf_s=%r' % f['vf_s'])
        return f, t
    def known(s):
        """a node that is bound already, or that will be"""
        r = s.rng; d = sorted(s.defs)
        d = [x for x in d if x not in s.orphans]
        if not s.numeric and r.random() < .12 and len(s.later) < 3:
            n = s.fresh(); s.later.append(n); s.kinds.add('forward'); return E('node', n=n, t=n.text)
        if not d: return s.const()
        n = s.nodes[r.choice(d)]
        if r.random() < .07: s.kinds.add('byname'); return E('node', n=n, t=repr(n.name), strname=True)
        return E('node', n=n, t=n.text)
    def const(s):
        r = s.rng
        v = r.choice([1, 2, 0.5, 1.25, 3, -1.5, True, 0.75 + 0.5j, 2j, 1.2500000001, 299792458, 299792459., 1e-9, 1.00000001e-9, 2.0000000001j]) if not s.numeric else r.choice([1, 2, 0.5, 1.25, 3, -1.5, 0.75])
        return E('const', v=v, t=repr(v))
    def expr(s, d=2):
        """an operand"""
        r = s.rng; x = r.random()
        if not s.numeric and d < 2 and s.nonable and x < .04: s.kinds.add('none'); return E('none', t='None')
        if d <= 0 or x < .5: return s.known() if r.random() < .8 else s.const()
        return s.definition(d - 1)
    def definition(s, d=2):
        r = s.rng; x = r.random(); s.nonable = False
        if x < .35:
            op, cls = r.choice([('+', 'Add'), ('-', 'Subtract'), ('*', 'Multiply')] + ([('/', 'Divide'), ('%', 'FMod')] if not s.numeric else []))
            a, b = s.expr(d - 1), s.expr(d - 1)
            if getattr(a, 'strname', 0): a = E('node', n=a.n, t=a.n.text)
            if getattr(b, 'strname', 0): b = E('node', n=b.n, t=b.n.text)
            if a.kind == 'const' and b.kind == 'const': a = s.definition(0)
            s.kinds.add('op' + op + a.kind[0] + b.kind[0])
            return E('def', cls='Meq' + cls, ch=[(0, a), (1, b)], step=[], f={}, t='(%s %s %s)' % (a.t, op, b.t), dict=False)
        if x < .42 and s.defs:
            a = s.expr(d - 1)
            if a.kind != 'const' and not getattr(a, 'strname', 0):
                u = r.choice(['-', 'abs']); s.kinds.add('un' + u)
                return E('def', cls='MeqNegate' if u == '-' else 'MeqAbs', ch=[(0, a)], step=[], f={}, t='(-%s)' % a.t if u == '-' else 'abs(%s)' % a.t, dict=False)
        if x < .6:
            v = r.choice([1., -2.5, 0.25, 3.]) if s.numeric or r.random() < .7 else r.choice([1 + 2j, [1., 2., 3.]])
            f, t = s.fields() if not s.numeric else ({}, [])
            f['value'] = np.array(v) if isinstance(v, list) else v; s.kinds.add('constant')
            return E('def', cls='MeqConstant', ch=[], step=[], f=f, t='Meq.Constant(%s)' % ', '.join([repr(v)] + t), dict=False)
        if x < .68:
            if s.numeric:
                c = r.choice(['Freq', 'Time']); return E('def', cls='Meq' + c, ch=[], step=[], f={}, t='Meq.%s()' % c, dict=False)
            f, t = s.fields(); v = r.choice([0., 2.5, -1.]); f['default_value'] = v; f['node_groups'] = [hiid('Parm')]; s.kinds.add('parm')
            return E('def', cls='MeqParm', ch=[], step=[], f=f, t='Meq.Parm(%s)' % ', '.join([repr(v)] + t), dict=False)
        if s.numeric:
            cls, n = r.choice([('Add', r.randint(1, 4)), ('Multiply', r.randint(1, 4)), ('Subtract', 2), ('Sin', 1), ('Cos', 1), ('Sqr', 1), ('Abs', 1), ('Negate', 1)])
            f, t = {}, []
        else:
            cls = r.choice(CL); n = r.randint(1, 4); f, t = s.fields()
        s.nonable = True; ch = [s.expr(d - 1) for _ in range(n)]; s.nonable = False
        if all(c.kind == 'none' for c in ch): ch[0] = s.const()
        step = []
        if not s.numeric and r.random() < .12:
            step = [s.expr(0) for _ in range(r.randint(1, 2))]; step = [x for x in step if x.kind == 'node']
            if step: t.append('stepchildren=[%s]' % ', '.join(x.t for x in step)); s.kinds.add('step')
        y = r.random()
        if y < .12 and not s.numeric:
            lab = r.sample(['ra', 'dec', 'lmn', 'xyz0'], len(ch)); s.kinds.add('dict')
            return E('def', cls='Meq' + cls, ch=list(zip(lab, ch)), step=step, f=f, t='Meq.%s(%s)' % (cls, ', '.join(['children=dict(%s)' % ', '.join('%s=%s' % (l, c.t) for l, c in zip(lab, ch))] + t)), dict=True)
        if y < .22 and not s.numeric and all(c.kind not in ('const', 'none') and not getattr(c, 'strname', 0) for c in ch):
            lab = r.sample(['ra', 'dec', 'lmn', 'xyz0'], len(ch)); s.kinds.add('kwchildren')
            return E('def', cls='Meq' + cls, ch=list(zip(lab, ch)), step=step, f=f, t='Meq.%s(%s)' % (cls, ', '.join(['%s=%s' % (l, c.t) for l, c in zip(lab, ch)] + t)), dict=True)
        if y < .35 and n != 2:
            s.kinds.add('listchildren'); return E('def', cls='Meq' + cls, ch=list(enumerate(ch)), step=step, f=f, t='Meq.%s(%s)' % (cls, ', '.join(['children=[%s]' % ', '.join(c.t for c in ch)] + t)), dict=False)
        return E('def', cls='Meq' + cls, ch=list(enumerate(ch)), step=step, f=f, t='Meq.%s(%s)' % (cls, ', '.join([c.t for c in ch] + t)), dict=False)
    # --- statements
    def bind(s, n, d):
        r = s.rng; y = r.random()
        if y < .75: s.emit('%s << %s' % (n.text, d.t))
        elif y < .85 and not n.quals and not n.kw and n.text[-1] not in '])': s.emit('%s = %s' % (n.text, d.t)); s.kinds.add('assign')
        else: s.emit('%s ** %s' % (n.text, d.t)); s.kinds.add('optional')
        s.defs[n.name] = d
    def statement(s):
        r = s.rng; x = r.random()
        if x < .1 and len(s.scopes) < 6: return s.newscope()
        if x < .16 and s.defs:      # the same definition again
            n = s.nodes[r.choice(sorted(s.defs))]; d = s.defs[n.name]
            if getattr(d, 'again', True) and not nested_leaf(d): s.emit('%s << %s' % (n.text, d.t)); s.kinds.add('again'); return
        if x < .2 and s.defs:       # a definition that is not wanted
            n = s.nodes[r.choice(sorted(s.defs))]; s.emit('%s ** %s' % (n.text, 'Meq.Constant(12345)')); s.kinds.add('unwanted'); return
        if x < .25 and not s.numeric:
            i = r.randint(2, 3); n = s.fresh(); d = s.definition(1); v = 'i%d' % s.nv; s.nv += 1
            ns_ = [s.ext(n, [k, 'it'], {}, False, '%s(%d,\'it\')' % (n.text, k)) for k in range(i)]
            if all(m.name not in s.nodes for m in ns_) and not nested_leaf(d):
                s.emit('for %s in range(%d): %s(%s,\'it\') << %s' % (v, i, n.text, v, d.t)); s.kinds.add('loop')
                s.bases.add(n.name)
                for m in ns_: s.nodes[m.name] = m; s.defs[m.name] = d
                return
        if x < .29 and not s.numeric:
            a, b = s.fresh(), None
            d = s.definition(1); v = 'd%d' % s.nv; s.nv += 1
            s.emit('%s = %s' % (v, d.t)); s.emit('%s << %s' % (a.text, v)); s.defs[a.name] = d; d.again = False
            b = s.fresh(); s.emit('%s << %s' % (b.text, v)); s.defs[b.name] = d; s.kinds.add('shared'); s.shared.update([a.name, b.name]); return
        if x < .33 and s.defs and not s.numeric:
            n = s.nodes[r.choice(sorted(s.defs))]; d = s.defs[n.name]
            if not d.dict and d.ch:
                c = [x for x in [s.known() for _ in range(r.randint(1, 2))] if x.kind == 'node' and not getattr(x, 'strname', 0)]
                c = [x for x in c if not reaches(s, x.n.name, n.name)]
                if c:
                    d2 = copy.copy(d); st = r.random() < .3
                    if st: d2.step = d.step + c
                    else: d2.ch = d.ch + [(len(d.ch) + k, x) for k, x in enumerate(c)]
                    d2.again = False
                    s.emit('%s.%s(%s)' % (n.text, 'add_stepchildren' if st else 'add_children', ', '.join(x.t for x in c))); s.defs[n.name] = d2; s.kinds.add('addchild%d' % st); return
        if x < .37 and s.defs and not s.numeric:
            n = s.nodes[r.choice(sorted(s.defs))]; d = s.defs[n.name]
            if 1:
                d2 = copy.copy(d); d2.f = dict(d.f, vf_opt=s.nv); d2.again = False
                s.emit('%s.set_options(vf_opt=%d)' % (n.text, s.nv)); s.defs[n.name] = d2; s.nv += 1; s.kinds.add('set_options'); return
        if x < .45 and s.defs:
            n = s.nodes[r.choice(sorted(s.defs))]
            if n.name not in s.orphans: s.emit('ns.ROOT << %s' % n.text); s.roots.add(n.name); s.kinds.add('root'); return
        if x < .5 and not s.numeric:      # nobody will use these
            sc = r.choice(s.scopes); s.uniq += 1; o = Node(sc, 'orphan%d' % s.uniq, [], {}, '%s.orphan%d' % (sc.text, s.uniq))
            if r.random() < .3: o = s.ext(o, [7], {}, False, o.text + '(7)')
            d = E('def', cls='MeqConstant', ch=[], step=[], f={'value': 5.}, t='Meq.Constant(5.)', dict=False)
            s.nodes[o.name] = o; s.defs[o.name] = d; s.emit('%s << %s' % (o.text, d.t))
            s.uniq += 1; o2 = Node(sc, 'orphan%d' % s.uniq, [], {}, '%s.orphan%d' % (sc.text, s.uniq))
            if r.random() < .3: o2 = s.ext(o2, [7], {}, False, o2.text + '(7)')
            ch = [o] + [s.nodes[r.choice(sorted(s.defs))]] * r.choice([0, 0, 1])
            d2 = E('def', cls='MeqAdd', ch=[(k, E('node', n=x, t=x.text)) for k, x in enumerate(ch)], step=[], f={}, t='Meq.Add(%s)' % ', '.join(x.text for x in ch), dict=False)
            s.nodes[o2.name] = o2; s.emit('%s << %s' % (o2.text, d2.t)); s.defs[o2.name] = d2; s.orphans += [o.name, o2.name]; s.kinds.add('orphan%d%d' % (bool(sc.prefix), bool(sc.quals))); return
        if x < .53 and not s.numeric and s.defs:
            n = s.fresh()
            if r.random() < .5:
                c = s.known(); d = E('def', cls='MeqSink', ch=[(0, c)], step=[], f={'vf_k': s.nv}, t='Meq.Sink(%s, vf_k=%d)' % (c.t, s.nv), dict=False); s.sinks.append(n.name); s.kinds.add('sink')
            else: d = E('def', cls='MeqSpigot', ch=[], step=[], f={'vf_k': s.nv}, t='Meq.Spigot(vf_k=%d)' % s.nv, dict=False); s.spigots.append(n.name); s.kinds.add('spigot')
            s.nv += 1; s.emit('%s << %s' % (n.text, d.t)); s.defs[n.name] = d; return
        if x < .54 and not s.numeric and not s.vdm and s.defs:
            n = s.fresh(); s.vdm = n.name; ch = [('start', E('none')), ('pre', E('none')), ('post', E('none'))]; t = []
            for k, (l, _) in enumerate(ch):
                if r.random() < .4:
                    c = s.known()
                    if c.kind == 'node': c = E('node', n=c.n, t=c.n.text); ch[k] = (l, c); t.append('%s=%s' % (l, c.t))
            d = E('def', cls='MeqVisDataMux', ch=ch, step=[], f={}, t='Meq.VisDataMux(%s)' % ', '.join(t), dict=True); d.again = False
            s.emit('%s << %s' % (n.text, d.t)); s.defs[n.name] = d; s.kinds.add('vdm%d' % len(t)); s.taken.add(n.name); return
        n = s.later.pop() if s.later and r.random() < .5 else s.fresh()
        keep = s.defs
        # forward references must not close a cycle: what is bound late uses only constants and leaves
        if n.name in [x.name for x in s.later] or n in getattr(s, 'fw', []): pass
        s.bind(n, s.definition(2))
    def program(s, n):
        for _ in range(n):
            later = list(s.later)
            s.statement()
        for m in list(s.later): s.emit('%s << Meq.Constant(7)' % m.text); s.defs[m.name] = E('def', cls='MeqConstant', ch=[], step=[], f={'value': 7.}, t='', dict=False)
        s.later = []
        # every sink and spigot ends up with the VisDataMux
        if s.sinks or s.spigots:
            if not s.vdm:
                m = Node(s.scopes[0], 'VisDataMux', [], {}, 'ns.VisDataMux'); s.nodes[m.name] = m; s.vdm = m.name; s.kinds.add('autovdm')
                s.defs[m.name] = E('def', cls='MeqVisDataMux', ch=[(l, E('none')) for l in ('pre', 'post', 'start')], step=[], f={}, t='', dict=True)
            d = s.defs[s.vdm] = copy.copy(s.defs[s.vdm])
            have = [c.n.name for _, c in d.ch + list(enumerate(d.step)) if c.kind == 'node']
            d.ch = d.ch + [(len(d.ch) + k, E('node', n=s.nodes[x], t='')) for k, x in enumerate(x for x in s.sinks if x not in have)]
            d.step = d.step + [E('node', n=s.nodes[x], t='') for x in s.spigots if x not in have]
        s.late = s.vdm
    def text(s, pre=''): return 'from Timba.TDL import *\nimport numpy\n' + pre + 'def _define_forest (ns,**kw):\n' + '\n'.join(s.lines or ['  pass']) + '\n'

def nested_leaf(d):
    """childless anonymous definitions get a new name each time they are written"""
    return any(c.kind == 'def' and (not c.ch or nested_leaf(c)) for _, c in d.ch) or any(c.kind == 'def' for c in d.step)
def refs(d):
    for _, c in list(d.ch) + [(0, x) for x in d.step]:
        if c.kind == 'node': yield c.n.name
        elif c.kind == 'def': yield from refs(c)
def reaches(s, a, b, seen=None):
    seen = set() if seen is None else seen
    if a == b: return True
    if a in seen: return False
    seen.add(a)
    return a in s.defs and any(reaches(s, x, b, seen) for x in refs(s.defs[a]))
def cyclic(s):
    return any(reaches(s, x, n) for n in s.defs for x in set(refs(s.defs[n])))

class Mqs:
    """stands in for the meqserver: remembers what it was told"""
    def __init__(s): s.log = []
    def meq(s, cmd, rec=None, wait=None, **kw): s.log.append((cmd, rec)); return record()
META = ('name', 'nodeindex', 'node_description', 'class', 'children', 'step_children', 'parents')
def compile_text(ctx, text, name='script', extra={}):
    from Timba.TDL import Compile, TDLOptions
    from Timba.Meq import meqds
    import Timba.TDL.TDLimpl as I
    fn = ctx.scratch + '/%s.tdl' % name
    open(fn, 'w').write(text)
    I._original_invocation_filename = None
    q = Mqs(); meqds.set_meqserver(q)
    TDLOptions.config.set_save_filename(None)
    so, se = sys.stdout, sys.stderr; sys.stdout = sys.stderr = open(os.devnull, 'w')
    try:
        try: mod, ns, msg = Compile.compile_file(q, fn)
        finally: sys.stdout.close(); sys.stdout, sys.stderr = so, se
    except I.CumulativeError as e: return q, None, e, fn
    return q, ns, None, fn
def veq(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray): return np.array_equal(np.asarray(a), np.asarray(b))
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)): return len(a) == len(b) and all(veq(x, y) for x, y in zip(a, b))
    return type(a) is type(b) and a == b or (isinstance(a, (int, float, complex)) and isinstance(b, (int, float, complex)) and a == b)
def kids(r):
    ch = r.get('children')
    if ch is None: return []
    return list(ch.items()) if isinstance(ch, dict) else list(enumerate(ch if isinstance(ch, (list, tuple)) else [ch]))
def seq(x): return [] if x is None else list(x) if isinstance(x, (list, tuple)) else [x]

def compare(ctx, g, batch, trimmed=False):
    by = {}; ix = {}
    for r in batch:
        ctx.check(r.name not in by and r.nodeindex not in ix and r.nodeindex > 0, 'identity', lambda: (r.name, r.nodeindex)); by[r.name] = r; ix[r.nodeindex] = r.name
    need = set(g.defs)
    if trimmed:
        need = set(); todo = list(g.roots)
        while todo:
            x = todo.pop()
            if x not in need: need.add(x); todo += list(refs(g.defs[x]))
        for o in g.orphans: ctx.check(o not in by or o in need, 'orphan-kept', o)
    for n in need:
        ctx.check(n in by, 'missing-node', n)
    # what was never written does not exist
    inv = {}
    for r in batch:
        for lab, i in kids(r):
            ctx.check(i == -1 or i in ix, 'dangling-child', lambda: (r.name, lab, i)); inv.setdefault(i, set()).add(r.nodeindex)
        for i in seq(r.get('step_children')): ctx.check(i in ix, 'dangling-child', lambda: (r.name, i)); inv.setdefault(i, set()).add(r.nodeindex)
    for r in batch:
        ctx.check(set(seq(r.get('parents'))) == inv.get(r.nodeindex, set()), 'parents', lambda: (r.name, r.get('parents'), inv.get(r.nodeindex)))
    used = set()
    def match(name, d, path):
        r = by.get(name)
        if r is None: ctx.check(trimmed and d is not None, 'missing-node', lambda: (name, path)); return
        used.add(name)
        if not ctx.check(getattr(r, 'class') == d.cls, 'class', lambda: (path, name, r, d.t)): return
        f = {k: v for k, v in r.items() if k not in META}
        ctx.check(set(f) == set(d.f) and all(veq(f[k], d.f[k]) for k in f), 'fields', lambda: (path, name, f, d.f))
        k = kids(r)
        ctx.check(isinstance(r.get('children'), dict) == bool(d.dict and d.ch), 'children-form', lambda: (path, name, r))
        if not ctx.check([str(x) for x, _ in k] == [str(x) for x, _ in d.ch] or (d.dict and sorted(str(x) for x, _ in k) == sorted(str(x) for x, _ in d.ch)), 'child-labels', lambda: (path, name, r, d.t)): return
        k = dict((str(a), b) for a, b in k)
        todo = [(str(l), k[str(l)], c) for l, c in d.ch]
        st = seq(r.get('step_children'))
        if ctx.check(len(st) == len(d.step), 'step-children', lambda: (path, name, r, d.t)): todo += [('step%d' % i, st[i], c) for i, c in enumerate(d.step)]
        for l, i, c in todo:
            p = path + [l]; cn = ix.get(i)
            if c.kind == 'none': ctx.check(i == -1, 'missing-child', lambda: (p, name, i)); continue
            if cn is None: ctx.check(False, 'child', lambda: (p, name, i)); continue
            if c.kind == 'node': ctx.check(cn == c.n.name, 'child', lambda: (p, name, cn, c.n.name)); used.add(cn)
            elif c.kind == 'const':
                q = by[cn]; used.add(cn)
                ctx.check(getattr(q, 'class') == 'MeqConstant' and veq(q.value, complex(c.v) if isinstance(c.v, complex) else float(c.v)), 'constant', lambda: (p, name, q, c.v))
            else:
                ctx.check(cn not in g.defs, 'anonymous-is-named', lambda: (p, name, cn)); match(cn, c, p)
    for n in sorted(need if trimmed else g.defs): match(n, g.defs[n], [n])
    if not trimmed:
        ctx.check(set(by) == used, 'extra-node', lambda: sorted(set(by) - used))
    return by, ix

def autonames_clash(g):
    """definitions that the compiler will name alike although they differ (which it must refuse)"""
    seen = {}
    def sig(d):
        return (d.cls, tuple((str(l), ref(c)) for l, c in d.ch), tuple(ref(c) for c in d.step), tuple(sorted((k, repr(v)) for k, v in d.f.items())), d.dict)
    def ref(c): return ('none',) if c.kind == 'none' else ('n', c.n.name) if c.kind == 'node' else ('c', repr(complex(c.v))) if c.kind == 'const' else sig(c)
    def walk(d):
        for _, c in list(d.ch) + [(0, x) for x in d.step]:
            if c.kind == 'def':
                walk(c)
                if c.ch: seen.setdefault((c.cls, tuple(base(x) for _, x in c.ch)), set()).add(sig(c))
    def base(c): return 'None' if c.kind == 'none' else c.n.base if c.kind == 'node' else repr(c.v) if c.kind == 'const' else ('leaf' if not c.ch else c.cls + '(' + ','.join(base(x) for _, x in c.ch) + ')')
    for d in g.defs.values(): walk(d)
    return any(len(v) > 1 for v in seen.values())

def build(rng, **kw):
    while True:
        g = Gen(rng, **kw); g.program(rng.randint(4, 30))
        if g.defs and not cyclic(g): return g

def script(ctx, i, rng):
    g = build(rng); trim = rng.random() < .35
    pre = 'Settings.orphans_are_roots = %s\n' % (not trim) if trim or rng.random() < .5 else ''
    t = g.text(pre); ctx.describe(t)
    q, ns, err, fn = compile_text(ctx, t)
    if err is not None:
        names = [type(e).__name__ for e in err.args]
        ctx.check(autonames_clash(g) and set(names) <= {'NodeRedefinedError', 'DefinedHere', 'NamedHere', 'CalledFrom'}, 'refused', lambda: (names, str(err)[:1500]))
        ctx.check(not [c for c, _ in q.log if c == 'Create.Node.Batch'], 'sent-despite-errors'); ctx.count('clash'); return
    b = [r for c, r in q.log if c == 'Create.Node.Batch']
    if trim and not g.roots:
        if not b: return
    if not ctx.check(len(b) == 1, 'batches', lambda: [c for c, _ in q.log]): return
    cmds = [c for c, _ in q.log]; ctx.check('Clear.Forest' in cmds[:cmds.index('Create.Node.Batch')], 'not-cleared', cmds)
    fs = [r for c, r in q.log if c == 'Set.Forest.State']
    ctx.check(len(fs) == 1 and list(fs[0].state.tdl_source.values()) == [t], 'source', lambda: fs)
    batch = b[0].batch
    by, ix = compare(ctx, g, batch, trim)
    # searches
    pat = rng.choice(['a.*', '.*:1', 'c', '.*::.*', 'b(1|_x)?'])
    tag = rng.choice([None, 'gain', 'so', ['phase', 'x1']]); cls = rng.choice([None, 'MeqAdd', 'Meq(Sin|Cos)', 'MeqP.*'])
    got = set(ns.Search(return_names=True, name=pat, tags=tag, class_name=cls))
    want = set(n for n, r in by.items() if re.fullmatch(pat, n) and (not cls or re.fullmatch(cls, getattr(r, 'class'))) and
               all(any(re.match(x, y) for y in seq(r.get('tags'))) for x in ([tag] if isinstance(tag, str) else tag or [])))
    ctx.check(got == want, 'search', lambda: (pat, tag, cls, got ^ want))
    top = rng.choice(sorted(by)); below = set(); todo = [by[top].nodeindex]
    while todo:
        x = todo.pop()
        if x in ix and ix[x] not in below: below.add(ix[x]); todo += [c for _, c in kids(by[ix[x]])]
    got = set(ns.Search(return_names=True, subtree=ns.AllNodes()[top], name='.*')); ctx.check(got == below, 'search-subtree', lambda: (top, got ^ below))
    if not trim: ctx.check(set(ns.RootNodes()) == set(n for n, r in by.items() if not seq(r.get('parents'))), 'roots', lambda: sorted(ns.RootNodes()))
    # compiling again, after something else, gives the same
    if rng.random() < .5:
        compile_text(ctx, build(rng).text('Settings.orphans_are_roots = %s\n' % bool(rng.random() < .5)), 'other')
        q2, ns2, err2, _ = compile_text(ctx, t)
        b2 = [r for c, r in q2.log if c == 'Create.Node.Batch']
        if ctx.check(err2 is None and len(b2) == 1, 'again', lambda: str(err2)):
            d = lambda bb: sorted((r.name, getattr(r, 'class'), r.nodeindex, str(r.get('children')), str(r.get('parents') and sorted(seq(r.parents)))) for r in bb)
            if not trim: ctx.check(d(batch) == d(b2[0].batch), 'again-differs', lambda: [x for x in zip(d(batch), d(b2[0].batch)) if x[0] != x[1]][:3])
    for k in g.kinds: ctx.seen(('kind', k, trim))
    for a in sorted(g.kinds):
        for c in sorted(g.kinds): a < c and ctx.seen(('pair', a, c))
    ctx.count('nodes', len(batch))

def mistake(ctx, i, rng):
    """one wrong statement somewhere: refused, with the place; nothing reaches the server"""
    g = build(rng)
    if autonames_clash(g) or all(x in g.orphans for x in g.defs): raise Skip
    n = s = None; kind = rng.choice(['unbound', 'unbound', 'redefined', 'redefined', 'byname', 'type', 'python', 'matrix', 'solver', 'syntax', 'both', 'step', 'cycle', 'cycle'])
    names = [x for x in sorted(g.defs) if x not in g.orphans]
    at = rng.randint(0, len(g.lines))
    if kind == 'redefined':
        n = g.nodes[rng.choice(names)]; at = len(g.lines)
        d = g.defs[n.name]
        alt = rng.choice(['Meq.Constant(987)', 'Meq.Tan(Meq.Constant(3))', 'Meq.Constant(987, vf_zz=1)'])
        if d.cls == 'MeqParm' and rng.random() < .5: alt = 'Meq.Parm(987.)'
        kind = 'redefined'
        if getattr(d, 'again', True) and not nested_leaf(d) and d.t.startswith('Meq.') and rng.random() < .7:     # nearly the same
            o = rng.choice([x for x in names if x != n.name] or [None]); x = rng.randint(0, 3)
            if x == 0 and o and 'stepchildren' not in d.t: alt = d.t[:-1] + ', stepchildren=[%s])' % g.nodes[o].text
            elif x == 1: alt = d.t[:-1] + (', ' if d.t[-2] != '(' else '') + 'vf_zz=0)'
            elif x == 2 and o and not d.dict and d.cls not in ('MeqConstant', 'MeqParm') and d.ch and d.f == {} and not d.step and d.t.count('Meq.') == 1 and 'children' not in d.t: alt = d.t[:-1] + ', %s)' % g.nodes[o].text
            elif x == 3 and len(d.ch) > 1 and d.f == {} and not d.step and not d.dict and len({c.t for _, c in d.ch}) > 1 and d.cls != 'MeqVisDataMux':
                y = d.ch[1:] + d.ch[:1]
                if [c.t for _, c in y] != [c.t for _, c in d.ch]: alt = 'Meq.%s(%s)' % (d.cls[3:], ', '.join(c.t for _, c in y))
            subtle = 'near%d' % x
        else: subtle = ''
        bad = '%s << %s' % (n.text, alt)
    elif kind == 'cycle':
        # a node that is used by others becomes a child of one of them
        a = rng.choice(names); up = [x for x in names if reaches(g, x, a) and not g.defs[a].dict]
        if not up: raise Skip
        b = rng.choice(up); at = len(g.lines)
        bad = '%s.%s(%s)' % (g.nodes[a].text, rng.choice(['add_children', 'add_stepchildren']), g.nodes[b].text)
    else:
        bad = {'step': 'ns.vf_new << Meq.Add(1, stepchildren=[ns.vf_never])', 'unbound': 'ns.vf_new(%d) << Meq.Add(ns.vf_never(1), 2)' % i, 'byname': 'ns.vf_new << Meq.Add("vf_never:1", 2)', 'type': 'ns.vf_new << Meq.Add(object(), 2)',
               'python': 'ns.vf_new << Meq.Constant(1/0)', 'matrix': 'ns.vf_new << Meq.Matrix22(1,2,3)', 'solver': 'ns.vf_new << Meq.Solver(Meq.Constant(1), solvable=[5])', 'syntax': 'ns.vf_new <<',
               'both': 'ns.vf_new << Meq.Add(ns.vf_never, children=[ns.vf_never])'}[kind]
    # never in the middle of a loop header etc.: statements are single lines
    lines = list(g.lines); lines.insert(at, '  ' + bad)
    t = 'from Timba.TDL import *\nimport numpy\ndef _define_forest (ns,**kw):\n' + '\n'.join(lines) + '\n'; line = 4 + at
    ctx.describe(t)
    q, ns, err, fn = compile_text(ctx, t)
    if not ctx.check(err is not None, 'accepted:' + kind, bad): return
    sent = [c for c, _ in q.log if c in ('Create.Node.Batch', 'Set.Forest.State')]
    ctx.check(not sent, 'sent-despite-errors', sent)
    where = [(getattr(e, 'filename', None), getattr(e, 'lineno', None)) for e in err.args]
    if kind == 'cycle':
        ctx.check(all(type(e).__name__ == 'ChildError' for e in err.args) and all(w[0] == fn and w[1] for w in where), 'place:cycle', lambda: (where, str(err)[:1200]))
        ctx.seen((kind, bad.count('step'), len(err.args)))
    else: ctx.check((fn, line) in where, 'place:' + kind, lambda: (line, where, str(err)[:1200]))
    # and nothing else is blamed
    for e in err.args:
        f, l = getattr(e, 'filename', None), getattr(e, 'lineno', None)
        if kind != 'cycle' and f == fn and l != line and type(e).__name__ not in ('DefinedHere', 'NamedHere', 'CalledFrom'):
            ctx.violation('blames-other:' + kind, (line, l, type(e).__name__, str(e)[:300]))
    ctx.seen((kind, subtle if kind == 'redefined' else '', at * 4 // (len(g.lines) + 1), len(err.args)))
    # once corrected, the script compiles as if nothing had happened
    q, ns, err, fn = compile_text(ctx, g.text()); b = [r for c, r in q.log if c == 'Create.Node.Batch']
    if ctx.check(err is None and len(b) == 1, 'corrected', lambda: str(err)[:800]): compare(ctx, g, b[0].batch)

def numeric(ctx, i, rng):
    """the kernel computes from the batch what the script says"""
    g = build(rng, numeric=True); t = g.text(); ctx.describe(t)
    q, ns, err, fn = compile_text(ctx, t)
    if err is not None:
        ctx.check(autonames_clash(g), 'refused', lambda: str(err)[:1000]); return
    batch = [r for c, r in q.log if c == 'Create.Node.Batch'][0].batch
    vdrv.forest_new()
    for r in batch:
        j = vdrv.create(r); ctx.check(j == r.nodeindex, 'index', lambda: (j, r))
    vdrv.init_all()
    nt, nf = rng.randint(1, 4), rng.randint(1, 4)
    c = cells(nt, nf, 0., 2., 1., 3.); T = np.asarray(c.grid.time, float).reshape(-1, 1); F = np.asarray(c.grid.freq, float).reshape(1, -1)
    one = np.ones((nt, nf)); memo = {}
    def ev(c):
        if c.kind == 'const': return one * c.v
        if c.kind == 'node':
            if c.n.name not in memo: memo[c.n.name] = ev(g.defs[c.n.name])
            return memo[c.n.name]
        a = [ev(x) for _, x in c.ch]; k = c.cls[3:]
        with np.errstate(all='ignore'):
            if k == 'Constant': return one * c.f['value']
            if k == 'Freq': return one * F
            if k == 'Time': return one * T
            if k == 'Add': return sum(a[1:], a[0])
            if k == 'Subtract': return a[0] - a[1]
            if k == 'Multiply':
                y = a[0]
                for z in a[1:]: y = y * z
                return y
            return {'Sin': np.sin, 'Cos': np.cos, 'Sqr': np.square, 'Abs': np.abs, 'Negate': np.negative}[k](a[0])
    rq = request(c)
    for n in sorted(g.defs, key=lambda x: rng.random())[:12]:
        rc, res = vdrv.execute([r.nodeindex for r in batch if r.name == n][0], rq, 0)
        w = ev(E('node', n=g.nodes[n]))
        if not np.all(np.isfinite(w)) or np.abs(w).max() > 1e6: continue   # sines of huge numbers, overflows
        vs = res.vellsets[0] if not isinstance(res.vellsets, dict) else res.vellsets
        v = np.broadcast_to(np.asarray(vs.value), (nt, nf)) if 'value' in vs else None
        ctx.check(v is not None and np.allclose(v, w, rtol=1e-6, atol=1e-8), 'value', lambda: (n, g.defs[n].t, w.tolist(), None if v is None else v.tolist()))
        ctx.seen(('num', shape(g.defs[n])))
def shape(d): return (d.cls[3:],) + tuple(c.kind[0] if c.kind != 'def' else shape(c) for _, c in d.ch)

GROUPS = [('script', 500, 12000, script), ('mistake', 250, 6000, mistake), ('numeric', 250, 6000, numeric)]

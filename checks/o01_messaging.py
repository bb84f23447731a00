"""O01: message delivery inside an OCTOPUSSY dispatcher.
Each case is a generated scenario (workprocesses: polled, with worker threads, or drained by a foreign thread like the
Python proxies; subscriptions; sender threads; receivers that hold, requeue, take away, modify or answer messages;
timeouts; watched file descriptors), run by octodrv with the real dispatcher, event and worker threads.  The log of
send, receive and subscription events is judged offline against a reference matcher."""
import os, subprocess, itertools
from vf.core import Skip
from vf import env

PROPERTY = 'O01'; LEVEL = 'exploration'; FLAVOURS = ['asan', 'tsan']; PRELOAD = False; CASE_TIMEOUT = 75; MIN_DISTINCT = 60
RULE = 'an event (message reception, send result, timeout, input) judged against the reference delivery model'
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLS = ['VfA', 'VfB', 'VfC']
IDS = ['VfMsg', 'VfMsg.VfX', 'VfMsg.VfX.VfY', 'VfMsg.VfY', 'VfMsg.VfZ.VfY', 'VfMsg.VfX.3']
MASKS = ['VfMsg.*', 'VfMsg.VfX.*', 'VfMsg.VfX.VfY.*', 'VfMsg.?.VfY.*', 'VfMsg.VfZ.*', 'VfMsg.VfX.?.?.?.?', 'VfMsg.?.?.?.?', '*', 'VfMsg.VfY.*', 'VfMsg.VfX.3.*', 'VfMsg.VfX']

def matches(i, m):
    for a, b in itertools.zip_longest(i, m):
        if a == '*' or b == '*': return True
        if a is None or b is None: return False
        if a != b and a != '?' and b != '?': return False
    return True
def subset(a, b):
    for x, y in itertools.zip_longest(a, b):
        if y == '*': return True
        if x is None or y is None or x == '*': return False
        if x == '?' and y != '?': return False
        if x != y and y != '?': return False
    return True

def run(ctx, text, limit=65, args=(), name='o'):
    fl = os.environ['VF_FLAVOUR']; out = os.path.join(ctx.scratch, name + '.log')
    if os.path.exists(out): os.unlink(out)
    e = env.environ(fl, ctx.scratch, preload=False)
    p = subprocess.run([V + '/build/%s/vf/octodrv' % fl, out] + list(args), input=text.encode(), env=e, stdout=subprocess.DEVNULL,
                       stderr=open(ctx.scratch + '/err', 'w'), timeout=limit, cwd=ctx.scratch)
    ev = []
    if os.path.exists(out):
        for l in open(out, errors='replace'): ev.append(l.split())
    return p.returncode, ev

class Hist:
    """the event log, indexed"""
    def __init__(self, ev):
        self.addr = {}; self.sends = {}; self.recv = {}; self.rend = {}; self.subs = {}; self.tmo = {}; self.tadd = {}; self.inp = {}; self.wrote = {}
        self.ibad = []; self.det = {}; self.end = self.stop = None; self.exc = []; self.ok = False; self.fw = 0; self.foreign = []; self.gw = []
        for e in ev:
            t = e[0]
            if t == 'A': self.addr[int(e[1])] = e[2]
            elif t == 'Sb':
                self.sends.setdefault(int(e[3]), {}).update(b=int(e[1]), w=int(e[2]), k=e[4], id=e[5].split('_'), a=e[6], pri=int(e[7]), hold=int(e[8]), kind=int(e[9]), size=int(e[10]), thr=e[11])
            elif t == 'Se': self.sends.setdefault(int(e[2]), {}).update(e=int(e[1]), n=int(e[3]))
            elif t == 'Sx': self.sends.setdefault(int(e[2]), {}).update(x=' '.join(e[3:]), e=int(e[1]), n=-1)
            elif t == 'R': self.recv.setdefault((int(e[2]), int(e[3])), []).append(dict(s=int(e[1]), res=e[4], id=e[5].split('_'), fr=e[6], pri=int(e[7]), ck=e[8], hops=int(e[9]), stopped=int(e[10]), thr=e[11]))
            elif t == 'Re': self.rend.setdefault((int(e[2]), int(e[3])), []).append(int(e[1]))
            elif t == 'U': self.subs.setdefault(int(e[3]), []).append((int(e[1]), int(e[2]), e[4], e[5].split('.'), int(e[6])))
            elif t == 'T': self.tmo.setdefault((int(e[2]), e[3]), []).append(float(e[4]))
            elif t == 'Ta': self.tadd[(int(e[2]), e[3])] = float(e[4])
            elif t == 'I': self.inp[int(e[2])] = self.inp.get(int(e[2]), 0) + int(e[3])
            elif t == 'W': self.wrote[int(e[2])] = self.wrote.get(int(e[2]), 0) + int(e[3])
            elif t == 'IBAD': self.ibad.append(e)
            elif t == 'D': self.det[int(e[3])] = int(e[1])
            elif t == 'END': self.end = int(e[1])
            elif t == 'STOP': self.stop = int(e[1])
            elif t == 'EXC': self.exc.append(' '.join(e[2:]))
            elif t == 'OK': self.ok = True
            elif t == 'F':
                self.fw += 1
                if e[3].startswith('GW_'): self.gw.append((int(e[1]), int(e[2]), e[3], e[4]))

def substates(h, w, isubs, b, e):
    """the subscription sets WP w may have had at some moment between b and e"""
    ch = sorted(h.subs.get(w, [])); cur = [(m.split('.'), sc) for m, sc in isubs.get(w, [])]
    states = []; lo = sum(1 for c in ch if c[1] < b); hi = sum(1 for c in ch if c[0] < e)
    for n in range(len(ch) + 1):
        if lo <= n <= hi: states.append(list(cur))
        if n < len(ch):
            _, _, op, m, sc = ch[n]
            if op == '+': cur = cur + [(m, sc)]
            else: cur = [x for x in cur if not subset(x[0], m)]
    return states

def sound_subs(states): return states

def expected(h, sc, uid, s):
    """(definite receivers, possible receivers)"""
    must, may = set(), set()
    for w in h.addr:
        ad = h.addr[w].split('.') if '.' in h.addr[w] else h.addr[w].split('_')
        if s['k'] in 'SD':
            to = s['a'].split('.')
            if len(to) < 2: to = s['a'].split('_')
            hit = [matches([ad[0]], [to[0]]) and matches([ad[1]], [to[1]])]
        else:
            hit = [any(matches(s['id'], m) for m, _ in st) for st in substates(h, w, sc['isubs'], s['b'], s['e'])]
        if all(hit): must.add(w)
        if any(hit): may.add(w)
    return must, may

def judge(ctx, h, sc):
    wps = sc['wps']
    if h.exc or not ctx.check(h.ok and h.end is not None, 'incomplete', h.exc): 
        ctx.check(not h.exc, 'driver-exception', h.exc); return
    got = {}
    for (w, uid), rs in h.recv.items(): got.setdefault(uid, {})[w] = rs
    for uid in got: ctx.check(uid in h.sends, 'invented', uid)
    lost_ok = set(h.det)
    for uid, s in sorted(h.sends.items()):
        if 'b' not in s or 'e' not in s: ctx.violation('send-never-returned', s); continue
        if 'x' in s and s['w'] in h.det and s['e'] > h.det[s['w']]: continue
        if not ctx.check('x' not in s, 'send-throws', s.get('x')): continue
        must, may = expected(h, sc, uid, s)
        # a WP which detaches itself hears nothing that was sent afterwards; what was queued is dropped
        for w, t in h.det.items():
            if s['e'] > t: must.discard(w)
        rs = got.get(uid, {})
        n = len(must)
        if must == may: ctx.check(s['n'] == n, 'send-count', lambda: (s, sorted(must)))
        for w in must:
            if w in lost_ok: continue
            acc = sum(1 for r in rs.get(w, []) if r['res'] == 'A')
            ctx.check(acc >= 1, 'lost:' + s['k'], lambda: (uid, s, w, h.addr[w], rs))
        for w, l in rs.items():
            ctx.check(w in may, 'delivered-to-stranger', lambda: (uid, s, w, h.addr.get(w)))
            acc = sum(1 for r in l if r['res'] == 'A'); ctx.check(acc <= 1, 'duplicate', lambda: (uid, s, w, acc))
            hh = sum(1 for r in l if r['res'] == 'H'); rr = sum(1 for r in l if r['res'] == 'R')
            if w not in lost_ok:
                hold = s['hold'] if not wps[w]['kind'] & 2 else 0
                ctx.check(hh == (hold if 0 < hold < 10 else 0), 'hold-count', lambda: (s, l))
                ctx.check(rr == (hold - 10 if 10 <= hold < 20 else 0), 'requeue-count', lambda: (s, l))
            for r in l:
                ctx.check(r['id'] == s['id'], 'identifier', lambda: (s, r))
                ctx.check(r['fr'] == h.addr[s['w']], 'sender', lambda: (s, r))
                ctx.check(r['pri'] == s['pri'], 'priority', lambda: (s, r))
                ctx.check(r['ck'] == 'ok', 'payload:' + r['ck'], lambda: (s, r))
                ctx.check(r['hops'] == 0, 'hops', lambda: (s, r))
                ctx.check(not r['stopped'], 'received-after-stop', lambda: (s, r))
                if h.stop is not None: ctx.check(r['s'] < h.stop, 'received-after-shutdown', lambda: (s, r))
                ctx.seen(('recv', s['k'], wps[w]['nthr'], wps[w]['kind'], s['hold'], s['kind'], len(may), s['id'][:-4] if len(s['id']) > 4 else s['id'], r['res']))
    # order, per receiver that takes its messages one at a time
    for w in h.addr:
        if wps[w]['nthr'] > 1: continue
        seqs = []
        for (w1, uid), l in h.recv.items():
            if w1 != w: continue
            s = h.sends.get(uid)
            if not s or 'e' not in s: continue
            for r, e in zip(l, sorted(h.rend.get((w, uid), []))): seqs.append((r['s'], e, uid, s, len(l)))
        seqs.sort(key=lambda q: q[0])
        clean = all(q[4] == 1 for q in seqs)
        ones = [q for q in seqs if q[4] == 1]
        for a in range(len(ones)):
            for b in range(a + 1, len(ones)):
                x, y = ones[a][3], ones[b][3]     # x was received before y
                if x['pri'] == y['pri'] and y['e'] < x['b']:
                    ctx.violation('order', (h.addr[w], x, y)); break
        if clean:
            for a in range(len(ones)):
                tprev = ones[a - 1][1] if a else -1
                for b in range(a + 1, len(ones)):
                    x, y = ones[a][3], ones[b][3]
                    if y['pri'] > x['pri'] and y['e'] < tprev:
                        ctx.violation('priority-order', (h.addr[w], x, y, tprev)); break
        # a message on hold keeps its place: only messages of higher priority go before it
        if not wps[w]['kind'] & 2:
            allr = sorted(((r['s'], uid, r['pri'], r['res']) for (w1, uid), l in h.recv.items() if w1 == w for r in l))
            for k, (t, uid, pri, res) in enumerate(allr):
                if res == 'H' and k + 1 < len(allr) and allr[k + 1][1] != uid:
                    ctx.check(allr[k + 1][2] > pri, 'hold-overtaken', lambda: (h.addr[w], allr[k:k + 3]))
                    ctx.seen(('hold', wps[w]['nthr'], pri, allr[k + 1][2]))
        ctx.seen(('order', wps[w]['nthr'], wps[w]['kind'], min(len(ones), 40) // 4, clean))
        for q in seqs: ctx.count('received')
    # events
    for w, t in sc.get('tmos', []):
        if w in h.det: continue
        fired = h.tmo.get((w, t['id']), []); t0 = h.tadd.get((w, t['id']), 0)
        want = 1 if t['oneshot'] else t['after']
        ctx.check(len(fired) >= want, 'timeout-missing', lambda: (t, fired))
        ctx.check(len(fired) <= want + (wps[w]['nthr'] if not t['oneshot'] else 0), 'timeout-too-often', lambda: (t, fired))
        for k, f in enumerate(sorted(fired)):
            ctx.check(f - t0 >= (k + 1) * t['ms'] * 1e-3 - 3e-3 or k >= want, 'timeout-early', lambda: (t, [round(x - t0, 4) for x in fired]))
        ctx.seen(('timeout', t['oneshot'], t['ms'], len(fired), wps[w]['nthr']))
    for w in h.wrote:
        if w in h.det: continue
        ctx.check(h.inp.get(w, 0) == h.wrote[w], 'input-lost', lambda: (w, h.wrote[w], h.inp.get(w)))
        ctx.seen(('input', wps[w]['nthr'], h.wrote[w] // 500))
    ctx.check(not h.ibad, 'input-order', h.ibad)

def payload(rng): 
    k = rng.choice([0, 0, 1, 1, 2, 3]); return k, (0 if k == 0 else rng.choice([1, 5, 37, 200, 3000]))

def scenario(rng, hot=False, detach=False):
    n = rng.randint(2, 6); L = []; d = rng.randrange(n) if detach else None; wps = []; isubs = {}; tmos = []
    for w in range(n):
        proxy = not detach and rng.random() < .2
        nthr = 0 if proxy or detach else rng.choice([0, 0, 0, 1, 1, 3])
        kind = (2 if proxy else 0) | (1 if rng.random() < .4 and not nthr else 0)
        c = rng.randrange(3); inst = sum(1 for x in wps if x['cls'] == c)
        wps.append(dict(cls=c, inst=inst, nthr=nthr, kind=kind))
        L.append('wp %d %d %d %d' % (w, c, nthr, kind))
    for w in range(n):
        for _ in range(rng.choice([0, 1, 1, 2, 3])):
            m, s = rng.choice(MASKS), rng.randrange(3)
            isubs.setdefault(w, []).append((m, s)); L.append('isub %d %s %d' % (w, m, s))
        if rng.random() < .3: L.append('mutate %d' % w)
        if rng.random() < .25: L.append('work %d %d' % (w, rng.choice([50, 300, 1500])))
        if rng.random() < .4:
            m = rng.choice(MASKS[:-1])
            if rng.random() < .5:
                L.append('rule %d %s %s %s %d %d %d' % (w, m, rng.choice('PQ'), rng.choice(IDS), rng.randrange(3), rng.choice([0, 0, 3]), rng.randint(1, 6)))
            else:
                L.append('rule %d %s %s %s %s %d %d' % (w, m, rng.choice('SD'), rng.choice(IDS), rng.choice(['from', 'from', addr(rng, wps)]), rng.choice([0, 0, 3]), rng.randint(1, 6)))
        if rng.random() < .2 and not wps[w]['kind'] & 2:
            t = dict(id='VfTo', ms=rng.choice([3, 10, 25]), oneshot=int(rng.random() < .5), after=rng.randint(1, 4))
            tmos.append((w, t)); L.append('timeout %d %d %s %d %d' % (w, t['ms'], t['id'], t['oneshot'], t['after']))
    for w in range(n):      # one that is due long after the end (the others must not wait for it)
        if rng.random() < .12 and not wps[w]['kind'] & 2:
            t = dict(id='VfZ', ms=rng.choice([40000, 90000]), oneshot=0, after=0); L.insert(n, 'timeout %d %d %s %d %d' % (w, t['ms'], t['id'], 0, 0))
    inputs = [w for w in range(n) if rng.random() < .15 and w != d and not wps[w]['kind'] & 2 and wps[w]['nthr'] < 2]
    for w in inputs: L.append('input %d' % w)
    if detach:
        L.append('rule %d %s X VfMsg 0 0 1' % (d, 'VfMsg.VfX.*')); L.append('limit 1.0')
    nt = rng.randint(1, 4); held = 0
    owner = {w: rng.randrange(nt) for w in range(n)}      # subscriptions and input of a WP are handled by one thread
    def action(t):
        nonlocal held
        r = rng.random(); w = rng.choice([x for x in range(n) if x != d])   # nobody else uses a WP that may detach
        k, sz = payload(rng); pri = rng.choice([0, 0, 0, 5, -5, 100])
        mine = [x for x in range(n) if owner[x] == t and x != d]
        if r < .07 and mine and not hot: return '%s %d %s' % (('sub', rng.choice(mine), '%s %d' % (rng.choice(MASKS), rng.randrange(3))) if rng.random() < .6 else ('unsub', rng.choice(mine), rng.choice(MASKS)))
        if r < .12: return 'sleep %d' % rng.choice([10, 200, 2000])
        if r < .2 and any(x in inputs for x in mine): return 'write %d %d' % (rng.choice([x for x in mine if x in inputs]), rng.choice([1, 100, 700]))
        hold = 0
        if not detach and rng.random() < .2:
            hold = rng.choice([31, 32, 33])
            if held < 4 and rng.random() < .3: hold = rng.choice([1, 2, 11, 12]); held += 1
        if r < .6: return 'send %d %s %s %d %d %d %d %d' % (w, rng.choice('PPQ'), rng.choice(IDS), rng.randrange(3), pri, 0 if hold < 20 else hold, k, sz)
        return 'send %d %s %s %s %d %d %d %d' % (w, rng.choice('SSD'), rng.choice(IDS), addr(rng, wps), pri, hold, k, sz)
    for t in range(nt):
        L.append('thr %d' % t)
        for _ in range(rng.randint(40, 90) if hot else rng.randint(5, 40)):
            a = action(t)
            if a.startswith('send') and hot and rng.random() < .5: a = 'yield'
            L.append(a)
    return dict(text='\n'.join(L) + '\n', wps=wps, isubs=isubs, tmos=tmos)

def addr(rng, wps):
    c = rng.choice(CLS + ['?']); i = rng.choice(['0', '0', '1', '?', '7'])
    if rng.random() < .6:
        w = rng.choice(wps); c, i = CLS[w['cls']], str(w['inst'])
    return '%s.%s.Local.Local' % (c, i)

def go(ctx, rng, **kw):
    sc = scenario(rng, **kw); ctx.describe(sc['text'])
    try: rc, ev = run(ctx, sc['text'])
    except subprocess.TimeoutExpired: ctx.violation('hang', 'octodrv did not finish'); return
    h = Hist(ev)
    if rc and not h.ok: ctx.violation('crash:%d' % rc, open(ctx.scratch + '/err').read()[-800:]); return
    judge(ctx, h, sc)
    ctx.count('messages', len(h.sends)); ctx.count('framework-messages', h.fw)

def mixed(ctx, i, rng): go(ctx, rng)
def hot(ctx, i, rng): go(ctx, rng, hot=True)
def detach(ctx, i, rng): go(ctx, rng, detach=True)

GROUPS = [('mixed', 110, 2600, mixed), ('hot', 40, 900, hot), ('detach', 16, 300, detach)]

"""python3 -m vf.main <id> [--only GROUP I] : run a property's check. Exit 0 held, 1 violated, 2 harness failure."""
import glob, importlib, json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time
from . import env
V = env.V

def normframe(line):
    m = re.match(r'\s*#\d+ 0x[0-9a-f]+ (?:in )?(.*)', line)
    if not m: return None
    s = m.group(1)
    s = re.sub(r'\s+\(?/?[^ ]*\+0x[0-9a-f]+\).*', '', s)
    s = re.sub(r' /\S+$', '', s)
    s = re.sub(r'\(.*', '', s).strip()
    return s

def san_reports(path):
    """split a sanitizer log into (key, text)"""
    txt = open(path, errors='replace').read()
    reps = []
    if 'AddressSanitizer' in txt:
        for blk in re.split(r'(?m)^={20,}$', txt):
            m = re.search(r'ERROR: AddressSanitizer:? ([\w-]+)', blk)
            if not m: continue
            fr = [f for f in (normframe(l) for l in blk.split('\n')) if f]
            fr = [f for f in fr if not re.match(r'(__interceptor|__asan|operator (new|delete)|mem(cpy|set|move)|str(len|cpy)|<null>|_start|std::|blitz::|void std::|raise|abort|gsignal)', f)]
            reps.append(('asan:%s:%s' % (m.group(1), '<'.join(fr[:3])), blk[:6000]))
    if 'runtime error:' in txt:
        for blk in re.split(r'(?m)(?=^\S+:\d+:\d+: runtime error:)', txt):
            m = re.search(r'^(\S+?):(\d+):\d+: runtime error: (.*)', blk)
            if not m: continue
            fr = [f for f in (normframe(l) for l in blk.split('\n')) if f]
            kind = re.sub(r'0x[0-9a-f]+|-?\d+', 'N', m.group(3))
            reps.append(('ubsan:%s:%s:%s' % (os.path.basename(m.group(1)), kind, '<'.join(fr[:2])), blk[:4000]))
    if 'ThreadSanitizer' in txt:
        for blk in re.split(r'(?m)^={18,}$', txt):
            m = re.search(r'WARNING: ThreadSanitizer: ([\w -]+?) \(', blk)
            if not m: continue
            # first frames of each of the two accesses
            parts = re.split(r'\n\s*\n', blk)
            tops = []
            for p in parts[:2]:
                fr = [f for f in (normframe(l) for l in p.split('\n')) if f]
                fr = [f for f in fr if not re.match(r'(__interceptor|__tsan|operator (new|delete)|mem(cpy|set|move)|std::|blitz::)', f)]
                tops.append('<'.join(fr[:2]))
            reps.append(('tsan:%s:%s' % (m.group(1), '|'.join(sorted(tops))), blk[:6000]))
    if not reps and txt.strip():
        reps.append(('sanlog:' + txt.strip()[:80], txt[:3000]))
    return reps

def main():
    prop = sys.argv[1]
    modname = [os.path.basename(f)[:-3] for f in glob.glob(V + '/checks/%s_*.py' % prop.lower())][0]
    sys.path.insert(0, V)
    os.environ['VF_META'] = '1'
    mod = importlib.import_module('checks.' + modname)
    del os.environ['VF_META']
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in sys.argv: tier = 'thorough'
    if '--quick' in sys.argv: tier = 'quick'
    os.environ['VERIF_TIER'] = tier
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    only = None
    if '--only' in sys.argv:
        k = sys.argv.index('--only'); only = [sys.argv[k+1], sys.argv[k+2]]
    if '--replay' in sys.argv:
        r = json.load(open(sys.argv[sys.argv.index('--replay') + 1]))
        seed = r['seed']; tier = r['tier']; only = [r['group'], str(r['i'])]
    flavours = getattr(mod, 'FLAVOURS', ['asan'])
    t0 = time.time()
    for fl in flavours:
        rc = subprocess.call(['bash', V + '/build.sh', fl])
        if rc: print('HARNESS-FAILURE: cannot build %s' % fl); return 2
    tbuild = time.time() - t0
    root = tempfile.mkdtemp(prefix='vf-%s-' % prop, dir='/tmp')
    try:
        return run(mod, modname, prop, tier, seed, only, flavours, root, t0, tbuild)
    finally:
        if not os.environ.get('VF_KEEP'): shutil.rmtree(root, ignore_errors=True)
        else: print('kept', root)

def run(mod, modname, prop, tier, seed, only, flavours, root, t0, tbuild):
    deadline = t0 + (float(os.environ.get('VF_BUDGET', 0)) or (780 if tier == 'quick' else 6 * 3600))
    nsh = 1 if only else getattr(mod, 'SHARDS', 8)
    total = sum((g[1] if tier == 'quick' else g[2]) for g in mod.GROUPS)
    nsh = max(1, min(nsh, total))
    viols, errors, ends, dones = [], [], [], []
    lock = threading.Lock()
    case_timeout = getattr(mod, 'CASE_TIMEOUT', 120)
    incon = []; hangs = [0]
    def giveup():
        # a violation is certain and the rest would take long (hangs, mostly): report what there is
        return time.time() - t0 - tbuild > 240 and any(not any(re.fullmatch(r['key'], v['key'], re.S) for r in known) for v in viols[:50])
    known = []
    kf = V + '/known_findings.jsonl'
    if os.path.exists(kf):
        for l in open(kf):
            if l.strip():
                r = json.loads(l)
                if r['property'] == prop and not r.get('fixed'): known.append(r)
    def cleanup(pg):
        try: os.killpg(pg, signal.SIGKILL)
        except OSError: pass
    def shard(fl, k):
        sg, si, attempt, nrec, hung = 0, 0, 0, 0, {}
        while True:
            sc = os.path.join(root, '%s-%d-%d-%d' % (fl, k, attempt, nrec)); os.makedirs(sc)
            attempt += 1
            out = sc + '/out.jsonl'; open(out, 'w').close()
            e = env.environ(fl, sc, preload=getattr(mod, 'PRELOAD', True))
            e['VF_FLAVOUR'] = fl; e['VERIF_TIER'] = tier; e['VERIF_SEED'] = str(seed)
            cmd = ['python3', '-c', 'import importlib,sys; from vf import core; core.worker(importlib.import_module("checks.%s"),sys.argv[1:])' % modname,
                   out, str(k), str(nsh), str(sg), str(si), tier, str(seed), sc] + (only or [])
            p = subprocess.Popen(cmd, env=e, stdin=subprocess.DEVNULL, stdout=open(sc + '/stdout', 'w'), stderr=open(sc + '/stderr', 'w'),
                                 start_new_session=True)
            timedout = False; lastsize = -1; lastt = time.time()
            while p.poll() is None:
                time.sleep(0.05)
                sz = os.path.getsize(out)
                if sz != lastsize: lastsize, lastt = sz, time.time()
                if time.time() - lastt > case_timeout or time.time() > deadline or giveup():
                    timedout = True; cleanup(p.pid); p.wait(); break
            cleanup(p.pid)
            recs = []
            for l in open(out, errors='replace'):
                try: recs.append(json.loads(l))
                except ValueError: pass
            cur = None; done = None
            with lock:
                for r in recs:
                    r['fl'] = fl
                    if r['t'] == 'start': cur = r
                    elif r['t'] == 'end': cur = None; ends.append(r)
                    elif r['t'] == 'viol': viols.append(r)
                    elif r['t'] == 'error': errors.append(r)
                    elif r['t'] == 'done': done = r; dones.append(r)
                for f in sorted(glob.glob(sc + '/asan.*') + glob.glob(sc + '/ubsan.*') + glob.glob(sc + '/tsan.*')
                                + glob.glob(sc + '/*/asan.*') + glob.glob(sc + '/*/ubsan.*') + glob.glob(sc + '/*/tsan.*')):
                    for key, txt in san_reports(f):
                        g = cur or {'group': None, 'i': None}
                        viols.append(dict(t='viol', group=g['group'], i=g['i'], key=key, detail=txt, case=None, fl=fl))
                if done and (p.returncode == 0 or timedout):
                    if not done['recycle'] or only: return
                    (sg, si), attempt = done['recycle'], attempt - 1
                    nrec += 1; continue
                if giveup(): return
                if time.time() > deadline:
                    incon.append('time budget exhausted at %s' % (cur,)); return
                if timedout:
                    kk = (cur['g'], cur['i']) if cur else None
                    hung[kk] = hung.get(kk, 0) + 1; hangs[0] += 1
                    if cur is None: errors.append(dict(group=None, i=None, err='worker stuck outside a case')); return
                    if hung[kk] < 2 and hangs[0] < 3:
                        sg, si = cur['g'], cur['i']; continue
                    viols.append(dict(t='viol', group=cur['group'], i=cur['i'], key='hang:%s' % cur['group'],
                                      detail='case did not finish within %s s (%d hangs in this run)' % (case_timeout, hangs[0]), case=None, fl=fl))
                elif cur is not None:
                    err = open(sc + '/stderr', errors='replace').read()[-1500:]
                    # a crash: reported via the sanitizer log if there is one
                    if not any(v['group'] == cur['group'] and v['i'] == cur['i'] and v['key'].startswith(('asan', 'tsan')) for v in viols):
                        viols.append(dict(t='viol', group=cur['group'], i=cur['i'], key='crash:rc=%s' % p.returncode, detail=err, case=None, fl=fl))
                else:
                    errors.append(dict(group=None, i=None, err='worker exited with %s outside a case: %s' % (
                        p.returncode, open(sc + '/stderr', errors='replace').read()[-1500:])))
                    return
                if only or attempt > 60: return
                sg, si = cur['g'], cur['i'] + 1
    ths = [threading.Thread(target=shard, args=(fl, k)) for fl in flavours for k in range(nsh)] if len(flavours) == 1 else None
    if ths is None:
        for fl in flavours:
            g = [threading.Thread(target=shard, args=(fl, k)) for k in range(nsh)]
            [t.start() for t in g]; [t.join() for t in g]
    else:
        [t.start() for t in ths]; [t.join() for t in ths]
    # verdicts
    kseen, fresh = {}, {}
    for v in viols:
        for r in known:
            if re.fullmatch(r['key'], v['key'], re.S) and (not r.get('group') or r['group'] == v['group']):
                kseen.setdefault(r['what'], v); break
        else:
            fresh.setdefault(v['key'], []).append(v)
    counts, sigs, evals, samples = {}, set(), 0, []
    for d in dones:
        evals += d['evals']; sigs.update(d['sigs'])
        for k, n in d['counts'].items(): counts[k] = counts.get(k, 0) + n
    for j in range(6):
        for d in dones:
            if j < len(d['samples']): samples.append(d['samples'][j])
    minsigs = getattr(mod, 'MIN_DISTINCT', 2)
    wall = round(time.time() - t0, 1)
    ev = dict(property=prop, tier=tier, seed=seed, level=mod.LEVEL,
              coverage=dict(evaluations=evals, distinct_nontrivial=len(sigs), rule=mod.RULE, samples=samples[:12] or ['none'],
                            counts=dict(sorted(counts.items())[:120])),
              wall_s=wall)
    ev['coverage']['cases_run'] = len(ends)
    ev['coverage']['cases_planned'] = total * len(flavours) if not only else 1
    ev['coverage']['flavours'] = flavours
    ev['coverage']['known_findings_seen'] = sorted(kseen)
    ev['coverage']['violations'] = sorted(fresh)[:20]
    ev['coverage']['build_s'] = round(tbuild, 1)
    if not only:
        os.makedirs(V + '/evidence', exist_ok=True)
        with open(V + '/evidence/%s.json' % prop, 'w') as f: json.dump(ev, f, indent=1)
    for w in sorted(kseen): print('KNOWN-FINDING: property=%s %s' % (prop, w))
    if fresh:
        os.makedirs(V + '/evidence/replay', exist_ok=True)
        for n, (k, vs) in enumerate(sorted(fresh.items())[:12]):
            v = vs[0]
            f = V + '/evidence/replay/%s-%d.json' % (prop, n)
            json.dump(dict(property=prop, seed=seed, tier=tier, group=v['group'], i=v['i'], key=k, occurrences=len(vs), flavour=v.get('fl'),
                           detail=v['detail'], case=v['case']), open(f, 'w'), indent=1)
            print('VIOLATION property=%s replay=%s' % (prop, f))
            print('   key=%s group=%s i=%s n=%d' % (k, v['group'], v['i'], len(vs)))
            print('   ' + str(v['detail'])[:1200].replace('\n', '\n   '))
            if v['case']: print('   case: ' + str(v['case'])[:1200])
        print('%s: VIOLATED (%d distinct keys; %d evaluations, %.1f s)' % (prop, len(fresh), evals, wall))
        return 1
    if errors:
        for e in errors[:5]: print('HARNESS-ERROR', e.get('group'), e.get('i'), e['err'], e.get('case'))
        print('%s: HARNESS FAILURE (%d errors)' % (prop, len(errors))); return 2
    if incon:
        print('INCONCLUSIVE', incon[:3]); return 2
    if not only and len(sigs) < minsigs:
        print('%s: INCONCLUSIVE: observed only %d distinct nontrivial cases' % (prop, len(sigs))); return 2
    print('%s: held on %d evaluations, %d distinct (%s; cases %d; build %.1f s, total %.1f s)' % (prop, evals, len(sigs), tier, len(ends), tbuild, wall))
    if os.environ.get('VF_COUNTS'): print(json.dumps(counts, indent=1))
    return 0

sys.exit(main())

"""Guards the incremental build against source files whose content changed without a newer mtime.
check: when a file's content differs from the last build but its mtime would not tell ninja, drop ninja's
record of the build (ccache makes the rebuild cheap). record: remember contents."""
import sys, os, hashlib, json
repo, bdir, mode = sys.argv[1:4]
DB = os.path.join(bdir, 'sources.json')
EXT = ('.cc', '.h', '.c', '.cpp', '.hpp', '.txt', '.cmake', '.hh', '.cu')
def scan():
    out = {}
    for d, ds, fs in os.walk(repo):
        ds[:] = [x for x in ds if x not in ('.git', 'build', 'install', '__pycache__')]
        for f in fs:
            if f.endswith(EXT):
                p = os.path.join(d, f)
                if os.path.isfile(p):
                    out[p] = (hashlib.sha1(open(p, 'rb').read()).hexdigest(), os.stat(p).st_mtime)
    return out
if mode == 'record':
    json.dump(scan(), open(DB + '.tmp', 'w')); os.replace(DB + '.tmp', DB)
elif os.path.exists(DB):
    old = json.load(open(DB)); stamp = os.stat(DB).st_mtime
    for p, (h, m) in scan().items():
        if p in old and old[p][0] != h and m <= stamp:
            print('stale build record because of', p)
            for f in ('.ninja_log', '.ninja_deps'):
                try: os.remove(os.path.join(bdir, f))
                except OSError: pass
            break

#!/usr/bin/env python3
"""mkseed.py ID PROPERTY FILE < spec : make /verif/seeded/ID from an edit of a file of /repo.
Spec on stdin: python literal dict(edits=[(file,old,new)...], needs=, breaks=, demo=<python source using mqlib> or sh=<shell>)."""
import sys, os, subprocess, json, shutil
ID, PROP = sys.argv[1:3]
spec = eval(sys.stdin.read())
R = '/repo'; D = '/verif/seeded/' + ID
assert not subprocess.check_output(['git', '-C', R, 'status', '--porcelain', '-uno']).strip(), 'dirty /repo'
try:
    for f, old, new in spec['edits']:
        p = os.path.join(R, f); s = open(p).read()
        assert s.count(old) == 1, (f, s.count(old))
        open(p, 'w').write(s.replace(old, new))
    diff = subprocess.check_output(['git', '-C', R, 'diff'], text=True)
finally:
    subprocess.call(['git', '-C', R, 'checkout', '-q', '--', '.'])
os.makedirs(D, exist_ok=True)
open(D + '/patch.diff', 'w').write(diff)
json.dump(dict(property=PROP, needs=spec['needs'], what_it_breaks=spec['breaks']), open(D + '/meta.json', 'w'), indent=1)
if 'demo' in spec:
    open(D + '/demo.py', 'w').write(spec['demo']); shutil.copy('/verif/tools/mqlib.py', D)
    sh = 'exec python3 "$(dirname "$0")/demo.py"\n'
elif 'indemo' in spec:
    open(D + '/demo.py', 'w').write('from indrv import *\n' + spec['indemo'])
    for f in ('tools/indrv.py', 'src/vdrv.cc', 'src/dmops.inc', 'vf/forest.py'): shutil.copy('/verif/' + f, D)
    sh = 'exec python3 "$(dirname "$0")/demo.py"\n'
else: sh = spec['sh']
for f, t in spec.get('files', {}).items(): open(D + '/' + f, 'w').write(t)
open(D + '/demo.sh', 'w').write('#!/bin/bash\n' + sh); os.chmod(D + '/demo.sh', 0o755)
print(ID, len(diff))

#!/usr/bin/env python3
"""Generate properties.jsonl, MANIFEST.json and the per-property part of DESIGN.md from meta/*.py."""
import sys, os, json, glob, importlib, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
import meta
for f in sorted(glob.glob(V + '/meta/[A-Z]*.py')): importlib.import_module('meta.' + os.path.basename(f)[:-3])
ps = sorted(meta.PROPS + meta.NA, key=lambda p: p['id'])
with open(V + '/properties.jsonl', 'w') as o:
    for p in ps:
        assert len(p['title']) <= 80, p['title']
        assert len(re.findall(r'[.](?:\s|$)', p['statement'])) <= 3, p['id']
        for f in p['files']: assert os.path.exists('/repo/' + f), (p['id'], f)
        o.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['qtext']),
                why_tests_cant=p['why'], anchors=dict(files=p['files'], mechanism=[dict(name=a, where=b) for a, b in p['mech']], hook_needed=None))) + '\n')
m = dict(version=1, setup_cmd='bash setup.sh', checks=[], not_applicable=[dict(property=p['id'], reason=p['reason']) for p in meta.NA])
for p in ps:
    if p in meta.NA: continue
    assert glob.glob(V + '/checks/%s_*.py' % p['id'].lower()), p['id']
    c = dict(property=p['id'], quick_cmd='bash run.sh %s --quick' % p['id'], thorough_cmd='bash run.sh %s --thorough' % p['id'],
             technique=p['technique'], level=p['level'], level_note=p['note'])
    m['checks'].append(c)
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
d = open(V + '/meta/design_head.md').read() + '\n## Properties and how each is decided\n'
for p in ps:
    d += '\n### %s %s\n\n%s\n\n' % (p['id'], p['title'], p['statement'])
    if p in meta.NA: d += '*Not claimed:* %s\n' % p['reason']
    else: d += '*Decided by:* %s. %s\n\n*Workload and oracle:* %s\n' % (p['technique'], p['note'], p['design'])
d += '\n## Planted bugs and the checks that catch them\n\nEach was run with tools/seedcheck.sh (and by vcheck): the quick check of its property exits 1.\n\n'
for f in sorted(glob.glob(V + '/seeded/*/meta.json')):
    j = json.load(open(f)); d += '- `%s` caught by %s: %s (needs: %s)\n' % (f.split('/')[-2], j.get('caught_by', j['property']), j['what_it_breaks'], j['needs'])
fx = [json.loads(l) for l in open(V + '/known_findings.jsonl')]
d += '\n## Genuine defects found and repaired (one `fix:` commit each in /repo)\n\nEach was reported by the check of the property named; the full commit messages describe the failing case.\n\n'
for r in sorted((r for r in fx if r.get('fixed')), key=lambda r: r['property']): d += '- %s\n' % r['what'][7:]
d += '\n## Genuine defects recorded as known findings\n\n' + (''.join('- %s `%s`: %s\n' % (r['property'], r['key'], r['what']) for r in fx if not r.get('fixed')) or 'None: everything the checks found was repaired.\n')
d += '\n' + open(V + '/meta/design_tail.md').read()
open(V + '/DESIGN.md', 'w').write(d)
import jsonschema
for l in open(V + '/properties.jsonl'): jsonschema.validate(json.loads(l), json.load(open('/root/.vp/PROPERTIES.schema.json')))
jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
print(len(m['checks']), 'checks', len(meta.NA), 'n/a')

#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py (one source for both)."""
import json, os, sys
H = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(H)
sys.path.insert(0, H)
sys.path.insert(0, V)
from props import PROPS, NA  # noqa: E402
from checks import CHECKS  # noqa: E402

props, checks, na = [], [], []
for p in PROPS:
    props.append({
        'id': p['id'], 'title': p['title'], 'statement': p['statement'],
        'quantifier': {'over': p['over'], 'text': p['qtext']},
        'why_tests_cant': p['why'],
        'anchors': {'files': p['files'],
                    'mechanism': [{'name': a, 'where': b} for a, b in p['mech']],
                    'observe_at': p.get('observe', []), 'hook_needed': None}})
    assert len(p['title']) <= 80, p['id']
    if p['id'] in NA:
        na.append({'property': p['id'], 'reason': NA[p['id']]})
        continue
    if p['id'] not in CHECKS:
        print('no check yet:', p['id'])
        na.append({'property': p['id'], 'reason': 'no check built yet'})
        continue
    cmd = 'python3 check.py %s --tier ' % p['id']
    checks.append({
        'property': p['id'], 'quick_cmd': cmd + 'quick', 'thorough_cmd': cmd + 'thorough',
        'evidence_file': 'evidence/%s.json' % p['id'],
        'technique': p['technique'], 'level': 'exploration', 'level_note': p['note']})
with open(V + '/properties.jsonl', 'w') as f:
    for p in props:
        f.write(json.dumps(p) + '\n')
m = {'version': 1,
     'setup_cmd': 'python3 -c "import checks, json; json.load(open(\'known_findings.json\'))" && g++-9 --version',
     'checks': checks, 'not_applicable': na,
     'notes': 'No hooks: every monitor observes the library through its public interface. Each check compiles '
              'its harness and the library sources it needs from the working tree of /repo. known_findings.json '
              'lists known and fixed findings.'}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
try:
    sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
    import jsonschema
    jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
    sc = json.load(open('/root/.vp/PROPERTIES.schema.json'))
    for p in props:
        jsonschema.validate(p, sc)
    print('schemas ok', len(props), 'properties', len(checks), 'checks')
except ImportError:
    print('jsonschema not available')

# DESIGN.md
from notes import NOTES  # noqa: E402
out = [open(H + '/design_head.md').read(), '## Properties\n\n']
for p in PROPS:
    i = p['id']
    if i in NA:
        out.append('### %s %s\n\nNot applicable: %s\n\n' % (i, p['title'], NA[i]))
        continue
    o, b = NOTES[i]
    c = CHECKS[i]
    out.append('### %s %s\n\n' % (i, p['title']))
    out.append('- Specified: for %s.\n- Monitor and oracle: %s\n- Workload: %s.\n- Bounds: %s\n- Beyond the tests: %s.\n- Anchors: %s. '
               'Builds: %s.\n\n' % (
                   p['qtext'], o, c['rule'], b, p['why'].rstrip('.'), ', '.join(p['files']),
                   ', '.join(x.get('variant', 'asan') for x in c['parts'])))
out.append(open(H + '/design_tail.md').read())
kf = json.load(open(V + '/known_findings.json'))
out.append('## Defects found and repaired\n\n')
for f in kf['fixed']:
    w = f.split(' ', 3)
    out.append('- %s, %s: %s\n' % (w[1].split('=')[1], w[2], w[3]))
out.append('\n## Known findings\n\n')
out += ['- %s: %s\n' % (k['property'], k['what']) for k in kf['known']] or ['None: every defect found was repaired.\n']
out.append('\n## Planted bugs\n\nEach was written from the statement and the code, passes the 81 tests, and has a demonstration. '
           'The check of the same property was run against each.\n\n| bug | property | what it breaks | caught |\n|---|---|---|---|\n')
sd = V + '/seeded'
for d in sorted(os.listdir(sd)):
    j = json.load(open('%s/%s/meta.json' % (sd, d)))
    out.append('| %s | %s | %s | %s |\n' % (d, j['property'], j['what_it_breaks'].replace('|', '/').replace('\n', ' '), j.get('caught', 'yes')))
open(V + '/DESIGN.md', 'w').write(''.join(out).replace('@FIXED@', str(len(kf['fixed']))))

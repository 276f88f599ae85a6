#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the descriptions below.
The claimed properties are those whose check is registered in harness/*.go."""
import json, os, re, subprocess, glob
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def P(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    return dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=hook))

props = []
exec(open(os.path.join(here, 'tools', 'props.py')).read())

registered = {}
for f in glob.glob(os.path.join(here, 'harness', '*.go')):
    for m in re.finditer(r'register\("(C\d+)",\s*"(\w+)"', open(f).read()):
        registered[m.group(1)] = m.group(2)

with open(os.path.join(here, 'properties.jsonl'), 'w') as out:
    for p in props:
        assert len(p['title']) <= 80, p['title']
        out.write(json.dumps(p, ensure_ascii=False) + '\n')

checks, na = [], []
for p in props:
    i = p['id']
    if i in registered:
        t, note = techniques[i]
        checks.append(dict(property=i, quick_cmd='bin/check %s quick' % i, thorough_cmd='bin/check %s thorough' % i,
            technique=t, level=registered[i], level_note=note))
    else:
        na.append(dict(property=i, reason=not_applicable.get(i, 'The check of this property is not built yet.')))
manifest = dict(version=1, setup_cmd='bin/setup', checks=checks, not_applicable=na, notes=notes)
if hooks: manifest['hooks'] = hooks
with open(os.path.join(here, 'MANIFEST.json'), 'w') as out:
    json.dump(manifest, out, indent=1, ensure_ascii=False); out.write('\n')

import importlib.util
try:
    import jsonschema
    s = json.load(open('/root/.vp/PROPERTIES.schema.json'))
    for p in props: jsonschema.validate(p, s)
    jsonschema.validate(manifest, json.load(open('/root/.vp/MANIFEST.schema.json')))
    print('valid', len(checks), 'claimed', len(na), 'not claimed')
except ImportError:
    print('written (not validated)')

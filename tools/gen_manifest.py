#!/usr/bin/env python3
"""Write MANIFEST.json from the checks present in checks/ and the notes below; validate it."""
import json, os, glob, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = json.load(open(V + '/tools/notes.json'))
props = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
checks, na = [], []
for p in props:
    n = NOTES.get(p)
    src = V + '/checks/%s.cpp' % p
    if os.path.exists(src) and n:
        lv = re.search(r'mc::init\("%s", "(\w+)"' % p, open(src).read()).group(1)
        checks.append({'property': p, 'quick_cmd': './run %s --tier quick' % p, 'thorough_cmd': './run %s --tier thorough' % p,
                       'evidence_file': 'evidence/%s.json' % p, 'technique': n['technique'], 'level': lv, 'level_note': n['note']})
    else: na.append({'property': p, 'reason': (n or {}).get('na', 'no check built yet')})
m = {'version': 1, 'setup_cmd': './run --build-all', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo: every check compiles the library from the current working tree with the address and undefined-behaviour sanitizers and drives it through its public interface, with allocation, randomness and file operations interposed at link time.'}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1); open(V + '/MANIFEST.json', 'a').write('\n')
try:
    import jsonschema; jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json'))); print('valid')
except ImportError: print('jsonschema missing (use python3-vt)')
print(len(checks), 'checks,', len(na), 'not claimed')

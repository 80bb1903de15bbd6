#!/usr/bin/env python3
"""Regenerates MANIFEST.json from the check modules."""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
NA = json.load(open(V + '/tools/not_applicable.json')) if os.path.exists(V + '/tools/not_applicable.json') else {}
checks, na = [], []
for p in props:
    i = p['id']
    f = V + '/mc/checks/%s.py' % i.lower()
    if not os.path.exists(f) or i in NA:
        na.append({'property': i, 'reason': NA.get(i, 'check not built yet')})
        continue
    src = open(f).read()
    def grab(name, default=None):
        m = re.search(r'^    %s = ((?:\(.*?\)|\'.*?\'))\n' % name, src, re.S | re.M)
        return eval(m.group(1)) if m else default
    checks.append({'property': i, 'quick_cmd': './run check %s quick' % i, 'thorough_cmd': './run check %s thorough' % i,
                   'technique': grab('technique'), 'level': grab('level', 'model_checking'),
                   'level_note': grab('level_note') or (grab('rule') or '')})
m = {'version': 1, 'setup_cmd': './run setup', 'checks': checks, 'not_applicable': na,
     'notes': 'Python only; the code under test is imported from /repo. No hooks are needed in /repo.'}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')

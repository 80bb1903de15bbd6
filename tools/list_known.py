#!/usr/bin/env python3
"""Add (or replace) a known finding from a collected failure file, after the
failures have been studied by hand:
  list_known.py ID finding-id 'what fails' /tmp/collect-ID.json... [--key RE] [--sig RE]
Never called by a check."""
import json, os, re, sys
a = sys.argv[1:]
opt = {}
for o in ('--key', '--sig'):
    if o in a:
        i = a.index(o)
        opt[o] = re.compile(a[i + 1])
        del a[i:i + 2]
pid, fid, what, files = a[0], a[1], a[2], a[3:]
path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'known_findings.json')
kf = json.load(open(path))
cases = {}
for f in files:
    for k, (sig, _d) in json.load(open(f)).items():
        if '--key' in opt and not opt['--key'].search(k):
            continue
        if '--sig' in opt and not opt['--sig'].search(sig):
            continue
        cases[k] = sig
kf['findings'] = [g for g in kf['findings'] if not (g['property'] == pid and g['id'] == fid)]
if cases:
    kf['findings'].append({'id': fid, 'property': pid, 'what': what, 'cases': dict(sorted(cases.items()))})
json.dump(kf, open(path, 'w'), indent=0)
print(fid, len(cases))

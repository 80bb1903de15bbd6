"""rewrite the 'fixed' list from the fix: commits of /repo"""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = json.load(open(os.path.join(V, 'tools', 'fixed.json')))
log = subprocess.run(['git', '-C', '/repo', 'log', '--format=%h %s', '--reverse'], capture_output=True, text=True).stdout
out = []
for l in log.splitlines():
    h, subj = l.split(' ', 1)
    if not subj.startswith('fix: '):
        continue
    props, what = P[subj]
    for p in props:
        out.append('fixed: property=%s %s %s' % (p, h, what))
path = os.path.join(V, 'known_findings.json')
kf = json.load(open(path))
kf['fixed'] = out
json.dump(kf, open(path, 'w'), indent=0)
print(len(out))

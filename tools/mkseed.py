#!/usr/bin/env python3
"""mkseed.py SPEC...: a planted bug from its specification (a Python file with
ID, PROPERTY, EDITS [(file, old, new)], DEMO, NEEDS, BREAKS): made in a scratch copy, where
the build and the tests have to pass, the demonstration has to fail there and to pass on
/repo; written to /verif/seeded/ID. """
import json, os, shutil, subprocess, sys, runpy
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('MC_REPO', '/repo')

def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)

def make(spec):
    s = runpy.run_path(spec)
    work = '/tmp/seedwork/' + s['ID']
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(os.path.dirname(work), exist_ok=True)
    sh('cp -a %s %s' % (REPO, work))
    base = set(sh('git -C %s blame -s -l 6134e6c -- x' % REPO).stdout)
    for f, old, new in s['EDITS']:
        p = work + '/' + f
        t = open(p).read()
        if t.count(old) != 1:
            return 'edit of %s matches %d times' % (f, t.count(old))
        open(p, 'w').write(t.replace(old, new))
    diff = sh('git -C %s diff' % work).stdout
    # lines that the change removes, which have to be original ones
    orig = 0
    for f in {e[0] for e in s['EDITS']}:
        o = sh('git -C %s show 6134e6c:%s' % (REPO, f)).stdout.splitlines()
        orig += sum(1 for l in diff.splitlines() if l.startswith('-') and not l.startswith('---') and l[1:] in o and l[1:].strip())
    out = V + '/seeded/' + s['ID']
    tmp = work + '.out'
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    open(tmp + '/patch.diff', 'w').write(diff)
    open(tmp + '/demo.py', 'w').write(s['DEMO'].lstrip('\n'))
    open(tmp + '/demo.sh', 'w').write('#!/bin/sh\n# run in the repository\nexec env PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    os.chmod(tmp + '/demo.sh', 0o755)
    json.dump({'property': s['PROPERTY'], 'needs': s['NEEDS'], 'what_it_breaks': s['BREAKS']}, open(tmp + '/meta.json', 'w'), indent=1)
    ok = sh('sh %s/demo.sh' % tmp, cwd=REPO)
    bad = sh('sh %s/demo.sh' % tmp, cwd=work)
    if ok.returncode:
        return 'the demonstration fails on the unchanged tree:\n' + (ok.stdout + ok.stderr)[-1500:]
    if not bad.returncode:
        return 'the demonstration passes with the change ' + bad.stdout[-300:]
    t = sh("cd %s && /opt/venv/bin/python - <<'E'\nimport sys; sys.path.insert(0, '.')\nimport ctypeslib; print(ctypeslib.__file__)\nE" % work)
    tests = sh('PATH=/opt/venv/bin:$PATH LANG=C.UTF-8 LD_LIBRARY_PATH=%s/test/data PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONPATH=%s /opt/venv/bin/python -m pytest -q -x --no-header -p no:cacheprovider test 2>&1 | tail -15' % (work, work), cwd=work)
    tail = tests.stdout.strip().splitlines()
    if any(' failed' in l or 'FAILED' in l or 'rror' in l for l in tail[-6:]):
        return 'tests: ' + '\n'.join(tail[-8:])
    shutil.rmtree(out, ignore_errors=True)
    shutil.copytree(tmp, out)
    return 'OK original lines changed: %d; demo: %s; tests: %s' % (orig, ((bad.stdout + bad.stderr).strip().splitlines() or [""])[-1][:150], tail[-1])

for spec in sys.argv[1:]:
    print(os.path.basename(spec), make(spec))

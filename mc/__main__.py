import importlib
import json
import os
import sys


def load(pid, tier):
    mod = importlib.import_module('mc.checks.' + pid.lower())
    return mod.CHECK(tier)


def main(argv):
    from mc import engine
    cmd = argv[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if cmd == 'setup':              # nothing to build: check that everything needed is there
        import subprocess
        from mc import impl, oracle
        subprocess.run(['gcc', '--version'], check=True, stdout=subprocess.DEVNULL)
        assert oracle.consts('struct s { char c; int i; };', ['sizeof(struct s)']) == [8]
        assert impl.load(impl.gen('struct s { char c; int i; };'))['struct_s']
        print('setup ok')
        return 0
    if cmd == 'check':
        pid = argv[1]
        if len(argv) > 2:
            tier = argv[2]
        return engine.run_check(load(pid, tier))
    if cmd == 'collect':            # study tool: dump every unlisted failure
        pid = argv[1]
        tier = argv[2] if len(argv) > 2 else tier
        out = {}
        engine.run_check(load(pid, tier), collect=out)
        path = argv[3] if len(argv) > 3 else '/tmp/collect-%s.json' % pid
        with open(path, 'w') as f:
            json.dump(out, f, indent=1)
        import collections
        c = collections.Counter(s for s, _ in out.values())
        for s, k in c.most_common(40):
            ex = [x for x, v in out.items() if v[0] == s][:3]
            print(k, s[:160])
            for x in ex:
                print('      ', x[:200])
        return 0
    if cmd == 'one':                # run a single case by key, verbosely
        chk = load(argv[1], argv[3] if len(argv) > 3 else tier)
        for c in chk.cases():
            if c.key == argv[2]:
                chk.setup_worker()
                try:
                    print(chk.run_batch([c])[0])
                except chk.BatchFailed as e:
                    print('batch', e.args[0][0], '\n', e.args[0][1])
                return 0
        print('no such case')
        return 2
    if cmd == 'replay':
        with open(argv[1]) as f:
            r = json.load(f)
        chk = load(r['property'], r['tier'])
        want = set(r['cases'])
        cases = [c for c in chk.cases() if c.key in want]
        res = engine.run_fresh(chk, cases)
        bad = 0
        for c, x in res:
            if c.key == r['key']:
                print('case: %s\nresult: %s' % (c.key, x))
                bad = x is not None
        return 1 if bad else 0
    raise SystemExit('unknown command')


if __name__ == '__main__':
    import shutil
    import tempfile
    base = tempfile.mkdtemp(prefix='mc-')
    os.environ['MC_SCRATCH'] = base
    os.environ['TMPDIR'] = base
    tempfile.tempdir = None
    try:
        rc = main(sys.argv[1:])
        sys.stdout.flush()
    finally:
        shutil.rmtree(base, ignore_errors=True)
    sys.exit(rc)

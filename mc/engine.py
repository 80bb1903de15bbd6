"""Exhaustive-exploration engine.

A check enumerates a finite space of cases (states of a declared model) in a
fixed, breadth-first order and runs the real ctypeslib on every one of them.
The engine owns: worker processes (forked, crash-isolated), batching, the
confirmation of every failure in a fresh process, known findings, replay
artefacts and the evidence file.

Outcome protocol: exit 0 (held on everything explored, possibly with
KNOWN-FINDING lines) or exit 1 with VIOLATION lines.
"""
import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback
from multiprocessing.connection import wait as conn_wait

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
JOBS = int(os.environ.get('MC_JOBS', '0')) or min(8, os.cpu_count() or 1)
MAX_REPORT = 8          # stop after that many confirmed unlisted violations


class Case(tuple):
    """(key, payload). key: stable printable identifier."""
    __slots__ = ()

    def __new__(cls, key, payload):
        return tuple.__new__(cls, (key, payload))

    def __getnewargs__(self):
        return tuple(self)

    key = property(lambda s: s[0])
    payload = property(lambda s: s[1])


class Held(tuple):
    """A case held, over (states, transitions, comparisons) counted by it."""


class Check:
    id = None
    level = 'model_checking'
    technique = ''
    batch = 1
    rule = ''
    assumptions = ()
    chunk_timeout = 120

    def __init__(self, tier):
        self.tier = tier
        self.thorough = tier == 'thorough'

    def cases(self):
        """yield Case in BFS order"""
        raise NotImplementedError

    def setup_worker(self):
        pass

    def run_batch(self, cases):
        """Return a list, one entry per case: None when the property held,
        else (signature, detail)."""
        return [self.run_one(c) for c in cases]

    def run_one(self, case):
        raise NotImplementedError

    # a batch-level failure of the code under test (not attributable to one
    # case) is signalled with this exception: cases are then rerun alone.
    class BatchFailed(Exception):
        pass

    def stats(self, case):
        """(states, transitions, checks) contributed by one case."""
        return (1, 1, 1)

    def group(self, case):
        """cases of different groups are never batched together"""
        return None

    def extra_evidence(self):
        return {}


# --------------------------------------------------------------------------
def _worker(check, conn):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    try:
        os.setpgid(0, 0)
    except OSError:
        pass
    try:
        check.setup_worker()
        while True:
            msg = conn.recv()
            if msg is None:
                break
            idx, cases = msg
            t0 = time.time()
            try:
                res = _run_cases(check, cases)
                conn.send((idx, 'ok', res, time.time() - t0))
            except BaseException:  # engine or harness error
                conn.send((idx, 'err', traceback.format_exc(), 0))
    except (EOFError, KeyboardInterrupt, BrokenPipeError):
        pass
    finally:
        try:
            conn.close()
        finally:
            os._exit(0)


def _run_cases(check, cases):
    try:
        res = check.run_batch(cases)
        assert len(res) == len(cases), (len(res), len(cases))
        if len(cases) > 1 and any(r is not None and not isinstance(r, Held) for r in res):
            # attribute precisely: a failing case is rerun alone
            out = []
            for c, r in zip(cases, res):
                if r is None or isinstance(r, Held):
                    out.append(r)
                    continue
                try:
                    single = check.run_batch([c])[0]
                except check.BatchFailed as e:
                    single = e.args[0]
                if single is None:
                    r = ('in-batch:' + r[0], r[1])
                    single = r
                out.append(single)
            return out
        return res
    except check.BatchFailed as e:
        if len(cases) == 1:
            return [e.args[0]]
        # bisect; keeps the cost low when few cases are bad
        mid = len(cases) // 2
        return _run_cases(check, cases[:mid]) + _run_cases(check, cases[mid:])


class Pool:
    def __init__(self, check, jobs):
        self.check = check
        self.ctx = mp.get_context('fork')
        self.jobs = jobs
        self.workers = {}

    def spawn(self):
        a, b = self.ctx.Pipe()
        p = self.ctx.Process(target=_worker, args=(self.check, b), daemon=True)
        sys.stdout.flush()
        sys.stderr.flush()
        p.start()
        b.close()
        self.workers[a] = [p, None, 0.0]
        return a

    def kill(self, conn):
        p = self.workers.pop(conn)[0]
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        try:
            p.kill()
        except Exception:
            pass
        p.join(5)
        conn.close()

    def run(self, chunk_iter, on_result, timeout):
        """chunk_iter yields lists of cases; on_result(cases, results) returns
        False to stop."""
        pending = iter(chunk_iter)
        retry = []
        idx = 0
        stop = False
        exhausted = False
        inflight = {}
        for _ in range(self.jobs):
            self.spawn()
        idle = list(self.workers)
        while True:
            while idle and not stop:
                if retry:
                    cases = retry.pop()
                elif not exhausted:
                    cases = next(pending, None)
                    if cases is None:
                        exhausted = True
                        continue
                else:
                    break
                c = idle.pop()
                idx += 1
                inflight[c] = cases
                self.workers[c][1] = idx
                self.workers[c][2] = time.time()
                c.send((idx, cases))
            if not inflight:
                break
            ready = conn_wait(list(inflight), timeout=1.0)
            now = time.time()
            for c in ready:
                cases = inflight.pop(c)
                try:
                    _, kind, res, _dt = c.recv()
                except (EOFError, ConnectionResetError, OSError):
                    p = self.workers[c][0]
                    p.join(2)
                    code = p.exitcode
                    self.kill(c)
                    idle.append(self.spawn())
                    if len(cases) == 1:
                        stop |= on_result(cases, [('process-died:%s' % code, 'worker died, exit %s' % code)]) is False
                    else:
                        retry.extend([x] for x in cases)
                    continue
                idle.append(c)
                if kind == 'err':
                    raise RuntimeError('harness error:\n' + res + '\ncases: %r' % [x.key for x in cases][:3])
                if on_result(cases, res) is False:
                    stop = True
            for c in list(inflight):
                if now - self.workers[c][2] > timeout:
                    cases = inflight.pop(c)
                    self.kill(c)
                    idle.append(self.spawn())
                    if len(cases) == 1:
                        stop |= on_result(cases, [('hang', 'no answer in %ss' % timeout)]) is False
                    else:
                        retry.extend([x] for x in cases)
        for c in list(self.workers):
            try:
                c.send(None)
            except OSError:
                pass
        for c in list(self.workers):
            p = self.workers[c][0]
            p.join(2)
            self.kill(c)
        return exhausted and not stop


def load_known():
    path = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(path):
        return {'findings': [], 'fixed': []}
    with open(path) as f:
        return json.load(f)


def known_for(pid):
    """key -> (signature, finding id)"""
    table, groups = {}, []
    for g in load_known()['findings']:
        if g['property'] != pid:
            continue
        groups.append(g)
        for k, sig in g['cases'].items():
            table[k] = (sig, g['id'])
    return table, groups


def chunks(cases, n, group, table=()):
    buf, g = [], None
    for c in cases:
        if c.key in table and table[c.key][0].startswith(('translate:', 'load:', 'process-died', 'hang')):
            # known to spoil the cases it is batched with
            yield [c]
            continue
        cg = group(c)
        if buf and (cg != g or len(buf) >= n):
            yield buf
            buf = []
        g = cg
        buf.append(c)
    if buf:
        yield buf


def run_check(check, only=None, collect=None):
    """Run a whole check. collect: if a dict, unlisted failures are stored in
    it instead of being reported (used to study the tree, never at check
    time)."""
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    table, groups = known_for(check.id)
    n = {'cases': 0, 'states': 0, 'transitions': 0, 'checks': 0, 'known': 0, 'failed': 0}
    hit_groups, samples, suspects, keys = {}, [], [], set()
    dup = []
    stop_after = 10 ** 9 if collect is not None else MAX_REPORT

    def gen():
        for c in check.cases():
            if only and not only(c.key):
                continue
            if c.key in keys:
                dup.append(c.key)
                continue
            keys.add(c.key)
            yield c

    def on_result(cases, res):
        for c, r in zip(cases, res):
            n['cases'] += 1
            s, t, k = r if isinstance(r, Held) else check.stats(c)
            n['states'] += s
            n['transitions'] += t
            n['checks'] += k
            if len(samples) < 3 or (n['cases'] % 4999 == 0 and len(samples) < 8):
                samples.append(c.key[:300])
            if r is None or isinstance(r, Held):
                continue
            sig, detail = r
            kn = table.get(c.key)
            if kn is not None and kn[0] == sig:
                n['known'] += 1
                hit_groups[kn[1]] = hit_groups.get(kn[1], 0) + 1
                continue
            n['failed'] += 1
            suspects.append((c, sig, detail, cases))
        return len(suspects) < stop_after

    pool = Pool(check, JOBS)
    complete = pool.run(chunks(gen(), check.batch, check.group, table), on_result, check.chunk_timeout)

    violations = []
    if collect is not None:
        for c, sig, detail, _ in suspects:
            collect[c.key] = (sig, detail)
    else:
        for c, sig, detail, batchcases in suspects:
            res = confirm(check, c, sig, batchcases)
            if res is None:
                print('NOTE: unconfirmed failure (not reproduced in a fresh process): %s %s' % (c.key[:200], sig))
                continue
            kn = table.get(c.key)
            if kn is not None and kn[0] == res[0]:
                continue
            violations.append((c, res[0], res[1], res[2]))
    for g in groups:
        print('KNOWN-FINDING: property=%s %s: %s (%d listed case(s), %d seen in this run)' % (
            check.id, g['id'], g['what'], len(g['cases']), hit_groups.get(g['id'], 0)))
    for i, (c, sig, detail, batchcases) in enumerate(violations):
        path = write_replay(check, c, sig, detail, batchcases, i)
        print('--- %s %s\n    case: %s\n    signature: %s\n    %s' % (
            check.id, 'violation', c.key[:400], sig[:300], str(detail)[:1500].replace('\n', '\n    ')))
        print('VIOLATION property=%s replay=%s' % (check.id, path))
    cov = {
        'rule': check.rule,
        'samples': samples,
        'exhaustive': bool(complete),
        'cases': n['cases'],
        'comparisons': n['checks'],
        'known_finding_cases_seen': n['known'],
    }
    if check.level == 'model_checking':
        cov['states'] = n['states']
        cov['transitions'] = n['transitions']
        cov['traces_validated_against_impl'] = n['cases']
    else:
        cov['evaluations'] = n['cases']
        cov['distinct_nontrivial'] = len(keys)
    cov.update(check.extra_evidence())
    if not complete:
        cov['stopped'] = 'stopped early after %d unlisted failures' % len(suspects)
    ev = {'property': check.id, 'tier': check.tier, 'seed': seed, 'level': check.level,
          'coverage': cov, 'assumptions': list(check.assumptions),
          'wall_s': round(time.time() - t0, 2), 'violations': len(violations)}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', check.id + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    if dup:
        raise RuntimeError('duplicate case keys: %r' % dup[:5])
    if n['cases'] == 0 and not only:
        raise RuntimeError('no case was explored')
    print('%s %s: cases=%d states=%d transitions=%d comparisons=%d known=%d violations=%d exhaustive=%s wall=%.1fs' % (
        check.id, check.tier, n['cases'], n['states'], n['transitions'], n['checks'], n['known'],
        len(violations), complete, time.time() - t0))
    return 1 if violations else 0


def run_fresh(check, cases, timeout=None):
    """Run the given cases as one batch in a fresh forked process."""
    out = []
    p = Pool(check, 1)
    p.run([list(cases)], lambda cs, rs: out.extend((c, None if isinstance(r, Held) else r) for c, r in zip(cs, rs)), timeout or check.chunk_timeout)
    return out


def confirm(check, case, sig, batchcases):
    """Re-run a failing case alone in a fresh process (twice); fall back to
    its whole batch. Returns (signature, detail, cases needed) or None."""
    a = run_fresh(check, [case])[0][1]
    if a is not None:
        b = run_fresh(check, [case])[0][1]
        if b is not None:
            return (a[0], a[1], [case])
    # only fails after the other cases of its batch ran in the same process
    for _ in range(2):
        r = [x for c, x in run_fresh(check, batchcases) if c.key == case.key]
        if not r or r[0] is None:
            return None
    return (r[0][0], r[0][1], list(batchcases))


def write_replay(check, case, sig, detail, cases, i):
    d = os.path.join(VERIF, 'replays')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '%s-%d.json' % (check.id, i))
    with open(path, 'w') as f:
        json.dump({'property': check.id, 'tier': check.tier, 'key': case.key, 'signature': sig,
                   'detail': str(detail), 'cases': [c.key for c in cases],
                   'payload': repr(case.payload),
                   'replay': 'cd %s && ./run replay %s' % (VERIF, path)}, f, indent=1)
    return path

"""C13: concurrent translations, over all schedules of real threads up to a
preemption bound.

A controlled scheduler runs real threads of the real translator one at a time.
Every executed line of ctypeslib is a scheduling point; a schedule is the list
of points where the running thread is preempted. Bound 1: at every point of
one thread, the other runs to its end in between. Bound 2: both threads are
preempted once. Each thread must obtain the output it obtains alone.
"""
import io
import itertools
import os
import sys
import threading

import ctypeslib

from .. import engine, impl
from . import c12

PKG = os.path.dirname(os.path.abspath(ctypeslib.__file__)) + os.sep
BODIES = [('rec', 'host'), ('rec2', 'i386'), ('ptr', 'avr'), ('mac', 'mac'), ('wide', 'doc'), ('ptr', 'win'), ('s:mac', 'win'), ('bad', 'host'), ('l:rec', 'i386')]
PAIRS_QUICK = [(0, 1), (1, 0), (2, 5), (3, 6), (4, 3), (7, 0)]


def body(k):
    src, c = BODIES[k]
    kind, _, name = src.rpartition(':')
    return c12.perform(({'': 'f', 's': 's', 'l': 'l'}[kind], name, c))


class Scheduler:
    """Runs bodies in threads, one at a time. plan: [(thread, event number)],
    in order: when that thread reaches that event the next thread (cyclically)
    runs; a finished thread hands over to the first unfinished one."""

    def __init__(self, bodies, plan, record=None, lines=True):
        self.n = len(bodies)
        self.bodies = bodies
        self.plan = {t: [e for u, e in plan if u == t] for t in range(self.n)}
        self.record = record
        self.sem = [threading.Semaphore(0) for _ in bodies]
        self.done = [False] * self.n
        self.results = [None] * self.n
        self.count = [0] * self.n
        self.over = threading.Event()
        self.current = 0
        self.hits = 0

    def handover(self, me, finished=False):
        nxt = [(me + d) % self.n for d in range(1, self.n + 1)]
        for t in nxt:
            if not self.done[t] and t != me:
                self.current = t
                self.sem[t].release()
                if not finished:
                    self.sem[me].acquire()
                return
        if finished:
            self.over.set()

    def tracer(self, me):
        points = self.plan[me]
        last = points[-1] if points else 0

        def trace(frame, event, arg):
            fn = frame.f_code.co_filename
            if not fn.startswith(PKG):
                return None
            return local(frame, event, arg)

        def local(frame, event, arg):
            if event in ('line', 'call'):
                self.count[me] += 1
                if self.record is not None:
                    self.record.append((frame.f_code.co_filename, frame.f_lineno, event))
                elif self.count[me] in points:
                    self.hits += 1
                    self.handover(me)
                elif self.count[me] > last and self.record is None:
                    sys.settrace(None)
                    return None
            return local
        return trace

    def thread(self, me):
        self.sem[me].acquire()
        if self.record is not None or self.plan[me]:
            sys.settrace(self.tracer(me))
        try:
            self.results[me] = self.bodies[me]()
        except BaseException as e:
            self.results[me] = ('thread', impl.tb(e))
        finally:
            sys.settrace(None)
            self.done[me] = True
            self.handover(me, True)

    def run(self):
        ts = [threading.Thread(target=self.thread, args=(i,), daemon=True) for i in range(self.n)]
        for t in ts:
            t.start()
        self.sem[0].release()
        stuck = 0
        while not self.over.wait(1.5):
            # the running thread waits for something a preempted one holds
            stuck += 1
            for t in range(self.n):
                if not self.done[t]:
                    self.sem[t].release()
            if stuck > 40:
                return [('stuck', None)]
        for t in ts:
            t.join(5)
        return self.results


class C13(engine.Check):
    id = 'C13'
    technique = 'stateless model checking of the real threads: all schedules up to a preemption bound under a controlled scheduler'
    level_note = 'exhaustive up to the stated preemption bound and points'
    batch = 1
    rule = ('scheduling points: executed lines of ctypeslib (quick: the first 2 and the last execution of each line; thorough: '
            'every execution); preemption bound 1 at every point of every ordered pair of translations, bound 2 over the first '
            'executions, and three threads at function entries')
    assumptions = ['switches inside libclang and the standard library are not distinguished from the surrounding line',
                   'each thread has its own translator and configuration']
    chunk_timeout = 600
    PER = 40

    def points(self, k, m, calls=False):
        """event numbers of body k: the first m and the last execution of each line"""
        cache = self.__dict__.setdefault('_pts', {})
        if k not in cache:
            def go():
                rec = []
                Scheduler([lambda: body(k)], [], rec).run()
                return rec
            cache[k] = self.inside(lambda: c12.in_child(go))
        seen, out, last = {}, set(), {}
        for i, loc in enumerate(cache[k], 1):
            if calls and loc[2] != 'call':
                continue
            seen[loc] = seen.get(loc, 0) + 1
            if m is None or seen[loc] <= m:
                out.add(i)
            last[loc] = i
        if m is not None and m > 1:
            out |= set(last.values())
        return sorted(out)

    def inside(self, fn):
        d = os.path.join(impl.scratch(), 'c13')
        os.makedirs(d, exist_ok=True)
        cwd = os.getcwd()
        os.chdir(d)
        try:
            return fn()
        finally:
            os.chdir(cwd)

    def cases(self):
        th = self.thorough
        n = len(BODIES)
        pairs = [p for p in itertools.product(range(n), repeat=2)] if th else PAIRS_QUICK

        def chunk(name, plans, who):
            for i in range(0, len(plans), self.PER):
                yield engine.Case('%s/%s/%s' % (name, '.'.join(map(str, who)), i // self.PER), (who, tuple(plans[i:i + self.PER])))
        for a, b in pairs:
            pts = self.points(a, 1 if not th else 6)
            yield from chunk('b1', [((0, e),) for e in pts], (a, b))
        if th:
            for a, b in PAIRS_QUICK:
                yield from chunk('b1all', [((0, e),) for e in self.points(a, None)], (a, b))
        # bound 2: function entries
        for a, b in PAIRS_QUICK[:3] if not th else PAIRS_QUICK:
            pa, pb = self.points(a, 1, True), self.points(b, 1, True)
            if not th:
                pa, pb = pa[:30], pb[:30]
            yield from chunk('b2', [((0, x), (1, y)) for x in pa for y in pb], (a, b))
        # three threads: entries of the main steps
        for who in ((0, 1, 3), (2, 6, 4)):
            pa, pb = self.points(who[0], 1, True), self.points(who[1], 1, True)
            if not th:
                pa, pb = pa[:24], pb[:24]
            yield from chunk('t3', [((0, x), (1, y)) for x in pa for y in pb], who)

    def stats(self, case):
        who, plans = case.payload
        return (len(plans), sum(len(p) + len(who) for p in plans), len(plans) * len(who))

    def setup_worker(self):
        c12.quiet_stderr()

    def run_one(self, case):
        return self.inside(lambda: self.go(*case.payload))

    def go(self, who, plans):
        gold = self.__dict__.setdefault('_gold', {})
        for k in who:
            if k not in gold:
                gold[k] = c12.in_child(lambda: body(k))
        for p in plans:
            s = Scheduler([lambda k=k: body(k) for k in who], p)
            res = s.run()
            for i, (k, r) in enumerate(zip(who, res)):
                if r != gold[k]:
                    what = 'fails' if r[0] != gold[k][0] else 'obtains another output'
                    a, b = str(gold[k][1]).splitlines(), str(r[1]).splitlines()
                    return ('a thread ' + what, '%s schedule %s thread %d: %s\n%s' % (
                        [BODIES[x] for x in who], p, i, r[0] if r[0] != 'ok' else '', [x for x in zip(a, b) if x[0] != x[1]][:4] or str(r[1])[-500:]))
        return None


CHECK = C13

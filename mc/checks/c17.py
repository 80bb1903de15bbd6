"""C17: I/O faults, over all fault points of bounded translations.

The events of a translation (open, read, write, close, pipe on the inputs, the
outputs, the standard streams, temporary files and helper processes) are
recorded on the real process, by an interposed libc layer. Then every event is
made to fail, with each errno, once or from then on, and reads and writes are
made short. A run that reports success must have written the complete module;
else it must report the failure. Inputs stay as they are and no temporary file
stays behind.
"""
import io
import itertools
import json
import os
import shutil
import subprocess
import sys

import ctypeslib

from .. import engine, impl
from . import c12

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SMALL = '#include "dep.h"\nstruct A { struct D d; char *p; }; int fun(struct A *); int lib_fun(int); enum E { X = 3 }; int v = 5;\n#define M 1\n'
BIG = ''.join('struct S%d { int a%d; struct S%d *next; char text[%d]; };\nint f%d(struct S%d *p, int a);\n' % (i, i, i, i + 1, i, i) for i in range(60))
DEP = 'struct D { int in_d; };\n'
LATE = '/* %s */\nstruct L { int l; };\n' % ('x' * 9000)
# name -> job, the argument of which are files of the working directory
SCENARIOS = {
    'stdout': {'argv': ['small.c']},
    'file': {'argv': ['-o', 'out.py', 'small.c']},
    'over': {'argv': ['-o', 'over.py', 'small.c']},
    'stdin': {'argv': ['-o', 'out.py', '-']},
    'pipe': {'argv': ['-']},
    'two': {'argv': ['-o', 'out.py', '-k', 'cdefstum', 'small.c', 'late.c']},
    'includes': {'argv': ['-i', '-o', 'out.py', 'small.c']},
    'lib': {'argv': ['-l', './libone.so', '-o', 'out.py', 'small.c']},
    'libs': {'argv': ['-l', './libone.so', '-l', './libtwo.so', 'small.c']},
    'comments': {'argv': ['-c', '-o', 'out.py', 'small.c']},
    'big': {'argv': ['-o', 'out.py', 'big.c']},
    'bigout': {'argv': ['big.c']},
    'preload': {'argv': ['-p', './libone.so', '-o', 'out.py', 'late.c']},
    'api': {'argv': ['small.c', 'late.c'], 'api': 'out.py'},
    'apibig': {'argv': ['big.c'], 'api': 'out.py'},
    'string': {'argv': ['small.c'], 'string': 'out.py'},
    'error': {'argv': ['-o', 'out.py', 'error.c']},
    'errorin': {'argv': ['-']},
}
ERR = {'o': [13, 24, 2, 5], 'r': [5], 'w': [28, 5], 'c': [5, 28], 'p': [24]}
# helper programs in the place of nm
NM = {
    'fails': 'echo "0000000000001000 T lib_fun"; exit 1',
    'silent': 'exit 3',
    'killed': 'echo "0000000000001000 T lib_fun"; kill -9 $$',
    'segv': 'kill -11 $$',
    'badutf': 'printf "0000 T \\377\\376\\n"; exit 1',
    'noexec': None,
    'notfound': None,
    'interp': None,
    'dir': None,
}


class C17(engine.Check):
    id = 'C17'
    technique = 'exhaustive fault-point exploration of the real process under an interposed libc fault injector'
    level_note = 'exhaustive over the recorded events, single and sticky faults'
    rule = ('18 scenarios; every recorded open/read/write/close/pipe event on inputs, outputs, temporary files, standard streams and helper '
            'pipes x errnos x {once, from then on}, short reads and writes (thorough: all pairs of faults); '
            '9 failing helper programs; every write of an output stream of the API failing')
    assumptions = ['a fault that the operating system does not report (a truncated input) is not a fault', 'files are compared, not the order of the writes']
    chunk_timeout = 300
    batch = 1

    def cases(self):
        for s in SCENARIOS:
            yield engine.Case('base/%s' % s, ('base', s))
            for part in range(4):
                yield engine.Case('faults/%s/%d' % (s, part), ('faults', s, part, 4))
        if self.thorough:
            for s in SCENARIOS:
                for part in range(16):
                    yield engine.Case('pairs/%s/%d' % (s, part), ('pairs', s, part, 16))
        for n in NM:
            for o in ('out', 'std'):
                yield engine.Case('nm/%s/%s' % (n, o), ('nm', n, o))
        for s in ('small.c', 'big.c', 'late.c'):
            for k in ('write', 'short'):
                yield engine.Case('stream/%s/%s' % (s, k), ('stream', s, k))
        for s in ('small.c', 'big.c'):
            yield engine.Case('cleanup/%s' % s, ('cleanup', s))

    def setup_worker(self):
        c12.quiet_stderr()
        self.top = os.path.join(impl.scratch(), 'c17')
        d = self.dir = self.top + '/work'
        os.makedirs(d)
        os.makedirs(self.top + '/tmp')
        self.inputs = {'small.c': SMALL, 'big.c': BIG, 'dep.h': DEP, 'late.c': LATE, 'error.c': SMALL + 'nope x;\n',
                       'over.py': '# old\n' * 30000, 'in.c': SMALL.split('\n', 1)[1].replace('struct D d; ', ''), 'inerr.c': 'nope x;\n'}
        for f, t in self.inputs.items():
            with open(os.path.join(d, f), 'w') as fo:
                fo.write(t)
        for n in ('one', 'two'):
            subprocess.run(['gcc', '-shared', '-fPIC', '-x', 'c', '-', '-o', d + '/lib%s.so' % n], input=b'int lib_fun(int a) { return a; }', check=True)
        shim = self.top + '/faults.so'
        subprocess.run(['gcc', '-shared', '-fPIC', '-O1', '-w', '-o', shim, HERE + '/native/faults.c', '-ldl'], check=True)
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        env = dict(os.environ, PYTHONPATH=impl.REPO, PYTHONDONTWRITEBYTECODE='1', PYTHONWARNINGS='ignore', LD_PRELOAD=shim, MC_DIR=self.top,
                   MC_FDS='%d %d' % (r1, w2), MC_WARM=d + '/late.c', LC_ALL='C.UTF-8')
        env.pop('PYTHONUNBUFFERED', None)      # the interpreter loses short writes then
        subprocess.Popen([sys.executable, HERE + '/native/zygote.py'], env=env, pass_fds=(r1, w2), stdin=subprocess.DEVNULL,
                         stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        os.close(r1)
        os.close(w2)
        self.req, self.ans = os.fdopen(w1, 'w'), os.fdopen(r2, 'r')

    def ask(self, job):
        job = dict({'cwd': self.dir, 'stdin': self.top + '/stdin', 'stdout': self.top + '/stdout', 'stderr': self.top + '/stderr',
                    'tmp': self.top + '/tmp'}, **job)
        with open(job['stdin'], 'w') as f:
            f.write(self.inputs['inerr.c' if job.get('bad') else 'in.c'])
        with open(self.dir + '/over.py', 'w') as f:
            f.write(self.inputs['over.py'])
        self.req.write(json.dumps(job) + '\n')
        self.req.flush()
        line = self.ans.readline()
        if not line:
            raise RuntimeError('no answer')
        r = json.loads(line)
        with open(job['stdout'], 'rb') as f:
            r['out'] = f.read()
        r['file'] = None
        for name in ('out.py', 'over.py'):
            p = os.path.join(self.dir, name)
            if os.path.exists(p):
                with open(p, 'rb') as f:
                    t = f.read()
                if name in job['argv'] or name in (job.get('api'), job.get('string')):
                    r['file'] = t
                elif name == 'out.py':
                    r['stray'] = True
                if name == 'out.py':
                    os.unlink(p)
        r['left'] = os.listdir(self.top + '/tmp')
        for f in r['left']:
            os.unlink(self.top + '/tmp/' + f)
        return r

    def untouched(self):
        names = set(os.listdir(self.dir)) - {'fakenm', 'libone.so', 'libtwo.so', 'fakedir'}
        if names != set(self.inputs):
            return 'files %s' % (names ^ set(self.inputs))
        for f, t in self.inputs.items():
            if f == 'over.py':
                continue
            with open(os.path.join(self.dir, f)) as fo:
                if fo.read() != t:
                    return 'input %s' % f
        return None

    def run_one(self, case):
        return getattr(self, case.payload[0])(*case.payload[1:])

    def golden(self, s):
        cache = self.__dict__.setdefault('_gold', {})
        if s not in cache:
            job = dict(SCENARIOS[s], fault=[-1, 0, 0, 0], events=True)
            if s == 'errorin':
                job['bad'] = True
            cache[s] = self.ask(job)
        return cache[s]

    def base(self, s):
        g = self.golden(s)
        if s.startswith('error'):
            return None if g['status'] not in (0,) and not g['out'] and not g['file'] else ('an error is not reported', '%s' % g['status'])
        if g['status'] != 0 or not (g['out'] or g['file']):
            with open(self.top + '/stderr') as f:
                return ('a translation without a fault fails', '%s %s %s' % (s, g['status'], f.read()[-500:]))
        if g['left']:
            return ('a temporary file stays behind', '%s %s' % (s, g['left']))
        if not g['events']:
            raise RuntimeError('no event was recorded')
        return None

    def faults(self, s, part, parts):
        g = self.golden(s)
        n = tr = 0
        for i, (op, path) in enumerate(g['events']):
            if i % parts != part:
                continue
            plans = [(e, st, 0) for e in ERR[op] for st in (0, 1)]
            if op in 'rw':
                plans += [(0, 0, 1), (0, 1, 1)]
            for e, st, sh in plans:
                job = dict(SCENARIOS[s], fault=[i, e, st, sh])
                if s == 'errorin':
                    job['bad'] = True
                r = self.ask(job)
                n += 1
                tr += r['events']
                what = '%s, event %d of %d: %s %s, %s%s' % (s, i, len(g['events']), {'o': 'open', 'r': 'read', 'w': 'write', 'c': 'close', 'p': 'pipe'}[op],
                                                         path, 'short' if sh else os.strerror(e), ' from then on' if st else '')
                bad = self.judge(r, g, s)
                if bad:
                    with open(self.top + '/stderr') as f:
                        return (bad, '%s\nstatus %s, %s\n%s' % (what, r['status'], r['left'], f.read()[-300:]))
        return engine.Held((n, tr, 4 * n))

    def pairs(self, s, part, parts):
        g = self.golden(s)
        n = tr = 0
        last = len(g['events']) + 6
        for i, j in itertools.combinations(range(last), 2):
            if (i + j) % parts != part:
                continue
            for e in (5, 28):
                job = dict(SCENARIOS[s], fault=[i, e, 0, 0, j])
                if s == 'errorin':
                    job['bad'] = True
                r = self.ask(job)
                n += 1
                tr += r['events']
                bad = self.judge(r, g, s)
                if bad:
                    return (bad, '%s, events %d and %d of %s, %s\nstatus %s %s' % (s, i, j, g['events'], os.strerror(e), r['status'], r['left']))
        return engine.Held((n, tr, 4 * n))

    def judge(self, r, g, s):
        if r['status'] == 0:
            if g['status'] != 0:
                return 'an invalid source is accepted'
            if r['out'] != g['out'] or r['file'] != g['file']:
                return 'success is reported, but the output is not complete'
        elif r['status'] < 0:
            return 'the process dies'
        if r['left']:
            return 'a temporary file stays behind'
        if r.get('stray'):
            return 'another file is written'
        bad = self.untouched()
        if bad:
            return 'a file was changed: %s' % bad
        return None

    def nm(self, n, o):
        p = self.dir + '/fakenm'
        if os.path.isdir(p):
            os.rmdir(p)
        elif os.path.exists(p):
            os.unlink(p)
        if n == 'dir':
            os.mkdir(p)
        elif n != 'notfound':
            with open(p, 'w') as f:
                f.write('#!/bin/sh\n%s\n' % NM[n] if NM[n] else '#!/no/such/interpreter\n' if n == 'interp' else 'x')
            os.chmod(p, 0o600 if n == 'noexec' else 0o700)
        r = self.ask({'argv': ['--nm', './fakenm', '-l', './libone.so'] + (['-o', 'out.py'] if o == 'out' else []) + ['small.c'], 'fault': [-1, 0, 0, 0]})
        if r['status'] == 0:
            return ('a failing helper program is not reported', n)
        if r['out'] or r['file']:
            return ('output is written after a helper program failed', n)
        bad = self.judge(r, {'status': 0}, '')
        return (bad, n) if bad else None

    def stream(self, name, kind):
        """the stream of the caller fails at its n-th write"""
        class Failing(io.StringIO):
            def __init__(self, n):
                super().__init__()
                self.n = n

            def write(self, t):
                if self.n == 0:
                    raise OSError(28, 'No space left on device')
                self.n -= 1
                return super().write(t)
        cwd = os.getcwd()
        os.chdir(self.dir)
        try:
            n = 0
            while True:
                f = Failing(n)
                try:
                    if kind == 'write':
                        ctypeslib.translate_files([name], f, impl.make_cfg())
                    else:
                        with open(name) as src:
                            text = src.read()
                        ctypeslib.translate(text, f, impl.make_cfg())
                except OSError as e:
                    if e.errno != 28:
                        return ('another error is raised', str(e))
                except Exception as e:
                    return ('another error is raised', impl.tb(e))
                else:
                    if f.n == 0:
                        # never reached: the number of writes
                        return engine.Held((n, n, n))
                    return ('a fault of the output stream is not raised', '%s, write %d' % (name, n))
                n += 1
                if n > 5000:
                    return ('too many writes', '')
        finally:
            os.chdir(cwd)

    def cleanup(self, name):
        """after every fault, the next translation of the process is complete"""
        class Failing(io.StringIO):
            def __init__(self, n):
                super().__init__()
                self.n = n

            def write(self, t):
                self.n -= 1
                if self.n < 0:
                    raise OSError(28, 'No space left on device')
                return super().write(t)
        cwd = os.getcwd()
        os.chdir(self.dir)
        try:
            want = None
            for n in range(-1, 60):
                f = Failing(n)
                cfg = impl.make_cfg()
                try:
                    if n >= 0:
                        ctypeslib.translate_files([name], f, cfg)
                except OSError:
                    pass
                out = io.StringIO()
                ctypeslib.translate_files([name], out, cfg)
                if want is None:
                    want = out.getvalue()
                if out.getvalue() != want:
                    return ('a fault changes the next translation', '%s, write %d' % (name, n))
            return engine.Held((60, 120, 60))
        finally:
            os.chdir(cwd)


CHECK = C17

"""C12: isolation, over all bounded histories of operations of one process and
all interleavings of the steps of several live translators.

Oracle: each operation alone in a process that did nothing before. State: the
history (what the process did). Every history is run in its own forked child
of a process that never translated anything.
"""
import io
import itertools
import os
import pickle
import shutil

import ctypeslib
from ctypeslib.codegen import clangparser, config, typedesc
from ctypeslib.codegen.codegenerator import CodeTranslator
from ctypeslib import clang2py

from .. import canon, engine, impl, oracle

SRC = {
    'rec': 'struct A { long l; char *p; union { int i; float f; } u; }; struct B { struct A a[2]; struct B *n; }; typedef struct A A_t; int f(struct B *, A_t);',
    'rec2': 'struct A { char c; }; typedef struct { short s; struct A a; } B; union A_u { struct A a; int x; }; enum E { X = 7 }; B g(union A_u *); A_t2 *h(void);'.replace('A_t2 *h(void);', ''),
    'mac': '#define A 1\n#define S "text"\n#define N (-5)\n#define F(x) x\n#define B A\nenum E { X = 3, Y }; int v = A; char *s = S; char t[] = S;',
    'ptr': 'int *a; long double d; void (*cb)(void *, long double); struct P { void *q; struct P *r; long double e; int b : 3; }; char *c(const char *);',
    'warn': '#warning w\nint f() { return 0; } struct A; struct A { unsigned char z; }; int w = 5',
    'empty': '',
    'wide': '/** doc of A */ struct A { int a; /**< member */ }; /// fun\nint f(int a);\nextern int v;',
    'bad': 'struct A { int x; }; struct A { long y; }; int f(struct nope x);',
    'bad2': '#include "missing.h"\nint f(void);',
}
SRC['warn'] += ';'
CFG = {
    'host': ([], 'cdefstu', {}),
    'mac': ([], 'cdefstum', {}),
    'i386': (['-target', 'i386-linux-gnu'], 'cdefstu', {}),
    'win': (['-target', 'x86_64-pc-windows-msvc'], 'cdefstum', {}),
    'avr': (['-target', 'avr'], 'cdefstu', {}),
    'doc': ([], 'cdefstum', {'generate_comments': True, 'generate_locations': True, 'generate_docstrings': True}),
    'inc': (['-DQ=1'], 'cdefstu', {'filter_location': False, 'symbols': ['struct_A', 'f']}),
    'verb': (['-fshort-enums'], 'estu', {'verbose': True}),
}
# operation: (kind, source, cfg)
OPS = [('f', 'rec', 'host'), ('f', 'rec2', 'win'), ('f', 'mac', 'mac'), ('f', 'ptr', 'avr'), ('f', 'bad', 'host'),
       ('s', 'ptr', 'i386'), ('l', 'rec2', 'host'), ('l', 'ptr', 'i386'), ('u', '', ''), ('f', 'rec', 'i386'), ('f', 'wide', 'doc'), ('p', 'avr', ''), ('f', 'ptr', 'host'),
       # thorough
       ('s', 'bad2', 'mac'), ('f', 'warn', 'host'), ('n', 'mac', 'mac'), ('c', 'rec', 'i386'), ('f', 'wide', 'inc'), ('f', 'rec', 'verb'), ('s', 'mac', 'win'), ('l', 'mac', 'host')]
# one source under flags that change what it means
FLAGSRC = '''#include <cfg.h>
#ifndef X
#define X 1
#endif
enum E { E_A = X, E_B = 200 }; struct A { long l; long double d; char c; enum E e; __WCHAR_TYPE__ w; int x[X + 2]; void *p; unsigned b : 3; } ; union U { long double d; int i; };
typedef long L_t; int f(long double, char, L_t, CFG_T *); static int v = X; static const char k = 'a'; double g(float);
'''
FLAGS = [(), ('-m32',), ('-fshort-enums',), ('-funsigned-char',), ('-mlong-double-64',), ('-DX=3',), ('-fshort-wchar',), ('-fpack-struct=1',), ('-IcfgB',), ('-target', 'x86_64-linux-gnu'),
         ('-mlong-double-128',), ('-mms-bitfields',), ('-UX', '-DX=2'), ('-target', 'i386-linux-gnu'), ('-target', 'x86_64-linux-gnu', '-fshort-enums'), ('-target', 'x86_64-linux-gnu', '-m32'), ('-x', 'c++'), ('-std=c90',)]
# the world changes between the operations
WORLD = {
    'src1': ('w.c', 'struct W { int a; }; int wf(struct W *);\n'), 'src2': ('w.c', 'struct W { char b; }; int wf(struct W *, int);\n'),
    'inc1': ('w.c', '#include "w.h"\nstruct V { HT h; };\n'), 'h1': ('w.h', 'typedef int HT;\n'), 'h2': ('w.h', 'typedef long HT;\n'), 'h0': ('w.h', None),
    'bad': ('w.c', 'struct W { nope a; };\n'), 'none': ('w.c', None),
}
STEPS = ('parser', 'file1', 'file2', 'generator', 'code')
LIVE = [('rec', 'host'), ('rec2', 'i386'), ('ptr', 'win'), ('mac', 'mac'), ('ptr', 'avr'), ('wide', 'doc')]


def cfg_of(name):
    o, k, a = CFG[name]
    return impl.make_cfg(o, k, **{x: list(y) if isinstance(y, list) else y for x, y in a.items()})


def path(src):
    """sources are written once per process, names in the output are stable"""
    p = 'src_%s.c' % src
    if not os.path.exists(p):
        with open(p, 'w') as f:
            f.write(SRC[src])
    return p


def outcome(fn):
    try:
        return ('ok', fn())
    except Exception as e:
        return ('raised', '%s: %s' % (type(e).__name__, e))


def quiet_stderr():
    import sys
    sys.stderr = io.StringIO()


def perform(op):
    kind, src, c = op
    if kind == 'f':
        def go():
            o = io.StringIO()
            ctypeslib.translate_files([path(src)], o, cfg_of(c))
            return o.getvalue()
    elif kind == 's':
        def go():
            o = io.StringIO()
            ctypeslib.translate(SRC[src], o, cfg_of(c))
            return o.getvalue()
    elif kind == 'l':
        def go():
            o = io.StringIO()
            ctypeslib.translate_files([path(src)], o, cfg_of(c))
            ns = impl.load(o.getvalue())
            for v in list(ns.values()):
                if isinstance(v, type) and hasattr(v, '_fields_'):
                    v()
            return repr(sorted(canon.module(ns).items()))
    elif kind == 'n':
        def go():
            ns = ctypeslib.translate(SRC[src], cfg=cfg_of(c))
            return repr(sorted(canon.module(ns).items()))
    elif kind == 'p':
        def go():
            p = clangparser.Clang_Parser(list(CFG[src][0]))
            p.activate_macros_parsing()
            p.activate_comment_parsing()
            p.filter_location(['x.c'])
            return repr(sorted((k.name, v) for k, v in p.ctypes_sizes.items()))
    elif kind == 'c':
        def go():
            r = clang2py.main([path(src), '-o', 'cli.out', '-t', CFG[c][0][1], '-k', CFG[c][1]])
            with open('cli.out') as f:
                return '%s %s' % (r, f.read())
    elif kind == 'u':
        def go():
            # a user that adapts one configuration
            x = config.CodegenConfig()
            x.symbols.append('struct_A')
            x.clang_opts += ['-DZ']
            x.types.append(typedesc.Macro)
            x.expressions.append('q')
            x.known_symbols['struct_A'] = 'nowhere'
            x.searched_dlls.append(None)
            x.preloaded_dlls.append('nope')
            return ''
    return outcome(go)


def snapshot(cfg):
    d = {k: getattr(cfg, k) for k in dir(cfg) if not k.startswith('__') and not callable(getattr(cfg, k))}
    return repr(sorted(d.items()))


class Live:
    """one translator, advanced step by step"""

    def __init__(self, src, c):
        self.src, self.c = src, c
        self.t = CodeTranslator(cfg_of(c))
        self.out = io.StringIO()
        self.at = 0

    def step(self):
        s = STEPS[self.at]
        self.at += 1
        if s == 'parser':
            self.t.make_clang_parser()
        elif s == 'file1':
            self.t.parse_input_file(path(self.src))
        elif s == 'file2':
            # a second parse of the same, then of another file
            self.t.items = []
            self.t.parse_input_file(path('empty'))
        elif s == 'generator':
            self.t.make_code_generator(self.out)
        else:
            self.t.generate_code(self.out)


def interleavings(counts):
    """all merges of sequences with the given lengths"""
    if not any(counts):
        yield ()
        return
    for i, n in enumerate(counts):
        if n:
            for rest in interleavings(counts[:i] + (n - 1,) + counts[i + 1:]):
                yield (i,) + rest


def in_child(fn):
    """run fn in a forked child, return its pickled result"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            quiet_stderr()
            data = pickle.dumps(fn())
        except BaseException as e:
            data = pickle.dumps(('child', impl.tb(e)))
        try:
            with os.fdopen(w, 'wb') as f:
                f.write(data)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        data = f.read()
    os.waitpid(pid, 0)
    return pickle.loads(data) if data else ('child', 'died')


class C12(engine.Check):
    id = 'C12'
    technique = 'explicit-state exploration of operation histories and step interleavings of live translators, executed on the real code in forked processes, against fresh-process outcomes'
    level_note = 'exhaustive up to the stated depth'
    batch = 1
    rule = ('all histories of 3 operations out of 9 (thorough: 3 of 21 and 4 of 10), each outcome equal to the outcome of the '
            'operation alone in a fresh process; all interleavings of the 4 (thorough: 5) steps of every pair of live translators and of '
            'the steps of triples; all ordered pairs of 18 flag sets; all sequences of 3 (thorough: 4) changes of the files between translations; '
            'every reuse of a configuration')

    def cases(self):
        th = self.thorough
        n = len(OPS) if th else 9
        # a case is a prefix; its last operation ranges over the alphabet
        for a in range(n):
            yield engine.Case('hist/%d' % a, ('hist', (a,), n))
        for a, b in itertools.product(range(n), repeat=2):
            yield engine.Case('hist/%d.%d' % (a, b), ('hist', (a, b), n))
        if not th:
            for a in range(n, len(OPS)):
                for b in range(n, len(OPS)):
                    yield engine.Case('hist/%d.%d' % (a, b), ('hist', (a, b), 0))
        else:
            for p in itertools.product(range(10), repeat=3):
                yield engine.Case('hist/' + '.'.join(map(str, p)), ('hist', p, 10))
        for a, b in itertools.combinations_with_replacement(range(len(LIVE)), 2):
            yield engine.Case('live/%d.%d' % (a, b), ('live', (a, b), (), 5 if th else 4))
        for t in ((1, 2, 3),) if not th else itertools.combinations(range(len(LIVE)), 3):
            for first in itertools.product(range(3), repeat=2):
                yield engine.Case('live3/%s/%s' % ('.'.join(map(str, t)), '.'.join(map(str, first))), ('live', t, first, 3))
        for a, b in itertools.product(range(len(FLAGS)), repeat=2):
            for how in ('ff', 'ss') + (('fs', 'sf') if th else ()):
                yield engine.Case('flags/%d.%d/%s' % (a, b, how), ('flags', (a, b), how))
        for l in itertools.product(WORLD, repeat=4 if th else 3):
            if any(a == b for a, b in zip(l, l[1:])):
                continue
            yield engine.Case('world/%s' % '.'.join(l), ('world', l))
        for c in CFG:
            for s in itertools.product(SRC, repeat=2):
                yield engine.Case('cfg/%s/%s' % (c, '.'.join(s)), ('cfg', c, s))

    def stats(self, case):
        p = case.payload
        if p[0] == 'hist':
            return (max(1, p[2]), len(p[1]) + max(0, p[2]), len(p[1]) + p[2])
        if p[0] == 'live':
            n = 200
            return (n, n * p[3] * len(p[1]), n)
        if p[0] == 'world':
            return (len(p[1]), len(p[1]), len(p[1]))
        return (1, 2, 3)

    chunk_timeout = 600

    def golden(self, key, fn):
        cache = self.__dict__.setdefault('_gold', {})
        if key not in cache:
            cache[key] = in_child(fn)
        return cache[key]

    def run_one(self, case):
        d = os.path.join(impl.scratch(), 'c12')
        os.makedirs(d, exist_ok=True)
        cwd = os.getcwd()
        os.chdir(d)
        try:
            return getattr(self, case.payload[0])(*case.payload[1:])
        finally:
            os.chdir(cwd)

    def hist(self, prefix, n):
        for last in (range(n) if n else [None]):
            seq = prefix + ((last,) if last is not None else ())
            got = in_child(lambda: [perform(OPS[o]) for o in seq])
            if got and got[0] == 'child':
                return ('history died', got[1])
            for i, (o, g) in enumerate(zip(seq, got)):
                want = self.golden(o, lambda: perform(OPS[o]))
                if g != want:
                    a, b = want[1].splitlines(), g[1].splitlines()
                    df = [x for x in zip(a, b) if x[0] != x[1]][:4]
                    return ('%s differs after a history' % (OPS[o],), 'history %s, operation %d %s\nalone: %s\nhere: %s\n%s' % (
                        [OPS[x] for x in seq], i, OPS[o], want[0], g[0], df or (want[1][-300:], g[1][-300:])))
        return None

    def live(self, who, first, nsteps):
        """who: indices of LIVE; first: the first choices of the schedule"""
        def alone(k):
            def go():
                l = Live(*LIVE[k])
                for _ in STEPS:
                    l.step()
                return l.out.getvalue()
            return go
        want = [self.golden(('live', k), alone(k)) for k in who]
        # with fewer steps, the steps at the end are taken together
        group = {5: (1, 1, 1, 1, 1), 4: (1, 2, 1, 1), 3: (1, 2, 2)}[nsteps]

        def go():
            n = 0
            counts = [nsteps] * len(who)
            for f in first:
                counts[f] -= 1
            for rest in interleavings(tuple(counts)):
                n += 1
                ls = [Live(*LIVE[k]) for k in who]
                at = [0] * len(who)
                try:
                    for i in first + rest:
                        for _ in range(group[at[i]]):
                            ls[i].step()
                        at[i] += 1
                except Exception as e:
                    return ('bad', 'a step raised', '%s\n%s' % (first + rest, impl.tb(e)))
                for i, l in enumerate(ls):
                    if l.out.getvalue() != want[i]:
                        a, b = want[i].splitlines(), l.out.getvalue().splitlines()
                        return ('bad', 'output depends on the interleaving',
                                '%s schedule %s, translator %d:\n%s' % ([LIVE[k] for k in who], first + rest, i, [x for x in zip(a, b) if x[0] != x[1]][:4]))
            return ('ok', n)
        r = in_child(go)
        if r[0] != 'ok':
            return (r[1] if r[0] == 'bad' else 'child', str(r[-1]))
        return engine.Held((r[1], r[1] * nsteps * len(who), r[1] * len(who)))

    def flags(self, which, how):
        for d, t in (('cfgA', 'int'), ('cfgB', 'char')):
            os.makedirs(d, exist_ok=True)
            with open(d + '/cfg.h', 'w') as f:
                f.write('typedef %s CFG_T;\n' % t)
        with open('flags.c', 'w') as f:
            f.write(FLAGSRC)

        def one(i, h):
            def go():
                cfg = impl.make_cfg(list(FLAGS[i]) + ['-IcfgA'], 'cdefstum')
                o = io.StringIO()
                if h == 'f':
                    ctypeslib.translate_files(['flags.c'], o, cfg)
                else:
                    ctypeslib.translate(FLAGSRC, o, cfg)
                return o.getvalue()
            return outcome(go)
        got = in_child(lambda: [one(i, h) for i, h in zip(which, how)])
        if got and got[0] == 'child':
            return ('history died', got[1])
        for i, h, g in zip(which, how, got):
            want = self.golden(('flags', i, h), lambda: one(i, h))
            if g != want:
                return ('a translation with other flags changes the result', '%s then %s: %s' % (FLAGS[which[0]], FLAGS[which[1]], [
                    x for x in zip(want[1].splitlines(), g[1].splitlines()) if x[0] != x[1]][:4]))
        return None

    def world(self, l):
        """the files change, each translation sees them as they are"""
        top = os.path.join(impl.scratch(), 'world')

        def clean():
            shutil.rmtree(top, ignore_errors=True)
            os.makedirs(top)
            os.chdir(top)

        def change(w):
            name, text = WORLD[w]
            if text is None:
                if os.path.exists(name):
                    os.unlink(name)
            else:
                with open(name, 'w') as f:
                    f.write(text)

        def one():
            o = io.StringIO()
            return outcome(lambda: (ctypeslib.translate_files(['w.c'], o, impl.make_cfg()), o.getvalue())[1])

        def history():
            clean()
            out = []
            for w in l:
                change(w)
                out.append(one())
            return out

        def alone(ws):
            def go():
                clean()
                for w in ws:
                    change(w)
                return one()
            return go
        got = in_child(history)
        if got and got[0] == 'child':
            return ('history died', got[1])
        for i, g in enumerate(got):
            # only the last change of each file counts
            last = {}
            for w in l[:i + 1]:
                last[WORLD[w][0]] = w
            ws = tuple(sorted(last.values()))
            want = self.golden(('world',) + ws, alone(ws))
            if g != want:
                return ('a translation does not see the files as they are', 'changes %s, translation %d\nalone: %s\nhere: %s' % (l, i, want[1][-400:], g[1][-400:]))
        return None

    def cfg(self, c, srcs):
        def one(s):
            def go():
                o = io.StringIO()
                return outcome(lambda: (ctypeslib.translate_files([path(s)], o, cfg_of(c)), o.getvalue())[1])
            return go

        def go():
            cfg = cfg_of(c)
            before = snapshot(cfg), snapshot(config.CodegenConfig)
            res = []
            for s in srcs:
                o = io.StringIO()
                res.append(outcome(lambda: (ctypeslib.translate_files([path(s)], o, cfg), o.getvalue())[1]))
                if (snapshot(cfg), snapshot(config.CodegenConfig)) != before:
                    return ('bad', 'configuration changed', '%s\n%s' % (before[0], snapshot(cfg)))
            return ('ok', res)
        r = in_child(go)
        if r[0] != 'ok':
            return (r[1], str(r[-1]))
        for s, g in zip(srcs, r[1]):
            if g != self.golden(('cfg', c, s), one(s)):
                return ('a configuration used again gives another result', '%s %s' % (c, srcs))
        return None


CHECK = C12

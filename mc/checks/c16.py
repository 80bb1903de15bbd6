"""C16: the command line, over all subsets and orders of options up to a
bound, every kind of input and of output.

Oracle: the library API with the equivalent configuration, and the listing of
the working and temporary directories before and after.
"""
import contextlib
import io
import itertools
import os
import re
import subprocess
import sys
import tempfile

import ctypeslib
from ctypeslib import clang2py
from ctypeslib.codegen import typedesc
from ctypeslib.library import Library

from .. import engine, impl
from . import c12

SRC = {
    'a.c': '''#include "inc/dep.h"
/** record A */
struct A { struct D d; int x; /**< the x */ char *p; };
union U { struct A a; long l; };
enum E { E1, E2 = 40 };
typedef union U U_t;
struct Node { struct Node *next; long double ld; };
#define VALUE 12
#define TEXT "some text"
#ifdef EXTRA
int extra(int a, struct A *b);
#endif
#ifdef MORE
struct More { char m[MORE]; long l; };
#endif
/** doc of fun */
int fun(struct A *a, U_t u);
int other(void);
int lib_fun(int);
extern int lib_var;
int var = VALUE;
''',
    'b.c': 'struct A2 { long m; }; int fun2(struct A2 *); enum F { F1 = 7 };\n#define OTHER 5\nint var2 = 3;\n#ifdef EXTRA\nint extra2(void);\n#endif\n',
    'inc/pre.h': 'struct Pre { int pre; };\n#define MORE 3\n',
    'inc/dep.h': '/** dep */ struct D { int in_d; };\nint dep_fun(struct D *);\n#define DEP 1\n',
}
LIB = 'int lib_fun(int a) { return a; } int lib_var = 3; int fun(void *a, long b) { return 0; }'
LIB2 = 'int other(void) { return 0; } int lib_fun(int a) { return a + 1; }'

_KIND = {'s': typedesc.Structure, 'd': typedesc.Variable, 'e': typedesc.Enumeration, 'f': typedesc.Function, 'm': typedesc.Macro, 't': typedesc.Typedef, 'u': typedesc.Union, 'a': typedesc.Alias, 'c': typedesc.Structure}


def _set(**kw):
    def go(cfg):
        for k, v in kw.items():
            setattr(cfg, k, v)
    return go


def _add(attr, *values):
    def go(cfg):
        setattr(cfg, attr, list(getattr(cfg, attr)) + [v() if callable(v) else v for v in values])
    return go


def _kinds(ks):
    return lambda cfg: setattr(cfg, 'types', [_KIND[k] for k in ks])


# name -> [spellings], effect on the configuration, how often it may be given
OPTIONS = {
    'c': ([['-c'], ['--comments']], _set(generate_comments=True)),
    'd': ([['-d'], ['--doc']], _set(generate_docstrings=True)),
    'e': ([['-e'], ['--show-definition-location']], _set(generate_locations=True)),
    'k': ([['-k', 'cdefstum'], ['-kcdefstum'], ['--kind=cdefstum']], _kinds('cdefstum')),
    'k2': ([['-k', 'fe']], _kinds('fe')),
    'i': ([['-i'], ['--includes']], _set(filter_location=False)),
    'l': ([['-l', './libone.so'], ['--include-library', './libone.so']], _add('searched_dlls', lambda: Library('./libone.so', nm='nm'))),
    'l2': ([['-l./libtwo.so']], _add('searched_dlls', lambda: Library('./libtwo.so', nm='nm'))),
    'nm': ([['--nm', '/usr/bin/nm']], lambda cfg: None),
    'p': ([['-p', './libone.so'], ['--preload', './libone.so']], _add('preloaded_dlls', './libone.so')),
    'q': ([['-q'], ['--quiet']], lambda cfg: None),
    'debug': ([['--debug']], lambda cfg: None),
    'v': ([['-v'], ['--verbose']], _set(verbose=True)),
    'r': ([['-r', '.*A.*'], ['--regex=.*A.*']], lambda cfg: _add('expressions', re.compile('.*A.*'))(cfg)),
    'r2': ([['-r', 'fun|VALUE']], lambda cfg: _add('expressions', re.compile('fun|VALUE'))(cfg)),
    's': ([['-s', 'fun'], ['--symbol', 'fun']], _add('symbols', 'fun')),
    's2': ([['-s', 'struct_A'], ['-sstruct_A']], _add('symbols', 'struct_A')),
    't': ([['-t', 'i386-linux-gnu'], ['--target=i386-linux-gnu']], lambda cfg: setattr(cfg, 'clang_opts', ['-target', 'i386-linux-gnu'] + list(cfg.clang_opts))),
    'x': ([['-x'], ['--exclude-includes']], lambda cfg: None),
    'a': ([['--clang-args=-DEXTRA=1'], ['--clang-args', '-DEXTRA=1 -Wall'], ['--clang-args', ' -DEXTRA=1\n   -Wall ']], _add('clang_opts', '-DEXTRA=1')),
    'depth': ([['--max-depth', '3']], lambda cfg: None),
    'validate': ([['--validate', '1']], lambda cfg: None),
    'ids': ([['--show-ids', '1']], lambda cfg: None),
    'm': ([['-m', 'ctypes.util']], lambda cfg: None),
}
# arguments of clang, and what is between them
WORDS = ['-DEXTRA=1', '-DMORE=7', '-UMORE', '-DMORE=(2+1)', '-std=c99', '-Iinc', '-include inc/pre.h', '-target i386-linux-gnu', '-m32', '-Wall', '-DTWO="a"']
SEPARATORS = [' ', '  ', '\t', '\n', ' \t\n']
CLASH = [('k', 'k2')]
INPUTS = {'one': ['a.c'], 'two': ['a.c', 'b.c'], 'owt': ['b.c', 'a.c'], 'stdin': ['-'], 'both': ['b.c', '-'], 'dot': ['./a.c'], 'header': ['inc/dep.h']}
OUTPUTS = ['stdout', 'new', 'long', 'dir', 'dash']
BAD = [['-k', 'z', 'a.c'], ['missing.c'], ['a.c', 'missing.c'], [], ['--nope', 'a.c'], ['a.c', '-o'], ['--max-depth', 'x', 'a.c'],
       ['-l', './nolib.so', 'a.c'], ['-r', '(', 'a.c'], ['-m', 'no_such_module', 'a.c'], ['-l', './a.c', 'a.c'], ['--nm', './no-nm', '-l', './libone.so', 'a.c'],
       ['inc'], ['-t'], ['-o', 'no/such/dir/o.py', 'a.c'], ['-o', 'inc', 'a.c'], ['-p', './nolib.so', 'a.c']]
INFO = [['-h'], ['--help'], ['-V'], ['--version']]


class C16(engine.Check):
    id = 'C16'
    technique = 'explicit-state exploration of command lines (subsets, orders and spellings of options x inputs x outputs) executed on the real command, against the library API and directory states'
    level_note = 'exhaustive up to the stated number of options'
    rule = ('all ordered subsets of up to 2 of 24 options (thorough: 3) x inputs and outputs; every spelling; rejected command lines; '
            'each run compared with the API and with the directory listings before and after')
    assumptions = ['options are given before or after the file names', 'the output of --comments is compared without its two header lines, which must be comments']
    chunk_timeout = 300
    batch = 20

    def cases(self):
        n = 0
        io_all = list(itertools.product(INPUTS, OUTPUTS))
        for i, o in io_all:
            yield engine.Case('io/%s/%s' % (i, o), ('run', (), (), i, o))
        for name, (sp, _) in OPTIONS.items():
            for j in range(len(sp)):
                for i, o in io_all:
                    yield engine.Case('one/%s.%d/%s/%s' % (name, j, i, o), ('run', (name,), (j,), i, o))
        for name, (sp, _) in OPTIONS.items():
            for j in range(len(sp)):
                yield engine.Case('header/%s.%d' % (name, j), ('run', ('c', name), (0, j), 'one', 'new'))
        for r in (2,) if not self.thorough else (2, 3):
            for names in itertools.permutations(OPTIONS, r):
                if any(a in names and b in names for a, b in CLASH):
                    continue
                n += 1
                ios = [io_all[n % len(io_all)], ('one', 'new')] if r == 3 or not self.thorough else io_all
                for i, o in dict.fromkeys(ios):
                    yield engine.Case('opt/%s/%s/%s' % ('.'.join(names), i, o), ('run', names, tuple(n % len(OPTIONS[x][0]) for x in names), i, o))
        # the arguments of clang
        seen = set()
        for r in (1, 2, 3) if self.thorough else (1, 2):
            for words in itertools.permutations(WORDS, r):
                if '-m32' in words and '-target i386-linux-gnu' in words:
                    continue
                for sep in SEPARATORS if r < 3 else SEPARATORS[:3]:
                    for pre, post in (('', ''), (sep, ''), ('', sep)) if r == 1 else ((('', ''),) if r == 3 else (('', ''), (sep, sep))):
                        if sep == ' ' or self.thorough or words[0][1] in 'DUi' and words[-1][1] in 'Dmti':
                            text = pre + sep.join(w.replace(' ', sep) for w in words) + post
                            if text not in seen:
                                seen.add(text)
                                yield engine.Case('args/' + repr(text), ('run', (), (), 'one', 'stdout', ' '.join(words).split(), text))
        # options after the names of the files
        for name, (sp, _) in OPTIONS.items():
            for j in range(len(sp)):
                for i, o in itertools.product(('one', 'owt', 'stdin'), ('stdout', 'new')):
                    yield engine.Case('after/%s.%d/%s/%s' % (name, j, i, o), ('run', (name,), (j,), i, o, (), None, True))
        for j, argv in enumerate(BAD):
            yield engine.Case('bad/%d' % j, ('bad', argv))
            yield engine.Case('badproc/%d' % j, ('process', argv, False))
        for j, argv in enumerate(INFO):
            yield engine.Case('info/%d' % j, ('info', argv))
        yield engine.Case('process/latin', ('latin',))
        for i in INPUTS:
            for j in ('stdout', 'new'):
                yield engine.Case('process/%s/%s' % (i, j), ('process', (['-o', 'o.py'] if j == 'new' else []) + INPUTS[i], True))

    def setup_worker(self):
        c12.quiet_stderr()
        top = os.path.join(impl.scratch(), 'c16')
        os.makedirs(top + '/inc')
        os.makedirs(top + '/outd')
        os.makedirs(top + '/../tmp16')
        os.chdir(top)
        tempfile.tempdir = os.environ['TMPDIR'] = os.path.abspath('../tmp16')
        for f, t in SRC.items():
            with open(f, 'w') as fo:
                fo.write(t)
        for n, t in (('one', LIB), ('two', LIB2)):
            subprocess.run(['gcc', '-shared', '-fPIC', '-x', 'c', '-', '-o', 'lib%s.so' % n], input=t.encode(), check=True)

    @staticmethod
    def listing():
        out = {}
        for top in ('.', '../tmp16'):
            for d, _, fs in os.walk(top):
                for f in fs:
                    p = os.path.join(d, f)
                    with open(p, 'rb') as fo:
                        out[p] = fo.read()
        return out

    def run_one(self, case):
        return getattr(self, case.payload[0])(*case.payload[1:])

    def main(self, argv, stdin=None):
        out = io.StringIO()
        old = sys.stdin
        if stdin is not None:
            sys.stdin = io.StringIO(stdin)
            sys.stdin.name = '<stdin>'
        try:
            with contextlib.redirect_stdout(out):
                rc = clang2py.main(list(argv))
        except SystemExit as x:
            rc = x.code or 0
        except Exception as x:
            rc = 'exception %s: %s' % (type(x).__name__, x)
        finally:
            sys.stdin = old
        return rc, out.getvalue()

    def run(self, names, which, inp, outp, words=(), args=None, after=False):
        argv = [x for n, j in zip(names, which) for x in OPTIONS[n][0][j]]
        if args is not None:
            argv += ['--clang-args=' + args]
        where = {'stdout': None, 'new': 'o.py', 'long': 'long.py', 'dir': 'outd/o.py', 'dash': '-'}[outp]
        if where:
            # the output option takes every place
            argv[len(argv) // 2 * 0:0] = ['-o', where] if len(names) % 2 else ['--output', where]
        stdin = '#include "%s/inc/dep.h"\n' % os.getcwd() + SRC['a.c'].split('\n', 1)[1]
        argv = INPUTS[inp] + argv if after else argv + INPUTS[inp]
        if outp == 'long':
            with open('long.py', 'w') as f:
                f.write('x = (\n' * 20000)
        before = self.listing()
        rc, text = self.main(argv, stdin if '-' in INPUTS[inp] else None)
        after = self.listing()
        what = 'clang2py %s' % argv
        if rc:
            self.clean(before, after)
            return ('the command fails', '%s: %s' % (what, rc))
        if where and where != '-':
            written = after.pop('./' + where, b'').decode()
            before.pop('./' + where, None)
            os.unlink(where)
            if text:
                return ('writes to the standard output with -o', '%s: %s' % (what, text[:200]))
            text = written
        if after != before:
            left = [k for k in set(after) | set(before) if after.get(k) != before.get(k)]
            self.clean(before, after)
            return ('leaves or changes files', '%s: %s' % (what, sorted(os.path.basename(x)[:5] for x in left)))
        # the API
        cfg = impl.make_cfg()
        for n in names:
            OPTIONS[n][1](cfg)
        cfg.clang_opts = list(cfg.clang_opts) + list(words)
        files = INPUTS[inp]
        tmp = None
        if '-' in files:
            tmp = 'std_in.c'
            with open(tmp, 'w') as f:
                f.write(stdin)
            files = [tmp if f == '-' else f for f in files]
        out = io.StringIO()
        try:
            ctypeslib.translate_files(list(files), out, cfg)
        finally:
            if tmp:
                os.unlink(tmp)
        want = out.getvalue()
        if 'c' in names:
            head, sep, text = text.partition('# -*- coding')
            text = sep + text
            for line in head.splitlines():
                if line and not line.startswith('#'):
                    return ('the header is not a comment', '%s: %r' % (what, head))
        if tmp:
            # the name of the temporary file appears in comments
            text = re.sub(r'\S*/stdin\w*\.c', tmp, text)
        text, want = (re.sub('# TARGET arch is.*', '', t) for t in (text, want))
        if text != want:
            a, b = want.splitlines(), text.splitlines()
            return ('the command writes something else than the API', '%s: %s (%d, %d lines)' % (what, [x for x in zip(a, b) if x[0] != x[1]][:3], len(a), len(b)))
        return None

    @staticmethod
    def clean(before, after):
        for k in after:
            if k not in before:
                os.unlink(k)

    def bad(self, argv):
        before = self.listing()
        rc, text = self.main(argv)
        after = self.listing()
        self.clean(before, after)
        if rc == 0:
            return ('a wrong command line succeeds', '%s: %s' % (argv, text[-200:]))
        if text:
            return ('a wrong command line writes output', '%s: %s' % (argv, text[-200:]))
        if any(after.get(k) != before[k] for k in before) or any(after[k] for k in after if k not in before):
            return ('a wrong command line changes files', '%s: %s' % (argv, sorted(after)))
        return None

    def info(self, argv):
        before = self.listing()
        rc, text = self.main(argv)
        after = self.listing()
        self.clean(before, after)
        if rc or not text:
            return ('an information option fails', '%s %s' % (argv, rc))
        if before != after:
            return ('an information option leaves files', str(argv))
        return None

    def latin(self):
        """a source that is not valid in the encoding of the locale, from a file and from the standard input"""
        src = '/* caf\u00e9 */ struct L { int a; }; int l(struct L *);\n'.encode('latin-1')
        with open('latin.c', 'wb') as f:
            f.write(src)
        outs = []
        for argv in (['latin.c'], ['-']):
            before = self.listing()
            r = subprocess.run([sys.executable, '-m', 'ctypeslib.clang2py'] + argv, capture_output=True, input=src,
                               env=dict(os.environ, PYTHONPATH=impl.REPO, PYTHONDONTWRITEBYTECODE='1', PYTHONWARNINGS='ignore', LC_ALL='C.UTF-8'))
            after = self.listing()
            self.clean(before, after)
            if r.returncode:
                return ('the command fails', '%s: %s' % (argv, r.stderr[-400:]))
            if after != before:
                return ('leaves or changes files', str(argv))
            outs.append(r.stdout)
        os.unlink('latin.c')
        if outs[0] != outs[1] or b'struct_L' not in outs[0]:
            return ('the command writes something else from the standard input', '')
        return None

    def process(self, argv, good):
        before = self.listing()
        src = SRC['a.c'].split('\n', 1)[1].replace('struct D d;', '')
        r = subprocess.run([sys.executable, '-m', 'ctypeslib.clang2py'] + argv, capture_output=True, input=src.encode(),
                           env=dict(os.environ, PYTHONPATH=impl.REPO, PYTHONDONTWRITEBYTECODE='1', PYTHONWARNINGS='ignore'))
        after = self.listing()
        written = after.pop('./o.py', None)
        self.clean(before, after)
        if os.path.exists('o.py'):
            os.unlink('o.py')
        if not good:
            if r.returncode == 0:
                return ('a wrong command line succeeds', '%s: %s' % (argv, r.stdout[-200:]))
            if r.stdout:
                return ('a wrong command line writes output', '%s: %s' % (argv, r.stdout[-200:]))
            return None
        if r.returncode:
            return ('the command fails', '%s: %s' % (argv, r.stderr[-400:]))
        if after != before:
            return ('leaves or changes files', '%s: %s' % (argv, len(set(after) ^ set(before))))
        text = (written if written is not None else r.stdout).decode()
        if written is not None and r.stdout:
            return ('writes to the standard output with -o', str(argv))
        files = []
        for f in argv:
            if f == '-':
                with open('std_in.c', 'w') as fo:
                    fo.write(src)
                files.append('std_in.c')
            elif f not in ('-o', 'o.py'):
                files.append(f)
        out = io.StringIO()
        ctypeslib.translate_files(files, out, impl.make_cfg())
        if 'std_in.c' in files:
            os.unlink('std_in.c')
        if text != out.getvalue():
            return ('the command writes something else than the API', str(argv))
        return None


CHECK = C16

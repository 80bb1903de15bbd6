"""C23: one request through every entry point.

State: (source, compiler options, selection). Transition: a translation
through one of the entry points: a string, an open stream, a file name, a
path, a list of names, the steps of CodeTranslator, the command with a file,
with its standard input, as a function or as a process; with the result as
names or as text. All the modules have to be equal, and to be what the
compiler says about the source with these options.
"""
import contextlib
import ctypes
import io
import itertools
import os
import pathlib
import subprocess
import sys

import ctypeslib
from ctypeslib import clang2py
from ctypeslib.codegen.codegenerator import CodeTranslator

from .. import canon, engine, impl, oracle

COMMON = '''#ifndef X
#define X 3
#endif
#ifdef __OPTIMIZE__
#define OPT 1
#else
#define OPT 0
#endif
#ifdef __STRICT_ANSI__
#define ANSI 1
#else
#define ANSI 0
#endif
#ifndef __STDC_VERSION__
#define VERSION 0
#else
#define VERSION __STDC_VERSION__
#endif
'''
SOURCES = {
    'records': COMMON + '''struct S { char c; long l; void *p; double d; long double ld; }; union U { int a[X]; char b; }; struct B { unsigned a : 3, b : 9; char c; };
enum Small { SM_A = 1, SM_B = 200 }; struct T { enum Small e; char z; }; typedef __typeof__(L'a') wide; struct W { char a; wide w; };
struct C { char c; short s; int i; struct S *s2; }; struct __attribute__((packed)) P { char c; int i; };
enum { K_X = X, K_OPT = OPT, K_ANSI = ANSI, K_VERSION = VERSION, K_LONG = sizeof(long), K_CHAR = (char)-1 < 0 };
''',
    'rest': COMMON + '''typedef struct S { int x[X]; } S_t; int f(int a, char *b, S_t c); void g(S_t *s, ...); typedef int (*cb)(char); extern int v1; int v2 = 12; const char *text = "a b";
static const double d = 2.5; int arr[] = {1, 2, X}; typedef unsigned long ul; enum E { E1 = X, E2 }; enum E func(enum E e); char ch = 'q'; unsigned char uc = 200;
''',
    'macros': COMMON + '''#define M_INT 12
#define M_STR "text"
#define M_EXPR (1 + 2)
#define M_FUN(a) ((a) + 1)
#define M_FLAG
#define M_HEX 0x10
struct S { char a[X]; }; enum { K = M_INT };
''',
    'includes': '''#include "inc.h"
#include "sub/other.h"
struct S { struct Inc i; other_t o; }; int f(struct Inc *);
''',
    'comments': COMMON + '''/** a record
 * of two lines */
struct S { int a; /**< member */ char b; };
/// a function
int f(int a);
//! a value
int v = 5;
/** values */
enum E { E1, /**< one */ E2 };
''',
    'utf8': 'struct S { int a; }; const char *s = "\u00e9\u4e2d"; /* \u00fc */ int v = 5;\n',
    'odd': ('/** the first\u2028 of\u2029 them\x85 int x = 1;\x0cnext\x1c part\x0b */ struct S { int a; /**< of\u2028 S */ };\n/// b\x0cc\n#define X 3\n#define F(a) "x\u2028y" a\n#define TXT "p\u2029q"\n'
            '/** \\ % {} " \' \"\"\" */ int v = 5;\n/** f\u2028 */ int f(int a);\nconst char *s = "r\u2028t";\n/** e\x85 */ enum E { E1, /** c\u2028d */ E2 };\n'),
    'nothing': '\n',
    'cpp': 'struct S { int a; bool b; int m() { return a; } static int s; }; enum E { A, B = X }; typedef S T; T *f(S &r);\n',
}
HEADERS = {'inc.h': 'struct Inc { char c; int i; };\n#define FROM_INC 4\nenum IncE { INC_A = 7 };\n', 'sub/other.h': '#ifdef WIDE\ntypedef long other_t;\n#else\ntypedef short other_t;\n#endif\n', 'pre.h': '#define X 6\n'}
# options of the compiler
FLAGS = {
    'none': [], 'DX': ['-DX=5'], 'D2': ['-DX=1', '-UX', '-DX=4'], 'pre': ['-include', 'pre.h'], 'i386': ['-target', 'i386-linux-gnu'], 'win64': ['-target', 'x86_64-pc-windows-msvc'], 'avr': ['-target', 'avr'],
    'aarch64': ['-target', 'aarch64-linux-gnu'], 'same': ['-target', 'x86_64-linux-gnu'], 'm32': ['-m32'], 'enums': ['-fshort-enums'], 'wchar': ['-fshort-wchar'], 'uchar': ['-funsigned-char'], 'pack': ['-fpack-struct=2'],
    'c89': ['-std=c89'], 'c99': ['-std=c99'], 'gnu17': ['-std=gnu17'], 'O2': ['-O2'], 'Wall': ['-Wall', '-Wextra'], 'w': ['-w'], 'wide': ['-DWIDE'], 'free': ['-ffreestanding'],
}
# selections: name -> (attributes, arguments)
SELECT = {
    'all': ({}, []), 'macros': ({'kinds': 'cdefmstu'}, ['-k', 'cdefmstu']), 'es': ({'kinds': 'es'}, ['-k', 'es']), 'symbol': ({'symbols': ['struct_S', 'v']}, ['-s', 'struct_S', '-s', 'v']),
    'regex': ({'regex': ['^.*S']}, ['-r', '^.*S']), 'comments': ({'generate_comments': True}, ['-c']), 'doc': ({'generate_docstrings': True}, ['-d']), 'locations': ({'generate_locations': True}, ['-e']),
    'includes': ({'filter_location': False}, ['-i']),
}
NAMES = {'records': ['struct S', 'union U', 'struct B', 'struct T', 'struct W', 'struct C', 'struct P'], 'rest': ['struct S'], 'macros': ['struct S'], 'comments': ['struct S'], 'odd': ['struct S']}
CONSTANTS = {'records': ['K_X', 'K_OPT', 'K_ANSI', 'K_VERSION', 'K_LONG', 'K_CHAR', 'SM_B'], 'rest': ['E1', 'E2'], 'macros': ['K'], 'comments': ['E2'], 'odd': ['E2']}


class C23(engine.Check):
    id = 'C23'
    technique = 'explicit-state enumeration of sources, compiler options and selections, each through every entry point of the real code, compared with each other and with the compiler'
    level_note = 'exhaustive over the stated configurations'
    rule = ('quick: 8 sources times 22 sets of compiler options times 3 selections, three of these sets times 9 selections, one source times all unordered pairs of sets; '
            'thorough: all sources times sets times selections, all ordered pairs of sets times 3 selections, triples of 9 sets; each through up to 18 entry points in the process; '
            'every set of options and every selection through 3 processes')
    assumptions = ['a string has no file of its own: what it includes is taken as part of it', 'the first file name of a generated comment is not compared']
    chunk_timeout = 300

    def setup_worker(self):
        d = os.path.join(impl.scratch(), 'tree')
        os.makedirs(os.path.join(d, 'sub'))
        os.chdir(d)
        for n, t in HEADERS.items():
            with open(n, 'w') as f:
                f.write(t)

    def cases(self):
        for s in SOURCES:
            for f in FLAGS:
                for sel in SELECT:
                    if self.thorough or sel in ('all', 'macros', 'includes') or f in ('none', 'DX', 'i386'):
                        yield engine.Case('%s/%s/%s' % (s, f, sel), ('same', s, (f,), sel))
        for s in SOURCES if self.thorough else ['records']:
            for f in itertools.permutations(FLAGS, 2) if self.thorough else itertools.combinations(FLAGS, 2):
                for sel in ['all', 'macros', 'includes'] if self.thorough else ['all']:
                    yield engine.Case('%s/%s/%s' % (s, '+'.join(f), sel), ('same', s, f, sel))
        for f in FLAGS:
            yield engine.Case('process/rest/%s' % f, ('process', 'rest', (f,), 'all'))
        for s in SOURCES:
            for sel in SELECT:
                yield engine.Case('process/%s/%s' % (s, sel), ('process', s, ('none',), sel))
        if self.thorough:
            few = ['DX', 'pre', 'i386', 'win64', 'enums', 'pack', 'uchar', 'c99', 'm32']
            for s in SOURCES:
                for f in itertools.permutations(few, 3):
                    yield engine.Case('%s/%s/all' % (s, '+'.join(f)), ('same', s, f, 'all'))

    def stats(self, case):
        return (1, 14, 30)

    # ------------------------------------------------------------------
    def config(self, opts, sel):
        attrs = dict(SELECT[sel][0])
        kinds = attrs.pop('kinds', None)
        regex = attrs.pop('regex', None)
        cfg = impl.make_cfg(opts, kinds, **{k: list(v) if isinstance(v, list) else v for k, v in attrs.items()})
        if regex:
            import re
            cfg.expressions = [re.compile(r) for r in regex]
        return cfg

    def run_one(self, case):
        kind, s, flags, sel = case.payload
        text = SOURCES[s]
        opts = [o for f in flags for o in FLAGS[f]]
        if s == 'cpp':
            opts = ['-x', 'c++'] + [o for o in opts if not o.startswith('-std=')] + ([] if '-DX=5' in opts or '-DX=1' in opts or 'pre.h' in opts else ['-DX=2'])
        elif s == 'includes':
            opts = opts + ['-I', '.']
        with open('src.c', 'w', encoding='utf-8') as f:
            f.write(text)
        try:
            return getattr(self, kind)(s, text, opts, sel, flags)
        except Exception as e:
            return ('use:' + impl.exc_sig(e), case.key + '\n' + impl.tb(e))

    @staticmethod
    def command(argv, stdin=None):
        out, old = io.StringIO(), sys.stdin
        if stdin is not None:
            sys.stdin = io.TextIOWrapper(io.BytesIO(stdin.encode()), encoding='utf-8')
        try:
            with contextlib.redirect_stdout(out):
                try:
                    rc = clang2py.main(list(argv))
                except SystemExit as e:
                    rc = 'exit %s' % e.code
        finally:
            sys.stdin = old
        if rc:
            raise RuntimeError('the command gives %s' % rc)
        return out.getvalue()

    @staticmethod
    def written(f):
        out = io.StringIO()
        f(out)
        return out.getvalue()

    def stream(self, f, cfg, mode):
        with open('src.c', mode, **({} if 'b' in mode else {'encoding': 'utf-8'})) as s:
            return self.written(lambda o: f(s, o, cfg))

    @staticmethod
    def steps(how, cfg, text):
        t = CodeTranslator(cfg)
        t.preload_dlls()
        t.make_clang_parser()
        if how == 'files':
            t.parse_input_files(['src.c'])
        elif how == 'file':
            t.parse_input_file('src.c')
        else:
            t.parse_input_string(text)
        out = io.StringIO()
        t.make_code_generator(out)
        t.generate_code(out)
        return out.getvalue()

    def entries(self, text, opts, sel):
        """(name, does it filter the included files, text or names)"""
        cfg = lambda: self.config(opts, sel)
        tr, tf = ctypeslib.translate, ctypeslib.translate_files
        args = list(SELECT[sel][1])
        ca = ['--clang-args=' + ' '.join(opts)] if opts else []
        yield 'files, text', True, self.written(lambda o: tf(['src.c'], o, cfg()))
        yield 'file, text', True, self.written(lambda o: tf('src.c', o, cfg()))
        yield 'path, text', True, self.written(lambda o: tf(pathlib.Path('src.c'), o, cfg()))
        yield 'absolute, text', True, self.written(lambda o: tf([os.path.abspath('src.c')], outfile=o, cfg=cfg()))
        yield 'files, names', True, tf(['src.c'], None, cfg())
        yield 'file, names', True, tf('src.c', cfg=cfg())
        yield 'string, text', False, self.written(lambda o: tr(text, o, cfg()))
        yield 'string, names', False, tr(text, cfg=cfg())
        yield 'stream, text', False, self.stream(tr, cfg(), 'r')
        yield 'binary stream, text', False, self.stream(tr, cfg(), 'rb')
        yield 'StringIO, names', False, tr(io.StringIO(text), None, cfg())
        yield 'steps, files', True, self.steps('files', cfg(), text)
        yield 'steps, file', False, self.steps('file', cfg(), text)
        yield 'steps, string', False, self.steps('string', cfg(), text)
        yield 'command', True, self.command(args + ca + ['src.c'])
        if len(opts) >= 2 and opts[0] == '-target' and opts.count('-target') == 1:
            yield 'command with -t', True, self.command(args + ['-t', opts[1]] + (['--clang-args=' + ' '.join(opts[2:])] if opts[2:] else []) + ['src.c'])
        self.command(args + ca + ['-o', 'out.py', 'src.c'])
        with open('out.py', encoding='utf-8') as f:
            yield 'command with -o', True, f.read()
        if '#include' not in text and '-target' not in opts:
            yield 'command with stdin', True, self.command(args + ca + ['-'], text)

    @staticmethod
    def describe(x, names=None):
        """what a module has, whether as text or as names"""
        ns = impl.load(x) if isinstance(x, str) else dict(x)
        return canon.module(ns), ns

    @staticmethod
    def files_only(desc):
        return desc

    def same(self, s, text, opts, sel, flags):
        refs = {}
        for what, filters, x in self.entries(text, opts, sel):
            filters = filters and sel != 'includes'
            desc, ns = self.describe(x)
            if sel == 'macros':
                # those of the compiler itself, which no file has
                desc = {k: v for k, v in desc.items() if not k.startswith('_') and k not in ('linux', 'unix', 'i386', 'OPT', 'ANSI', 'VERSION', 'X')}
            if s != 'includes':
                filters = True
            if filters not in refs:
                refs[filters] = (what, desc)
                r = self.facts(s, text, opts, sel, ns)
                if r:
                    return (r[0], '%s %s: %s: %s' % (s, opts, what, r[1]))
                if filters and s == 'includes' and 'struct_S' in ns and 'IncE' in ns:
                    return ('an included declaration is there', what)
                continue
            d = canon.diff(desc, refs[filters][1])
            if d:
                return ('an entry point gives another module', '%s %s %s: %s / %s: %s' % (s, opts, sel, what, refs[filters][0], d))
        return None

    def facts(self, s, text, opts, sel, ns):
        """what the compiler says"""
        if s not in NAMES or sel in ('es', 'symbol', 'regex'):
            return None
        names, consts = NAMES[s], CONSTANTS[s]
        vals = oracle.clang_consts(text, ['sizeof(%s)' % n for n in names] + consts, opts)
        for n, v in zip(names, vals):
            got = ctypes.sizeof(ns[n.replace(' ', '_')])
            if got != v:
                return ('the compiler has another size', '%s: %d / %d' % (n, got, v))
        for n, v in zip(consts, vals[len(names):]):
            if ns[n] != v:
                return ('the compiler has another value', '%s: %s / %s' % (n, ns[n], v))
        return None

    def process(self, s, text, opts, sel, flags):
        env = dict(os.environ, PYTHONPATH=impl.REPO, PYTHONDONTWRITEBYTECODE='1', PYTHONWARNINGS='ignore')
        args = list(SELECT[sel][1]) + (['--clang-args=' + ' '.join(opts)] if opts else [])
        want = canon.module(impl.load(self.command(args + ['src.c'])))
        for what, argv, stdin in (('file', args + ['src.c'], None), ('file with -o', args + ['-o', 'p.py', 'src.c'], None), ('stdin', args + ['-'], text.encode())):
            if stdin is not None and '#include' in text:
                continue
            r = subprocess.run([sys.executable, '-m', 'ctypeslib.clang2py'] + argv, capture_output=True, input=stdin, env=env)
            if r.returncode:
                return ('the command fails', '%s: %s' % (argv, r.stderr[-300:]))
            out = r.stdout.decode()
            if '-o' in argv:
                with open('p.py', encoding='utf-8') as f:
                    out = f.read()
            d = canon.diff(canon.module(impl.load(out)), want)
            if d:
                return ('a process gives another module', '%s %s %s: %s' % (s, argv, what, d))
        return None


CHECK = C23

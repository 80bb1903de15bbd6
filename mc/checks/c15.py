"""C15: invalid sources are rejected, over the product of defects, places,
entry points, options and kinds.

Oracle: the exit status of the clang driver (-fsyntax-only) with the same
options on the same files: the translation succeeds exactly when it is 0.
A rejected translation raises the invalid-translation-unit error (command
line: a non-zero status) and writes no declaration; an accepted one gives the
same bindings as the source without its warning.
"""
import contextlib
import io
import itertools
import os
import shutil
import subprocess
import sys

import ctypeslib
from ctypeslib import clang2py

from .. import canon, engine, impl
from . import c12

# name -> source text; the oracle says whether it is an error
DEFECTS = {
    'syntax': 'int x1 = ;',
    'brace': 'struct Z1 { int a;',
    'semi': 'struct Z2 { int a; } int y;',
    'type': 'nope_t x2;',
    'member': 'struct Z3 { nope_t a; };',
    'incomplete': 'struct Z4; struct Z5 { struct Z4 a; };',
    'param': 'int f1(nope_t a);',
    'missing': '#include "missing.h"',
    'sysmissing': '#include <sys/missing.h>',
    'error': '#error stop',
    'pragma': '#pragma GCC error "stop"',
    'redef': 'struct Z6 { int a; }; struct Z6 { int b; };',
    'redecl': 'int f2(int); long f2(int);',
    'tag': 'struct Z7 { int a; }; union Z7 u7;',
    'redefenum': 'enum Z8 { QA }; enum Z9 { QA };',
    'member2': 'struct Z10 { int a; long a; };',
    'typedef2': 'typedef int t1; typedef long t1;',
    'negative': 'int a1[-1];',
    'nonconst': 'int n1; int a2[n1];',
    'assert': '_Static_assert(sizeof(int) == 1, "no");',
    'undeclared': 'int x3 = nope;',
    'width': 'struct Z11 { int b : 40; };',
    'zerowidth': 'struct Z12 { int b : 0; };',
    'fnarray': 'int f3(void)[3];',
    'fnfn': 'int f4(void)(void);',
    'voidvar': 'void v1;',
    'macro': '#define MK(t) t x4;\nMK(nope_t)',
    'unterminated': 'char *s1 = "abc;',
    'comment': '/* int x5;',
    'endif': '#if 1\nint x6;',
    'else': '#else',
    'badif': '#if 1 +\n#endif',
    'badmacro': '#define 1A 2',
    'paste': '#define PA(a) a##\nint x7;',
    'invalid': '\u00a7 int x8;',
    'attr': 'int x9 __attribute__((aligned(3)));',
    'c99': 'int f5(int n, int a[static 1 + nope]);',
    'goodend': 'int x10; }',
    'typeof': '__typeof__(nope) x11;',
    'flex': 'struct Z13 { int a[]; int b; };',
    # accepted by default
    'ok': 'int k0;',
    'warning': '#warning careful',
    'implicit': 'w1; /* implicit int */',
    'deprecated': 'int k1 __attribute__((deprecated)); __typeof__(k1) k2;',
    'overflow': 'unsigned char k3 = 300;',
    'redefmacro': '#define RM 1\n#define RM 2',
    'emptydecl': 'struct Y1 { int a; };;',
    'enumcomma': 'enum Y2 { EA, EB, };',
    'unused': 'static int k4;',
    'nodecl': 'struct { int a; };',
    'ptr': 'int *k5 = 1;',
    'sign': 'unsigned *k6; int *k7 = (int *) 0; ',
    'const': 'const int k8;',
    'noreturn': 'int f6();',
    'inactive': '#if 0\n#error no\nnope_t x12;\n#endif',
    'unknownattr': 'int k9 __attribute__((whatever));',
    'pragmawarn': '#pragma GCC warning "w"\n#pragma whatever',
    'excess': 'int k10[1] = { 1, 2 };',
    'trigraph': 'char *k11 = "??/";',
    'big': 'int k12 = 99999999999;',
    'ptrint': 'struct Y3 *k13; int *k14 = 0;',
}
GOOD = 'struct G1 { int a; char b; }; int g1(struct G1 *); typedef long g_t; enum GE { G_A = 3 }; int gv = 7;\n'
GOOD2 = 'struct H1 { short h; }; int h1(void); int hv = 8;\n'
GOOD3 = 'struct I1 { float i; }; typedef short i_t;\n'
PLACES = {
    # name -> {file: text}, list of files, for a defect text D
    'alone': lambda d: ({'m.c': d + '\n'}, ['m.c']),
    'last': lambda d: ({'m.c': GOOD + d + '\n'}, ['m.c']),
    'noeol': lambda d: ({'m.c': GOOD + d}, ['m.c']),
    'first': lambda d: ({'m.c': d + '\n' + GOOD}, ['m.c']),
    'middle': lambda d: ({'m.c': GOOD + d + '\n' + GOOD2}, ['m.c']),
    'include': lambda d: ({'m.c': '#include "i.h"\n' + GOOD, 'i.h': d + '\n'}, ['m.c']),
    'include-last': lambda d: ({'m.c': GOOD + '#include "i.h"\n', 'i.h': GOOD2 + d + '\n'}, ['m.c']),
    'include2': lambda d: ({'m.c': GOOD + '#include "i.h"\n', 'i.h': '#include "j.h"\n' + GOOD2, 'j.h': d + '\n'}, ['m.c']),
    'list0': lambda d: ({'m.c': d + '\n' + GOOD, 'n.c': GOOD2, 'o.c': GOOD3}, ['m.c', 'n.c', 'o.c']),
    'list1': lambda d: ({'m.c': GOOD2, 'n.c': GOOD + d + '\n', 'o.c': GOOD3}, ['m.c', 'n.c', 'o.c']),
    'list2': lambda d: ({'m.c': GOOD2, 'n.c': GOOD3, 'o.c': GOOD + d + '\n'}, ['m.c', 'n.c', 'o.c']),
    'list-include': lambda d: ({'m.c': GOOD2, 'n.c': GOOD3, 'o.c': '#include "i.h"\n' + GOOD, 'i.h': d + '\n'}, ['m.c', 'o.c', 'n.c']),
    'list-both': lambda d: ({'m.c': d + '\n', 'n.c': d.replace('1', '9') + '\n'}, ['m.c', 'n.c']),
}
SINGLE = ['alone', 'last', 'noeol', 'first', 'middle', 'include', 'include-last', 'include2']
ENTRIES = ['file', 'list', 'ns', 'string', 'stream', 'stringns', 'cli', 'cliout', 'clistdin']
OPTS = {
    '': [], 'quiet': ['-w'], 'werror': ['-Werror'], 'limit': ['-ferror-limit=1'], 'nolimit': ['-ferror-limit=0'], 'c89': ['-std=c89'],
    'pedantic': ['-pedantic-errors', '-std=c99'], 'wall': ['-Wall', '-Wextra'], 'noerr': ['-Werror', '-Wno-error'], 'cpp': ['-xc++'],
    'win': ['-target', 'x86_64-pc-windows-msvc'], 'avr': ['-target', 'avr'],
    'badopt': ['-fno-such-option'], 'badtarget': ['-target', 'nope-nope-nope'], 'badstd': ['-std=c1'],
}
KINDS = ['cdefstu', 'cdefstum', 'm', 'f']


class C15(engine.Check):
    id = 'C15'
    technique = 'explicit-state exploration of the product of source defects, places, entry points and options on the real translator, against the verdict of the clang driver'
    level_note = 'exhaustive over the stated product'
    rule = ('69 defects and warnings x 13 places x 9 entry points with the default options; x 15 option sets x 4 kind sets at selected '
            'places (thorough: at all places); oracle: exit status of clang -fsyntax-only on every file')
    assumptions = ['errors inside function bodies are out of scope: bodies are not parsed, by design']
    chunk_timeout = 300
    batch = 1

    def cases(self):
        for d in DEFECTS:
            for p in PLACES:
                yield engine.Case('%s/%s//cdefstu' % (d, p), (d, p, '', 'cdefstu', ENTRIES + (['process'] if p == 'list1' else [])))
        places = list(PLACES) if self.thorough else ['last', 'include']
        for d in DEFECTS:
            for o, k in itertools.product(OPTS, KINDS):
                if (o, k) == ('', 'cdefstu'):
                    continue
                for p in places:
                    if not self.thorough and (p == 'include') == (k == 'cdefstu'):
                        continue
                    e = ENTRIES if self.thorough else (['file', 'string'] if k != 'cdefstum' else ['list', 'stream', 'cliout'])
                    yield engine.Case('%s/%s/%s/%s' % (d, p, o, k), (d, p, o, k, e))

    def stats(self, case):
        n = len(case.payload[4])
        return (n, n, 2 * n)

    def setup_worker(self):
        c12.quiet_stderr()

    def clang(self, files, opts):
        """does the compiler accept all the files?"""
        for f in files:
            key = (open(f, 'rb').read(), tuple(opts), tuple(open(h, 'rb').read() for h in ('i.h', 'j.h') if os.path.exists(h)))
            cache = self.__dict__.setdefault('_clang', {})
            if key not in cache:
                cache[key] = subprocess.run(['clang', '-fsyntax-only', *opts, f], stdin=subprocess.DEVNULL, capture_output=True).returncode == 0
            if not cache[key]:
                return False
        return True

    def run_one(self, case):
        d, p, o, kinds, entries = case.payload
        top = os.path.join(impl.scratch(), 'c15')
        os.makedirs(top, exist_ok=True)
        for f in os.listdir(top):
            os.unlink(os.path.join(top, f))
        os.chdir(top)
        texts, files = PLACES[p](DEFECTS[d])
        for f, t in texts.items():
            with open(f, 'w', encoding='utf-8') as fo:
                fo.write(t)
        opts = OPTS[o]
        valid = self.clang(files, opts)
        ref = None
        for e in entries:
            if e in ('string', 'stream', 'stringns', 'clistdin') and p not in SINGLE:
                continue
            kind, text, written = self.enter(e, files, texts, opts, kinds)
            what = '%s, %s: the compiler %s' % (case.key, e, 'accepts' if valid else 'rejects')
            if valid:
                if kind != 'ok':
                    return ('a valid source is rejected', '%s\n%s' % (what, text))
                try:
                    ns = text if isinstance(text, dict) else impl.load(text)
                    m = canon.module(ns)
                except Exception as x:
                    return ('the module of a valid source can not be loaded', '%s\n%s' % (what, impl.tb(x)))
                # which declarations come from strings and includes: C23
                if e in ('file', 'list', 'ns', 'cli', 'cliout'):
                    if ref is None:
                        ref = m
                    elif ref != m:
                        return ('entry points differ', '%s\n%s' % (what, canon.diff(ref, m)))
                    bad = self.expected(p, kinds, m)
                    if bad and 'cpp' not in o:
                        return ('declarations beside a warning are lost', '%s: %s' % (what, bad))
            else:
                if kind == 'ok':
                    return ('an invalid source is translated', '%s\n%s' % (what, impl.strip_text(text if isinstance(text, str) else repr(text))[-400:]))
                if kind != 'invalid' and o not in ('badtarget', 'badstd'):      # there is no translation unit at all
                    return ('an invalid source raises another error', '%s\n%s' % (what, text))
                if written.strip():
                    return ('a rejected source leaves output', '%s\n%s' % (what, written[-300:]))
        return None

    @staticmethod
    def expected(p, kinds, m):
        want = []
        if p == 'alone' or p == 'list-both':
            return None
        if 's' in kinds:
            want.append('struct_G1')
        if 'd' in kinds:
            want.append('gv')
        if p.startswith('list') or p == 'middle':
            want += ['struct_H1'] * ('s' in kinds) + ['hv'] * ('d' in kinds)
        if p.startswith('list'):
            want += ['struct_I1'] * ('s' in kinds) + ['i_t'] * ('t' in kinds)
        return [w for w in want if w not in m] or None

    def enter(self, e, files, texts, opts, kinds):
        """-> (ok | invalid | other, output or error, what was written)"""
        out = io.StringIO()
        if e == 'process':
            r = subprocess.run([sys.executable, '-m', 'ctypeslib.clang2py', '-k', kinds] + files, capture_output=True, stdin=subprocess.DEVNULL,
                               env=dict(os.environ, PYTHONPATH=impl.REPO, PYTHONDONTWRITEBYTECODE='1', PYTHONUTF8='1', PYTHONWARNINGS='ignore'))
            text = r.stdout.decode()
            return ('ok' if r.returncode == 0 else 'invalid', text, text)
        if e.startswith('cli'):
            argv = ['-k', kinds]
            if opts:
                argv.append('--clang-args=' + ' '.join(opts))
            if e == 'cliout':
                argv += ['-o', 'out.py']
            stdin = sys.stdin
            if e == 'clistdin':
                sys.stdin = io.StringIO(texts[files[0]])
                sys.stdin.name = '<stdin>'
                files = ['-']
                if opts == [] or '-xc++' not in opts:
                    argv.append('--clang-args=' + ' '.join(opts + ['-I' + os.getcwd()]))
            try:
                with contextlib.redirect_stdout(out):
                    rc = clang2py.main(argv + files)
            except SystemExit as x:
                rc = x.code
            except Exception as x:
                rc = 'exception %s: %s' % (type(x).__name__, x)
            finally:
                sys.stdin = stdin
            text = out.getvalue()
            if e == 'cliout':
                if text:
                    return ('other', 'writes to the standard output with -o', text)
                if os.path.exists('out.py'):
                    with open('out.py', encoding='utf-8') as f:
                        text = f.read()
                    os.unlink('out.py')
            if rc in (0, None):
                return ('ok', text, text)
            # main raises or returns: a non-zero status of the process in both cases
            return ('invalid', rc, text)
        cfg = impl.make_cfg(opts, kinds)
        try:
            if e == 'file':
                ctypeslib.translate_files(files[0] if len(files) == 1 else files, out, cfg)
            elif e == 'list':
                ctypeslib.translate_files(list(files), out, cfg)
            elif e == 'ns':
                return ('ok', dict(ctypeslib.translate_files(list(files), cfg=cfg)), '')
            elif e == 'string':
                ctypeslib.translate(texts[files[0]], out, cfg)
            elif e == 'stream':
                ctypeslib.translate(io.StringIO(texts[files[0]]), out, cfg)
            else:
                return ('ok', dict(ctypeslib.translate(texts[files[0]], cfg=cfg)), '')
        except impl.InvalidTranslationUnitException as x:
            return ('invalid', str(x), out.getvalue())
        except Exception as x:
            return ('other', impl.tb(x), out.getvalue())
        return ('ok', out.getvalue(), '')


CHECK = C15

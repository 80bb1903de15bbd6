"""C27: the clang library that the package works with, over all combinations of
the environment variable and what the system finds, and over the version texts
of libraries. Every case imports the package anew in a process of its own.
"""
import ctypes.util
import itertools
import os
import subprocess
import sys
import warnings

from .. import engine, impl
from . import c12

NAMES = ['exact', 'major', 'libclang', 'clang', 'clang-16', 'clang-9', 'clang-6.0', 'clang-3.9']
GOOD = 'libclang-18.so.18'
OTHER = 'libclang-17.so.17'
EVERY = ['clang-%d' % n for n in range(16, 6, -1)] + ['clang-6.0', 'clang-5.0', 'clang-4.0', 'clang-3.9', 'clang-3.8', 'clang-3.7']
# what the system answers for a name: a library of the right version, of another
# one, a name that is nowhere, a text file, a library of something else
FOUND = {'good': GOOD, 'other': OTHER, 'gone': 'libclang-gone.so.1', 'text': '@/text.so', 'math': 'libm.so.6', 'cut': '@/cut.so'}
USABLE = {'good': '18', 'other': '17'}
ENV = {'unset': None, 'empty': '', 'missing': '@/nowhere', 'file': '@/libs/libclang-18.so.18', 'link': '@/link.so', 'otherfile': '@/libs/libclang-17.so.17', 'dir': '@/dir',
       'dirslash': '@/dir/', 'emptydir': '@/empty', 'badir': '@/bad', 'text': '@/text.so', 'math': '@/libs/libm.so.6', 'cut': '@/cut.so', 'space': '@/a dir'}
ENV_USABLE = {'file': '18', 'link': '18', 'dir': '18', 'dirslash': '18', 'space': '18', 'otherfile': '17'}
FIRST = ['', 'Debian ', 'Apple ', 'Ubuntu ']
NUMBERS = ['18.1.3', '18.1.8', '17.0.6', '7.0.1', '3.9.1', '3.9', '19', '10.0.0', '100.0.0', '6.0.0', '18', '1.18.0', '81.0']
LAST = ['', ' (1ubuntu1)', '-svn', 'git', ' (tags/RELEASE/final)', '-3+b1', ' (https://git/llvm 12345)', ' (clang-1500.3.9.4)', '-1~exp2']
ODD = ['', 'clang', 'no number in this version', 'clang version']


def locate(name):
    for d in ('/usr/lib/x86_64-linux-gnu', '/lib/x86_64-linux-gnu', '/usr/lib', '/lib'):
        if os.path.exists(os.path.join(d, name)):
            return os.path.join(d, name)
    return None


class C27(engine.Check):
    id = 'C27'
    technique = 'explicit-state exploration of configurations of the environment and of the libraries of the system, each with a fresh import of the real package in a forked process, against a reference order of choice'
    level_note = 'exhaustive over the stated product'
    rule = ('every value of an alphabet for CLANG_LIBRARY_PATH (files, directories, links, missing, not libraries, other versions) times every '
            'assignment of 6 kinds of findings to up to 2 (thorough: 3) of 8 library names; every version text of a grammar; then a translation, '
            'and, where nothing was found, one with the library that the caller sets')
    batch = 1
    chunk_timeout = 120

    def cases(self):
        for env in ENV:
            for r in range(0, 4 if self.thorough else 3):
                names = NAMES if self.thorough or env in ('unset', 'missing', 'text', 'file') else NAMES[:3]
                for which in itertools.combinations(names, r):
                    for kinds in itertools.product(FOUND if r < 3 else ('good', 'other', 'math'), repeat=r):
                        yield engine.Case('find/%s/%s' % (env, ','.join('='.join(x) for x in zip(which, kinds))), ('find', env, dict(zip(which, kinds))))
        for name in EVERY:
            for env in ('unset', 'text'):
                for kind in FOUND:
                    yield engine.Case('alone/%s/%s=%s' % (env, name, kind), ('find', env, {name: kind}))
        for text in [a + 'clang version ' + b + c for a in FIRST for b in NUMBERS for c in LAST] + ODD + [None]:
            yield engine.Case('version/%s' % text, ('version', text))

    def setup_worker(self):
        c12.quiet_stderr()
        self.top = top = os.path.join(impl.scratch(), 'c27')
        for d in ('libs', 'dir', 'empty', 'bad', 'a dir'):
            os.makedirs(os.path.join(top, d))
        for name in (GOOD, OTHER, 'libm.so.6'):
            if locate(name):
                os.symlink(locate(name), os.path.join(top, 'libs', name))
        os.symlink(locate(GOOD), top + '/link.so')
        os.symlink(locate(GOOD), top + '/dir/libclang.so')
        os.symlink(locate(GOOD), top + '/a dir/libclang.so')
        for f in ('text.so', 'bad/libclang.so'):
            with open(os.path.join(top, f), 'w') as out:
                out.write('not a library\n')
        with open(locate(GOOD), 'rb') as f, open(top + '/cut.so', 'wb') as out:
            out.write(f.read(32))
        self.other = locate(OTHER) is not None

    def run_one(self, case):
        if case.payload[0] == 'version':
            return self.version(case.payload[1])
        _, env, found = case.payload
        if not self.other and (env == 'otherfile' or 'other' in found.values()):
            return None
        top = self.top
        value = ENV[env]
        # the reference: what is chosen
        order = [n for n in NAMES if n in found] or list(found)
        usable = [ENV_USABLE[env]] if env in ENV_USABLE else []
        best = [USABLE[found[n]] for n in order[:] if found[n] in USABLE]
        first = [USABLE[found[n]] for n in order if n in ('exact', 'major') and found[n] in USABLE]
        if usable:
            expected = set(usable)
        elif first:
            expected = {first[0]}
        else:
            expected = set(best)
        trouble = (env not in ('unset',) and env not in ENV_USABLE)
        tidy = env in ('unset', 'file', 'link', 'dir', 'dirslash', 'space') and all(k == 'good' for k in found.values()) and expected == {'18'}

        def go():
            for m in [m for m in sys.modules if m.split('.')[0] in ('ctypeslib', 'clang')]:
                del sys.modules[m]
            import importlib.metadata
            version = importlib.metadata.version('clang')
            table = {{'exact': 'clang-' + version, 'major': 'clang-' + version.split('.')[0]}.get(n, n): FOUND[k].replace('@', top) for n, k in found.items()}
            ctypes.util.find_library = lambda name: table.get(name)
            if value is None:
                os.environ.pop('CLANG_LIBRARY_PATH', None)
            else:
                os.environ['CLANG_LIBRARY_PATH'] = value.replace('@', top)
            with warnings.catch_warnings(record=True) as caught:
                warnings.simplefilter('always')
                try:
                    import ctypeslib
                except Exception as e:
                    return ('import', type(e).__name__, str(e))
            warned = len([w for w in caught if issubclass(w.category, RuntimeWarning)])
            if not expected:
                # the caller has a library of their own
                from clang import cindex
                cindex.Config.set_library_file(os.path.join(top, 'libs', GOOD))
            try:
                got = ctypeslib.clang_version()
                ns = ctypeslib.translate('int v = 3; struct s { char c; int a[3]; }; enum e { A = -1 };')
                return ('ok', got, warned, (ns.v, ctypes.sizeof(ns.struct_s), ns.A), ctypeslib.clang_py_version() == version)
            except Exception as e:
                return ('use', type(e).__name__, str(e))
        r = c12.in_child(go)
        if r[0] != 'ok':
            return ('%s-%s' % tuple(r[:2]), repr(r))
        _, got, warned, values, same = r
        if expected and got.split('.')[0] not in expected:
            return ('choice', 'version %s was chosen, expected %s' % (got, sorted(expected)))
        if not expected and got.split('.')[0] != '18':
            return ('choice', 'the library of the caller is not used: %s' % got)
        if values != (3, 16, -1):
            return ('values', repr(values))
        if not same:
            return ('python version', repr(r))
        must = trouble or not expected or got.split('.')[0] != '18'
        if must and not warned:
            return ('no warning', repr(r))
        if tidy and warned:
            return ('needless warning', repr(r))
        return None

    def version(self, text):
        lib = os.path.join(self.top, 'fake.so')
        literal = 'const char *clang_getClangVersion(void) { return %s; }' % ('0' if text is None else '"%s"' % text)
        subprocess.run(['gcc', '-w', '-shared', '-fPIC', '-nostdlib', '-x', 'c', '-', '-o', lib], input=literal.encode(), check=True)
        expected = 'Unknown'
        for number in sorted(NUMBERS, key=len, reverse=True):
            if text and ('version ' + number) in text:
                expected = number
                break

        def go():
            for m in [m for m in sys.modules if m.split('.')[0] in ('ctypeslib', 'clang')]:
                del sys.modules[m]
            import importlib.metadata
            ctypes.util.find_library = lambda name: None
            os.environ['CLANG_LIBRARY_PATH'] = lib
            with warnings.catch_warnings(record=True) as caught:
                warnings.simplefilter('always')
                try:
                    import ctypeslib
                    return ('ok', ctypeslib.clang_version(), len([w for w in caught if issubclass(w.category, RuntimeWarning)]),
                            importlib.metadata.version('clang').split('.')[0])
                except Exception as e:
                    return ('import', type(e).__name__, str(e))
        r = c12.in_child(go)
        if r[0] != 'ok':
            return ('%s-%s' % tuple(r[:2]), repr(r))
        if r[1] != expected:
            return ('version', '%r is version %s, expected %s' % (text, r[1], expected))
        if (expected.split('.')[0] != r[3]) != bool(r[2]):
            return ('warning of the version', repr(r))
        return None


CHECK = C27

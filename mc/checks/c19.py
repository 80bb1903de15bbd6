"""C19: symbol resolution, over all combinations of symbol kinds in up to three
libraries, all ordered lists of libraries and all ways to name them.

The generated module is loaded in a process of its own, its functions are
called and its variables read: every library returns its own number. Oracle:
the loader, dlsym on each library by itself.
"""
import io
import itertools
import os
import shutil
import subprocess

import ctypeslib
from ctypeslib.library import Library

from .. import engine, impl
from . import c12

# kind -> C text, @ is the name, # the number of the library
FUN = {
    'text': 'int @(void) { return #; }',
    'weak': '__attribute__((weak)) int @(void) { return #; }',
    'ifunc': 'static int @_i(void) { return #; } static void *@_r(void) { return @_i; } int @(void) __attribute__((ifunc("@_r")));',
    'default': 'int @_d(void) { return #; } __asm__(".symver @_d,@@@V_#"); ',
    'old': 'int @_o(void) { return #; } __asm__(".symver @_o,@@V_#");',
    'protected': '__attribute__((visibility("protected"))) int @(void) { return #; }',
    'hidden': '__attribute__((visibility("hidden"))) int @(void) { return #; }',
    'static': 'static __attribute__((used)) int @(void) { return #; }',
    'undef': 'extern int @(void) __attribute__((weak)); int (*@_use)(void) = @;',
    'alias': 'int @_a(void) { return #; } int @(void) __attribute__((alias("@_a")));',
    'absent': '',
}
VAR = {
    'data': 'int @ = #;',
    'rodata': 'extern const int @; const int @ = #;',
    'bss': 'int @; __attribute__((constructor)) static void @_c(void) { @ = #; }',
    'weak': '__attribute__((weak)) int @ = #;',
    'weakbss': '__attribute__((weak)) int @; __attribute__((constructor)) static void @_c(void) { @ = #; }',
    'common': '__asm__(".comm @,4,4"); extern int @; __attribute__((constructor)) static void @_c(void) { @ = #; }',
    'unique': '__asm__(".data\\n.globl @\\n.type @, %gnu_unique_object\\n.size @, 4\\n@: .long #\\n.text");',
    'relro': 'extern int *const @_p; int @ = #; int *const @_p = &@;',
    'tls': '__thread int @ = #;',
    'hidden': '__attribute__((visibility("hidden"))) int @ = #; int *@_h(void) { return &@; }',
    'static': 'static __attribute__((used)) int @ = #;',
    'undef': 'extern int @ __attribute__((weak)); int *@_use(void) { return &@; }',
    'absent': '',
}
# a unique symbol is shared by all the libraries of a process
NOMIX = ('unique',)
LIBS = 'abc'
PATHS = ['rel', 'abs', 'sub', 'link', 'same', 'bare']
NEED = 'extern int given(void); int needs(void) { return given() + 1; }'
GIVE = 'int given(void) { return 41; } int only(void) { return 5; }'


def ctypeslib_values(path, cfg):
    """what a module has for the variables of a file"""
    out = io.StringIO()
    ctypeslib.translate_files([path], out, cfg)
    text = out.getvalue().replace("CDLL('lib", "CDLL('./lib")

    def go():
        ns = impl.load(text)
        return {n: v if isinstance(v, int) else str(v) for n, v in ns.items() if n[0] == 'v' and n[1:].isdigit()}
    got = c12.in_child(go)
    assert isinstance(got, dict) and got, got
    return got


class C19(engine.Check):
    id = 'C19'
    technique = 'explicit-state exploration of symbol kinds x ordered library lists x ways to name them, executed against real shared libraries, with the dynamic loader as oracle'
    level_note = 'exhaustive over the stated product'
    rule = ('every pair of 11 kinds of functions and of 13 kinds of variables in two libraries (thorough: every triple in three), all ordered '
            'lists of up to 3 of the libraries with repetition, 6 ways to name them; preloads; every symbol called or read and compared')
    chunk_timeout = 600
    batch = 1

    def cases(self):
        n = 3 if self.thorough else 2
        lists = [()] + [p for r in (1, 2, 3) for p in itertools.product(range(n), repeat=r)]
        for p in PATHS:
            for l in lists:
                for nm in ('nm', 'llvm') if p == 'rel' else ('nm',):
                    yield engine.Case('list/%s/%s/%s' % (p, '.'.join(map(str, l)), nm), ('list', p, l, nm))
        for pre, libs in itertools.product(itertools.chain.from_iterable(itertools.permutations(('give', 'a', 'm'), r) for r in range(4)), (('needs',), ('a', 'needs'), ('needs', 'give'), ('b',))):
            yield engine.Case('pre/%s/%s' % ('.'.join(pre), '.'.join(libs)), ('pre', pre, libs))
        for l in (['c'], ['m', 'c'], ['c', 'm'], ['libc.so.6'], ['libm.so.6', './liba.so'], ['./liba.so', 'c'], ['m', './libb.so', 'c']):
            yield engine.Case('system/%s' % '.'.join(l), ('system', l))

    def stats(self, case):
        return (1, 1, 1)

    def combos(self, kinds):
        n = 3 if self.thorough else 2
        if n == 3:
            # the third library: every kind, but the essential ones only for the others
            few = [k for k in kinds if k in ('text', 'weak', 'ifunc', 'hidden', 'undef', 'data', 'bss', 'absent', 'old', 'static')]
            return [c for c in itertools.product(few, few, kinds) if c.count('unique') <= 1]
        return [c for c in itertools.product(kinds, repeat=n) if c.count('unique') <= 1]

    def setup_worker(self):
        c12.quiet_stderr()
        self.top = os.path.join(impl.scratch(), 'c19')
        os.makedirs(self.top + '/sub')
        os.makedirs(self.top + '/dir0')
        os.makedirs(self.top + '/dir1')
        os.makedirs(self.top + '/dir2')
        os.chdir(self.top)
        self.names = {}
        for i in range(3 if self.thorough else 2):
            text = []
            versions = []
            for pre, table in (('f', FUN), ('v', VAR)):
                for j, combo in enumerate(self.combos(list(table))):
                    name = '%s%d' % (pre, j)
                    self.names[name] = combo
                    text.append(table[combo[i]].replace('.symver @_d,@@@', '.symver @_d,\1@@').replace('.symver @_o,@@', '.symver @_o,\1@').replace('@_', name + '_').replace('\1', name)
                                if combo[i] in ('default', 'old') else table[combo[i]].replace('@', name))
                    text[-1] = text[-1].replace('#', str(i + 1))
            lib = 'lib%s.so' % LIBS[i]
            with open('ver', 'w') as f:
                f.write('V_%d { };\n' % (i + 1))
            subprocess.run(['gcc', '-w', '-O0', '-shared', '-fPIC', '-fno-common', '-x', 'c', '-', '-o', lib, '-Wl,--version-script=ver'],
                           input='\n'.join(text).encode(), check=True)
            shutil.copy(lib, 'sub/' + lib)
            shutil.copy(lib, 'dir%d/libsame.so' % i)
            os.symlink(self.top + '/' + lib, 'link%d.so' % i)
        subprocess.run(['gcc', '-shared', '-fPIC', '-x', 'c', '-', '-o', 'libgive.so'], input=GIVE.encode(), check=True)
        subprocess.run(['gcc', '-shared', '-fPIC', '-x', 'c', '-', '-o', 'libneeds.so'], input=NEED.encode(), check=True)
        for i in 'ab':
            subprocess.run(['gcc', '-shared', '-fPIC', '-x', 'c', '-', '-o', 'libp%s.so' % i], input=b'int f0(void) { return 7; }', check=True)
        self.exports = [self.symbols('lib%s.so' % LIBS[i]) for i in range(3 if self.thorough else 2)]
        self.src = '\n'.join('int %s(void);' % n if n[0] == 'f' else 'extern int %s;' % n for n in self.names) + '\nint nowhere(void); extern int nothing;\n'
        with open('m.c', 'w') as f:
            f.write(self.src)
        with open('static.c', 'w') as f:
            f.write('\n'.join('static %s %s = 77;' % (('int', 'const int')[i % 2], n) for i, n in enumerate(n for n in self.names if n[0] == 'v')))

    def symbols(self, lib):
        """what the loader finds, in a process of its own"""
        names = list(self.names)

        def go():
            import ctypes
            dll = ctypes.CDLL('./' + lib)
            find = ctypes.CDLL(None).dlsym
            find.restype = ctypes.c_void_p
            find.argtypes = [ctypes.c_void_p, ctypes.c_char_p]
            return {n for n in names if find(dll._handle, n.encode())}
        out = c12.in_child(go)
        assert isinstance(out, set), out
        return out

    def path(self, style, i):
        lib = 'lib%s.so' % LIBS[i]
        return {'rel': './' + lib, 'abs': self.top + '/' + lib, 'sub': 'sub/' + lib, 'link': './link%d.so' % i, 'same': 'dir%d/libsame.so' % i, 'bare': lib}[style]

    def run_one(self, case):
        return getattr(self, case.payload[0])(*case.payload[1:])

    def list(self, style, l, nm):
        if style == 'bare':
            # a bare name is a file of the working directory for the translator, the loader needs a path
            os.environ['LD_LIBRARY_PATH'] = self.top
        if nm == 'llvm':
            nm = shutil.which('llvm-nm') or shutil.which('llvm-nm-18') or 'nm'
        cfg = impl.make_cfg((), 'fd')
        cfg.searched_dlls = [Library(self.path(style, i), nm=nm) for i in l]
        out = io.StringIO()
        ctypeslib.translate_files(['m.c'], out, cfg)
        text = out.getvalue()
        if style == 'bare':
            text = text.replace("CDLL('lib", "CDLL('./lib")
        static = ctypeslib_values('static.c', cfg)
        for n, v in static.items():
            if v != 77:
                return ('a static variable is bound to a library', '%s, libraries %s: %s %s is %s' % (style, l, n, self.names[n], v))
        want = {}
        for n in self.names:
            for i in l:
                if n in self.exports[i]:
                    want[n] = i + 1
                    break
            else:
                want[n] = None

        def go():
            import ctypes
            ns = impl.load(text)
            got = {}
            for n in list(self.names) + ['nowhere', 'nothing']:
                v = ns.get(n, 'missing')
                if isinstance(v, ctypes._CFuncPtr):
                    got[n] = v()
                elif isinstance(v, ctypes._SimpleCData):
                    got[n] = v.value
                else:
                    got[n] = ('stub', repr(v)[:40])
            return got
        got = c12.in_child(go)
        if isinstance(got, tuple):
            return ('the module does not load', '%s %s\n%s' % (style, l, str(got[1])[-800:]))
        for n, w in want.items():
            g = got[n]
            if isinstance(g, tuple):
                g = None
            if g != w:
                return ('a symbol is bound to another library' if g and w else 'an exported symbol is not bound' if w else 'a symbol that is not exported is bound',
                        '%s, libraries %s: %s %s, want %s, got %s' % (style, l, n, self.names[n], w, got[n]))
        for n in ('nowhere', 'nothing'):
            if not isinstance(got[n], tuple):
                return ('a symbol that is not exported is bound', '%s' % n)
        return engine.Held((len(want), len(want) * max(1, len(l)), len(want)))

    def pre(self, pre, libs):
        """preloads come first, in order, global, under their names"""
        table = {'give': './libgive.so', 'a': './libpa.so', 'b': './libpb.so', 'm': 'libm.so.6', 'needs': './libneeds.so'}
        cfg = impl.make_cfg((), 'fd')
        src = 'int needs(void); int only(void); int f0(void);\n'
        names = [table[p] for p in pre]
        cfg.preloaded_dlls = list(names)
        cfg.searched_dlls = [Library(table[p], nm='nm') for p in libs]
        out = io.StringIO()

        def go():
            import ctypes
            # does the translation itself need the libraries loaded in this process?
            ctypeslib.translate(src, out, cfg)
            text = out.getvalue()

            def go2():
                calls = []
                real = ctypes.CDLL

                class CDLL(real):
                    def __init__(self, name, mode=ctypes.DEFAULT_MODE, *a, **k):
                        calls.append((name, mode))
                        super().__init__(name, mode, *a, **k)
                ctypes.CDLL = CDLL
                try:
                    ns = impl.load(text)
                    ok = 'needs' in ns and isinstance(ns['needs'], ctypes._CFuncPtr)
                    r = ns['needs']() if ok else None
                except OSError as e:
                    r = 'OSError'
                return (calls, r, cfg.preloaded_dlls == names)
            return (go2, text)
        go2, text = go()
        # in a process of its own
        r = c12.in_child(go2)
        if r[0] == 'child':
            return ('the module does not load', '%s %s\n%s' % (pre, libs, r[1][-600:]))
        calls, value, same = r
        import ctypes
        if calls[:len(names)] != [(n, ctypes.RTLD_GLOBAL) for n in names]:
            return ('libraries are not preloaded', '%s %s: %s' % (names, libs, calls))
        want = 42 if 'give' in pre and 'needs' in libs else ('OSError' if 'needs' in libs else None)
        if value != want:
            return ('a preloaded library does not resolve a symbol', '%s %s: %s, want %s\n%s' % (names, libs, value, want, calls))
        if not same:
            return ('the configuration is changed', str(cfg.preloaded_dlls))
        return None

    def system(self, l):
        """libraries in the linker style"""
        cfg = impl.make_cfg((), 'fd')
        src = 'int puts(const char *); double cos(double); int abs(int); int no_such(void); int f0(void);\n'
        try:
            cfg.searched_dlls = [Library(x, nm='nm') for x in l]
            out = io.StringIO()
            ctypeslib.translate(src, out, cfg)
        except Exception as e:
            return ('the translation fails', impl.tb(e))

        def go():
            import ctypes
            ns = impl.load(out.getvalue())
            return [ns['cos'](0.0) if isinstance(ns['cos'], ctypes._CFuncPtr) else None,
                    ns['abs'](-3) if isinstance(ns['abs'], ctypes._CFuncPtr) else None,
                    isinstance(ns['no_such'], ctypes._CFuncPtr), ns['f0']() if isinstance(ns['f0'], ctypes._CFuncPtr) else None]
        r = c12.in_child(go)
        joined = ' '.join(l)
        m = 'm' in l or 'libm' in joined
        c = m or 'c' in l or 'libc' in joined
        f = 1 if 'liba' in joined else 2 if 'libb' in joined else None
        want = [1.0 if m else None, 3 if c else None, False, f]
        if r != want:
            return ('system libraries are not searched', '%s: %s, want %s' % (l, r, want))
        return None


CHECK = C19

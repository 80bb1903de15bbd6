"""C26: a module for a named target, on other hosts than the one that made it.

Programs: all ordered pairs (thorough: triples) of member types, for targets
of all data models. Hosts: ctypes as it is where pointers, long, long double
and the type codes of ctypes have other sizes; the module gets that ctypes
when it imports it. Oracle: the compiler, for the target.
"""
import builtins
import ctypes
import itertools
import types as pytypes

import _ctypes

from .. import engine, impl, oracle

# pointers, long, long double
HOSTS = {
    'lp64': (8, 8, 16),
    'ilp32': (4, 4, 12),
    'arm32': (4, 4, 8),
    'llp64': (8, 4, 8),
    'lp64-ld8': (8, 8, 8),
}
TARGETS = ['x86_64-linux', 'i386-linux', 'i686-windows', 'x86_64-windows', 'arm', 'aarch64', 'm68k', 'x32', 'mips', 'ppc64', 'riscv32', 'avr', 'msp430']
PRELUDE = ('struct A { char c; long l; void *p; }; union U { char c; long l; void *p; }; enum E { E_A = 1, E_B = 300 }; struct O; '
           'typedef struct A A_t; typedef void *ptr_t; typedef int (*cb_t)(void *); typedef long long_t; typedef long double ld_t;\n')
MEMBERS = ['char @', 'unsigned char @', 'short @', 'int @', 'unsigned int @', 'long @', 'unsigned long @', 'long long @', 'float @', 'double @',
           'long double @', '_Bool @', 'void *@', 'char *@', 'struct A *@', 'struct O *@', 'int **@', 'void (*@)(void)', 'cb_t @', 'ptr_t @', 'A_t *@',
           'struct A @', 'union U @', 'enum E @', 'long @[3]', 'void *@[2]', 'cb_t @[2]', 'struct A @[2]', 'long_t @', 'ld_t @', 'long double @[2]',
           'struct { long x; void *y; } @', 'union { long x; void *y; char z; } @', 'int @:5', 'unsigned char @:3', 'struct S *@', 'int (*@)[3]']
CPP = ['char @', 'wchar_t @', 'char16_t @', 'char32_t @', 'long @', 'void *@', 'wchar_t *@', 'wchar_t @[3]', 'char16_t @[3]', 'bool @', 'const struct A *const @', 'enum E @', 'double @', 'cb_t @']
SPELLINGS = {'one': lambda t: ['--target=' + t], 'after': lambda t: ['-DX=1', '-fno-builtin', '-target', t], 'one after': lambda t: ['-Wall', '--target=' + t, '-O2'], 'twice': lambda t: ['-target', 'sparc', '--target=' + t]}
FEW = ['char @', 'int @', 'long @', 'double @', 'long double @', 'void *@', 'cb_t @', 'struct A @', 'struct A *@', 'enum E @', 'void *@[2]', 'int @:5']


def host_ctypes(name):
    """ctypes of another host, and the builtins of a module there"""
    ptr, long_, ld = HOSTS[name]
    real = dict(vars(ctypes))
    mod = pytypes.ModuleType('ctypes')
    mod.__dict__.update({k: v for k, v in real.items() if not k.startswith('__')})
    low = pytypes.ModuleType('_ctypes')
    low.__dict__.update({k: v for k, v in vars(_ctypes).items() if not k.startswith('__')})
    if name == 'lp64':
        return mod, dict(vars(builtins))
    code = {}
    if long_ == 4:
        code = {'l': 'i', 'L': 'I', 'q': 'q', 'Q': 'Q'}
        simple = lambda n, c: type(n, (ctypes._SimpleCData,), {'_type_': c})
        mod.c_long = mod.c_int = mod.c_int32 = simple('c_long', 'i')
        mod.c_ulong = mod.c_uint = mod.c_uint32 = simple('c_ulong', 'I')
        mod.c_longlong = mod.c_int64 = simple('c_longlong', 'q')
        mod.c_ulonglong = mod.c_uint64 = simple('c_ulonglong', 'Q')
    if ptr == 4:
        word = mod.c_ulong
        mod.c_size_t, mod.c_ssize_t = mod.c_ulong, mod.c_long
        mod.c_void_p = type('c_void_p', (word,), {})
        mod.c_char_p = type('c_char_p', (word,), {})
        mod.c_wchar_p = type('c_wchar_p', (word,), {})
        mod.py_object = type('py_object', (word,), {})
        cache = {}

        def POINTER(t):
            if t not in cache:
                cache[t] = type('LP_x', (word,), {})
            return cache[t]

        def CFUNCTYPE(*args, **kw):
            if args not in cache:
                cache[args] = type('CFunctionType', (word,), {})
            return cache[args]
        mod.POINTER, mod.CFUNCTYPE = POINTER, CFUNCTYPE
    if ld == 8:
        mod.c_longdouble = ctypes.c_double
    elif ld != 16:
        mod.c_longdouble = type('c_longdouble', (ctypes.c_ubyte * ld,), {})

    def simple_class(name, bases, ns, **kw):
        if ns.get('_type_') in code:
            ns['_type_'] = code[ns['_type_']]
        return type(ctypes._SimpleCData)(name, bases, ns, **kw)

    def build_class(func, name, *bases, **kw):
        if ctypes._SimpleCData in bases:
            kw.setdefault('metaclass', simple_class)
        return builtins.__build_class__(func, name, *bases, **kw)

    def import_(name, *args, **kw):
        if name == 'ctypes':
            return mod
        if name == '_ctypes':
            return low
        return builtins.__import__(name, *args, **kw)
    return mod, dict(vars(builtins), __import__=import_, __build_class__=build_class)


class C26(engine.Check):
    id = 'C26'
    technique = 'explicit-state enumeration of programs, targets and hosts on real generated modules, that are loaded with the ctypes of each host'
    level_note = 'exhaustive up to the stated bounds'
    rule = ('all ordered pairs of 37 member types of C and 14 of C++ (thorough: triples of 12) for 13 targets, each module loaded on 5 hosts of the data models LP64, ILP32 and LLP64, '
            'with long doubles of 8, 12 and 16 bytes; sizes, offsets and the values of integer members in an image of the record')
    assumptions = ['the ctypes of another host differs in the sizes of pointers, long and long double and in the type codes only',
                   'the layouts of the target are those of the compiler']
    batch = 1
    chunk_timeout = 300

    def cases(self):
        for t in TARGETS:
            for a in range(len(MEMBERS)):
                yield engine.Case('pairs/%s/%s' % (t, MEMBERS[a]), (t, [(MEMBERS[a], m) for m in MEMBERS]))
            for sp in SPELLINGS:
                for a in FEW:
                    yield engine.Case('spelling/%s/%s/%s' % (t, sp, a), (t, [(a, m) for m in FEW], 'c', sp))
            for a in CPP:
                yield engine.Case('c++/%s/%s' % (t, a), (t, [(a, m) for m in CPP], 'cpp'))
        if self.thorough:
            for t in TARGETS:
                for a, b in itertools.product(FEW, repeat=2):
                    yield engine.Case('triples/%s/%s,%s' % (t, a, b), (t, [(a, b, m) for m in FEW]))

    def stats(self, case):
        n = len(case.payload[1]) * len(HOSTS)
        return (n, n, n * 5)

    def run_one(self, case):
        tname, words = case.payload[:2]
        lang = case.payload[2] if len(case.payload) > 2 else 'c'
        tg = oracle.target(tname)
        src, queries = PRELUDE, []
        for i, w in enumerate(words):
            names = ['m%d' % j for j in range(len(w))]
            src += 'struct S%d { %s };\n' % (i, ' '.join(m.replace('struct S ', 'struct S%d ' % i).replace('@', n) + ';' for m, n in zip(w, names)))
            src += 'typedef struct S%d *S%d_p; void f%d(struct S%d a, struct S%d *b);\n' % (i, i, i, i, i)
            queries += ['sizeof(struct S%d)' % i] + ['__builtin_offsetof(struct S%d, %s)' % (i, n) if ':' not in m else '0' for m, n in zip(w, names)]
        try:
            opts = tg.opts
            if len(case.payload) > 3:
                i = opts.index('-target')
                opts = SPELLINGS[case.payload[3]](opts[i + 1]) + opts[:i] + opts[i + 2:]
            out = impl.gen(src, opts, name='m.' + lang)
        except Exception as e:
            return ('translate:' + impl.exc_sig(e), impl.tb(e))
        want = oracle.consts(src, queries, tname, lang=lang)
        for host in HOSTS:
            mod, env = host_ctypes(host)
            ns = {'__name__': 'generated', '__builtins__': env}
            try:
                exec(compile(out, '<generated>', 'exec'), ns)
                r = self.compare(ns, mod, words, want, tg, host)
            except Exception as e:
                r = ('load:' + impl.exc_sig(e), impl.tb(e))
            if r:
                return (r[0], '%s on %s: %s' % (tname, host, r[1]))
        return None

    def compare(self, ns, mod, words, want, tg, host):
        it = iter(want)
        for i, w in enumerate(words):
            cls = ns['struct_S%d' % i]
            size = next(it)
            if ctypes.sizeof(cls) != size:
                return ('the size of a record depends on the host', '%s is %d, compiler %d' % (w, ctypes.sizeof(cls), size))
            image = cls.from_buffer_copy(bytes((k * 37 + 11) % 251 for k in range(size)))
            for j, m in enumerate(w):
                off = next(it)
                if ':' in m:
                    continue
                f = getattr(cls, 'm%d' % j)
                if f.offset != off:
                    return ('the place of a member depends on the host', '%s m%d is at %d, compiler %d' % (w, j, f.offset, off))
                base = m.split(' @')[0]
                if m in ('long @', 'unsigned long @', 'int @', 'unsigned int @', 'long long @', 'short @'):
                    v = int.from_bytes(bytes(image)[off:off + tg.sizeof(base)], 'little', signed=not base.startswith('unsigned'))
                    if getattr(image, 'm%d' % j) != v:
                        return ('the value of a member depends on the host', '%s m%d' % (w, j))
            if ctypes.sizeof(ns['S%d_p' % i]) != tg.ptr or ctypes.sizeof(ns['f%d' % i].argtypes[1]) != tg.ptr:
                return ('the size of a pointer depends on the host', '%d, compiler %d' % (ctypes.sizeof(ns['S%d_p' % i]), tg.ptr))
            if ns['f%d' % i].argtypes[0] is not cls or ns['f%d' % i].argtypes[1] is not ns['S%d_p' % i]:
                return ('the types of a function depend on the host', str(w))
        return None


CHECK = C26

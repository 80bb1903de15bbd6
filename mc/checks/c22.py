"""C22: redeclarations and the order of declarations.

State: the declarations so far of one entity. Transition: one more of its
declarations, before or after the definition. All sequences up to a length
are translated, those that the compiler refuses are left out; the module is
compared with the one of each declaration once, definitions first, and with
what the compiler has for the entity. All orders of independent declarations
and all splits of a sequence in two files as well.
"""
import ctypes
import io
import itertools
import os

import ctypeslib
from clang import cindex

from .. import canon, engine, impl

# entity -> [(letter, declaration, rank)]: declarations in the order of their
# rank say everything at once; rank None: says nothing when another one of
# the letters in the 4th field is there
RECORD = [
    ('F', '@K A;', 0, 'D'),
    ('D', '@K A { int x; @K A *next; char c; };', 1, ''),
    ('T', 'typedef @K A A_t;', 2, ''),
    ('P', '@K A *pa(@K A *);', 3, ''),
    ('V', 'extern @K A va[];', 4, ''),
    ('M', '@K M { @K A *a; char z; };', 5, ''),
    ('W', '@K W { char c; @K A a; };', 6, ''),
    ('Q', 'typedef @K A *A_p;', 7, ''),
    ('C', 'typedef int (*cb)(@K A *);', 8, ''),
]
ENTITIES = {
    'struct': [(a, b.replace('@K', 'struct'), c, d) for a, b, c, d in RECORD],
    'union': [(a, b.replace('@K', 'union'), c, d) for a, b, c, d in RECORD],
    'typedefstruct': [
        ('F', 'struct A;', 0, 'DT'), ('D', 'typedef struct A { int x; struct A *next; } A_t;', 1, ''), ('T', 'typedef struct A A_t;', 2, 'D'), ('U', 'typedef A_t A_tt;', 3, ''),
        ('P', 'struct A *pa(struct A *);', 4, ''), ('R', 'extern struct A *va;', 5, ''), ('B', 'struct B { struct A *a; };', 6, ''),
    ],
    'enum': [
        ('D', 'enum E { E_A = 3, E_B, E_C = -1 };', 1, ''), ('T', 'typedef enum E E_t;', 2, ''), ('P', 'enum E pe(enum E);', 3, ''), ('V', 'extern enum E ve;', 4, ''),
        ('M', 'struct M { enum E e; char z; };', 5, ''), ('Q', 'typedef enum E *E_p;', 6, ''), ('F', 'enum E;', 0, 'D'),
    ],
    'int': [
        ('E', 'extern int v;', 0, 'VI'), ('V', 'int v;', 1, 'I'), ('I', 'int v = 5;', 2, ''), ('T', 'typedef int t;', 3, ''), ('X', 'extern t v;', 4, 'EVI'), ('J', 't v = 5;', 5, 'I'),
        ('K', 'enum { k = 2 };', 6, ''),
    ],
    'static': [('V', 'static int v;', 1, 'I'), ('I', 'static int v = 7;', 2, ''), ('E', 'extern int v;', 3, 'VI'), ('W', 'static double w = 1.5;', 4, ''), ('U', 'static double w;', 5, 'W')],
    'const': [('E', 'extern const unsigned v;', 0, 'I'), ('I', 'const unsigned v = 4000000000u;', 1, ''), ('C', 'const char *s = "text";', 2, ''), ('D', 'extern const char *s;', 3, 'CG'), ('G', 'const char *s;', 4, 'C')],
    'array': [
        ('E', 'extern int a[];', 0, 'VIJL'), ('V', 'int a[3];', 1, 'IJ'), ('L', 'extern int a[3];', 2, 'VIJ'), ('I', 'int a[3] = {1, 2, 3};', 3, ''), ('J', 'int a[] = {1, 2, 3};', 4, 'I'),
        ('S', 'char s[] = "ab";', 5, ''), ('R', 'extern char s[];', 6, 'SQ'), ('Q', 'extern char s[3];', 7, 'S'),
    ],
    'function': [
        ('P', 'int f(int, char *);', 0, 'D'), ('N', 'int f(int a, char *b);', 0, 'PD'), ('E', 'extern int f(int c, char *d);', 0, 'PND'), ('D', 'int f(int e, char *g) { return e + *g; }', 0, ''),
        ('O', 'int f();', 0, 'PNEDAX'), ('T', 'typedef int fn(int, char *);', 1, ''), ('A', 'fn f;', 2, 'PNED'), ('V', 'void f2(void);', 3, 'U'), ('U', 'extern void f2(void);', 3, ''),
        ('X', 'extern int f(int, char[4]);', 5, 'PNED'), ('I', 'static inline int f3(int a) { return a; }', 6, ''), ('J', 'static int f3(int);', 6, 'I'),
    ],
    'typedef': [
        ('A', 'typedef int a;', 0, ''), ('B', 'typedef a b;', 1, ''), ('C', 'typedef b *c;', 2, ''), ('D', 'typedef c d[2];', 3, ''), ('E', 'typedef int (*e)(a, c);', 4, ''), ('F', 'struct F { a m; c n; };', 5, ''),
        ('G', 'typedef unsigned long a2;', 6, ''), ('H', 'typedef int b;', 1, 'B'),
    ],
    'vararray': [('A', 'struct A { int x; };', 0, ''), ('E', 'extern struct A v[2];', 1, 'VI'), ('V', 'struct A v[2];', 2, 'I'), ('X', 'extern struct A v[];', 3, 'EVI'), ('P', 'struct A *p;', 4, ''), ('Q', 'extern struct A *p;', 5, 'P')],
}
# independent of each other
FREE = ['struct A { int x; char c; };', 'union U { int a; double b; };', 'enum E { E_A, E_B = 9 };', 'typedef long t;', 'int f(int, char *);', 'int v = 5;', 'static const char *s = "text";',
        'struct B { struct B *next; };', 'typedef struct { short q; } anon_t;', 'extern double d;', 'struct O;', 'enum { K = 7 };', 'typedef int (*cb)(void);', '#define MACRO 12', 'int arr[2] = {4, 5};']


class C22(engine.Check):
    id = 'C22'
    technique = 'explicit-state enumeration of all sequences of redeclarations and all orders of independent declarations, replayed on the real translator and compared with the single definition and the compiler'
    level_note = 'exhaustive up to the stated lengths'
    rule = ('all sequences of up to 3 to 5 (thorough: 4 to 6) declarations of 11 entities with 5 to 12 kinds of declaration each that the compiler accepts, those of up to 3 split in two files at every place, '
            'all orders of 2 (thorough: 3) of 15 independent declarations, and splits of them in two files, all orders of 4 of 9 (thorough: of 15)')
    assumptions = ['the composite type of C is that of the compiler']
    batch = 60
    chunk_timeout = 300

    def cases(self):
        for name, decls in ENTITIES.items():
            depth = (6 if len(decls) < 6 else 5 if len(decls) < 8 else 4) if self.thorough else (5 if len(decls) < 6 else 4 if len(decls) < 8 else 3)
            for n in range(1, depth + 1):
                for l in itertools.product(range(len(decls)), repeat=n):
                    yield engine.Case('seq/%s/%s' % (name, ''.join(decls[i][0] for i in l)), ('seq', name, l))
        for name, decls in ENTITIES.items():
            for n in range(2, 5 if self.thorough and len(decls) < 8 else 4):
                for l in itertools.product(range(len(decls)), repeat=n):
                    for cut in range(1, n):
                        yield engine.Case('files/%s/%s+%s' % (name, ''.join(decls[i][0] for i in l[:cut]), ''.join(decls[i][0] for i in l[cut:])), ('files', name, l, cut))
        for l in itertools.permutations(range(len(FREE)), 3 if self.thorough else 2):
            yield engine.Case('order/%s' % '.'.join(map(str, l)), ('order', l))
        for l in itertools.combinations(range(len(FREE) if self.thorough else 9), 4):
            yield engine.Case('orders/%s' % '.'.join(map(str, l)), ('orders', l))

    def group(self, case):
        return case.payload[0]

    def run_batch(self, cases):
        return [self.run_one(c) for c in cases]

    def run_one(self, case):
        kind, *args = case.payload
        try:
            return getattr(self, 'do_' + kind)(*args)
        except Exception as e:
            return ('translate:' + impl.exc_sig(e), case.key + '\n' + impl.tb(e))

    # ------------------------------------------------------------------
    @staticmethod
    def accepted(src):
        """what the compiler says -> names of the variables with the number of array elements, or None"""
        tu = cindex.TranslationUnit.from_source('m.c', ['-w'], unsaved_files=[('m.c', src)])
        return not any(d.severity > 2 for d in tu.diagnostics)

    def module(self, texts):
        paths = [impl.write_src(t, 'm%d.c' % i) for i, t in enumerate(texts)]
        out = io.StringIO()
        # as documented for clang2py, all the kinds of declarations but macros
        ctypeslib.translate_files(paths, out, impl.make_cfg(kinds='cdefstu'))
        return out.getvalue(), impl.load(out.getvalue())

    def single(self, name, letters):
        """each declaration once, those that say nothing new left out"""
        cache = self.__dict__.setdefault('_single', {})
        key = (name, letters)
        if key not in cache:
            decls = sorted([d for d in ENTITIES[name] if d[0] in letters and not set(d[3]) & letters], key=lambda d: d[2])
            src = '\n'.join(d[1] for d in decls) + '\n'
            if not self.accepted(src):
                cache[key] = None
            else:
                cache[key] = (src, canon.module(self.module([src])[1]))
        return cache[key]

    def do_seq(self, name, l, cut=None):
        decls = ENTITIES[name]
        letters = frozenset(decls[i][0] for i in l)
        texts = [decls[i][1] for i in l]
        if cut is None:
            srcs = ['\n'.join(texts) + '\n']
            if not self.accepted(srcs[0]):
                return engine.Held((0, 1, 0))
        else:
            # each file with what it needs, as headers do
            srcs = ['\n'.join(texts[:cut]) + '\n', '\n'.join(texts[cut:]) + '\n']
            if not all(map(self.accepted, srcs)) or not self.accepted(''.join(srcs)):
                return engine.Held((0, 1, 0))
        ref = self.single(name, letters)
        if ref is None:
            raise AssertionError('no single form of %s %s' % (name, ''.join(sorted(letters))))
        out, ns = self.module(srcs)
        d = canon.diff(canon.module(ns), ref[1])
        if d:
            return ('the module is another one', '%s\n--- against\n%s: %s\n%s' % ('--- and\n'.join(srcs), ref[0], d, impl.strip_text(out)[-900:]))
        return self.facts(name, letters, ns, srcs)

    def do_files(self, name, l, cut):
        return self.do_seq(name, l, cut)

    def facts(self, name, letters, ns, srcs):
        """what the declarations say, whatever the single form gives"""
        bad = lambda what, got: ('the entity is wrong', '%s: %s\n%s' % (what, got, '--- and\n'.join(srcs)))
        if name in ('struct', 'union', 'typedefstruct'):
            p = 'union_' if name == 'union' else 'struct_'
            if 'D' in letters:
                A = ns[p + 'A']
                want = {'struct': 24, 'union': 8, 'typedefstruct': 16}[name]
                if ctypes.sizeof(A) != want:
                    return bad('size', ctypes.sizeof(A))
                if dict((f[0], f[1]) for f in A._fields_)['next']._type_ is not A:
                    return bad('next', 'another record')
                if name != 'typedefstruct' and 'W' in letters and ns[p + 'W'].a.size != want:
                    return bad('W', ns[p + 'W'].a.size)
            if name != 'typedefstruct' and 'M' in letters and dict((f[0], f[1]) for f in ns[p + 'M']._fields_)['a']._type_ is not ns[p + 'A']:
                return bad('M', 'another record')
            if 'P' in letters and (ns['pa'].restype._type_ is not ns[p + 'A'] or ns['pa'].argtypes[0]._type_ is not ns[p + 'A']):
                return bad('pa', 'another record')
        elif name == 'enum' and 'D' in letters:
            if (ns['E_A'], ns['E_B'], ns['E_C']) != (3, 4, -1):
                return bad('constants', (ns['E_A'], ns['E_B'], ns['E_C']))
        elif name == 'int' and letters & set('EVIXJ'):
            want = 5 if letters & set('IJ') else 0
            if getattr(ns['v'], 'value', ns['v']) != want:
                return bad('v', ns['v'])
        elif name == 'static' and letters & set('VI'):
            if getattr(ns['v'], 'value', ns['v']) != (7 if 'I' in letters else 0):
                return bad('v', ns['v'])
        elif name == 'const':
            if 'I' in letters and getattr(ns['v'], 'value', ns['v']) != 4000000000:
                return bad('v', ns['v'])
            if 'C' in letters and ns['s'] != 'text':
                return bad('s', ns['s'])
        elif name == 'array' and letters & set('VIJL'):
            if letters & set('IJ') and list(ns['a']) != [1, 2, 3]:
                return bad('a', ns['a'])
        elif name == 'function' and letters & set('PNEDAX'):
            if ns['f'].restype is not ctypes.c_int32 or list(ns['f'].argtypes) != [ctypes.c_int32, ctypes.POINTER(ctypes.c_char)]:
                return bad('f', ns['f'].argtypes)
        return None

    def do_order(self, l):
        key = tuple(sorted(l))
        cache = self.__dict__.setdefault('_order', {})
        if key not in cache:
            cache[key] = canon.module(self.module(['\n'.join(FREE[i] for i in key) + '\n'])[1])
        src = '\n'.join(FREE[i] for i in l) + '\n'
        d = canon.diff(canon.module(self.module([src])[1]), cache[key])
        if d:
            return ('the order matters', '%s: %s' % (src, d))
        # and in two files
        for cut in range(1, len(l)):
            srcs = ['\n'.join(FREE[i] for i in p) + '\n' for p in (l[:cut], l[cut:])]
            d = canon.diff(canon.module(self.module(srcs)[1]), cache[key])
            if d:
                return ('the order of files matters', '%s: %s' % ('--- and\n'.join(srcs), d))
        return engine.Held((len(l), len(l), len(l)))

    def do_orders(self, l):
        n = 0
        for p in itertools.permutations(l):
            key = tuple(sorted(l))
            cache = self.__dict__.setdefault('_order', {})
            if key not in cache:
                cache[key] = canon.module(self.module(['\n'.join(FREE[i] for i in key) + '\n'])[1])
            src = '\n'.join(FREE[i] for i in p) + '\n'
            n += 1
            d = canon.diff(canon.module(self.module([src])[1]), cache[key])
            if d:
                return ('the order matters', '%s: %s' % (src, d))
        return engine.Held((n, n, n))


CHECK = C22

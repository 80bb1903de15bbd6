"""C31: types of given Python modules (option -m, known_symbols) are imported.

State: a source and the set of its types that modules of the user have; one more
type, or another module, is a transition. The modules are made by hand, by ctypes alone.
"""
import ctypes
import io
import itertools
import os
import sys
import types

from .. import engine, impl
from . import c12

# declarations: C text, Python names of types -> size, needs (indices of earlier ones)
DECLS = [
    ('struct A { int x; char y; };', {'struct_A': 8}),
    ('struct B { struct A a; struct A *p; struct A n[2]; };', {'struct_B': 32}),
    ('union U { struct B *b; struct A a[3]; int (*f)(struct A *, struct B); };', {'union_U': 24}),
    ('typedef struct B *T; typedef T T2; struct C { T t; T2 u[2]; };', {'T': 8, 'T2': 8, 'struct_C': 24}),
    ('typedef unsigned char byte; struct D { byte b; byte c[3]; byte *d; };', {'byte': 1, 'struct_D': 16}),
    ('typedef struct { short s; } R; struct E { R r; R *q; };', {'R': 2, 'struct_E': 16}),
    ('enum e1 { X1, Y1 = 5 }; typedef enum e1 e2; struct G { enum e1 a; e2 b; };', {'e1': 4, 'e2': 4, 'struct_G': 8}),
    ('typedef int (*cb)(struct A *, byte); struct H { cb c; };', {'cb': 8, 'struct_H': 8}),
    ('struct O; struct P { struct O *o; struct P *self; };', {'struct_O': 0, 'struct_P': 16}),
    ('struct K; struct L { struct K *k; }; struct K { struct L l; };', {'struct_K': 8, 'struct_L': 8}),
    ('typedef struct A A; struct M { A a; };', {'A': 8, 'struct_M': 8}),
]
TAIL = 'struct B *f(struct A *, T, byte, enum e1, cb, struct C); extern int counter; int limit = 12;\n'
NAMES = {n: s for _, d in DECLS for n, s in d.items()}
EDGES = {'none': '', 'value': 'struct s%d m%d;', 'pointer': 'struct s%d *m%d;', 'array': 'struct s%d m%d[2];', 'callback': 'int (*m%d)(struct s%d *);', 'pparray': 'struct s%d **m%d[2];'}


class C31(engine.Check):
    id = 'C31'
    technique = 'explicit-state exploration of sets of known types over sources and dependency graphs, on the real translator, identity of the objects of the loaded modules against a reference'
    level_note = 'exhaustive over the stated sources, graphs and sets'
    rule = ('every set of up to 2 (thorough: 3) of %d types and every complement of one, of a source with all kinds of declarations, as option or configuration, in one or two '
            'modules; every dependency graph of 3 records over %d kinds of edges with every set of known records; histories of two translations' % (len(NAMES), len(EDGES)))
    batch = 8

    def cases(self):
        names = list(NAMES)
        sets = [c for r in range(0, (4 if self.thorough else 3)) for c in itertools.combinations(names, r)]
        sets += [tuple(n for n in names if n != m) for m in names] + [tuple(names)]
        for s in sets:
            for how in ('config', 'option'):
                if how == 'option' and not self.thorough and len(s) == 2 and (names.index(s[0]) + names.index(s[1])) % 4:
                    continue
                yield engine.Case('set/%s/%s' % (how, ','.join(s)), ('set', s, how))
        for s in sets:
            if len(s) == 2:
                yield engine.Case('two/%s' % ','.join(s), ('two', s))
        for s in [(n,) for n in names] + [('struct_A', 'byte'), ('struct_B', 'T')]:
            for sel in (['struct_B'], ['struct_C', 'union_U'], ['f'], ['struct_H', 'struct_A']):
                yield engine.Case('select/%s/%s' % (','.join(s), ','.join(sel)), ('select', s, sel))
            yield engine.Case('again/%s' % ','.join(s), ('again', s))
            yield engine.Case('other/%s' % ','.join(s), ('other', s))
        for kinds in itertools.product(EDGES, repeat=3):
            for bits in range(1, 8):
                yield engine.Case('graph/%s/%d' % ('.'.join(kinds), bits), ('graph', kinds, bits))
        for known in ('struct_Base', 'struct_Mid', 'struct_Base,struct_Mid', 'struct_N', 'struct_Last'):
            yield engine.Case('cpp/%s' % known, ('cpp', tuple(known.split(','))))
        for target in ('i386-linux-gnu', 'x86_64-pc-win32', 'msp430'):
            for bits in range(8):
                yield engine.Case('target/%s/%d' % (target, bits), ('target', target, bits))

    def setup_worker(self):
        c12.quiet_stderr()

    # ---- modules of the user
    def module(self, name, known, sizes, parts=''):
        """a module with a class of its own for each of the types"""
        m = types.ModuleType(name)
        for n in known:
            size = sizes[n]
            t = ctypes.Union if n.startswith('union_') else ctypes.Structure
            setattr(m, n, type(n, (t,), {'_fields_': [('mine', ctypes.c_uint8 * size if size % 8 else ctypes.c_uint64 * (size // 8))], '_pack_': 1} if size else {}))
        # what is no type of the source
        m.unrelated = type('unrelated', (ctypes.Structure,), {})
        m.limit = 99
        m.f = lambda: None
        # names of types that are no types there
        for i, n in enumerate(sizes):
            if n not in known:
                setattr(m, n, (i, 'text', [n])[i % 3])
        parent = None
        for p in range(1, len(name.split('.')) + 1):
            part = '.'.join(name.split('.')[:p])
            mod = m if part == name else sys.modules.get(part) or types.ModuleType(part)
            mod.__path__ = []
            sys.modules[part] = mod
            if parent is not None:
                setattr(parent, part.split('.')[-1], mod)
            parent = mod
        return m

    def known(self, modules):
        return {n: m.__name__ for m in modules for n, o in vars(m).items() if isinstance(o, type)}

    def translate(self, src, modules, how, opts=(), name='m.c', **attrs):
        if how == 'config':
            return impl.load(impl.gen(src, opts, kinds='cdefstu', name=name, known_symbols=self.known(modules), **attrs))
        path = impl.write_src(src, name)
        out = path + '.out.py'
        from ctypeslib import clang2py
        args = ['-o', out, path]
        for m in modules:
            args[:0] = ['-m', m.__name__]
        if clang2py.main(args):
            raise ValueError('status')
        with open(out) as f:
            return impl.load(f.read())

    def judge(self, ns, plain, modules, sizes, needed=None):
        mine = {}
        for m in modules:
            for n in sizes:
                if isinstance(getattr(m, n, None), type):
                    mine[n] = getattr(m, n)
        for n in plain:
            if n not in plain['__all__'] or n in ('string_cast', 'char_pointer_cast') or n.split('__enumvalues')[0] in mine:
                continue
            if n not in ns:
                return 'a name is missing: %s' % n
        for n, o in mine.items():
            if n in plain and ns[n] is not o:
                return 'a known type is not the imported one: %s' % n
            if n not in plain and n in ns:
                return 'a known type is imported that is not needed: %s' % n
        for n in ('unrelated',):
            if n in ns:
                return 'something else is imported'
        for n, o in plain.items():
            if n in mine or n.startswith('_'):
                continue
            if isinstance(o, type) and issubclass(o, (ctypes.Structure, ctypes.Union)) and o.__module__ == plain['__name__'] and o.__name__ == n and n in sizes:
                bad = self.record(n, o, ns[n], mine)
                if bad:
                    return bad
            elif isinstance(o, (int, dict)) and n in plain['__all__'] and n.split('__enumvalues')[0] not in mine and ns[n] != o:
                return 'another value of %s' % n
        if 'f' in plain and 'struct_A' in sizes:
            f, g = plain['f'], ns['f']
            for a, b in zip([f.restype] + list(f.argtypes), [g.restype] + list(g.argtypes)):
                if not self.same(a, b, mine):
                    return 'another type in the prototype: %r %r' % (a, b)
        return None

    def record(self, n, old, new, mine):
        if ctypes.sizeof(old) != ctypes.sizeof(new):
            return 'another size of %s' % n
        a, b = getattr(old, '_fields_', ()), getattr(new, '_fields_', ())
        if [f[0] for f in a] != [f[0] for f in b]:
            return 'other members of %s' % n
        for f, g in zip(a, b):
            if getattr(old, f[0]).offset != getattr(new, f[0]).offset:
                return 'another offset in %s' % n
            if not self.same(f[1], g[1], mine):
                return 'another type of member %s.%s: %r' % (n, f[0], g[1])
        for x, y in zip(old.__bases__, new.__bases__):
            if x.__name__ in mine and y is not mine[x.__name__]:
                return 'another base of %s' % n
        return None

    def same(self, a, b, mine, deep=0):
        """the same type, with the imported ones in their places; a pointer or a scalar whose typedef is
        imported may be either"""
        for n, o in mine.items():
            if b is o:
                return self.plainname.get(n) is a or getattr(a, '__name__', '') == n or self.plainname.get(n) == a
        if isinstance(a, type) and issubclass(a, (ctypes.Structure, ctypes.Union)):
            if a.__name__ in mine:
                # a typedef of the record, that is imported too
                return b is mine[a.__name__]
            return isinstance(b, type) and a.__name__ == b.__name__
        if deep > 6:
            return True
        for attr in ('_type_',):
            x, y = getattr(a, attr, None), getattr(b, attr, None)
            if isinstance(x, type) or isinstance(y, type):
                return isinstance(x, type) and isinstance(y, type) and getattr(a, '_length_', 0) == getattr(b, '_length_', 0) and self.same(x, y, mine, deep + 1)
        x, y = getattr(a, '_argtypes_', None), getattr(b, '_argtypes_', None)
        if x is not None:
            return y is not None and len(x) == len(y) and all(self.same(p, q, mine, deep + 1) for p, q in zip(x, y)) and self.same(a._restype_, b._restype_, mine, deep + 1)
        return a is b

    def run_one(self, case):
        kind = case.payload[0]
        try:
            return getattr(self, 'do_' + kind)(*case.payload[1:])
        except Exception as e:
            return (kind + ':' + impl.exc_sig(e), impl.tb(e))
        finally:
            for m in [m for m in sys.modules if m.startswith('mc_known')]:
                del sys.modules[m]

    source = '\n'.join(t for t, _ in DECLS) + '\n' + TAIL

    def verdict(self, ns, plain, modules, sizes):
        self.plainname = {n: plain[n] for n in sizes if n in plain}
        bad = self.judge(ns, plain, modules, sizes)
        return (bad.split(':')[0], bad) if bad else None

    def do_set(self, known, how):
        m = self.module('mc_known' if len(known) % 2 else 'mc_known.sub.types', known, NAMES)
        return self.verdict(self.translate(self.source, [m], how), self.translate(self.source, [], 'config'), [m], NAMES)

    def do_two(self, known):
        a = self.module('mc_known_a', known[:1], NAMES)
        b = self.module('mc_known_b.x', known[1:], NAMES)
        return self.verdict(self.translate(self.source, [a, b], 'option'), self.translate(self.source, [], 'config'), [a, b], NAMES)

    def do_select(self, known, sel):
        m = self.module('mc_known', known, NAMES)
        ns = self.translate(self.source, [m], 'config', symbols=list(sel))
        plain = self.translate(self.source, [], 'config', symbols=list(sel))
        # what only an imported type needs may be left out
        full = self.translate(self.source, [], 'config')
        for n in sel:
            if n not in ns:
                return ('a selected name is missing', n)
        return self.verdict(ns, {n: plain[n] for n in plain if n in ns}, [m], {n: s for n, s in NAMES.items() if n in plain or n not in full})

    def do_again(self, known):
        m = self.module('mc_known', known, NAMES)
        plain = self.translate(self.source, [], 'config')
        for mods in ([m], [], [m]):
            for how in ('config', 'option'):
                bad = self.verdict(self.translate(self.source, mods, how), plain, mods, NAMES)
                if bad:
                    return bad
        return None

    def do_other(self, known):
        """types of the module that the source does not have"""
        src = 'struct Z { int z; }; int limit = 12;\n'
        m = self.module('mc_known', known, NAMES)
        ns = self.translate(src, [m], 'option')
        bad = [n for n in known if n in ns]
        if bad:
            return ('a type is imported that the source does not have', str(bad))
        return self.verdict(ns, self.translate(src, [], 'config'), [m], {'struct_Z': 4})

    def do_graph(self, kinds, bits, opts=()):
        text = ''
        pairs = [(1, 0), (2, 0), (2, 1)]
        for i in range(3):
            members = 'int own%d; ' % i
            for (a, b), k in zip(pairs, kinds):
                if a == i and k != 'none':
                    members += EDGES[k] % ((b, b)) if k != 'callback' else EDGES[k] % (b, b)
            text += 'struct s%d { %s };\n' % (i, members)
        plain = self.translate(text, [], 'config', opts)
        sizes = {'struct_s%d' % i: ctypes.sizeof(plain['struct_s%d' % i]) for i in range(3)}
        m = self.module('mc_known', [n for i, n in enumerate(sizes) if bits >> i & 1], sizes)
        for src in (text, 'struct s0; struct s1; struct s2;\n' + text, 'struct s2; struct early { struct s2 *e; };\n' + text):
            ns = self.translate(src, [m], 'config', opts)
            bad = self.verdict(ns, plain, [m], sizes)
            if bad:
                return (bad[0], bad[1] + '\n' + src)
        return None

    def do_cpp(self, known):
        src = 'struct Base { int a; }; struct Mid : Base { int b; }; struct Last : Mid { Base *c; }; namespace n { struct N { Mid m; }; } struct V { n::N n; Last l[2]; };\n'
        plain = self.translate(src, [], 'config', name='m.cpp')
        sizes = {n: ctypes.sizeof(plain[n]) for n in ('struct_Base', 'struct_Mid', 'struct_Last', 'struct_N', 'struct_V')}
        m = self.module('mc_known', [], sizes)
        for n in known:
            # bases of its own size
            base = {'struct_Mid': 'struct_Base', 'struct_Last': 'struct_Mid'}.get(n)
            size = sizes[n] - (sizes[base] if base else 0)
            setattr(m, n, type(n, (getattr(m, base) if base in known else ctypes.Structure,), {'_pack_': 1, '_fields_': [('mine', ctypes.c_uint8 * (size if base in known else sizes[n]))]}))
        return self.verdict(self.translate(src, [m], 'config', name='m.cpp'), plain, [m], sizes)

    def do_target(self, target, bits):
        # sizes that do not depend on the target
        src = 'struct s0 { char a[6]; }; struct s1 { struct s0 a; char b; }; union s2 { struct s1 x[2]; }; struct s3 { struct s0 *p; union s2 u; struct s1 *q[2]; };\n'
        opts = ['-target', target]
        plain = self.translate(src, [], 'config', opts)
        sizes = {'struct_s0': 6, 'struct_s1': 7, 'union_s2': 14, 'struct_s3': ctypes.sizeof(plain['struct_s3'])}
        m = self.module('mc_known', [n for i, n in enumerate(list(sizes)[:3]) if bits >> i & 1], sizes)
        ns = self.translate(src, [m], 'config', opts)
        for n in sizes:
            if ctypes.sizeof(ns[n]) != sizes[n]:
                return ('size', n)
        for n in list(sizes)[:3]:
            if isinstance(getattr(m, n), type) and ns[n] is not getattr(m, n):
                return ('a known type is not the imported one', n)
        return None


CHECK = C31

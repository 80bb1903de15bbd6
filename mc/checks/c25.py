"""C25: C++ classes, over all short sequences of member declarations.

State: the member declarations of one class, its base and its context.
Transition: appending one declaration. Every state is translated by the real
code, and size, offsets and bit-field images of the class are compared with
those of code compiled by g++ (host) or with the layout of clang (targets).
"""
import ctypes
import itertools
import os
import subprocess

from .. import engine, impl, oracle

# member -> (text, [(field, kind)]); {N} the class, {i} the place in it, {u} a
# unique suffix; kinds: p plain, b bit-field
MEMBERS = {
    'c': ('char f{i};', 'p'), 'i': ('int f{i};', 'p'), 's': ('short f{i};', 'p'), 'l': ('long f{i};', 'p'), 'd': ('double f{i};', 'p'), 'p': ('void *f{i};', 'p'), 'a': ('short f{i}[3];', 'p'),
    'bool': ('bool f{i};', 'p'), 'c16': ('char16_t f{i};', 'p'), 'c32': ('char32_t f{i};', 'p'), 'wc': ('wchar_t f{i};', 'p'), 'ac16': ('char16_t f{i}[3];', 'p'), 'awc': ('wchar_t f{i}[2];', 'p'), 'pc16': ('const char16_t *f{i};', 'p'), 'enum': ('enum E{u} {{ A{u}, B{u} }} f{i};', 'p'), 'eclass': ('enum class G{u} : char {{ X{u} }} f{i};', 'p'), 'self': ('{N} *f{i};', 'p'),
    'lref': ('int &f{i};', 'p'), 'rref': ('double &&f{i};', 'p'), 'cref': ('const {N} &f{i};', 'p'), 'sref': ('short &&f{i};', 'p'), 'tref': ('typedef char &Z{u}; Z{u} f{i};', 'p'), 'cst': ('const int f{i} = 3;', 'p'), 'mut': ('mutable short f{i};', 'p'), 'init': ('int f{i} = 7;', 'p'), 'vol': ('volatile char f{i};', 'p'),
    'bit': ('int f{i} : 5;', 'b'), 'ubit': ('unsigned f{i} : 9;', 'b'), 'cbit': ('unsigned char f{i} : 3;', 'b'), 'anon': ('union {{ int f{i}; char g{i}; }};', 'p'), 'nest': ('struct N{u} {{ char x; int y; }} f{i};', 'p'), 'clsn': ('class C{u} {{ short x; char y; }} f{i};', 'p'),
    'fun': ('int (*f{i})(char);', 'p'), 'tdf': ('typedef short T{u}; T{u} f{i};', 'p'), 'usg': ('using U{u} = long; U{u} f{i};', 'p'), 'al': ('alignas(16) char f{i};', 'p'), 'arrn': ('struct M{u} {{ char x[3]; }} f{i}[2];', 'p'), 'npt': ('decltype(nullptr) f{i};', 'p'),
    # no storage
    'sint': ('static int s{i};', ''), 'scst': ('static const int s{i} = 4;', ''), 'cexpr': ('static constexpr long s{i} = 4;', ''), 'meth': ('int m{i}(int);', ''), 'body': ('int m{i}() {{ return 1; }}', ''), 'smeth': ('static int m{i}();', ''),
    'ctor': ('{N}(int, char);', ''), 'dtor': ('~{N}();', ''), 'copy': ('{N}(const {N} &);', ''), 'virt': ('virtual int v{i}();', ''), 'pure': ('virtual int v{i}() = 0;', ''), 'vdtor': ('virtual ~{N}();', ''), 'op': ('bool operator==(const {N} &) const;', ''), 'conv': ('operator int() const;', ''),
    'friend': ('friend class Other;', ''), 'typedef': ('typedef char T{u};', ''), 'using': ('using U{u} = int;', ''), 'decl': ('struct N{u};', ''), 'def': ('struct N{u} {{ long q; }};', ''), 'enum0': ('enum {{ K{u} = 3 }};', ''), 'priv': ('private:', ''), 'prot': ('protected:', ''), 'pub': ('public:', ''),
    'assert': ('static_assert(true, "");', ''), 'tmpl': ('template <class T> T m{i}(T);', ''), 'sarr': ('static char s{i}[5];', ''), 'srec': ('static {N} s{i};', ''),
}
REFS = {'lref', 'rref', 'cref', 'sref', 'tref'}
ONCE = {'ctor': 'ctor', 'dtor': 'dtor', 'vdtor': 'dtor', 'copy': 'copy', 'op': 'op', 'conv': 'conv'}
NOT_IN_UNION = REFS | {'virt', 'pure', 'vdtor', 'bit', 'ubit', 'cbit', 'sint', 'scst', 'sarr', 'srec', 'cexpr'}
INITS = {'init', 'cst'}
# base -> (text before the class, base clause, fields, are they checked)
BASES = {
    '': ('', '', []),
    'pod': ('struct B{n} {{ int b0; char b1; }};', 'B{n}', ['b0', 'b1']),
    'full': ('struct B{n} {{ int b0; int b1; }};', 'B{n}', ['b0', 'b1']),
    'private': ('class B{n} {{ int b0; char b1; }};', 'B{n}', ['b0', 'b1']),
    'ctor': ('struct B{n} {{ B{n}(); long b0; short b1; }};', 'B{n}', ['b0', 'b1']),
    'virt': ('class B{n} {{ public: virtual int bv(); int b0; char b1; }};', 'B{n}', ['b0', 'b1']),
    'abstract': ('struct B{n} {{ virtual int bv() = 0; virtual ~B{n}(); }};', 'B{n}', []),
    'empty': ('struct B{n} {{ }};', 'B{n}', []),
    'static': ('struct B{n} {{ static int x; int m(); }};', 'B{n}', []),
    'bits': ('struct B{n} {{ int b0; unsigned b1 : 9; int b2 : 4; }};', 'B{n}', ['b0']),
    'bitsp': ('class B{n} {{ int b0; unsigned b1 : 9; }};', 'B{n}', ['b0']),
    'chain': ('struct A{n} {{ long b2; }}; struct B{n} : A{n} {{ int b0; char b1; }};', 'B{n}', ['b2', 'b0', 'b1']),
    'chain3': ('class X{n} {{ char b3; }}; class A{n} : X{n} {{ char b2; }}; class B{n} : public A{n} {{ int b0; char b1; }};', 'B{n}', ['b3', 'b2', 'b0', 'b1']),
    'vchain': ('struct A{n} {{ char b2; }}; struct B{n} : A{n} {{ virtual int bv(); int b0; char b1; }};', 'B{n}', ['b2', 'b0', 'b1']),
    'echain': ('struct A{n} {{ }}; struct B{n} : A{n} {{ char b0; short b1; }};', 'B{n}', ['b0', 'b1']),
    'anon': ('struct B{n} {{ union {{ int b0; char b1; }}; struct {{ char b2; }}; }};', 'B{n}', ['b0', 'b1', 'b2']),
    'forward': ('{kind} R{n}; struct B{n} {{ R{n} *b0; char b1; }};', 'B{n}', ['b0', 'b1']),
    'sforward': ('struct B{n}; struct P{n} {{ B{n} *p; }}; struct B{n} {{ P{n} *b0; char b1; }};', 'B{n}', ['b0', 'b1']),
    'ns': ('namespace bs{n} {{ struct B{n} {{ int b0; char b1; }}; }}', 'bs{n}::B{n}', ['b0', 'b1']),
    'typedef': ('struct B{n} {{ int b0; char b1; }}; typedef B{n} TB{n};', 'TB{n}', ['b0', 'b1']),
    'aligned': ('struct alignas(16) B{n} {{ char b0; }};', 'B{n}', ['b0']),
    'packed': ('struct __attribute__((packed)) B{n} {{ char b0; int b1; }};', 'B{n}', ['b0', 'b1']),
    'nested': ('struct I{n} {{ short x; }}; struct B{n} {{ I{n} b0[2]; I{n} b1; }};', 'B{n}', ['b0', 'b1']),
    'vvchain': ('struct A{n} {{ virtual int av(); int b2; }}; struct B{n} : A{n} {{ int b0; char b1; }};', 'B{n}', ['b2', 'b0', 'b1']),
    'vvvchain': ('struct X{n} {{ virtual ~X{n}(); }}; struct A{n} : X{n} {{ char b2; }}; class B{n} : public A{n} {{ long b0; char b1; }};', 'B{n}', ['b2', 'b0', 'b1']),
    # members of the same names as those of the class
    'hidden': ('struct B{n} {{ char f0; long f1; char b0; }};', 'B{n}', ['b0']),
    'hiddent': ('struct B{n} {{ B{n}(); long f1; short b0; char f0; }};', 'B{n}', ['b0']),
    'hiddenc': ('struct A{n} {{ long f0; char b1; }}; struct B{n} : A{n} {{ union {{ int f1; char f0; }}; short b0; }};', 'B{n}', ['b1', 'b0']),
    'hiddenb': ('struct B{n} {{ long b0; int f0 : 5; int f1 : 9; }};', 'B{n}', ['b0']),
    'cross': ('struct Q{n}; struct B{n} {{ Q{n} *b0; int b1; }}; struct Q{n} {{ B{n} q; }};', 'B{n}', ['b0', 'b1']),
}
ACCESS = ['public ', 'private ', 'protected ', '']
# only size and own members
OPAQUE = {
    'vbase': ('struct B{n} {{ int b0; char b1; }};', 'virtual B{n}'),
    'vvirt': ('struct B{n} {{ virtual int bv(); int b0; }};', 'virtual B{n}'),
    'two': ('struct A{n} {{ char b2; }}; struct B{n} {{ int b0; char b1; }};', 'A{n}, B{n}'),
    'twov': ('struct A{n} {{ char b2; }}; struct B{n} {{ virtual int bv(); int b0; }};', 'A{n}, B{n}'),
    'inner': ('struct B{n} {{ class R{n} *b0; char b1; }};', 'B{n}'),
}
CONTEXTS = {
    '': ('{def}', ''), 'ns': ('namespace ns{n} {{ {def} }}', 'ns{n}::'), 'nsns': ('namespace ns{n} {{ namespace in{n} {{ {def} }} }}', 'ns{n}::in{n}::'), 'inline': ('inline namespace v{n} {{ {def} }}', ''),
    'nsc': ('namespace n{n}::m{n} {{ {def} }}', 'n{n}::m{n}::'), 'anon': ('namespace {{ {def} }}', ''), 'C': ('extern "C++" {{ {def} }}', ''), 'reopen': ('namespace r{n} {{ struct F{n} {{ int x; }}; }} namespace r{n} {{ {def} }}', 'r{n}::'),
    'fwd': ('{kw} R{n}; {def}', ''), 'fwd2': ('{other} R{n}; {def}', ''), 'use': ('{def} struct Use{n} {{ R{n} *p; R{n} v; char c; }};', ''), 'pack': ('#pragma pack(push, 2)\n{def}\n#pragma pack(pop)', ''),
    'nested': ('struct O{n} {{ {kw} R{n} {{ {body} }} o0; }};', 'O{n}::'), 'tdef': ('typedef {kw} R{n} {{ {body} }} TR{n};', ''), 'var': ('{kw} R{n} {{ {body} }}; extern R{n} var{n};', ''), 'packed': ('{kw} __attribute__((packed)) R{n} {{ {body} }};', ''),
}
PROLOG = 'class Other;\n'
MAIN = r'''
#include <stdio.h>
#include <string.h>
static void hex(const void *p, unsigned long n) { const unsigned char *b = (const unsigned char *)p; for (unsigned long i = 0; i < n; i++) printf("%02x", b[i]); printf(" "); }
alignas(64) static unsigned char room[4096];
'''


def fields(word, base):
    out = [(f, 'p') for f in (BASES[base][2] if base in BASES else [])]
    for i, m in enumerate(word):
        kind = MEMBERS[m][1]
        if kind:
            out.append(('f%d' % i, kind))
        if m == 'anon':
            out.append(('g%d' % i, 'p'))
    return out


def definition(n, case, compiler):
    _tg, kind, word, base, access, ctx = case
    name = 'R%d' % n
    body = []
    for i, m in enumerate(word):
        t = MEMBERS[m][0]
        if compiler and m in REFS:
            # one can not have the address of a reference, which is a pointer
            t = 'void *f{i};'
        body.append(t.format(N=name, i=i, u='_%d_%d' % (n, i)))
    if 'meth' not in word and 'virt' not in word:
        pass
    if base in OPAQUE:
        pre, clause = OPAQUE[base]
    else:
        pre, clause, _ = BASES[base]
    clause = ' : ' + access + clause.format(n=n) if clause else ''
    text = ' '.join(body)
    d = '%s %s%s { %s };' % (kind, name, clause, text)
    c = CONTEXTS[ctx][0].format(n=n, kw=kind, other='struct' if kind == 'class' else 'class', body=text, **{'def': d})
    return pre.format(n=n, kind=kind) + ' ' + c


def qualified(n, ctx):
    return CONTEXTS[ctx][1].format(n=n) + 'R%d' % n


def valid(kind, word, base=''):
    if base == 'packed' and set(word) & {'bit', 'ubit', 'cbit'}:
        # C02
        return False
    if 'srec' in word and ('pure' in word or base == 'abstract'):
        return False
    once = [ONCE[m] for m in word if m in ONCE]
    if len(once) != len(set(once)):
        return False
    if kind == 'union':
        return not set(word) & NOT_IN_UNION and sum(m in INITS for m in word) < 2
    return True


def gxx(cases):
    src = [MAIN, PROLOG]
    body = []
    for n, case in enumerate(cases):
        src.append(definition(n, case, True))
        q = qualified(n, case[5])
        body.append('{ %s *r = (%s *)room; printf("%%lu ", (unsigned long)sizeof(*r));' % (q, q))
        for f, kind in fields(case[2], case[3]):
            if kind == 'p':
                body.append('printf("%%lu:%%lu ", (unsigned long)((char *)&r->%s - (char *)r), (unsigned long)sizeof(r->%s));' % (f, f))
            else:
                body.append('memset(room, 0, sizeof(room)); r->%s = -1; hex(r, sizeof(*r)); memset(room, 0, sizeof(room));' % f)
        body.append('printf("\\n"); }')
    src.append('int main() {\n%s\nreturn 0; }' % '\n'.join(body))
    exe = os.path.join(impl.scratch(), 'layout')
    p = subprocess.run(['g++', '-x', 'c++', '-std=c++17', '-w', '-O0', '-fno-access-control', '-o', exe, '-'], input='\n'.join(src), text=True, capture_output=True)
    if p.returncode:
        raise RuntimeError(p.stderr[:3000])
    out = subprocess.run([exe], capture_output=True, text=True, check=True).stdout
    res = []
    for line in out.splitlines():
        v = line.split()
        res.append((int(v[0]), [tuple(map(int, x.split(':'))) if ':' in x else int.from_bytes(bytes.fromhex(x), 'little') for x in v[1:]]))
    return res


def clang(cases, opts):
    src = PROLOG + '\n'.join(definition(n, c, True) for n, c in enumerate(cases)) + '\n'
    exprs = []
    for n, case in enumerate(cases):
        q = qualified(n, case[5])
        exprs.append('sizeof(%s)' % q)
        for f, kind in fields(case[2], case[3]):
            if kind == 'p':
                exprs += ['__builtin_offsetof(%s, %s)' % (q, f), 'sizeof(((%s *)0)->%s)' % (q, f)]
    vals = iter(oracle.clang_consts(src, exprs, list(opts) + ['-std=c++17', '-fno-access-control'], lang='cpp'))
    res = []
    for case in cases:
        size = next(vals)
        res.append((size, [(next(vals), next(vals)) if kind == 'p' else None for f, kind in fields(case[2], case[3])]))
    return res


def check_class(cls, case, size, want):
    if ctypes.sizeof(cls) != size:
        return 'size', '%d / %d' % (ctypes.sizeof(cls), size)
    if case[3] == 'anon' and 'anon' in case[2]:
        # the unnamed members of the base and of the class
        n = len(cls.as_dict(cls()))
        if n != 2 + sum(1 for m in case[2] if MEMBERS[m][1]):
            return 'members of as_dict', '%d' % n
    for (f, kind), w in zip(fields(case[2], case[3]), want):
        if not hasattr(cls, f):
            return 'missing', f
        if w is None:
            continue
        if kind == 'p':
            d = getattr(cls, f)
            sz = d.size if d.size < 1 << 16 else None
            if sz is None:
                # plain members next to bit-fields can be bit-fields of all their bits
                sz = (d.size >> 16) // 8
                off = d.offset + (d.size & 0xffff) // 8
            else:
                off = d.offset
            if (off, sz) != w:
                return 'offset or size', '%s: %s / %s' % (f, (off, sz), w)
        else:
            o = cls()
            setattr(o, f, -1)
            got = int.from_bytes(bytes(o), 'little')
            if got != w:
                return 'bits', '%s: %x / %x' % (f, got, w)
    return None


# ----------------------------------------------------------------------
# declarations outside of classes: name -> (text, check of the module)
def has(*names):
    return lambda ns: [n for n in names if n not in ns]


def value(**kw):
    return lambda ns: [n for n, v in kw.items() if n not in ns or ns[n] != v]


def size(**kw):
    return lambda ns: [n for n, v in kw.items() if n not in ns or ctypes.sizeof(ns[n]) != v]


def func(name, res, *args):
    def check(ns):
        f = ns.get('_calls', {}).get(name)
        if f is None:
            return [name]
        return [] if (f[0], len(f[1])) == (res, args[0]) else [name + ' prototype: %s' % (f,)]
    return check


DECLS = {
    'enum': ('enum Color {u} {{ RED{u}, GREEN{u} = 5 }};'.replace('Color {u}', 'Color{u}'), lambda u: value(**{'RED' + u: 0, 'GREEN' + u: 5})),
    'eclass': ('enum class Shade{u} {{ DARK{u} = 2, LIGHT{u} }};', lambda u: value(**{'DARK' + u: 2, 'LIGHT' + u: 3})),
    'etyped': ('enum Small{u} : unsigned char {{ ONE{u} = 1 }};', lambda u: lambda ns: value(**{'ONE' + u: 1})(ns) + size(**{'Small' + u: 1})(ns)),
    'elong': ('enum class Big{u} : long long {{ BIG{u} = 1LL << 40 }};', lambda u: lambda ns: value(**{'BIG' + u: 1 << 40})(ns) + size(**{'Big' + u: 8})(ns)),
    'eneg': ('enum Neg{u} {{ NEG{u} = -3 }};', lambda u: value(**{'NEG' + u: -3})),
    'struct': ('struct S{u} {{ char a; int b; }};', lambda u: size(**{'struct_S' + u: 8})),
    'class': ('class K{u} {{ char a; long b; }};', lambda u: size(**{'class_K' + u: 16})),
    'union': ('union W{u} {{ char a[5]; int b; }};', lambda u: size(**{'union_W' + u: 8})),
    'cstyle': ('typedef struct T{u} {{ short a; }} T{u};', lambda u: size(**{'struct_T' + u: 2, 'T' + u: 2})),
    'unnamed': ('typedef struct {{ short a[3]; }} Un{u};', lambda u: size(**{'Un' + u: 6})),
    'alias': ('using Al{u} = unsigned short;', lambda u: size(**{'Al' + u: 2})),
    'typedef': ('typedef long Td{u};', lambda u: size(**{'Td' + u: 8})),
    'function': ('int fn{u}(int, char);', lambda u: has('fn' + u)),
    'fref': ('struct Fr{u} {{ int a; }}; Fr{u} &fr{u}(const Fr{u} &, Fr{u} &&, int *&);', lambda u: lambda ns: has('fr' + u)(ns) + size(**{'struct_Fr' + u: 4})(ns)),
    'fdef': ('int fd{u}(int a = 4, const char *b = nullptr);', lambda u: has('fd' + u)),
    'fover': ('int fo{u}(int); int fo{u}(double, char);', lambda u: has('fo' + u)),
    'finline': ('inline int fi{u}(int a) {{ return a + 1; }}', lambda u: has('fi' + u)),
    'fnoex': ('void fx{u}() noexcept;', lambda u: has('fx' + u)),
    'ftail': ('auto ft{u}(int) -> long;', lambda u: has('ft' + u)),
    'template': ('template <class T> struct Tp{u} {{ T a; }};', lambda u: has()),
    'tfun': ('template <class T> T tf{u}(T);', lambda u: has()),
    'cvar': ('extern int ev{u};', lambda u: has('ev' + u)),
    'const': ('const int cv{u} = 12;', lambda u: value(**{'cv' + u: 12})),
    'cexpr': ('constexpr long ce{u} = 13;', lambda u: value(**{'ce' + u: 13})),
    'global': ('int gv{u} = 14;', lambda u: value(**{'gv' + u: 14})),
    'bool': ('const bool bt{u} = true; const bool bf{u} = false;', lambda u: value(**{'bt' + u: True, 'bf' + u: False})),
    'refvar': ('extern int &rv{u};', lambda u: has()),
    'assert': ('static_assert(sizeof(char) == 1, "");', lambda u: has()),
    'forward': ('class Fw{u};', lambda u: has()),
    'out': ('struct Om{u} {{ int m(); static int s; }}; int Om{u}::m() {{ return 1; }} int Om{u}::s = 5;', lambda u: size(**{'struct_Om' + u: 1})),
    'usingns': ('namespace un{u} {{ struct Un2{u} {{ int a; }}; }} using namespace un{u};', lambda u: size(**{'struct_Un2' + u: 4})),
    'usingd': ('namespace ud{u} {{ struct Ud{u} {{ int a; }}; }} using ud{u}::Ud{u};', lambda u: size(**{'struct_Ud' + u: 4})),
    'nsalias': ('namespace na{u} {{ struct Na{u} {{ int a; }}; }} namespace nb{u} = na{u};', lambda u: size(**{'struct_Na' + u: 4})),
    'operator': ('struct Op{u} {{ int a; }}; bool operator<(const Op{u} &, const Op{u} &);', lambda u: size(**{'struct_Op' + u: 4})),
    'lambda': ('auto la{u} = 5;', lambda u: has('la' + u)),
    'empty': (';', lambda u: has()),
    'attr': ('[[deprecated]] int at{u}(); struct [[nodiscard]] At{u} {{ char a; }};', lambda u: lambda ns: has('at' + u)(ns) + size(**{'struct_At' + u: 1})(ns)),
    'inst': ('template <class T> struct Ti{u} {{ T a; char b; }}; struct Ui{u} {{ Ti{u}<int> x; char c; }};', lambda u: size(**{'struct_Ui' + u: 12})),
    'fptr': ('typedef int (*Fp{u})(const char &, bool);', lambda u: size(**{'Fp' + u: 8})),
    'wstr': ('const wchar_t *ws{u} = L"a\u00e9"; wchar_t wa{u}[] = L"bc"; const char16_t *us{u} = u"x" u"y"; char32_t ua{u}[] = U"z\\u4e2d"; char16_t ub{u}[5] = {{u"q"}};', lambda u: value(**{'ws' + u: 'a\u00e9', 'wa' + u: 'bc', 'us' + u: 'xy', 'ua' + u: 'z\u4e2d', 'ub' + u: 'q'})),
    'wtypes': ('using Wc{u} = wchar_t; using W1{u} = char16_t; typedef char32_t W3{u}; enum class We{u} : char16_t {{ WE{u} = 65535 }};', lambda u: lambda ns: size(**{'Wc' + u: 4, 'W1' + u: 2, 'W3' + u: 4, 'We' + u: 2})(ns) + value(**{'WE' + u: 65535})(ns)),
    'specific': ('struct Sp{u} {{ Sp{u}() = default; Sp{u}(const Sp{u} &) = delete; int a; private: int b; }};', lambda u: size(**{'struct_Sp' + u: 8})),
}
# values of variables: type x way to write it x initialiser, compared with g++
VTYPES = {'bool': '%d', 'int': '%d', 'unsigned': '%u', 'long': '%ld', 'char': '%d', 'unsigned char': '%d', 'short': '%d', 'double': '%.17g', 'float': '%.17g', 'Ev': '%d', 'Ec': '%d', 'Es': '%d', 'void *': '%p', 'int *': '%p', 'const char *': '%s', 'decltype(nullptr)': '%p', 'char16_t': '%d', 'char32_t': '%u', 'wchar_t': '%d'}
VINIT = ['', "u'x'", "U'x'", "L'x'", "u'\\n'", "U'\\U0001f600'", "u'\u00e9'", "L'\\x12'", '0', '5', '-1', 'true', 'false', "'a'", '1.5', '0x1f', '0b101', '017', "1'000", '5L', '7u', 'int(5)', 'static_cast<int>(6)', '(int)7', 'bool(0)', 'char(66)', 'double(2)', 'EV1', 'Ec::EC1', 'Es::ES1', 'Ev::EV1',
         'sizeof(int)', '1 + 2', '1 << 4', '!true', '!0', 'true && false', 'nullptr', '"abc"', '"a" "b"', 'R"(raw)"', 'R"(f(x))"', 'R"xy(a)"b)xy"', 'R"()"', 'R"(()"', 'R"a(b)a)a"', 'R"0123456789abcde(a)b)0123456789abcde"', 'R"0123456789abcdef(a(b)0123456789abcdef"', 'R"(a\\n"\\)"', 'u8R"(a)b)"', 'u8"x"', '~0', 'true ? 3 : 4', 'EV1 + 1', "u8'c'", 'int{4}', '+true', '-(-3)', 'cx', 'cx + 1', '1.5f', '1e3', '-2.5',
         'static_cast<Ev>(1)', 'Ev(3)', 'const_cast<int &&>(3)', 'int()', 'bool()', 'double()', 'alignof(long)', 'noexcept(1)']
VFORM = {'eq': ' = %s;', 'brace': '{%s};', 'eqbrace': ' = {%s};', 'paren': '(%s);'}
VSTOR = ['', 'const ', 'constexpr ', 'static ', 'static constexpr ', 'inline ']
VPRE = 'enum Ev { EV0, EV1 = 3 }; enum class Ec { EC0, EC1 = 2 }; enum class Es : char { ES0, ES1 = 4 }; constexpr int cx = 11;\n'


# those that no compiler or no name of C gives anything to check
WRAP = {'': '%s', 'ns': 'namespace w1 { %s }', 'nsns': 'namespace w1 { namespace w2 { %s } }', 'C': 'extern "C" { %s }', 'Cns': 'namespace w1 { extern "C" { %s } }', 'nsC': 'extern "C" { namespace w1 { %s } }', 'inline': 'inline namespace w1 { %s }', 'C++': 'extern "C++" { %s }'}
NOT_C = {'template', 'tfun', 'inst', 'fover', 'operator'}


OPERATORS = [('void *operator new(unsigned long);', 'void *operator new[](unsigned long);', 'void operator delete(void *) noexcept;', 'void operator delete[](void *) noexcept;'),
             ('struct Q { int a; };', 'bool operator<(const Q &, const Q &);', 'Q operator+(const Q &, const Q &);', 'Q operator,(const Q &, const Q &);', 'bool operator&&(const Q &, int);', 'Q operator""_q(unsigned long long);', 'Q operator"" _r(const char *);')]


class C25(engine.Check):
    id = 'C25'
    technique = 'explicit-state bounded enumeration of C++ class definitions and declaration sequences, every state replayed on the real translator and compared with g++-compiled code and the layout of clang'
    level_note = 'exhaustive within the stated alphabets and lengths'
    batch = 40
    rule = ('state = (kind of class, base class, context, sequence of member declarations); all sequences up to length 2 over 61 declarations (thorough: 3 over 22), 30 bases times 4 accesses times all declarations and pairs of a smaller alphabet, '
            '5 kinds of virtual and multiple bases, 16 contexts, 5 targets; all pairs of 42 declarations outside of classes in 8 contexts; operators next to names of every length up to 80')
    assumptions = ['references are pointers', 'fields of virtual and multiple bases are not looked for', 'classes of the same name in two namespaces are not told apart']

    def cases(self):
        def mk(fam, kind, word, base='', access='', ctx='', tg='host'):
            return engine.Case('%s/%s/%s %s%s/%s:%s' % (fam, tg, kind, access, base, ctx, ','.join(word)), (tg, kind, tuple(word), base, access, ctx))
        prod = itertools.product
        full = list(MEMBERS)
        small = ['c', 'i', 'l', 'bit', 'ubit', 'anon', 'virt', 'lref', 'priv', 'sint', 'meth', 'nest']
        mid = small + ['eclass', 'a', 'def', 'vdtor', 'cst', 'ctor', 'scst', 'self', 'enum', 'usg']
        words = [w for n in (0, 1, 2) for w in prod(full, repeat=n)] + list(prod(mid if self.thorough else small[:9], repeat=3))
        for kind in ('struct', 'class', 'union'):
            for w in words:
                if kind == 'class' and len(w) == 2 and not self.thorough and not set(w) & set(small):
                    continue
                if valid(kind, w):
                    yield mk('members', kind, w)
        bwords = [w for n in (0, 1) for w in prod(full, repeat=n)] + list(prod(mid if self.thorough else ['c', 'i', 'ubit', 'virt', 'sint', 'priv'], repeat=2))
        if self.thorough:
            bwords += list(prod(small[:9], repeat=3))
        for base in BASES:
            for kind, access in prod(('struct', 'class'), ACCESS) if base else ():
                if access in ('protected ', '') and kind == 'class' and not self.thorough:
                    continue
                for w in bwords if self.thorough or access == 'public ' else bwords[:len(full) + 1:4]:
                    if valid(kind, w, base):
                        yield mk('base', kind, w, base, access)
        for base in OPAQUE:
            for kind in ('struct', 'class'):
                for w in bwords:
                    if valid(kind, w):
                        yield mk('opaque', kind, w, base)
        for ctx in CONTEXTS:
            for kind in ('struct', 'class', 'union'):
                if kind == 'union' and ctx == 'fwd2' or not ctx:
                    continue
                for w in bwords:
                    if not valid(kind, w) or ctx in ('nested', 'use', 'var') and set(w) & {'pure'} or ctx in ('nested', 'tdef') and set(w) & {'srec', 'tmpl'}:
                        continue
                    if ctx in ('nested', 'use') and kind == 'union' and set(w) & {'nest', 'clsn', 'arrn'} and False:
                        continue
                    if ctx == 'use' and set(w) & (REFS | {'dtor', 'ctor', 'copy', 'vdtor'}):
                        continue
                    if ctx in ('pack', 'packed') and set(w) & {'bit', 'ubit', 'cbit'}:
                        # C02
                        continue
                    yield mk('context', kind, w, ctx=ctx)
                    if kind != 'union' and len(w) < 2 and ctx not in ('nested', 'packed', 'tdef', 'var', 'pack'):
                        for base in ('pod', 'private', 'virt') if ctx not in ('nsns', 'nsc') or self.thorough else ('pod',):
                            yield mk('context', kind, w, base, 'public ', ctx)
        for tg in ('i386-linux', 'x86_64-windows', 'arm', 'riscv32', 'x32'):
            for kind in ('struct', 'class', 'union'):
                for w in bwords:
                    if valid(kind, w) and not set(w) & REFS:
                        yield mk('target', kind, w, tg=tg)
            if tg == 'x86_64-windows':
                # another ABI, with other places of bases
                continue
            for base in BASES:
                for w in bwords if self.thorough else bwords[:len(full) + 1]:
                    if base and valid('struct', w, base) and not set(w) & REFS:
                        yield mk('target', 'struct', w, base, 'public ', '', tg)
        for wrap in WRAP:
            for n in (1, 2) if wrap == '' or self.thorough else (1,):
                for w in prod(DECLS, repeat=n):
                    if 'C' in wrap.replace('C++', '') and set(w) & NOT_C:
                        continue
                    yield engine.Case('declarations/%s:%s' % (wrap, ','.join(w)), ('decl', wrap, w))

        # the names of operators, at every place of the lines of __all__
        for ops in OPERATORS:
            for n in range(1, 161 if self.thorough else 81):
                yield engine.Case('operators/%s/%d' % (OPERATORS.index(ops), n), ('op', ops, n))
        for t in VTYPES:
            for form in VFORM:
                for stor in VSTOR if self.thorough or t in ('bool', 'int', 'Ec') else ('', 'const '):
                    for v in VINIT:
                        if not v and form in ('eq', 'paren'):
                            continue
                        if form == 'paren' and v.endswith('()'):
                            # a function
                            continue
                        if 'brace' in form and v.endswith('()'):
                            # outside of the statement: not a literal, nor an operation on any
                            continue
                        if t in ('char', 'unsigned char') and v == '1e3' or t in ('unsigned', 'unsigned char', 'char16_t', 'char32_t') and v == '-2.5':
                            # undefined conversions
                            continue
                        yield engine.Case('values/%s%s%s' % (stor, t, VFORM[form] % v), ('value', stor, t, form, v))

    def group(self, case):
        return case.payload[0]

    _valid = None

    @staticmethod
    def variable(n, case):
        _, stor, t, form, v = case
        if t.startswith('const ') and stor == 'const ':
            stor, t = '', 'const char *const'
        elif stor == 'const ' and '*' in t:
            stor, t = '', t + 'const'
        return '%s%s v%d%s' % (stor, t, n, VFORM[form] % v)

    def run_values(self, cases):
        # the declarations that are valid, by the compiler
        import re
        lines = [self.variable(n, c.payload) for n, c in enumerate(cases)]
        p = subprocess.run(['clang', '-x', 'c++', '-std=c++17', '-w', '-ferror-limit=0', '-fsyntax-only', '-'], input=PROLOG + VPRE + '\n'.join(lines), text=True, capture_output=True)
        bad = {int(m) - 3 for m in re.findall(r'^<stdin>:(\d+):\d+: error', p.stderr, re.M)}
        good = [n for n in range(len(cases)) if n not in bad]
        src = [MAIN, PROLOG, VPRE] + [lines[n] for n in good] + ['int main() {']
        for n in good:
            t = cases[n].payload[2]
            arg = 'v%d' % n
            if t in ('Ev', 'Ec', 'Es'):
                arg = '(int)' + arg
            elif '*' in t and t != 'const char *' or t.startswith('decl'):
                arg = '(void *)' + arg
            elif t == 'const char *':
                arg = '(v%d ? v%d : "<null>")' % (n, n)
            src.append('printf("%s\\n", %s);' % (VTYPES[t], arg))
        src.append('return 0; }')
        exe = os.path.join(impl.scratch(), 'values')
        p = subprocess.run(['clang++', '-x', 'c++', '-std=c++17', '-w', '-o', exe, '-'], input='\n'.join(src), text=True, capture_output=True)
        if p.returncode:
            raise RuntimeError(p.stderr[:2000])
        want = subprocess.run([exe], capture_output=True, text=True, check=True).stdout.splitlines()
        ns = self.module(PROLOG + VPRE + '\n'.join(lines[n] for n in good) + '\n', [])
        res = [None] * len(cases)
        for n, w in zip(good, want):
            t = cases[n].payload[2]
            got = ns.get('v%d' % n, 'no variable')
            if '*' in t and t != 'const char *' or t.startswith('decl'):
                ok = not got and w == '(nil)'
            elif t == 'const char *':
                ok = got == w if w != '<null>' else not got
            elif isinstance(got, (str, bytes)) and len(got) == 1:
                ok = ord(got) == int(w)
            elif not isinstance(got, (int, float)):
                ok = False
            elif t == 'bool':
                ok = bool(got) == bool(int(w))
            elif t in ('float', 'double'):
                ok = (ctypes.c_float(got).value if t == 'float' else got) == float(w)
            else:
                bits = {'char': 8, 'unsigned char': 8, 'Es': 8, 'short': 16, 'char16_t': 16, 'long': 64}.get(t, 32)
                ok = (int(got) - int(w)) % (1 << bits) == 0
            if not ok:
                res[n] = ('value', '%s: %r / %s' % (lines[n], got, w))
        return res

    def run_batch(self, cases):
        if cases[0].payload[0] == 'decl':
            return self.run_decls(cases)
        if cases[0].payload[0] == 'value':
            return self.run_values(cases)
        if cases[0].payload[0] == 'op':
            return [self.run_operators(*c.payload[1:]) for c in cases]
        tg = cases[0].payload[0]
        opts = list(oracle.TARGETS[tg])
        P = [c.payload for c in cases]
        layouts = gxx(P) if tg == 'host' else clang(P, opts)
        text = PROLOG + '\n'.join(definition(n, p, False) for n, p in enumerate(P)) + '\n'
        ns = self.module(text, opts)
        res = []
        for n, (p, (size, want)) in enumerate(zip(P, layouts)):
            cls = ns.get('%s_R%d' % (p[1], n))
            try:
                bad = ('class missing', '') if cls is None else check_class(cls, p, size, want)
            except Exception as e:
                bad = ('use:' + impl.exc_sig(e), impl.tb(e))
            res.append(None if bad is None else (bad[0], '%s\n%s\n%s' % (bad[1], definition(n, p, False), getattr(cls, '_fields_', None))))
        return res

    def module(self, text, opts):
        try:
            out = impl.gen(text, list(opts) + ['-std=c++17'], name='m.cpp')
        except Exception as e:
            raise self.BatchFailed(('translate:' + impl.exc_sig(e), impl.tb(e) + '\n' + text[-1500:]))
        try:
            return impl.load(out)
        except Exception as e:
            raise self.BatchFailed(('load:' + impl.exc_sig(e), impl.tb(e) + '\n' + text[-800:] + impl.strip_text(out)[-2000:]))

    def run_operators(self, ops, n):
        name = 'a' * n
        try:
            ns = self.module('int %s = 5;\n%s\nint last = 6;\n' % (name, '\n'.join(ops)), [])
        except self.BatchFailed as e:
            return e.args[0]
        bad = value(**{name: 5, 'last': 6})(ns) + [x for x in (name, 'last') if x not in ns['__all__']]
        return ('declarations missing or different', '%s: %s' % (bad, ops)) if bad else None

    def run_decls(self, cases):
        text, checks = PROLOG, []
        for n, c in enumerate(cases):
            _, wrap, w = c.payload
            parts = []
            mine = []
            for i, d in enumerate(w):
                u = '_%d_%d' % (n, i)
                parts.append(DECLS[d][0].format(u=u))
                mine.append(DECLS[d][1](u))
            text += WRAP[wrap] % ' '.join(parts) + '\n'
            checks.append((mine, parts))
        ns = self.module(text, [])
        res = []
        for mine, parts in checks:
            bad = [x for m in mine for x in m(ns)]
            res.append(('declarations missing or different', '%s: %s' % (bad, ' '.join(parts))) if bad else None)
        return res

    def stats(self, case):
        if case.payload[0] == 'decl':
            return (1, len(case.payload[2]), 2)
        if case.payload[0] in ('value', 'op'):
            return (1, 1, 1)
        return (1, 1, 1 + 2 * len(fields(case.payload[2], case.payload[3])))


CHECK = C25

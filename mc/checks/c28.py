"""C28: sources of any size. Every shape of declarations that can be made longer,
deeper or more numerous, at every size up to a bound and around powers of two;
what the module must have follows from the size alone.
"""
import ctypes
import io
import os

import ctypeslib

from .. import engine, impl

SHAPES = {}


def shape(limit=None, name='m.c', least=1, kinds=None):
    def deco(f):
        SHAPES[f.__name__.lstrip('_')] = (f, limit, name, least, kinds)
        return f
    return deco


def want(got, expected, what):
    if got != expected:
        raise Wrong('%s: %r, expected %r' % (what, got, expected))


class Wrong(Exception):
    pass


def field(cls, name):
    for f in cls._fields_:
        if f[0] == name:
            return f[1]
    raise Wrong('%s has no member %s' % (cls.__name__, name))


def size(ns, name, expected):
    want(ctypes.sizeof(ns[name]), expected, 'size of ' + name)


# ---- chains of records -------------------------------------------------------
def walk(ns, n, step, last='struct_s%d'):
    cls = ns['struct_s0']
    for i in range(n):
        cls = step(cls)
        if cls is not ns['struct_s%d' % (i + 1)]:
            raise Wrong('record %d is %r' % (i + 1, cls))
        want(len(cls._fields_), 1, 'members of record %d' % (i + 1))
    size(ns, 'struct_s%d' % n, 4)


def chain(n, member):
    return ''.join('struct s%d { %s; };\n' % (i, member.replace('@', 'struct s%d' % (i + 1))) for i in range(n)) + 'struct s%d { int a; };\n' % n


@shape(500)
def pointers_forward(n):
    return chain(n, '@ *p'), lambda ns: walk(ns, n, lambda c: field(c, 'p')._type_)


@shape()
def pointers_back(n):
    return ''.join(reversed(chain(n, '@ *p').splitlines(True))), lambda ns: walk(ns, n, lambda c: field(c, 'p')._type_)


@shape(500)
def pointers_to_pointers(n):
    return chain(n, '@ **p'), lambda ns: walk(ns, n, lambda c: field(c, 'p')._type_._type_)


@shape(500)
def pointers_array(n):
    return chain(n, '@ *p[2]'), lambda ns: walk(ns, n, lambda c: field(c, 'p')._type_._type_)


@shape(500)
def pointers_to_array(n):
    return chain(n, '@ (*p[1])').replace('s(', 's ('), lambda ns: walk(ns, n, lambda c: field(c, 'p')._type_._type_)


@shape(300)
def pointers_argument(n):
    return chain(n, 'void (*p)(@ *, int)'), lambda ns: walk(ns, n, lambda c: field(c, 'p')._argtypes_[0]._type_)


@shape(300)
def pointers_result(n):
    return chain(n, '@ *(*p)(int)'), lambda ns: walk(ns, n, lambda c: field(c, 'p')._restype_._type_)


@shape(300)
def pointers_typedef(n):
    return (''.join('struct s%d; typedef struct s%d *q%d;\n' % (i, i, i) for i in range(n + 1)) +
            ''.join('struct s%d { q%d p; };\n' % (i, i + 1) for i in range(n)) + 'struct s%d { int a; };\n' % n,
            lambda ns: walk(ns, n, lambda c: field(c, 'p')._type_))


@shape()
def ring(n):
    def check(ns):
        for i in range(n):
            want(field(ns['struct_s%d' % i], 'p')._type_, ns['struct_s%d' % ((i + 1) % n)], 'record after %d' % i)
    return ''.join('struct s%d { struct s%d *p; };\n' % (i, (i + 1) % n) for i in range(n)), check


@shape()
def star(n):
    def check(ns):
        for i in range(n):
            want(field(ns['struct_c'], 'p%d' % i)._type_, ns['struct_s%d' % i], 'member %d' % i)
            want(field(ns['struct_s%d' % i], 'c')._type_, ns['struct_c'], 'center of %d' % i)
        size(ns, 'struct_c', 8 * n)
    return ('struct c { %s };\n' % ''.join('struct s%d *p%d; ' % (i, i) for i in range(n)) +
            ''.join('struct s%d { struct c *c; };\n' % i for i in range(n))), check


@shape(150)
def mutual(n):
    n = min(n, 40)

    def check(ns):
        for i in range(n):
            want([f[1]._type_ for f in ns['struct_s%d' % i]._fields_], [ns['struct_s%d' % j] for j in range(n)], 'members of %d' % i)
    return ''.join('struct s%d { %s };\n' % (i, ''.join('struct s%d *p%d; ' % (j, j) for j in range(n))) for i in range(n)), check


@shape(500)
def values(n):
    def check(ns):
        for i in range(n + 1):
            size(ns, 'struct_s%d' % i, 4 * (i + 1))
        for i in range(1, n + 1):
            cls = ns['struct_s%d' % i]
            want((cls.p.offset, cls.c.offset, field(cls, 'p')), (0, 4 * i, ns['struct_s%d' % (i - 1)]), 'members of %d' % i)
    return 'struct s0 { int c; };\n' + ''.join('struct s%d { struct s%d p; char c; };\n' % (i + 1, i) for i in range(n)), check


@shape(150, 'm.cpp')
def bases(n):
    def check(ns):
        for i in range(n + 1):
            size(ns, 'struct_s%d' % i, 4 * (i + 1))
            want(getattr(ns['struct_s%d' % n], 'a%d' % i).offset, 4 * i, 'offset of a%d' % i)
    return 'struct s0 { int a0; };\n' + ''.join('struct s%d : s%d { int a%d; };\n' % (i + 1, i, i + 1) for i in range(n)), check


@shape(200)
def nested(n):
    def check(ns):
        for i in range(n):
            size(ns, 'struct_n%d' % i, 4 * (n - i))
            if i:
                want(field(ns['struct_n%d' % (i - 1)], 'm%d' % i), ns['struct_n%d' % i], 'member m%d' % i)
    return ''.join('struct n%d { ' % i for i in range(n)) + ''.join('int a%d; } m%d; ' % (i, i) for i in range(n - 1, 0, -1)) + 'int a0; };', check


@shape(200)
def anonymous(n):
    def check(ns):
        total = 4
        for i in range(n - 1, -1, -1):
            total += 0 if i % 2 else 4
        size(ns, 'struct_n', total)
        obj = ns['struct_n']()
        for i in range(n + 1):
            setattr(obj, 'a%d' % i, 7)
            want(getattr(obj, 'a%d' % i), 7, 'member a%d' % i)
    # alternating structs and unions, innermost first
    text = 'int a%d; ' % n
    for i in range(n - 1, -1, -1):
        text = 'int a%d; %s { %s};' % (i, ('union', 'struct')[i % 2], text)
    return 'struct n { %s };' % text, check


# ---- types -------------------------------------------------------------------
@shape()
def typedefs(n):
    def check(ns):
        for i in range(n + 1):
            want(ns['t%d' % i], ctypes.c_int32, 't%d' % i)
    return 'typedef int t0;\n' + ''.join('typedef t%d t%d;\n' % (i, i + 1) for i in range(n)), check


@shape()
def typedefs_record(n):
    def check(ns):
        for i in range(n + 1):
            want(ns['t%d' % i], ns['struct_s'], 't%d' % i)
    return 'typedef struct s t0; \n' + ''.join('typedef t%d t%d;\n' % (i, i + 1) for i in range(n)) + 'struct s { t%d *p; };' % n, check


@shape(129)
def stars(n):
    def check(ns):
        t = field(ns['struct_s'], 'p')
        for _ in range(n):
            t = t._type_
        want(t, ctypes.c_int32, 'pointee')
    return 'struct s { int %sp; };' % ('*' * n), check


@shape(200)
def typedefs_pointer(n):
    def check(ns):
        for i in range(n):
            want(ns['t%d' % (i + 1)]._type_, ns['t%d' % i], 't%d' % (i + 1))
    return 'typedef int t0;\n' + ''.join('typedef t%d *t%d;\n' % (i, i + 1) for i in range(n)), check


@shape(200)
def dimensions(n):
    def check(ns):
        t = field(ns['struct_s'], 'a')
        for i in range(n):
            want(t._length_, 2 if i < 8 else 1, 'dimension %d' % i)
            t = t._type_
        want(t, ctypes.c_int16, 'element')
        size(ns, 'struct_s', 2 << min(n, 8))
    return 'struct s { short a%s; };' % ''.join('[%d]' % (2 if i < 8 else 1) for i in range(n)), check


@shape(200)
def typedefs_array(n):
    def check(ns):
        for i in range(n):
            want((ns['t%d' % (i + 1)]._type_, ns['t%d' % (i + 1)]._length_), (ns['t%d' % i], 1), 't%d' % (i + 1))
    return 'typedef int t0;\n' + ''.join('typedef t%d t%d[1];\n' % (i, i + 1) for i in range(n)), check


@shape(60)
def callbacks_argument(n):
    text = 'int'
    for i in range(n):
        text = 'void (*)(%s)' % text

    def check(ns):
        t = field(ns['struct_s'], 'p')
        for i in range(n):
            want(t._restype_, None, 'result')
            t = t._argtypes_[0]
        want(t, ctypes.c_int32, 'innermost')
    return 'struct s { %s; };' % text.replace('(*)', '(*p)', 1), check


@shape(60)
def callbacks_result(n):
    text = 'p'
    for i in range(n):
        text = '(*%s)(int)' % text

    def check(ns):
        t = field(ns['struct_s'], 'p')
        for i in range(n):
            want(tuple(t._argtypes_), (ctypes.c_int32,), 'arguments')
            t = t._restype_
        want(t, ctypes.c_int32, 'innermost')
    return 'struct s { int %s; };' % text, check


@shape(44, least=0)
def elements(n):
    """an array of 2**n bytes before a member"""
    def check(ns):
        size(ns, 'struct_s', (1 << n) + 8 if n > 2 else 8)
        want(ns['struct_s'].b.offset, max(1 << n, 4), 'offset of b')
        want(field(ns['struct_s'], 'a')._length_, 1 << n, 'length')
    return 'struct s { char a[1UL << %d]; int b; char c[%d]; };' % (n, 4 if n > 2 else 0), check


@shape(24, least=0)
def alignment(n):
    def check(ns):
        size(ns, 'struct_s', 2 << n)
        want((ns['struct_s'].a.offset, ns['struct_s'].b.offset), (0, 1 << n), 'offsets')
        obj = ns['struct_s'](3, 4)
        want((obj.a, obj.b), (3, 4), 'positional values')
    return 'struct s { signed char a; __attribute__((aligned(%d))) signed char b; };' % (1 << n), check


# ---- numbers of declarations -------------------------------------------------
@shape()
def members(n):
    def check(ns):
        cls = ns['struct_s']
        for i in range(n):
            want(getattr(cls, 'a%d' % i).offset, 4 * i, 'offset of a%d' % i)
        size(ns, 'struct_s', 4 * n)
        obj = cls(*range(n))
        want([getattr(obj, 'a%d' % i) for i in range(n)], [i % 256 if i % 2 else i for i in range(n)], 'positional values')
        want(list(cls.as_dict(obj).values()), [i % 256 if i % 2 else i for i in range(n)], 'as_dict')
    return 'struct s { %s };' % ''.join('%s a%d; ' % (('int', 'unsigned char')[i % 2], i) for i in range(n)), check


@shape()
def members_union(n):
    def check(ns):
        cls = ns['union_s']
        for i in range(n):
            want((getattr(cls, 'a%d' % i).offset, getattr(cls, 'a%d' % i).size), (0, i + 1), 'member a%d' % i)
        size(ns, 'union_s', n)
    return 'union s { %s };' % ''.join('char a%d[%d]; ' % (i, i + 1) for i in range(n)), check


@shape()
def members_bits(n):
    def check(ns):
        cls = ns['struct_s']
        size(ns, 'struct_s', 4 * ((n + 9) // 10))
        obj = cls()
        for i in range(n):
            setattr(obj, 'a%d' % i, i * 5)
        raw = bytearray(4 * ((n + 9) // 10))
        for i in range(n):
            word, bit = divmod(i, 10)
            for b in range(3):
                if (i * 5) >> b & 1:
                    raw[4 * word + (3 * bit + b) // 8] |= 1 << (3 * bit + b) % 8
        want(bytes(obj), bytes(raw), 'bytes')
        want([getattr(obj, 'a%d' % i) for i in range(n)], [i * 5 % 8 for i in range(n)], 'values')
    return 'struct s { %s };' % ''.join('unsigned a%d : 3; ' % i for i in range(n)), check


@shape()
def members_bits_unnamed(n):
    def check(ns):
        cls = ns['struct_s']
        size(ns, 'struct_s', n)
        obj = cls()
        for i in range(n):
            setattr(obj, 'a%d' % i, i % 8)
        want(bytes(obj), bytes(i % 8 for i in range(n)), 'bytes')
        names = [f[0] for f in cls._fields_]
        want(len(names), 2 * n, 'members')
        want(len(set(names)), 2 * n, 'names of members')
    return 'struct s { %s };' % ''.join('unsigned char a%d : 3; unsigned char : 5; ' % i for i in range(n)), check


@shape()
def members_anonymous(n):
    def check(ns):
        size(ns, 'struct_s', 8 * n)
        obj = ns['struct_s']()
        for i in range(n):
            setattr(obj, 'a%d' % i, i)
            setattr(obj, 'b%d' % i, -i)
        want([getattr(obj, 'a%d' % i) for i in range(n)], list(range(n)), 'values')
        want(bytes(obj), b''.join((i).to_bytes(4, 'little') + (-i).to_bytes(4, 'little', signed=True) for i in range(n)), 'bytes')
    return 'struct s { %s };' % ''.join('struct { int a%d; union { int b%d; char c%d; }; }; ' % (i, i, i) for i in range(n)), check


@shape()
def enumerators(n):
    def check(ns):
        for i in range(n):
            want(ns['e%d' % i], 3 * i - n, 'e%d' % i)
        want(len(ns['e__enumvalues']), n, 'number of names')
    return 'enum e { e0 = %d, %s };' % (-n, ''.join('e%d = e%d + 3, ' % (i, i - 1) for i in range(1, n))), check


@shape()
def arguments(n):
    def check(ns):
        want(list(ns['f'].argtypes), [(ctypes.c_int32, ctypes.c_char)[i % 2] for i in range(n)], 'arguments')
        want(ns['f'].restype, ctypes.c_int16, 'result')
    return 'short f(%s);' % ', '.join('%s a%d' % (('int', 'char')[i % 2], i) for i in range(n)), check


@shape()
def arguments_pointer(n):
    def check(ns):
        want(list(field(ns['struct_s'], 'f')._argtypes_), [(ctypes.c_int32, ctypes.c_char)[i % 2] for i in range(n)], 'arguments')
    return 'struct s { short (*f)(%s); };' % ', '.join(('int', 'char')[i % 2] for i in range(n)), check


@shape()
def functions(n):
    def check(ns):
        for i in range(n):
            want((list(ns['f%d' % i].argtypes), ns['f%d' % i].restype), ([ctypes.c_char] * (i % 4), (None, ctypes.c_int32)[i % 2]), 'f%d' % i)
    return ''.join('%s f%d(%s);\n' % (('void', 'int')[i % 2], i, ', '.join(['char'] * (i % 4)) or 'void') for i in range(n)), check


@shape()
def variables(n):
    def check(ns):
        want([ns['v%d' % i] for i in range(n)], [i * i for i in range(n)], 'values')
        want(ns['__all__'], sorted('v%d' % i for i in range(n)), '__all__')
    return ''.join('int v%d = %d;\n' % (i, i * i) for i in range(n)), check


@shape()
def records(n):
    def check(ns):
        for i in range(n):
            size(ns, 'struct_s%d' % i, i + 1)
            size(ns, 'union_s%d' % i + 'u', i + 1)
    return ''.join('struct s%d { char a[%d]; };\nunion s%du { char a[%d]; };\n' % (i, i + 1, i, i + 1) for i in range(n)), check


@shape(kinds='cdefmstu')
def macros(n):
    def check(ns):
        want([ns['M%d' % i] for i in range(n)], [(i, 'x%d' % i, i / 2)[i % 3] for i in range(n)], 'values')
    return ''.join('#define M%d %s\n' % (i, (str(i), '"x%d"' % i, '%.1f' % (i / 2))[i % 3]) for i in range(n)) + 'int v;\n', check


@shape()
def enumerations(n):
    def check(ns):
        for i in range(n):
            want((ns['a%d' % i], ns['b%d' % i]), (i, i + 1), 'values of %d' % i)
    return ''.join('enum e%d { a%d = %d, b%d };\n' % (i, i, i, i) for i in range(n)), check


@shape()
def redeclared(n):
    def check(ns):
        want(list(ns['f'].argtypes), [ctypes.POINTER(ns['struct_s'])], 'arguments')
        size(ns, 'struct_s', 4)
    return 'struct s; int f(struct s *); extern int v;\n' * n + 'struct s { int a; };\n' + 'struct s; int f(struct s *); extern int v;\n' * n, check


# ---- values ------------------------------------------------------------------
@shape()
def items(n):
    return 'int v[] = { %s };' % ', '.join(str(i * 7) for i in range(n)), lambda ns: want(ns['v'], [i * 7 for i in range(n)], 'v')


@shape()
def items_string(n):
    return 'const char *v[] = { %s };' % ', '.join('"s%d"' % i for i in range(n)), lambda ns: want(ns['v'], ['s%d' % i for i in range(n)], 'v')


@shape(100)
def items_nested(n):
    def check(ns):
        v = ns['v']
        for i in range(n):
            want((type(v), len(v)), (list, 1), 'depth %d' % i)
            v = v[0]
        want(v, 5, 'item')
    return 'int v%s = %s5%s;' % ('[1]' * n, '{' * n, '}' * n), check


@shape()
def terms(n):
    return 'int v = %s;' % ' + '.join(str(i) for i in range(n)), lambda ns: want(ns['v'], n * (n - 1) // 2, 'v')


@shape(200)
def parentheses(n):
    return 'int v = %s1%s;' % ('(' * n, ')' * n), lambda ns: want(ns['v'], 1, 'v')


@shape(200)
def signs(n):
    return 'int v = %s5;' % ('- ' * n), lambda ns: want(ns['v'], -5 if n % 2 else 5, 'v')


@shape(kinds='cdefmstu')
def characters(n):
    text = ''.join(chr(97 + i % 26) for i in range(n))
    return 'const char *v = "%s"; char w[] = "%s";\n#define M "%s"\n' % (text, text, text), lambda ns: want((ns['v'], ns['w'], ns['M']), (text, text, text), 'strings')


@shape()
def strings(n):
    text = ''.join('s%d' % i for i in range(n))
    return 'const char *v = %s;' % ' '.join('"s%d"' % i for i in range(n)), lambda ns: want(ns['v'], text, 'v')


@shape()
def escapes(n):
    return 'const char *v = "%s";' % ('\\\\\\n' * n), lambda ns: want(ns['v'], '\\\n' * n, 'v')


@shape(2000)
def macro_chain(n):
    return '#define M0 42\n' + ''.join('#define M%d M%d\n' % (i + 1, i) for i in range(n)) + 'int v = M%d;\n' % n, lambda ns: want(ns['v'], 42, 'v')


# ---- text --------------------------------------------------------------------
@shape()
def names(n):
    name = 'N' * n

    def check(ns):
        size(ns, 'struct_' + name, 4)
        want(ns[name + 'v'], 3, 'variable')
        want(getattr(ns['struct_' + name], name + 'm').offset, 0, 'member')
        want(ns[name + 'e'], 0, 'enumerator')
        want(ns[name + 'f'].restype, ctypes.c_int32, 'function')
        want(ns[name + 't'], ctypes.c_int32, 'typedef')
    return 'struct @ { int @m; }; int @v = 3; enum @E { @e }; int @f(int @a); typedef int @t;'.replace('@', name), check


@shape()
def lines(n):
    return '\n' * n + 'int v = 1;' + '\n' * n + 'int w = 2;', lambda ns: want((ns['v'], ns['w']), (1, 2), 'values')


@shape()
def blanks(n):
    return ' ' * n + 'int v =' + '\t' * n + '1;' + ' ' * n + 'int w = 2;', lambda ns: want((ns['v'], ns['w']), (1, 2), 'values')


@shape()
def comments(n):
    return '/** %s */ int v = 1; /* %s */ int w = 2;\n%sint u = 3;' % ('c\n * ' * n, 'x' * n, '/// d\n' * n), lambda ns: want((ns['v'], ns['w'], ns['u']), (1, 2, 3), 'values')


@shape()
def one_line(n):
    return ''.join('int v%d = %d;' % (i, i) for i in range(n)), lambda ns: want([ns['v%d' % i] for i in range(n)], list(range(n)), 'values')


# ---- C++ ---------------------------------------------------------------------
@shape(200, 'm.cpp')
def namespaces(n):
    def check(ns):
        size(ns, 'struct_S', 4)
        want(ns['v'], 5, 'v')
    return ''.join('namespace n%d { ' % i for i in range(n)) + 'struct S { int a; }; int v = 5; ' + '}' * n, check


@shape(None, 'm.cpp')
def methods(n):
    def check(ns):
        size(ns, 'struct_S', 4 * n)
        for i in range(n):
            want(getattr(ns['struct_S'], 'a%d' % i).offset, 4 * i, 'offset of a%d' % i)
    return 'struct S { %s };' % ''.join('int a%d; int f%d(int); static int s%d; ' % (i, i, i) for i in range(n)), check


# ---- files and options -------------------------------------------------------
def files_include(n):
    """a chain of includes"""
    return dict([('f%d.h' % i, '#include "f%d.h"\nstruct s%d { struct s%d *p; };\n' % (i + 1, i, i + 1)) for i in range(n)] +
                [('f%d.h' % n, 'struct s%d { int a; };\n' % n), ('m.c', '#include "f0.h"\nint v = 1;\n')])


def files_headers(n):
    return dict([('f%d.h' % i, 'struct s%d { int a; };\n' % i) for i in range(n)] +
                [('m.c', ''.join('#include "f%d.h"\n' % i for i in range(n)) + 'struct m { %s };\n' % ''.join('struct s%d m%d; ' % (i, i) for i in range(n)))])


def files_given(n):
    return dict([('f%d.c' % i, 'struct s%d { char a[%d]; }; int v%d = %d;\n' % (i, i + 1, i, i)) for i in range(n)])


FILES = {'include': (files_include, 150), 'headers': (files_headers, None), 'given': (files_given, 120), 'expressions': (None, 257), 'symbols': (None, 257),
         'defines': (None, 257)}
SIZES = list(range(1, 41)) + [63, 64, 65, 71, 72, 73, 100, 127, 128, 129, 200, 255, 256, 257, 500]
MORE = list(range(1, 301)) + [500, 511, 512, 513, 700, 999, 1000, 1001]


class C28(engine.Check):
    id = 'C28'
    technique = 'explicit-state enumeration of scalable program shapes x sizes, executed on the real translator, with closed-form expectations on the loaded module'
    level_note = 'exhaustive over shapes x listed sizes'
    rule = 'every shape of a table of ways to make a source longer, deeper or more numerous, at every size of 1 to 40 and around 64, 72, 128, 256 and 500 (thorough: 1 to 300 and up to 1001)'
    assumptions = ('limits of the compiler (nesting of brackets and includes) and of Python (nesting of parentheses) bound some shapes', )
    batch = 4
    chunk_timeout = 300

    def cases(self):
        for n in [0] + (MORE if self.thorough else SIZES):
            for name, (f, limit, _file, least, _kinds) in SHAPES.items():
                if least <= n and (limit is None or n <= limit):
                    yield engine.Case('%s/%d' % (name, n), ('shape', name, n))
            for name, (f, limit) in FILES.items():
                if n and (limit is None or n <= limit):
                    yield engine.Case('files-%s/%d' % (name, n), ('files', name, n))

    def stats(self, case):
        n = max(case.payload[2], 1)
        return (1, n, n)

    def run_one(self, case):
        kind, name, n = case.payload
        try:
            if kind == 'shape':
                f, _limit, file, _least, kinds = SHAPES[name]
                src, check = f(n)
                text = impl.gen(src, (), kinds, name=file)
                check(impl.load(text))
                if name == 'comments':
                    check(impl.load(impl.gen(src, (), kinds, name=file, generate_comments=True)))
            else:
                self.files(name, n)
        except Wrong as e:
            return ('wrong', str(e)[:1000])
        except Exception as e:
            return (impl.exc_sig(e), impl.tb(e))

    def files(self, name, n):
        top = os.path.join(impl.scratch(), 'c28')
        os.makedirs(top, exist_ok=True)
        for old in os.listdir(top):
            os.unlink(os.path.join(top, old))
        cfg = impl.make_cfg()
        cfg.filter_location = name != 'include'
        given = None
        if FILES[name][0]:
            for file, text in FILES[name][0](n).items():
                with open(os.path.join(top, file), 'w') as f:
                    f.write(text)
            given = ['f%d.c' % i for i in range(n)] if name == 'given' else ['m.c']
        else:
            text = ''.join('int aa%dx(char);\nstruct r%d { int a; };\n' % (i, i) for i in range(n + 2))
            if name == 'defines':
                text = ''.join('int v%d = D%d;\n' % (i, i) for i in range(n))
                text = ''.join('#if D%d != %d\n#error D%d\n#endif\n' % (i, i + 1, i) for i in range(n)) + 'struct s0 { int a; };'
                cfg.clang_opts += ['-DD%d=%d' % (i, i + 1) for i in range(n)]
            with open(os.path.join(top, 'm.c'), 'w') as f:
                f.write(text)
            given = ['m.c']
        out = io.StringIO()
        if name == 'expressions':
            import re
            cfg.expressions = [re.compile('aa%dx' % i) for i in range(n)]
        if name == 'symbols':
            cfg.symbols = ['aa%dx' % i for i in range(n)]
        ctypeslib.translate_files([os.path.join(top, g) for g in given], out, cfg)
        ns = impl.load(out.getvalue())
        if name == 'include':
            for i in range(n):
                want(field(ns['struct_s%d' % i], 'p')._type_, ns['struct_s%d' % (i + 1)], 'record %d' % i)
        elif name == 'headers':
            for i in range(n):
                want(field(ns['struct_m'], 'm%d' % i), ns['struct_s%d' % i], 'member %d' % i)
            size(ns, 'struct_m', 4 * n)
        elif name == 'given':
            for i in range(n):
                size(ns, 'struct_s%d' % i, i + 1)
                want(ns['v%d' % i], i, 'v%d' % i)
        elif name == 'defines':
            size(ns, 'struct_s0', 4)
        else:
            want([s for s in ns['__all__'] if s != 'size_t'], sorted('aa%dx' % i for i in range(n)), 'names')


CHECK = C28

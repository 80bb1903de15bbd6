"""C29: variables that a listed library exports are the memory of that library.

State: a type of a variable (a term over leaves and type constructors), a form
of its declaration, and the contents of the variable. Transition: C writes one of the
values of a scalar in the variable, or Python does, through the generated
binding. All sequences of writes up to a length are run on the real code, in
one compiled library; after every write both sides read the scalar.
"""
import ctypes
import itertools
import os
import subprocess

from ctypeslib.library import Library

from .. import engine, impl

INF = float('inf')
# leaf -> (C declaration, C expressions of its values, the values in Python)
LEAVES = {
    'char': ('char @', ["'a'", '-1', '0'], [b'a', b'\xff', b'\0']),
    'schar': ('signed char @', ['-128', '127', '-1'], [-128, 127, -1]),
    'uchar': ('unsigned char @', ['255', '128', '0'], [255, 128, 0]),
    'short': ('short @', ['-32768', '32767', '-2'], [-32768, 32767, -2]),
    'ushort': ('unsigned short @', ['65535', '32768', '1'], [65535, 32768, 1]),
    'int': ('int @', ['-2147483647 - 1', '2147483647', '-3'], [-2 ** 31, 2 ** 31 - 1, -3]),
    'uint': ('unsigned @', ['4294967295u', '2147483648u', '4'], [2 ** 32 - 1, 2 ** 31, 4]),
    'long': ('long @', ['-9223372036854775807L - 1', '9223372036854775807L', '-5'], [-2 ** 63, 2 ** 63 - 1, -5]),
    'ulong': ('unsigned long @', ['18446744073709551615ul', '9223372036854775808ul', '6'], [2 ** 64 - 1, 2 ** 63, 6]),
    'llong': ('long long @', ['-9223372036854775807LL - 1', '7', '-1'], [-2 ** 63, 7, -1]),
    'ullong': ('unsigned long long @', ['18446744073709551615ull', '1', '0'], [2 ** 64 - 1, 1, 0]),
    'bool': ('_Bool @', ['1', '0', '1'], [True, False, True]),
    'float': ('float @', ['1.5f', '-0x1p-149f', '__builtin_inff()'], [1.5, -2.0 ** -149, INF]),
    'double': ('double @', ['0.1', '-1e308', '5e-324'], [0.1, -1e308, 5e-324]),
    'ldouble': ('long double @', ['1.25L', '-0x1p52L', '0.5L'], [1.25, -2.0 ** 52, 0.5]),
    'enum': ('enum En @', ['EN_A', 'EN_B', 'EN_C'], [0, 7, 4000000000]),
    'nenum': ('enum Ne @', ['NE_A', 'NE_B', 'NE_C'], [-5, 0, 9]),
    'wchar': ('__WCHAR_TYPE__ @', ['-1', '65', '2147483647'], [-1, 65, 2 ** 31 - 1]),
    'i8': ('i8_t @', ['-1', '5', '-128'], [-1, 5, -128]),
    'tdint': ('td_i @', ['-7', '8', '0'], [-7, 8, 0]),
    'tdenum': ('td_e @', ['EN_A', 'EN_B', 'EN_C'], [0, 7, 4000000000]),
    'vol': ('volatile unsigned short @', ['65535', '0', '3'], [65535, 0, 3]),
    # addresses of the objects of the library
    'pvoid': ('void *@', ['t_i + 0', '0', 't_i + 1'], 'address'),
    'pint': ('int *@', ['t_i + 0', '0', 't_i + 2'], 'address'),
    'pcint': ('const int *@', ['t_i + 0', '0', 't_i + 2'], 'address'),
    'pchar': ('char *@', ['t_c', '0', 't_c + 2'], 'address'),
    'pcchar': ('const char *@', ['t_c', '0', 't_c + 2'], 'address'),
    'puchar': ('unsigned char *@', ['(unsigned char *)t_c', '0', '(unsigned char *)t_c + 1'], 'address'),
    'pschar': ('signed char *@', ['(signed char *)t_c', '0', '(signed char *)t_c + 1'], 'address'),
    'ppchar': ('char **@', ['t_pc', '0', 't_pc + 1'], 'address'),
    'pdouble': ('double *@', ['&t_d', '0', '&t_d'], 'address'),
    'pbool': ('_Bool *@', ['&t_b', '0', '&t_b'], 'address'),
    'prec': ('struct Pt *@', ['&t_p', '0', 't_q'], 'address'),
    'pprec': ('struct Pt **@', ['&t_pp', '0', '&t_pp'], 'address'),
    'puni': ('union Un *@', ['&t_u', '0', '&t_u'], 'address'),
    'penum': ('enum En *@', ['&t_e', '0', '&t_e'], 'address'),
    'popaque': ('struct Opaque *@', ['t_o', '0', 't_o'], 'address'),
    'ptd': ('td_p @', ['&t_p', '0', 't_q'], 'address'),
    'parr': ('int (*@)[3]', ['&t_a', '0', '&t_a'], 'address'),
    'fn': ('int (*@)(int)', ['t_f', 't_g', 't_f'], 'function'),
    'fntd': ('td_f @', ['t_f', 't_g', 't_f'], 'function'),
    'fnptr': ('int (*(*@))(int)', ['&t_fp', '0', '&t_fp'], 'address'),
}
PROLOG = '''enum En { EN_A, EN_B = 7, EN_C = 4000000000u };
enum Ne { NE_A = -5, NE_B = 0, NE_C = 9 };
typedef signed char i8_t;
typedef int td_i;
typedef enum En td_e;
struct Pt { int x; char c; };
union Un { int i; double d; };
struct Opaque;
typedef struct Pt *td_p;
typedef int (*td_f)(int);
'''
TARGETS = '''int t_i[4] = { 1, 2, 3, 4 }; char t_c[8] = "abcdef"; char *t_pc[2] = { t_c, t_c + 1 }; double t_d = 2.5; _Bool t_b = 1; struct Pt t_p = { 5, 'p' }; struct Pt t_q[1] = { { 6, 'q' } };
struct Pt *t_pp = &t_p; union Un t_u; enum En t_e; char t_room[8]; struct Opaque *t_o = (struct Opaque *)t_room; int t_a[3];
int t_f(int a) { return a + 100; } int t_g(int a) { return a * 2; } int (*t_fp)(int) = t_f;
'''


def declare(leaf, name):
    return LEAVES[leaf][0].replace('@', name)


# constructor -> (records before, declaration of the variable, path in C, path in Python), # is the number
# of the case; {d(x)}: the leaf with the declarator x
def terms(leaf, shape):
    d = lambda x: declare(leaf, x)
    return {
        'scalar': ('', d('v#'), ['']),
        'array': ('', d('v#[3]'), ['[0]', '[2]']),
        'matrix': ('', d('v#[2][3]'), ['[0][1]', '[1][2]']),
        'cube': ('', d('v#[2][1][2]'), ['[1][0][1]']),
        'record': ('struct S# { char a; %s; char z; };' % d('f'), 'struct S# v#', ['.f']),
        'recordarray': ('struct S# { char a; %s; char z; };' % d('f'), 'struct S# v#[2]', ['[1].f']),
        'arrayrecord': ('struct S# { char a; %s; };' % d('f[3]'), 'struct S# v#', ['.f[0]', '.f[2]']),
        'nested': ('struct S# { char a; struct { short b; %s; } n; };' % d('f'), 'struct S# v#', ['.n.f']),
        'anonymous': ('struct S# { char a; struct { short b; %s; }; };' % d('f'), 'struct S# v#', ['.f']),
        'union': ('union S# { char a; %s; };' % d('f'), 'union S# v#', ['.f']),
        'unionarray': ('union S# { short a; %s; };' % d('f[2]'), 'union S# v#[2]', ['[1].f[1]']),
        'packed': ('struct S# { char a; %s; char z; } __attribute__((packed));' % d('f'), 'struct S# v#', ['.f']),
        'unnamed': ('', 'struct { char a; %s; } v#' % d('f'), ['.f']),
        'typedefed': ('typedef %s;' % d('T#'), 'T# v#', ['']),
        'typedefarray': ('typedef %s;' % d('T#[2]'), 'T# v#', ['[1]']),
        'arraytypedef': ('typedef %s;' % d('T#'), 'T# v#[2][2]', ['[1][0]']),
        'typedefrecord': ('typedef struct { int q; %s; } T#;' % d('f'), 'T# v#', ['.f']),
        'later': ('struct S#; struct W# { struct S# *p; }; struct S# { char a; %s; };' % d('f'), 'struct S# v#[2]', ['[1].f']),
    }[shape]


SHAPES = ['scalar', 'array', 'matrix', 'cube', 'record', 'recordarray', 'arrayrecord', 'nested', 'anonymous', 'union', 'unionarray', 'packed', 'unnamed', 'typedefed', 'typedefarray', 'arraytypedef', 'typedefrecord', 'later']
# how the source declares it; @ is the declaration
FORMS = {
    'extern': 'extern @;',
    'tentative': '@;',
    'twice': 'extern @; extern @;',
    'both': 'extern @; @;',
    'after': '@; extern @;',
    'volatile': 'extern volatile @;',
    'const': 'extern const @;',
    'attribute': 'extern @ __attribute__((visibility("default")));',
    'used': 'extern @; int use#(void);',
    'incomplete': 'extern @;',
    'initialised': '@ = { 0 };',
    'comma': 'extern @, *other#;',
    'valued': '@ = VALUE;',
}


class C29(engine.Check):
    id = 'C29'
    technique = 'explicit-state exploration of all sequences of writes by C and by Python of every type term of exported variables, on the real generator and compiled libraries'
    level_note = 'exhaustive over the stated terms, forms and lengths of sequences'
    rule = ('%d leaf types x %d shapes (arrays, records, unions, nesting, typedefs) x %d forms of the declaration, in one library; on every one all sequences of up to 2 (thorough: 3) writes '
            'of 3 values by either side, with reads by both sides after each; size and address against the compiler and the loader' % (len(LEAVES), len(SHAPES), len(FORMS)))
    assumptions = ['functions of the library read and write; a pointer without a value attribute is written through its memory']
    batch = 30

    def cases(self):
        for leaf, shape in itertools.product(LEAVES, SHAPES):
            for form in FORMS:
                if form == 'valued' and (shape not in ('scalar', 'typedefed') or isinstance(LEAVES[leaf][2], str)):
                    continue
                if form == 'incomplete' and shape != 'array':
                    continue
                if form in ('both', 'after') and shape == 'unnamed':
                    continue
                if shape == 'unnamed' and form == 'twice':
                    continue
                if form == 'volatile' and shape == 'scalar' and leaf == 'vol':
                    continue
                yield engine.Case('%s/%s/%s' % (leaf, shape, form), (leaf, shape, form))

    def stats(self, case):
        n = len(terms(case.payload[0], case.payload[1])[2])
        seqs = sum(6 ** k for k in range(1, (3 if self.thorough else 2) + 1))
        return (1 + n * seqs, n * seqs, 2 * n * seqs)

    serial = 0

    def run_batch(self, cases):
        header = PROLOG
        lib = PROLOG + TARGETS
        for i, c in enumerate(cases):
            leaf, shape, form = c.payload
            pre, decl, paths = terms(leaf, shape)
            text = pre + ' ' + FORMS[form].replace('VALUE', LEAVES[leaf][1][1]).replace('@', decl.replace('[3]', '[]') if form == 'incomplete' else decl) + '\n'
            header += text.replace('#', str(i))
            if shape == 'unnamed':
                lib += (decl + ';\n').replace('#', str(i))
            else:
                lib += (pre + ' ' + decl + ';\n').replace('#', str(i))
            values = LEAVES[leaf][1]
            lib += 'unsigned long size%d(void) { return sizeof v%d; } void *addr%d(void) { return &v%d; }\n' % (i, i, i, i)
            lib += 'void set%d(int p, int k) { switch (p * 3 + k) {' % i
            for p, path in enumerate(paths):
                for k, v in enumerate(values):
                    lib += 'case %d: v%d%s = %s; break; ' % (p * 3 + k, i, path, v)
            lib += '} }\n int is%d(int p, int k) { switch (p * 3 + k) {' % i
            for p, path in enumerate(paths):
                for k, v in enumerate(values):
                    lib += 'case %d: return v%d%s == %s; ' % (p * 3 + k, i, path, v)
            lib += '} return 0; }\n'
        addrs = sorted({v for l in LEAVES.values() if isinstance(l[2], str) for v in l[1]})
        lib += ''.join('void *at%d(void) { return (void *)(%s); }\n' % (i, v) for i, v in enumerate(addrs))
        C29.serial += 1
        path = os.path.join(impl.scratch(), 'libv%d_%d.so' % (os.getpid(), C29.serial))
        p = subprocess.run(['gcc', '-shared', '-fPIC', '-w', '-O1', '-x', 'c', '-', '-o', path], input=lib, text=True, capture_output=True)
        if p.returncode:
            raise RuntimeError(p.stderr[:2000])
        try:
            text = impl.gen(header, name='m.c', searched_dlls=[Library(path, nm='nm')])
        except Exception as e:
            raise self.BatchFailed(('translate:' + impl.exc_sig(e), impl.tb(e)))
        try:
            ns = impl.load(text)
        except Exception as e:
            raise self.BatchFailed(('load:' + impl.exc_sig(e), impl.tb(e) + impl.strip_text(text)[-3000:]))
        c = ctypes.CDLL(path)
        where = {}
        for i, v in enumerate(addrs):
            f = getattr(c, 'at%d' % i)
            f.restype = ctypes.c_void_p
            where[v] = f() or 0
        os.unlink(path)
        return [self.variable(i, case, ns, c, where) for i, case in enumerate(cases)]

    def variable(self, i, case, ns, c, where):
        leaf, shape, form = case.payload
        paths = terms(leaf, shape)[2]
        obj = ns.get('v%d' % i)
        size, addr = getattr(c, 'size%d' % i), getattr(c, 'addr%d' % i)
        addr.restype = ctypes.c_void_p
        size.restype = ctypes.c_ulong
        try:
            got = (ctypes.sizeof(obj), ctypes.addressof(obj))
        except TypeError:
            return ('the variable is not that of the library', '%r' % (obj,))
        if got[1] != addr():
            return ('the variable has another address', '%x %x' % (got[1], addr()))
        if form == 'incomplete':
            # the number of elements is not known, their type is
            obj = (obj._type_ * 3).from_address(got[1])
        elif got[0] != size():
            return ('the variable has another size', '%d %d' % (got[0], size()))
        set_, is_ = getattr(c, 'set%d' % i), getattr(c, 'is%d' % i)
        cexprs, values = LEAVES[leaf][1:]
        if isinstance(values, str):
            values = [where[v] for v in cexprs]
        kind = LEAVES[leaf][2] if isinstance(LEAVES[leaf][2], str) else 'value'
        ops = [(side, k) for side in 'cp' for k in range(3)]
        for p, path in enumerate(paths):
            for n in range(1, (3 if self.thorough else 2) + 1):
                for seq in itertools.product(ops, repeat=n):
                    for side, k in seq:
                        try:
                            if side == 'c':
                                set_(p, k)
                            else:
                                self.write(obj, path, values[k], kind)
                            if not is_(p, k):
                                return ('C reads another value than Python wrote', '%s %s' % (path, values[k]))
                            bad = self.read(obj, path, values[k], kind)
                        except Exception as e:
                            return ('use:' + impl.exc_sig(e), '%s %s\n%s' % (path, side, impl.tb(e)))
                        if bad:
                            return (bad, '%s %s %s' % (path, side, values[k]))
        return None

    @staticmethod
    def parent(obj, path):
        """(container, key) of the scalar"""
        steps = [s for s in path.replace('[', '.[').split('.') if s]
        for s in steps[:-1]:
            owner = obj
            obj = obj[int(s[1:-1])] if s[0] == '[' else getattr(obj, s)
            if isinstance(obj, bytes):
                # ctypes reads the arrays of characters of records as strings
                t = dict(f[:2] for f in type(owner)._fields_)[s]
                obj = t.from_address(ctypes.addressof(owner) + getattr(type(owner), s).offset)
        s = steps[-1] if steps else ''
        return obj, int(s[1:-1]) if s[:1] == '[' else s

    def read(self, obj, path, value, kind):
        if path:
            obj, key = self.parent(obj, path)
            got = obj[key] if isinstance(key, int) else getattr(obj, key)
        else:
            got = obj if kind != 'value' and not isinstance(obj, ctypes.c_void_p) else obj.value
        if kind == 'function':
            r = got(21)
            f = {121: 't_f', 42: 't_g'}.get(r)
            if f is None or ctypes.cast(got, ctypes.c_void_p).value != value:
                return 'a function pointer calls another function'
            return None
        if kind == 'address':
            if got is None or isinstance(got, int):
                a = got or 0
            else:
                a = ctypes.cast(got, ctypes.c_void_p).value or 0
                if bool(got) != bool(value):
                    return 'a pointer is null, or is not'
            return None if a == value else 'Python reads another address than C wrote'
        return None if got == value and type(got) is type(value) else 'Python reads another value than C wrote'

    def write(self, obj, path, value, kind):
        if kind == 'value':
            if not path:
                obj.value = value
                return
        elif not path:
            if isinstance(obj, ctypes.c_void_p):
                obj.value = value
            elif value and isinstance(obj, ctypes._Pointer):
                obj.contents = obj._type_.from_address(value)
            else:
                ctypes.memmove(ctypes.byref(obj), ctypes.byref(ctypes.c_void_p(value)), 8)
            return
        obj, key = self.parent(obj, path)
        if kind != 'value':
            t = obj._type_ if isinstance(key, int) else dict(f[:2] for c in [type(obj)] for f in c._fields_).get(key)
            if t is None:
                # of an unnamed record
                t = type(getattr(obj, key))
            if t is not ctypes.c_void_p and t is not int and t is not type(None):
                value = ctypes.cast(value, t)
        if isinstance(key, int):
            obj[key] = value
        else:
            setattr(obj, key, value)


CHECK = C29

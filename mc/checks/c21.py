"""C21: the pointers of modules for other targets.

Programs: all pairs (thorough: triples) of pointee types, in every place that
a pointer can have, for targets whose pointers have 2, 4 and 8 bytes.
Histories: all sequences of loading, using and dropping up to four modules.
Oracle: sizes of the compiler; the identity of pointees, by the members that
have the pointee's type itself; addresses are written in memory by hand.
"""
import ctypes
import gc
import itertools

from .. import engine, impl, oracle
from . import c12

PRELUDE = '''struct A { int x; }; struct B { int x; }; union U { int x; char c; }; enum E { E_A = 1, E_B = 70000 }; struct Opaque;
typedef struct A A_t; typedef int int_t; typedef int arr2[2]; typedef int fn_t(int); typedef A_t A_tt; typedef void nothing_t; typedef int *ip_t;
'''
# kind -> (declaration of the pointee @, C type by which two of them are the same)
KINDS = {
    'void': ('void @', 'void'), 'char': ('char @', 'char'), 'schar': ('signed char @', 'signed char'), 'uchar': ('unsigned char @', 'unsigned char'),
    'short': ('short @', 'short'), 'int': ('int @', 'int'), 'uint': ('unsigned @', 'unsigned'), 'long': ('long @', 'long'), 'llong': ('long long @', 'long long'),
    'float': ('float @', 'float'), 'double': ('double @', 'double'), 'bool': ('_Bool @', '_Bool'),
    'A': ('struct A @', 'struct A'), 'B': ('struct B @', 'struct B'), 'U': ('union U @', 'union U'), 'E': ('enum E @', 'enum E'),
    'A_t': ('A_t @', 'struct A'), 'A_tt': ('A_tt @', 'struct A'), 'int_t': ('int_t @', 'int'), 'nothing': ('nothing_t @', 'void'), 'cint': ('const int @', 'int'), 'vA': ('volatile struct A @', 'struct A'),
    'intp': ('int *@', 'int *'), 'ip_t': ('ip_t @', 'int *'), 'charp': ('char *@', 'char *'), 'Ap': ('struct A *@', 'struct A *'), 'voidp': ('void *@', 'void *'), 'intpp': ('int **@', 'int **'),
    'arr2': ('int (@)[2]', 'int [2]'), 'arr3': ('int (@)[3]', 'int [3]'), 'arr2_t': ('arr2 @', 'int [2]'), 'Aarr': ('struct A (@)[2]', 'struct A [2]'), 'parr': ('int *(@)[2]', 'int *[2]'),
    'fn': ('int (@)(int)', 'fn int int'), 'fn_t': ('fn_t @', 'fn int int'), 'fv': ('void (@)(void)', 'fn void'), 'fp': ('int (@)(char *)', 'fn int char *'),
    'opaque': ('struct Opaque @', 'struct Opaque'), 'self': ('struct S@# @', 'self'),
}
FUNCTIONS = ('fn', 'fn_t', 'fv', 'fp')
# a member of these types itself is not possible
NOVALUE = ('void', 'nothing', 'opaque', 'self') + FUNCTIONS
TARGETS = ['i386-linux', 'x32', 'msp430', 'arm', 'i686-windows', 'x86_64-linux']
FEW = ['void', 'char', 'int', 'A', 'A_t', 'U', 'E', 'intp', 'Ap', 'arr2', 'fn', 'fv', 'self', 'opaque', 'B', 'uchar']

HIST = {
    'h': ('host', 'struct A { int x; struct A *a; char *c; void *v; int (*f)(int); };'),
    'i': ('i386-linux', 'struct A { int x; struct A *a; char *c; void *v; int (*f)(int); int *p; };'),
    'j': ('i386-linux', 'struct A { long long x[3]; struct A *a; char *c; void *v; int (*f)(int); int *p; struct B { char z; } *b; };'),
    'm': ('msp430', 'struct A { int x; struct A *a; char *c; void *v; int (*f)(int); int *p; };'),
}


class C21(engine.Check):
    id = 'C21'
    technique = 'explicit-state enumeration of pointee combinations and targets, and of all histories of loading, using and dropping modules, on real generated modules'
    level_note = 'exhaustive up to the stated bounds'
    rule = ('all ordered pairs of 39 pointee types for 6 targets (thorough: and triples of 16), each as a member, array, typedef, variable, argument and result; '
            'all histories of 4 (thorough: 5) steps that load, use or drop one of 4 modules; addresses 0, 1, the largest and those next to the sign bit')
    assumptions = ['the sizes of pointers are those of the compiler']
    batch = 1
    chunk_timeout = 300

    def cases(self):
        for t in TARGETS:
            for a in KINDS:
                yield engine.Case('pairs/%s/%s' % (t, a), ('pairs', t, a))
        for first in itertools.product(self.ops(), repeat=1 if not self.thorough else 2):
            yield engine.Case('history/' + ','.join(first), ('history', first))
        if self.thorough:
            for t in TARGETS[:3]:
                for a in FEW:
                    for b in FEW:
                        yield engine.Case('triples/%s/%s/%s' % (t, a, b), ('triples', t, a, b))

    @staticmethod
    def ops():
        return ['load:' + m for m in HIST] + ['drop:' + m for m in HIST] + ['star:i', 'star:m', 'use']

    def run_one(self, case):
        kind, *args = case.payload
        if kind == 'history':
            n = (5 if self.thorough else 4) - len(args[0])
            r = c12.in_child(lambda: self.histories(args[0], n))
            return engine.Held(r[1]) if isinstance(r, tuple) and r[0] == 'held' else r
        t = args[0]
        n = 0
        if kind == 'pairs':
            # the single one has its own turn, and is there twice
            lists = [(args[1],), (args[1], args[1])] + [(args[1], b) for b in KINDS if b != args[1]]
        else:
            lists = [(args[1], args[2], c) for c in FEW]
        for l in lists:
            try:
                r = self.program(t, l)
            except Exception as e:
                r = ('use:' + impl.exc_sig(e), impl.tb(e))
            if r:
                return (r[0], '%s %s: %s' % (t, ' '.join(l), r[1]))
            n += 1
        return engine.Held((n, n * 6, n * 30))

    def program(self, tname, l):
        tg = oracle.target(tname)
        d = lambda k, what: KINDS[k][0].replace('S@#', 'S').replace('@', what)
        src = PRELUDE + 'struct S { unsigned char c; %s }; ' % ' '.join('%s;' % d(k, '*p%d' % i) for i, k in enumerate(l))
        src += 'struct Arr { char c; %s };\n' % ' '.join('%s;' % d(k, '*q%d[2]' % i) for i, k in enumerate(l))
        src += 'struct V { %s };\n' % ' '.join('%s;' % d(k, 'v%d' % i) for i, k in enumerate(l) if k not in NOVALUE)
        for i, k in enumerate(l):
            src += 'typedef %s; %s; void f%d(%s); %s;\n' % (d(k, '*t%d' % i), d(k, '*g%d' % i), i, d(k, '*a'), d(k, '*r%d(void)' % i))
        try:
            out = impl.gen(src, tg.opts)
        except Exception as e:
            return ('translate:' + impl.exc_sig(e), impl.tb(e))
        ns = impl.load(out)
        S, Arr, V = ns['struct_S'], ns['struct_Arr'], ns['struct_V']
        types = {f[0]: f[1] for f in S._fields_}
        values = {f[0]: f[1] for f in V._fields_} if hasattr(V, '_fields_') else {}
        P = [types['p%d' % i] for i in range(len(l))]
        native = tg.ptr == ctypes.sizeof(ctypes.c_void_p)
        for i, k in enumerate(l):
            p = P[i]
            if ctypes.sizeof(p) != tg.ptr:
                return ('a pointer has another size', '%s: %d' % (k, ctypes.sizeof(p)))
            arr = Arr.get_type('q%d' % i)
            if arr._type_ is not p or arr._length_ != 2:
                return ('the pointers of an array are of another type', k)
            if ns['t%d' % i] is not p:
                return ('a typedef of a pointer is another type', k)
            f = ns['f%d' % i]
            if f.argtypes[0] is not p or ns['r%d' % i].restype is not p:
                return ('the pointer of a function is another type', k)
            g = ns['g%d' % i]
            if k not in FUNCTIONS and g is not None and not isinstance(g, p):
                return ('the pointer of a variable is another type', '%s %r' % (k, g))
            for j in range(i):
                same = P[i] is P[j]
                o = l[j]
                if k in NOVALUE or o in NOVALUE:
                    want = KINDS[k][1] == KINDS[o][1]
                else:
                    want = values['v%d' % i] is values['v%d' % j]
                    if KINDS[k][1] == KINDS[o][1] and not want:
                        return ('one type is two types', '%s %s' % (k, o))
                if same != want:
                    return ('two pointers are the same type' if same else 'the pointers to one type are two types', '%s %s' % (k, o))
        # everything is where the compiler puts it
        al = ctypes.alignment(S)
        step = tg.ptr
        off = S.p0.offset
        for i in range(len(l)):
            if getattr(S, 'p%d' % i).offset != off + i * step:
                return ('a pointer is elsewhere', 'p%d' % i)
        if native:
            return None
        top = 1 << 8 * tg.ptr
        addresses = [0, 1, top // 2 - 1, top // 2, top - 1, 0x1234 % top]
        s, a = S(), Arr()
        for i, k in enumerate(l):
            for n, x in enumerate(addresses):
                setattr(s, 'p%d' % i, x)
                getattr(a, 'q%d' % i)[1] = x
                getattr(a, 'q%d' % i)[0] = 7
                for what, v in (('a member', getattr(s, 'p%d' % i)), ('an array', getattr(a, 'q%d' % i)[1]), ('a keyword', getattr(S(**{'p%d' % i: x}), 'p%d' % i)),
                                ('a position', getattr(S(99, *([x] * (i + 1))), 'p%d' % i)), ('memory', getattr(S.from_buffer_copy(
                                    b'\0' * (off + i * step) + x.to_bytes(step, 'little') + b'\xee' * (ctypes.sizeof(S) - off - i * step - step)), 'p%d' % i))):
                    if type(v) is not P[i] or v.value != x:
                        return ('an address is not kept', '%s, %s: %r / %#x' % (k, what, v, x))
                m = bytes(s)
                if int.from_bytes(m[off + i * step:off + (i + 1) * step], 'little') != x:
                    return ('an address is not in memory', k)
                for j in range(len(l)):
                    if j != i and getattr(s, 'p%d' % j).value != (0 if j > i else addresses[-1]):
                        return ('an other pointer changes', '%s %s' % (k, l[j]))
                if P[i].from_buffer_copy(x.to_bytes(step, 'little')).value != x:
                    return ('a pointer by itself is not kept', k)
            if P[i]().value != 0:
                return ('the null pointer', k)
            # one from an other object
            s2 = S()
            setattr(s2, 'p%d' % i, getattr(s, 'p%d' % i))
            if getattr(s2, 'p%d' % i).value != addresses[-1]:
                return ('a pointer is not copied', k)
        return None

    # ------------------------------------------------------------------
    def text(self, m):
        cache = self.__dict__.setdefault('_texts', {})
        if m not in cache:
            t, src = HIST[m]
            cache[m] = impl.gen(src, oracle.TARGETS[t])
        return cache[m]

    def setup_worker(self):
        for m in HIST:
            try:
                self.text(m)
            except Exception:
                pass

    def histories(self, first, n):
        count = 0
        for rest in itertools.product(self.ops(), repeat=n):
            try:
                r = self.history(first + rest)
            except Exception as e:
                r = ('history:' + impl.exc_sig(e), impl.tb(e))
            count += len(first + rest)
            if r:
                return (r[0], '%s: %s' % (' '.join(first + rest), r[1]))
        return ('held', (count, count, count * 20))

    def history(self, ops):
        live, star, stars = {}, {}, []
        for op in ops:
            what, _, m = op.partition(':')
            if what == 'load':
                ns = impl.load(self.text(m))
                S = ns['struct_A']
                o = S()
                native = HIST[m][0] == 'host'
                if not native:
                    o.a, o.c, o.v = 11, 12, 13
                live[m] = (ns, [(f[0], f[1], ctypes.sizeof(f[1])) for f in S._fields_], ctypes.sizeof(S), o)
            elif what == 'drop':
                live.pop(m, None)
                gc.collect(0)
            elif what == 'star':
                # the module's names in the user's own
                exec(compile(self.text(m), 'star', 'exec'), star)
                stars.append((star['struct_A'], m))
            for m2, (ns, fields, size, o) in live.items():
                r = self.state(m2, ns['struct_A'], fields, size, o)
                if r:
                    return (r, 'after %s, module %s' % (op, m2))
                if HIST[m2][0] != 'host':
                    P = ns['POINTER_T']
                    f = {a: b for a, b, c in fields}
                    if P(ns['struct_A']) is not f['a'] or P(ctypes.c_char) is not f['c'] or P(None) is not f['v'] or P(ctypes.c_char) is P(ctypes.c_ubyte):
                        return ('POINTER_T gives another type', 'after %s, module %s' % (op, m2))
            for S, m2 in stars:
                if ctypes.sizeof(dict((f[0], f[1]) for f in S._fields_)['a']) != oracle.target(HIST[m2][0]).ptr:
                    return ('the size of a pointer changes', 'after %s, names of %s' % (op, m2))
            # the pointers of ctypes itself
            p = ctypes.pointer(ctypes.c_int(5))
            if p.contents.value != 5 or ctypes.sizeof(ctypes.POINTER(ctypes.c_char)) != 8 or ctypes.POINTER(ctypes.c_int) is not type(p):
                return ('the pointers of ctypes change', 'after ' + op)
        # records of the same name in two modules are two types, and so are their pointers
        for a, b in itertools.combinations(live, 2):
            if live[a][1][1][1] is live[b][1][1][1]:
                return ('two modules share a pointer type', a + b)
        return None

    def state(self, m, S, fields, size, o):
        now = [(f[0], f[1], ctypes.sizeof(f[1])) for f in S._fields_]
        if len(now) != len(fields) or any(x[0] != y[0] or x[1] is not y[1] or x[2] != y[2] for x, y in zip(now, fields)) or ctypes.sizeof(S) != size:
            return 'a loaded module changes'
        ptr = oracle.target(HIST[m][0]).ptr
        f = {a: (b, c) for a, b, c in now}
        if any(f[n][1] != ptr for n in 'acvf'):
            return 'a pointer has another size'
        if HIST[m][0] == 'host':
            c = ctypes.c_char(b'q')
            o.c = ctypes.pointer(c)
            o.a = ctypes.pointer(o)
            if o.c.contents.value != b'q' or o.a.contents.c.contents.value != b'q' or f['a'][0]._type_ is not S:
                return 'native pointers do not work'
        else:
            if (o.a.value, o.c.value, o.v.value) != (11, 12, 13) or type(o.a) is not f['a'][0]:
                return 'an address changes'
            o.a = 11
            if len({f[n][0] for n in 'acvf'}) != 4:
                return 'two pointers are the same type'
        return None


CHECK = C21

"""C20: the helper API of the generated records, over all record shapes up to
a length, all splits of their initialisers and all subsets of bound names.

State: (shape, initialiser state). Transition: one more member given, by
position, by keyword or by assignment. Oracle: a table of the C members and of
their plain values, and assignment member by member.
"""
import ctypes
import itertools

from .. import engine, impl

PRELUDE = '''struct In { char x; int y; }; struct Deep { short s; struct In in; char t[2]; }; union Un { int a; char b; long c; };
enum En { EN_A, EN_B = 9 }; typedef int (*Cb)(int); typedef struct In In_t; typedef int Arr_t[2]; struct Empty { };
'''
# kind: C declaration of the member @
KINDS = {
    'c': 'char @;', 's': 'short @;', 'i': 'int @;', 'l': 'unsigned long @;', 'd': 'double @;', 'o': '_Bool @;', 'e': 'enum En @;',
    'p': 'int *@;', 'P': 'struct In *@;', 'v': 'void *@;', 'k': 'char *@;',
    'r': 'struct In @;', 'R': 'struct Deep @;', 't': 'In_t @;', 'u': 'union Un @;', 'E': 'struct Empty @;',
    'a': 'int @[2];', 'A': 'struct In @[2];', 'B': 'char @[4];', 'D': 'int @[2][2];', 'T': 'Arr_t @;', 'G': 'struct In @[2][1];', 'U': 'union Un @[2];', 'q': 'int *@[2];',
    'b': 'unsigned @ : 3;', 'n': 'int @ : 9;', 'N': 'long @ : 33;',
    'F': 'int (*@)(int);', 'C': 'Cb @;', 'V': 'void (*@)(int);', 'W': 'double (*@)(double, int);', 'X': 'char *(*@)(void);', 'Y': 'struct In (*@)(int);', 'Z': 'void *(*@)(void *);',
    'z': 'char @ __attribute__((aligned(16)));', 'y': 'short @ __attribute__((packed));',
    'm': 'struct { int @x; char @y; };', 'M': 'union { int @x; long @y; };', 'w': 'struct { char x; int y; } @;',
}
CALLBACKS = 'FCVWXYZ'
BITS = 'bnN'
# the callbacks that ctypes can not make: it can not convert their result
NOMAKE = 'XY'


# names of members: those of the helpers' own variables, of padding, of Python
NAMES = ['self', 'cls', 'args', 'kwds', 'field', 'fields', 'name', 'value', 'result', 'type_', 'bound_fields', 'contents', 'restype', 'init', '_0', '_1', '_fields', '_length', 'PADDING', 'PADDINGS',
         'padding_0', 'Padding_0', '_PADDING_0', 'xPADDING_0', 'None', 'class', 'in', 'def', 'lambda', 'super', 'dict', 'print', 'ctypes', 'Structure', 'struct_In', 'items', 'update', 'keys', 'callback']

class C20(engine.Check):
    id = 'C20'
    technique = 'explicit-state enumeration of record shapes and initialiser states, replayed on the real generated records against a table of plain values'
    level_note = 'exhaustive up to the stated length'
    batch = 60
    rule = ('all records of up to 2 members of 38 kinds and of 3 members of 14 kinds (thorough: 3 of 38, 4 of 10), every split of the members in positional and keyword ones, '
            'every prefix, every keyword for a positional member, as_dict of two fillings, get_type of each member, bind with every subset of the names and an unknown one')
    assumptions = ['members are not named like the helpers themselves']

    def cases(self):
        few = 'cildrAbFmEzpuV' if not self.thorough else 'cidrAbFmzp'
        for n in (0, 1, 2):
            for l in itertools.product(KINDS, repeat=n):
                yield engine.Case('rec/' + ''.join(l), ('struct', ''.join(l)))
        for l in itertools.product(few if not self.thorough else KINDS, repeat=3):
            yield engine.Case('rec/' + ''.join(l), ('struct', ''.join(l)))
        if self.thorough:
            for l in itertools.product(few, repeat=4):
                yield engine.Case('rec/' + ''.join(l), ('struct', ''.join(l)))
        for l in itertools.product(KINDS, repeat=3 if self.thorough else 2):
            if self.thorough and not any(k in few for k in l):
                continue
            yield engine.Case('packed/' + ''.join(l), ('packed', ''.join(l)))
            yield engine.Case('union/' + ''.join(l), ('union', ''.join(l)))
        # a helper's variable, and other names
        for nm in NAMES:
            for k in ([k for k in KINDS if k not in 'mM'] if self.thorough else 'cilrAbFpCBD'):
                for shape, at in ((k, 0), ('c' + k, 1), (k + 'c', 0), ('c' + k + 'i', 1)):
                    yield engine.Case('name/%s:%s:%d' % (nm, shape, at), ('struct', shape, ((at, nm),)))
        for a, b in itertools.permutations(NAMES, 2):
            for shape in ('ci', 'rF') if not self.thorough else ('ci', 'rF', 'bi', 'Ac'):
                yield engine.Case('names/%s,%s:%s' % (a, b, shape), ('struct', shape, ((0, a), (1, b))))
        # names of the records themselves
        for l in itertools.chain(*[itertools.product('ciArFz', repeat=n) for n in (0, 1, 2)]):
            for where in ('dollar', 'typedef', 'dollartypedef'):
                for how in ('struct', 'union'):
                    yield engine.Case('%s/%s:%s' % (where, how, ''.join(l)), (how, ''.join(l), (('as', where),)))
        # derived classes: the members of the bases come first
        # (ctypes keeps one of two callbacks that have the same number, in the base and in the derived class)
        kinds = [k for k in KINDS if k not in 'mMEy' + CALLBACKS]
        for n in (2, 3) if not self.thorough else (2, 3, 4):
            letters = {2: kinds, 3: 'cildrAb', 4: 'cirb'}[n]
            for l in itertools.product(letters, repeat=n):
                for cuts in itertools.product((0, 1), repeat=n - 1):
                    if not any(cuts):
                        continue
                    parts = l[0]
                    for k, cut in zip(l[1:], cuts):
                        parts += ':' * cut + k
                    yield engine.Case('derived/' + parts, ('derived', ''.join(l), parts))
                    if n == 2:
                        # with a class without members
                        yield engine.Case('derived/' + parts + ':', ('derived', ''.join(l), parts + ':'))
                        yield engine.Case('derived/:' + parts, ('derived', ''.join(l), ':' + parts))

    def group(self, case):
        return case[1][0] == 'derived'

    def stats(self, case):
        n = len(case.payload[1])
        return (1 + 2 ** n, 3 * 2 ** n, 5 * 2 ** n)

    def run_batch(self, cases):
        src = PRELUDE
        for i, c in enumerate(cases):
            how, shape = c.payload[:2]
            if how == 'derived':
                j, parts = 0, c.payload[2].split(':')
                for n, part in enumerate(parts):
                    src += 'struct R%d%s %s{ %s };\n' % (i, 'b%d' % n if n < len(parts) - 1 else '', ': R%db%d ' % (i, n - 1) if n else '',
                                                        ' '.join(KINDS[k].replace('_Bool', 'bool').replace('@', 'm%d' % (j + m)) for m, k in enumerate(part)))
                    j += len(part)
                continue
            body = '{ %s }' % ' '.join(KINDS[k].replace('@', self.nm(c.payload, j)) for j, k in enumerate(shape))
            tag, name = self.record_names(c.payload, i)
            kw = 'union' if how == 'union' else 'struct'
            if name == tag:
                src += 'typedef %s %s %s;\n' % (kw, body, tag)
            else:
                src += '%s %s %s%s;\n' % (kw, tag, body, ' __attribute__((packed))' if how == 'packed' else '')
        try:
            out = impl.gen(src, name='m.cpp' if cases[0].payload[0] == 'derived' else 'm.c')
            ns = impl.load(out)
        except Exception as e:
            raise self.BatchFailed(('translate:' + impl.exc_sig(e), impl.tb(e)))
        res = []
        for i, c in enumerate(cases):
            how, shape = c.payload[:2]
            try:
                names = self.names(c.payload)
                r = (self.union if how == 'union' else self.struct)(ns, ns[self.record_names(c.payload, i)[1]], shape, names)
            except Exception as e:
                r = ('use:' + impl.exc_sig(e), impl.tb(e))
            if r:
                r = (r[0], '%s: %s\n%s' % (c.key, r[1], ''.join(impl.strip_text(out).partition('class %s_R%d' % ('union' if how == 'union' else 'struct', i))[1:])[:800]))
            res.append(r)
        return res

    # ------------------------------------------------------------------
    @staticmethod
    def record_names(payload, i):
        """in C, in the module"""
        where = dict(payload[2]).get('as', '') if len(payload) > 2 and payload[0] != 'derived' else ''
        tag = 'R%d' % i + '$' * ('dollar' in where)
        return tag, tag if 'typedef' in where else '%s_%s' % ('union' if payload[0] == 'union' else 'struct', tag)

    @staticmethod
    def nm(payload, j):
        """the name of a member in C"""
        return dict(payload[2]).get(j, 'm%d' % j) if len(payload) > 2 and payload[0] != 'derived' else 'm%d' % j

    @classmethod
    def names(cls, payload):
        """the names of the members, in order"""
        n = itertools.count()
        return [('_%d' % next(n)) if k in 'mM' else cls.nm(payload, j) for j, k in enumerate(payload[1])]

    @staticmethod
    def fields(cls):
        """those of the bases too"""
        return [f for c in reversed(cls.__mro__) for f in vars(c).get('_fields_', ())]

    @classmethod
    def member_type(cls, rec, name):
        """the type of a member, that of an anonymous record too"""
        return next((f[1] for f in cls.fields(rec) if f[0] == name), None)

    def value(self, ns, cls, k, name, j, v):
        """-> (Python value to set, plain value as as_dict gives it); v: the filling"""
        t = self.member_type(cls, name)
        q = 1 + j + 3 * v
        rec = lambda c, **kw: (lambda o: ([setattr(o, a, b) for a, b in kw.items()], o)[1])(c())
        inner = lambda n: (rec(ns['struct_In'], x=bytes([65 + n]), y=n), {'x': bytes([65 + n]), 'y': n})
        if self.stretched(cls, k, name):
            # ctypes has no other way for a byte next to a wide bit-field: a number
            return (int(v == 0) if k == 'o' else 64 + q,) * 2
        if k in 'csy' or k == 'z':
            return (bytes([64 + q]),) * 2 if k in 'cz' else (q,) * 2
        if k in 'ile':
            return (q,) * 2
        if k == 'd':
            return (q + .5,) * 2
        if k == 'o':
            return (v == 0,) * 2
        if k in BITS:
            return ((-q if k == 'n' else q % 8),) * 2
        if k in 'pPvkq':
            if k == 'q':
                a = t()
                a[0] = ctypes.pointer(ctypes.c_int32(q))
                return a, [('->', ctypes.c_int32, q), None]
            if k == 'v':
                # void * is POINTER_T(None)
                return ctypes.cast(q * 16, t), ('at', q * 16)
            if v:
                return t(), None
            if k == 'p':
                return ctypes.pointer(ctypes.c_int32(q)), ('->', ctypes.c_int32, q)
            if k == 'k':
                return ctypes.pointer(ctypes.c_char(bytes([q]))), ('->', ctypes.c_char, bytes([q]))
            return ctypes.pointer(inner(q)[0]), ('->', ns['struct_In'], inner(q)[1])
        if k in 'rt':
            return inner(q)
        if k == 'E':
            return ns['struct_Empty'](), {}
        if k == 'R':
            a, b = inner(q)
            return rec(ns['struct_Deep'], s=q, **{'in_' if hasattr(ns['struct_Deep'], 'in_') else 'in': a, 't': b'z'}), {'s': q, 'in': b, 't': b'z'}
        if k == 'u':
            o = ns['union_Un']()
            o.c = 65 + q
            return o, {'a': 65 + q, 'b': bytes([65 + q]), 'c': 65 + q}
        if k in 'aT':
            return t(0 if v else q, q + 1), [0 if v else q, q + 1]
        if k == 'A':
            # the second filling leaves an element out
            return (t(inner(q)[0]), [inner(q)[1], dict(x=b'\0', y=0)]) if v else (t(inner(q)[0], inner(q + 1)[0]), [inner(q)[1], inner(q + 1)[1]])
        if k == 'B':
            return (b'ab%d' % (q % 10),) * 2
        if k == 'D':
            row = t._type_
            return (t(row(0, q)), [[0, q], [0, 0]]) if v else (t(row(q, 2), row(3, 4)), [[q, 2], [3, 4]])
        if k == 'G':
            row = t._type_
            if v:
                return t(row(), row(inner(q)[0])), [[dict(x=b'\0', y=0)], [inner(q)[1]]]
            return t(row(inner(q)[0]), row(inner(q + 1)[0])), [[inner(q)[1]], [inner(q + 1)[1]]]
        if k == 'U':
            o = t()
            n = [0, 66] if v else [65, 66]
            o[0].c, o[1].c = n
            return o, [{'a': i, 'b': bytes([i]), 'c': i} for i in n]
        if k in NOMAKE:
            return t(), ('null',)
        if k in CALLBACKS:
            if v:
                return t(), ('null',)
            return {'F': t(lambda a: a + q), 'C': t(lambda a: a + q), 'V': t(lambda a: None), 'W': t(lambda a, b: a + b + q), 'Z': t(lambda a: (a or 0) + q)}[k], ('call', k, q)
        if k == 'm':
            o = t()
            setattr(o, 'm%dx' % j, q)
            setattr(o, 'm%dy' % j, bytes([q + 64]))
            return o, {'m%dx' % j: q, 'm%dy' % j: bytes([q + 64])}
        if k == 'M':
            o = t()
            setattr(o, 'm%dy' % j, q)
            return o, {'m%dx' % j: q, 'm%dy' % j: q}
        if k == 'w':
            o = t()
            o.x, o.y = bytes([q + 64]), q
            return o, {'x': bytes([q + 64]), 'y': q}
        raise KeyError(k)

    def same(self, got, plain):
        if isinstance(plain, dict):
            return isinstance(got, dict) and list(got) == list(plain) and all(self.same(got[a], plain[a]) for a in plain)
        if isinstance(plain, list):
            return isinstance(got, list) and len(got) == len(plain) and all(self.same(a, b) for a, b in zip(got, plain))
        if isinstance(plain, tuple):
            if plain[0] == '->':
                # what it points to, or the pointer
                if isinstance(got, ctypes._Pointer):
                    got = got.contents
                if type(plain[2]) is dict:
                    if isinstance(got, plain[1]):
                        got = type(got).as_dict(got)
                    return self.same(got, plain[2])
                if isinstance(got, ctypes._SimpleCData):
                    got = got.value
                return got == plain[2]
            if plain[0] == 'at':
                return (got.value if hasattr(got, 'value') else ctypes.cast(got, ctypes.c_void_p).value) == plain[1]
            if plain[0] == 'null':
                return not got
            return bool(got) and {'F': lambda: got(4) == 4 + plain[2], 'C': lambda: got(4) == 4 + plain[2], 'V': lambda: got(4) is None,
                                  'W': lambda: got(1.5, 2) == 3.5 + plain[2], 'Z': lambda: got(None) == plain[2]}[plain[1]]()
        if plain is None:
            return got is None or (isinstance(got, ctypes._Pointer) and not got)
        return type(got) is type(plain) and got == plain

    @staticmethod
    def stretched(cls, k, name):
        return k in 'coz' and any(f[0] == name and len(f) == 3 for f in C20.fields(cls))

    def zero(self, ns, cls, k, j):
        """the plain value of a member that is not set"""
        inner = {'x': b'\0', 'y': 0}
        un = {'a': 0, 'b': b'\0', 'c': 0}
        if k in 'cz':
            return b'\0'
        return {'d': 0.0, 'o': False, 'r': inner, 't': inner, 'R': {'s': 0, 'in': inner, 't': b''}, 'u': un, 'E': {}, 'a': [0, 0], 'T': [0, 0],
                'A': [inner, inner], 'B': b'', 'D': [[0, 0], [0, 0]], 'G': [[inner], [inner]], 'U': [un, un], 'q': [None, None],
                'm': {'m%dx' % j: 0, 'm%dy' % j: b'\0'}, 'M': {'m%dx' % j: 0, 'm%dy' % j: 0}, 'w': inner,
                'p': None, 'P': None, 'v': None, 'k': None}.get(k, ('null',) if k in CALLBACKS else 0)

    def struct(self, ns, cls, shape, names):
        got = list(cls._field_names_())
        if got != names:
            return ('the members are not the positional arguments', '%s' % got)
        n = len(names)
        fill = [[self.value(ns, cls, k, m, j, v) for j, (k, m) in enumerate(zip(shape, names))] for v in (0, 1)]
        zero = [0 if self.stretched(cls, k, names[j]) else self.zero(ns, cls, k, j) for j, k in enumerate(shape)]

        def content(o):
            """bytes, without those of function pointers, which are not stable"""
            return bytes(o)
        for v, vals in enumerate(fill):
            for given in itertools.product((0, 1), repeat=n):
                # by keyword, in both orders
                kw = {m: vals[j][0] for j, m in enumerate(names) if given[j]}
                want = {m: vals[j][1] if given[j] else zero[j] for j, m in enumerate(names)}
                ref = cls()
                for m, x in kw.items():
                    setattr(ref, m, x)
                objs = [('keywords', cls(**kw)), ('keywords backwards', cls(**dict(reversed(list(kw.items())))))]
                # by position, then by keyword
                for pos in range(n + 1):
                    if all(given[:pos]):
                        args = [vals[j][0] for j in range(pos)]
                        objs.append(('%d by position' % pos, cls(*args, **{m: kw[m] for m in names[pos:] if m in kw})))
                        # a keyword for a member that has a position is the one that counts
                        for j in range(pos):
                            other = [x[0] for x in fill[1 - v]]
                            objs.append(('%d by position, %s twice' % (pos, names[j]), cls(
                                *(args[:j] + [other[j]] + args[j + 1:]), **{m: kw[m] for i, m in enumerate(names) if m in kw and (i >= pos or i == j)})))
                for what, o in objs:
                    if content(o) != content(ref):
                        return ('initialisers do not set the members', '%s %s: %s / %s' % (what, given, content(o), content(ref)))
                    d = cls.as_dict(o)
                    if not self.same(d, want):
                        return ('as_dict is wrong', '%s %s: %s / %s' % (what, given, d, want))
                    if type(d) is not dict or cls.as_dict(o) is d:
                        return ('as_dict is not a new dictionary', '')
                # an other class can be asked, and a value that is no record stays
                if cls.as_dict(5) != 5 or cls.as_dict(None) is not None:
                    return ('as_dict of a plain value', '')
        for f in self.fields(cls):
            if [g[0] for g in self.fields(cls)].count(f[0]) == 1 and cls.get_type(f[0]) is not f[1]:
                return ('get_type is wrong', f[0])
        if n and (cls.get_type('nothing') is not None or cls.get_type('') is not None):
            return ('get_type of an unknown name', '')
        return self.bind(ns, cls, shape, names, fill, zero) if n else None

    def bind(self, ns, cls, shape, names, fill, zero):
        n = len(names)
        for v in (0, 1):
            for given in itertools.product((0, 1), repeat=n):
                bound, want, calls = {}, {}, []
                for j, (m, k) in enumerate(zip(names, shape)):
                    val, pl = fill[v][j]
                    if not given[j]:
                        want[m] = ('default', k) if k in CALLBACKS else zero[j]
                        continue
                    if k in CALLBACKS:
                        if v or k in NOMAKE:
                            bound[m], want[m] = None, ('null',)
                        else:
                            q = 1 + j
                            bound[m] = {'F': lambda a, q=q: a + q, 'C': lambda a, q=q: a + q, 'V': lambda a, q=q: calls.append((q, a)),
                                        'W': lambda a, b, q=q: a + b + q, 'Z': lambda a, q=q: (a or 0) + q}[k]
                            want[m] = ('call', k, q)
                    else:
                        bound[m], want[m] = val, pl
                before = dict(bound)
                o = cls.bind(bound)
                if type(o) is not cls:
                    return ('bind gives another type', str(type(o)))
                if bound != before:
                    return ('bind changes its argument', '%s / %s' % (bound, before))
                for j, m in enumerate(names):
                    got = getattr(o, m)
                    w = want[m]
                    if isinstance(w, tuple) and w[0] == 'default':
                        r = self.default(got, w[1])
                        if r:
                            return ('an unbound callback', '%s %s: %s' % (m, given, r))
                    elif isinstance(w, tuple) and w[0] == 'call' and w[1] == 'V':
                        del calls[:]
                        if got(7) is not None or calls != [(1 + j, 7)]:
                            return ('a bound callback is not called', '%s %s %s' % (m, given, calls))
                    elif not self.same(cls.as_dict(o)[m], w):
                        return ('a bound member is wrong', '%s %s: %s / %s' % (m, given, cls.as_dict(o)[m], w))
        for bad in ({'nothing': None}, {names[0]: fill[0][0][0] if shape[0] not in CALLBACKS else None, 'nothing': 5}, {'PADDING_': 1}):
            try:
                cls.bind(dict(bad))
            except ValueError:
                continue
            return ('bind accepts an unknown name', str(bad))
        return None

    @staticmethod
    def default(f, k):
        if k in NOMAKE:
            return None if not f else 'not null'
        if not f:
            return 'null'
        r = {'F': lambda: f(5), 'C': lambda: f(5), 'V': lambda: f(5), 'W': lambda: f(2.5, 5), 'Z': lambda: f(None)}[k]()
        want = {'F': 0, 'C': 0, 'V': None, 'W': 0.0, 'Z': None}[k]
        return None if r == want else 'returns %r' % (r,)

    def union(self, ns, cls, shape, names):
        for j, (k, m) in enumerate(zip(shape, names)):
            for v in (0, 1):
                val, plain = self.value(ns, cls, k, m, j, v)
                for what, o in (('keyword', cls(**{m: val})), ('assigned', cls())):
                    if what == 'assigned':
                        setattr(o, m, val)
                    d = cls.as_dict(o)
                    if list(d) != names:
                        return ('as_dict lacks members', '%s' % list(d))
                    if not self.same(d[m], plain):
                        return ('as_dict is wrong', '%s: %s / %s' % (what, d[m], plain))
        return None


CHECK = C20

"""C05: enumerations, over all short constant lists.

State: the list of enumerator initialisers (BFS by length), under a form
(named, anonymous, typedef, in a record, ...), compiler option and target.
"""
import ctypes
import itertools

from .. import cgen, engine, impl, oracle

# initialiser text -> value given (previous value, values so far)
INITS = {
    '': lambda prev, vs: prev + 1,
    '0': lambda p, v: 0, '1': lambda p, v: 1, '-1': lambda p, v: -1, '5': lambda p, v: 5, '127': lambda p, v: 127,
    '128': lambda p, v: 128, '-128': lambda p, v: -128, '-129': lambda p, v: -129, '255': lambda p, v: 255,
    '256': lambda p, v: 256, '32767': lambda p, v: 32767, '32768': lambda p, v: 32768, '-32768': lambda p, v: -32768,
    '-32769': lambda p, v: -32769, '65535': lambda p, v: 65535, '65536': lambda p, v: 65536,
    '2147483647': lambda p, v: 2 ** 31 - 1, '0x80000000': lambda p, v: 2 ** 31, '0xFFFFFFFF': lambda p, v: 2 ** 32 - 1,
    '-2147483647-1': lambda p, v: -2 ** 31, '-2147483649LL': lambda p, v: -2 ** 31 - 1, '0x100000000': lambda p, v: 2 ** 32,
    '0x7fffffffffffffff': lambda p, v: 2 ** 63 - 1, '0xffffffffffffffffULL': lambda p, v: 2 ** 64 - 1,
    '0x8000000000000000ULL': lambda p, v: 2 ** 63,
    '-0x7fffffffffffffffLL-1': lambda p, v: -2 ** 63, '1<<4': lambda p, v: 16, "'A'": lambda p, v: 65,
    '017': lambda p, v: 15, '~0': lambda p, v: -1, '0b11': lambda p, v: 3, '(2*3)': lambda p, v: 6, '!1': lambda p, v: 0,
    '1u': lambda p, v: 1, 'REF': lambda p, v: v[0], 'REF+1': lambda p, v: v[0] + 1, '-REF': lambda p, v: -v[0],
    'sizeof(int)': None, '(char)300': lambda p, v: 44, '1?7:8': lambda p, v: 7, 'MAC': lambda p, v: 21,
}
MID = ['', '0', '-1', '127', '128', '-129', '255', '256', '65535', '0x80000000', '-2147483647-1', '0xFFFFFFFF', '0x100000000',
       'REF', '-2147483649LL', '2147483647']
SMALL = ['', '0', '-1', '5', '128', 'REF', '0x80000000']
FORMS = ('named', 'anon', 'tdanon', 'td', 'tdsame', 'member', 'memberanon', 'memberarr', 'arg', 'ret', 'ptr', 'bit', 'tdptr',
         'fwdtd', 'second', 'innerrec')


def values(inits, intsize=4):
    out, prev = [], -1
    for s in inits:
        f = INITS[s]
        if f is None:
            v = intsize
        else:
            if s.startswith(('REF', '-REF')) and not out:
                return None
            if s in ('REF+1', '-REF') and not -2 ** 31 < out[0] < 2 ** 31 - 1:
                return None         # depends on the type of the constant
            if s == '' and prev >= 2 ** 63 - 1:
                return None         # overflow, not C
            v = f(prev, out)
        out.append(v)
        prev = v
    if min(out) < -2 ** 63 or max(out) > 2 ** 64 - 1:
        return None
    if min(out) < 0 and max(out) > 2 ** 63 - 1:
        return None
    if intsize == 2:
        # avr/msp430: constants beyond int are kept, initialisers like 1<<4 too
        pass
    return out


def body(inits, s):
    return ', '.join('K%s_%d%s' % (s, i, (' = ' + t.replace('REF', 'K%s_0' % s)) if t else '') for i, t in enumerate(inits))


def source(inits, form, s, attr=''):
    a = (attr + ' ') if attr else ''
    b = '{ %s }' % body(inits, s)
    return {
        'named': 'enum %sE%s %s;' % (a, s, b),
        'trail': 'enum %sE%s { %s, };' % (a, s, body(inits, s)),
        'anon': 'enum %s%s;' % (a, b),
        'tdanon': 'typedef enum %s%s T%s;' % (a, b, s),
        'td': 'typedef enum %sE%s %s T%s;' % (a, s, b, s),
        'tdsame': 'typedef enum %sE%s %s E%s;' % (a, s, b, s),
        'member': 'enum %sE%s %s; struct H%s { char c; enum E%s m; char d; };' % (a, s, b, s, s),
        'memberanon': 'struct H%s { char c; enum %s%s m; char d; };' % (s, a, b),
        'innerrec': 'struct H%s { char c; enum %sE%s %s m; char d; };' % (s, a, s, b),
        'memberarr': 'enum %sE%s %s; struct H%s { char c; enum E%s m[2]; char d; };' % (a, s, b, s, s),
        'arg': 'enum %sE%s %s; struct H%s { int (*m)(enum E%s, char); };' % (a, s, b, s, s),
        'ret': 'enum %sE%s %s; struct H%s { enum E%s (*m)(char); };' % (a, s, b, s, s),
        'ptr': 'enum %sE%s %s; struct H%s { enum E%s *m; };' % (a, s, b, s, s),
        'bit': 'enum %sE%s %s; struct H%s { enum E%s m : 4; enum E%s n : 3; };' % (a, s, b, s, s, s),
        'tdptr': 'typedef enum %sE%s %s *T%s;' % (a, s, b, s),
        'fwdtd': 'typedef enum %sE%s %s T%s; typedef T%s TT%s; struct H%s { TT%s m; char c; };' % (a, s, b, s, s, s, s, s),
        'second': 'enum X%s { KX%s = 3 }; enum %sE%s %s; enum Y%s { KY%s = -4 };' % (s, s, a, s, b, s, s),
    }[form]


def sizeexpr(form, s, inits):
    if form == 'anon':
        return '1'
    if form in ('tdanon',):
        return 'sizeof(T%s)' % s
    if form == 'memberanon':
        return 'sizeof(((struct H%s*)0)->m)' % s
    return 'sizeof(enum E%s)' % s


class C05(engine.Check):
    id = 'C05'
    technique = 'explicit-state enumeration of enumerator lists, every state replayed on the real translator and compared with compiler-evaluated constants'
    level_note = 'exhaustive within the stated initialiser alphabets, lengths, forms, options and targets'
    batch = 40
    rule = ('state = list of enumerator initialisers (BFS by length) in a declaration form, per enum option and '
            'target; oracle: value model cross-checked against the constants gcc/clang compute, sizes from the compiler')

    def cases(self):
        seen = set()

        def mk(tg, opt, form, inits, attr=''):
            k = '%s%s/%s%s:%s' % (tg, '+' + opt if opt else '', form, '+' + attr if attr else '', ' | '.join(inits))
            if k in seen:
                return []
            vs = values(inits)
            if vs is None:
                return []
            if 'windows' in tg and (min(vs) < -2 ** 31 or max(vs) >= 2 ** 31):
                return []               # all enumerations are int there
            seen.add(k)
            return [engine.Case(k, (tg, opt, form, tuple(inits), attr))]
        full = list(INITS)
        prod = itertools.product
        for form in FORMS + ('trail',):
            for w in prod(full, repeat=1):
                yield from mk('host', '', form, w)
        for form in ('named', 'tdanon', 'member') + (FORMS if self.thorough else ()):
            for w in prod(full, repeat=2):
                yield from mk('host', '', form, w)
        for form in FORMS:
            for w in prod(MID, repeat=2):
                yield from mk('host', '', form, w)
        for form in ('named', 'anon', 'member') if not self.thorough else FORMS:
            for w in prod(MID, repeat=3):
                yield from mk('host', '', form, w)
        for form in ('named',):
            for w in prod(SMALL if not self.thorough else MID, repeat=4):
                yield from mk('host', '', form, w)
        if self.thorough:
            for w in prod(full, repeat=3):
                yield from mk('host', '', 'named', w)
            for w in prod(SMALL, repeat=5):
                yield from mk('host', '', 'named', w)
        for opt in ('-fshort-enums', '-fno-short-enums'):
            for form in ('named', 'member', 'tdanon', 'ret') + (FORMS if self.thorough else ()):
                for n in (1, 2):
                    for w in prod(MID if n == 2 else full, repeat=n):
                        yield from mk('host', opt, form, w)
            for w in prod(MID if self.thorough else SMALL, repeat=3):
                yield from mk('host', opt, 'named', w)
        for w in prod(MID, repeat=2):
            for form in ('named', 'member', 'td'):
                yield from mk('host', '', form, w, '__attribute__((packed))')
        for tg in ('i386-linux', 'arm', 'x86_64-windows', 'aarch64') + (('i686-windows', 'avr', 'm68k', 'x32', 'riscv32')
                                                                      if self.thorough else ()):
            for opt in ('', '-fshort-enums'):
                for form in ('named', 'member', 'tdanon', 'ptr'):
                    for n in (1, 2):
                        for w in prod(MID, repeat=n):
                            yield from mk(tg, opt, form, w)
        for n in (10, 50, 300):
            for first in ('', '-1', '250', '65530') if False else ('', '-1', '128', '65535'):
                yield from mk('host', '', 'named', (first,) + ('',) * n)

    def group(self, case):
        return case.payload[0], case.payload[1]

    def run_batch(self, cases):
        tg, opt = cases[0].payload[:2]
        opts = oracle.TARGETS[tg] + ([opt] if opt else [])
        target = oracle.target(tg)
        src, q = ['#define MAC 21'], []
        for i, c in enumerate(cases):
            _, _, form, inits, attr = c.payload
            s = str(i)
            src.append(source(inits, form, s, attr))
            q.append(sizeexpr(form, s, inits))
            q += ['K%s_%d' % (s, j) for j in range(len(inits))]
        text = '\n'.join(src) + '\n'
        ok = True
        vals = oracle.clang_consts(text, [x for x in q if x.startswith(('sizeof', '1'))], opts)
        sizes = iter(vals)
        intsize = target.sizeof('int')
        model = [values(c.payload[3], intsize) for c in cases]
        if tg == 'host' and not opt.startswith('-fno'):
            # cross-check the value model and the sizes with gcc
            g = oracle.gcc_consts(text, q, [opt] if opt else [])
            gi = iter(g)
            for c, mv in zip(cases, model):
                next(gi)
                for v in mv:
                    x = next(gi)
                    if (x - v) % (1 << 64):
                        raise RuntimeError('value model: %s gcc %s model %s' % (c.key, x, v))
        try:
            out = impl.gen(text, opts)
        except Exception as e:
            raise self.BatchFailed(('translate:' + impl.exc_sig(e), impl.tb(e) + '\n' + text[-1500:]))
        try:
            ns = impl.load(out)
        except Exception as e:
            raise self.BatchFailed(('load:' + impl.exc_sig(e), impl.tb(e) + '\n' + impl.strip_text(out)[-3000:]))
        res = []
        exported = set(ns['__all__'])
        for i, (c, mv) in enumerate(zip(cases, model)):
            try:
                bad = self.compare(ns, exported, c, str(i), mv, next(sizes), target)
            except Exception as e:
                bad = 'use:' + impl.exc_sig(e)
            res.append(None if bad is None else (bad.replace('K%d_' % i, 'K@_').replace('E%d' % i, 'E@').replace(
                'T%d' % i, 'T@').replace('H%d' % i, 'H@'),
                source(c.payload[3], c.payload[2], str(i), c.payload[4]) + '\n' + '\n'.join(
                    l for l in impl.strip_text(out).splitlines() if 'E%d ' % i in l or 'K%d_' % i in l)[:800]))
        return res

    @staticmethod
    def compare(ns, exported, c, s, mv, size, target):
        _, _, form, inits, _ = c.payload
        names = ['K%s_%d' % (s, j) for j in range(len(inits))]
        for n, v in zip(names, mv):
            if n not in ns:
                return 'constant missing'
            if type(ns[n]) is not int or ns[n] != v:
                return 'constant value'
            if n not in exported:
                return 'constant not exported'
        if form == 'second':
            if ns.get('KX' + s) != 3 or ns.get('KY' + s) != -4 or ns.get('X%s__enumvalues' % s) != {3: 'KX' + s} or \
                    ns.get('Y%s__enumvalues' % s) != {-4: 'KY' + s}:
                return 'neighbour enumeration'
        tables = []
        if form in ('tdanon',):
            tables = ['T%s__enumvalues' % s]
        elif form not in ('anon', 'memberanon'):
            tables = ['E%s__enumvalues' % s]
            if form in ('td', 'fwdtd'):
                tables.append('T%s__enumvalues' % s)
        else:
            tables = [k for k in ns if k.endswith('__enumvalues') and names[0] in ns[k].values() or
                      k.endswith('__enumvalues') and names[-1] in ns[k].values()]
            if not tables:
                return 'table missing'
        for t in tables:
            tab = ns.get(t)
            if not isinstance(tab, dict):
                return 'table missing'
            if set(tab) != set(mv):
                return 'table values'
            for v, n in tab.items():
                if n not in names or mv[names.index(n)] != v:
                    return 'table names'
        # the type
        types = {'tdanon': ['T' + s], 'td': ['E' + s, 'T' + s], 'fwdtd': ['E' + s, 'T' + s, 'TT' + s], 'anon': [],
                 'memberanon': []}.get(form, ['E' + s])
        neg = min(mv) < 0
        for t in types:
            ty = ns.get(t)
            if ty is None:
                return 'type missing'
            if t not in exported:
                return 'type not exported'
            r = C05.check_type(ty, size, neg, mv)
            if r:
                return r
        if form in ('member', 'memberanon', 'memberarr', 'arg', 'ret', 'ptr', 'fwdtd', 'innerrec'):
            f = dict((x[0], x[1]) for x in ns['struct_H' + s]._fields_)['m']
            if form == 'memberarr':
                if f._length_ != 2:
                    return 'use: array'
                f = f._type_
            elif form in ('arg', 'ret', 'ptr'):
                if cgen.is_emulated_pointer(f):
                    f = f._subtype_
                elif form == 'ptr':
                    f = f._type_
                if form == 'arg':
                    if len(f._argtypes_) != 2:
                        return 'use: argument count'
                    f = f._argtypes_[0]
                elif form == 'ret':
                    f = f._restype_
            r = C05.check_type(f, size, neg, mv)
            if r:
                return 'use: ' + r
            if form in ('member', 'memberanon', 'innerrec'):
                cls = ns['struct_H' + s]
                o = cls()
                for v in mv:
                    o.m = v
                    if o.m != v:
                        return 'use: store'
        if form == 'bit':
            cls = ns['struct_H' + s]
            o = cls()
            o.m = 3
            o.n = 2
            if (o.m, o.n) != (3, 2) or bytes(o)[0] != 0x23:
                return 'use: bit-field'
            o.m = -1
            if (o.m < 0) != neg or o.n != 2:
                return 'use: bit-field sign'
        return None

    @staticmethod
    def check_type(ty, size, neg, mv):
        if getattr(ty, '_type_', None) not in tuple('bBhHiIlLqQ'):
            return 'type %s' % cgen.cname(ty)
        if ctypes.sizeof(ty) != size:
            return 'type size %d not %d' % (ctypes.sizeof(ty), size)
        if (ty(-1).value < 0) != neg:
            return 'type sign'
        for v in mv:
            if ty(v).value != v:
                return 'cannot represent a constant'
        return None

    def stats(self, case):
        return (1, 1, len(case.payload[3]) * 3 + 2)


CHECK = C05

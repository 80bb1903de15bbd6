"""C03: type mapping, over all type derivation trees.

State: a C type term (base type under a chain of derivations). Transition: one
more derivation (pointer, array, qualifier, function returning it, function
taking it). Every state is placed in several declaration positions, translated
by the real translator for a target, and the ctypes type found in the loaded
module is compared structurally and by size with the term.
"""
import ctypes
import itertools

from .. import cgen, engine, impl, oracle

B = lambda s: ('b', s)
BASE = {
    'c': B('char'), 'a': B('signed char'), 'h': B('unsigned char'), 's': B('short'), 't': B('unsigned short'),
    'i': B('int'), 'j': B('unsigned int'), 'l': B('long'), 'm': B('unsigned long'), 'x': B('long long'),
    'y': B('unsigned long long'), 'b': B('_Bool'), 'f': B('float'), 'd': B('double'), 'D': B('long double'),
    'v': B('void'), 'S': ('s', 'S0'), 'U': ('u', 'U0'), 'E': ('e', 'E0'), 'O': ('s', 'O0'), 'T': ('t', 'T0'),
    'H': ('s', 'S3'), 'P': ('t', 'TP0'), 'A': ('t', 'TA0'), 'F': ('t', 'TF0'), 'R': ('t', 'TS0'), 'n': B('__int128'),
    'N': B('unsigned __int128'),
    'C': ('w', '_Complex float', B('float'), 2), 'Z': ('w', '_Complex double', B('double'), 2),
    'X': ('w', '_Complex int', B('int'), 2), 'V': ('t', 'TV0'), 'W': ('t', 'TW0'),
}
TYPEDEFS = {'T0': B('short'), 'TP0': ('p', B('char')), 'TA0': ('a', B('int'), 2),
            'TF0': ('p', ('f', B('int'), (B('char'),))), 'TS0': ('s', 'S0'),
            'TV0': ('w', '', B('float'), 4), 'TW0': ('w', '', B('unsigned short'), 4)}
PRELUDE = '''struct S0 { char sc; short ss; };
union U0 { char uc; int ui; };
struct S3 { char sc[3]; };
enum E0 { E0_A, E0_B = 7 };
struct O0;
typedef short T0; typedef char *TP0; typedef int TA0[2]; typedef int (*TF0)(char); typedef struct S0 TS0;
typedef float TV0 __attribute__((vector_size(4 * sizeof(float)))); typedef unsigned short TW0 __attribute__((vector_size(8)));
'''
OPS = 'p2kvrgGV3wA'


def derive(t, op):
    if op == 'p':
        return ('p', t)
    if op in '23':
        return ('a', t, int(op))
    if op == 'k':
        return ('q', 'const', t)
    if op == 'v':
        return ('q', 'volatile', t)
    if op == 'w':
        return ('q', 'const volatile', t)
    if op == 'r':       # pointer to function returning t
        return ('p', ('f', t, ()))
    if op == 'g':       # pointer to function taking t
        return ('p', ('f', B('void'), (t,)))
    if op == 'G':       # pointer to function taking (int, t, t) returning t
        return ('p', ('f', B('int'), (B('int'), t, B('double'), t)))
    if op == 'V':       # variadic
        return ('p', ('fv', B('int'), (t,)))
    if op == 'A':
        return ('at', t)
    raise ValueError(op)


def real(t):
    t = cgen.strip_q(t)
    while t[0] in ('t', 'at'):
        t = cgen.strip_q(TYPEDEFS[t[1]] if t[0] == 't' else t[1])
    return t


def valid(base, chain):
    """Is the term a legal C object type at every step? (void, opaque and
    array restrictions)"""
    t = BASE[base]
    for op in chain:
        r = real(t)
        incomplete = r == B('void') or r == ('s', 'O0')
        if op in '23gGV' and incomplete:
            return False
        if op == 'r' and (r[0] == 'a' or r == ('s', 'O0')):
            return False
        if op in 'kvw':
            if t[0] == 'q' or r[0] == 'a':
                return False            # double qualifiers, qualified arrays: same type
        if op == 'A' and (t[0] in ('q', 'at') or r[0] == 'a' or incomplete):
            return False
        t = derive(t, op)
    r = real(t)
    return not (r == B('void') or r == ('s', 'O0'))


def term(base, chain):
    t = BASE[base]
    for op in chain:
        t = derive(t, op)
    return t


POS = ('member', 'typedef', 'arg', 'ret', 'anon', 'umember')


def has_array_arg(t):
    if not isinstance(t, tuple):
        return False
    return any(has_array_arg(x) for x in t if isinstance(x, tuple))


class C03(engine.Check):
    id = 'C03'
    technique = 'explicit-state enumeration of C type derivation trees, every state replayed on the real translator and compared structurally with the loaded ctypes type'
    level_note = 'exhaustive within the stated alphabets, derivation depths and targets'
    batch = 40
    rule = ('state = base type with a chain of derivations (BFS by length) in a declaration position, per target; '
            'oracle: structural comparison with the type term and sizes from clang/gcc constants')
    assumptions = ['the calling convention of function pointers is the default one',
                   'long double and 128-bit integers are compared by size and kind only']

    def cases(self):
        seen = set()

        def mk(base, chain, pos, tg):
            k = '%s/%s/%s%s' % (tg, pos, base, '.' + chain if chain else '')
            if k in seen or not valid(base, chain):
                return []
            r = real(term(base, chain))
            if pos == 'ret' and r[0] == 'a':
                return []
            if r[0] == 'b' and '__int128' in r[1] and tg not in ('host', 'aarch64', 'x86_64-linux'):
                return []
            if base == 'H' and 'A' in chain and tg == 'host':
                return []           # gcc does not round the size of an atomic record up, clang does
            if '__int128' in str(term(base, chain)) and tg not in ('host', 'aarch64', 'x86_64-linux'):
                return []
            seen.add(k)
            return [engine.Case(k, (tg, base, chain, pos))]
        allb = ''.join(BASE)
        for n in (0, 1, 2):
            for b in allb:
                for ch in itertools.product(OPS, repeat=n):
                    for pos in POS:
                        yield from mk(b, ''.join(ch), pos, 'host')
        deep = 'cidSTvOECH' if not self.thorough else allb
        for b in deep:
            for ch in itertools.product('p2krgA' if not self.thorough else 'p2kvrgGVA', repeat=3):
                for pos in ('member', 'typedef') if not self.thorough else POS:
                    yield from mk(b, ''.join(ch), pos, 'host')
        if self.thorough:
            for n in (4, 5):
                for b in ('iSvOcP' if n == 4 else 'iSv'):
                    for ch in itertools.product('p2krg' if n == 4 else 'p2rg', repeat=n):
                        for pos in ('member', 'typedef', 'arg'):
                            yield from mk(b, ''.join(ch), pos, 'host')
        tgs = ['i386-linux', 'x86_64-windows', 'arm', 'aarch64', 'x32', 'i686-windows', 'm68k']
        if self.thorough:
            tgs += ['x86_64-linux', 'mips', 'ppc64', 'riscv32', 'avr', 'msp430']
        for n in (1, 2, 3):
            for ch in itertools.product('p2kA', repeat=n):
                for pos in POS:
                    yield from mk('H', ''.join(ch), pos, 'x86_64-linux')
        for tg in tgs:
            for n in (0, 1, 2) + ((3,) if self.thorough else ()):
                for b in allb:
                    for ch in itertools.product('p2krgA' if n != 3 else 'p2rgA', repeat=n):
                        for pos in ('member', 'typedef') + (('arg', 'anon', 'ret', 'umember') if self.thorough and n < 3 else ()):
                            yield from mk(b, ''.join(ch), pos, tg)

    def group(self, case):
        return case.payload[0], '__int128' in str(BASE[case.payload[1]])

    @staticmethod
    def declare(i, t, pos):
        """(source text, size expression)"""
        n = str(i)
        if pos in ('member', 'umember'):
            kw = 'struct' if pos == 'member' else 'union'
            return ('%s H%s { char pre; %s; char post; };' % (kw, n, cgen.decl(t, 'm')),
                    'sizeof(((%s H%s*)0)->m)' % (kw, n))
        if pos == 'anon':
            return ('struct H%s { char pre; union { char z; struct { int w; %s; } in; }; };' % (n, cgen.decl(t, 'm')),
                    'sizeof(((struct H%s*)0)->in.m)' % n)
        if pos == 'typedef':
            return 'typedef %s;' % cgen.decl(t, 'TD' + n), 'sizeof(TD%s)' % n
        if pos == 'arg':
            return 'struct H%s { int (*fn)(int, %s, char); };' % (n, cgen.decl(t, 'par')), None
        if pos == 'ret':
            return 'struct H%s { %s; };' % (n, cgen.decl(('p', ('f', t, (B('int'),))), 'fn')), None

    def run_batch(self, cases):
        tg = cases[0].payload[0]
        target = oracle.target(tg)
        terms, src, q = [], [PRELUDE], []
        for i, c in enumerate(cases):
            _, b, ch, pos = c.payload
            t = term(b, ch)
            s, expr = self.declare(i, t, pos)
            src.append(s)
            terms.append((t, pos, len(q) if expr else None))
            if expr:
                q.append(expr)
        text = '\n'.join(src) + '\n'
        sizes = oracle.consts(text, q, tg)
        try:
            out = impl.gen(text, target.opts)
        except Exception as e:
            raise self.BatchFailed(('translate:' + impl.exc_sig(e), impl.tb(e) + '\n' + text[-1500:]))
        try:
            ns = impl.load(out)
        except Exception as e:
            raise self.BatchFailed(('load:' + impl.exc_sig(e), impl.tb(e) + '\n' + impl.strip_text(out)[-3000:]))
        env = cgen.Env(ns, target, TYPEDEFS)
        res = []
        for i, (t, pos, qi) in enumerate(terms):
            size = None if qi is None else sizes[qi]
            try:
                bad = self.compare(ns, i, t, pos, size, env)
            except Exception as e:
                bad = 'use:' + impl.exc_sig(e)
            res.append(None if bad is None else (bad.replace('H%d' % i, 'H@').replace('TD%d' % i, 'TD@'),
                                                 src[i + 1] + '\n' + '\n'.join(
                l for l in impl.strip_text(out).splitlines() if 'H%d' % i in l or 'TD%d' % i in l or "'m'" in l)[:600]))
        return res

    @staticmethod
    def compare(ns, i, t, pos, size, env):
        if pos == 'typedef':
            if 'TD%d' % i not in ns:
                return 'name missing'
            c = ns['TD%d' % i]
        elif pos in ('member', 'umember', 'anon'):
            cls = ns.get(('union_' if pos == 'umember' else 'struct_') + 'H%d' % i)
            if cls is None:
                return 'class missing'
            if pos == 'anon':
                d = dict((f[0], f[1]) for f in cls._fields_)
                anon = [d[a] for a in cls._anonymous_]
                inner = dict((f[0], f[1]) for f in anon[0]._fields_)['in']
                cls = inner
            c = dict((f[0], f[1]) for f in cls._fields_).get('m')
            if c is None:
                return 'member missing'
        else:
            cls = ns.get('struct_H%d' % i)
            fn = dict((f[0], f[1]) for f in cls._fields_)['fn']
            if pos == 'arg':
                ft = ('p', ('f', B('int'), (B('int'), t, B('char'))))
            else:
                ft = ('p', ('f', t, (B('int'),)))
            return cgen.match(fn, ft, env)
        r = cgen.match(c, t, env)
        if r:
            return r
        if ctypes.sizeof(c) != size:
            return 'sizeof %d not %d' % (ctypes.sizeof(c), size)
        return None

    def stats(self, case):
        return (1, 1, 1)


CHECK = C03

"""C04: typedef names, over all typedef chains.

State: a base type under a chain of derivations in which any link may be given
a typedef name ('t'). Transition: one more derivation or one more name. Every
name must be the type it abbreviates, and the declaration that uses the last
term must equal the expanded one.
"""
import ctypes
import itertools
import re

from .. import cgen, engine, impl, oracle

B = lambda s: ('b', s)
BASE = {'c': B('char'), 'h': B('unsigned char'), 's': B('short'), 'i': B('int'), 'm': B('unsigned long'), 'b': B('_Bool'),
        'd': B('double'), 'D': B('long double'), 'v': B('void'), 'S': ('s', 'S@'), 'U': ('u', 'U@'), 'E': ('e', 'E@'),
        'O': ('s', 'O@'), 'Z': ('w', '_Complex double', B('double'), 2), 'X': ('w', 'V@', B('float'), 4)}
PRE = {'X': 'typedef float V@ __attribute__((vector_size(16)));',
       'S': 'struct S@ { char sc; short ss; };', 'U': 'union U@ { char uc; int ui; };',
       'E': 'enum E@ { E@_A, E@_B = 7 };', 'O': 'struct O@;'}
# definitions that come with the typedef itself
INLINE = {
    'anon-s': ('typedef struct { char sc; short ss; } T@_0;', 's', 'T@_0'),
    'anon-u': ('typedef union { char uc; int ui; } T@_0;', 'u', 'T@_0'),
    'anon-e': ('typedef enum { T@_A, T@_B = 9 } T@_0;', 'e', 'T@_0'),
    'tag-s': ('typedef struct S@ { char sc; short ss; } T@_0;', 's', 'struct_S@'),
    'tag-u': ('typedef union U@ { char uc; int ui; } T@_0;', 'u', 'union_U@'),
    'tag-e': ('typedef enum E@ { T@_A, T@_B = 9 } T@_0;', 'e', 'E@'),
    'same-s': ('typedef struct T@_0 { char sc; short ss; } T@_0;', 's', 'struct_T@_0'),
    'same-u': ('typedef union T@_0 { char uc; int ui; } T@_0;', 'u', 'union_T@_0'),
    'fwd-s': ('typedef struct S@ T@_0; struct S@ { char sc; short ss; };', 's', 'struct_S@'),
    'fwd-u': ('typedef union U@ T@_0; union U@ { char uc; int ui; };', 'u', 'union_U@'),
    'opaque': ('typedef struct S@ T@_0;', 's', 'struct_S@'),
    'self-s': ('typedef struct S@ { char sc; short ss; struct S@ *n; } T@_0;', 's', 'struct_S@'),
    'fwdself': ('typedef struct S@ T@_0; struct S@ { char sc; short ss; T@_0 *n; };', 's', 'struct_S@'),
    'after-s': ('struct S@ { char sc; short ss; }; typedef struct S@ T@_0;', 's', 'struct_S@'),
    'after-e': ('enum E@ { T@_A, T@_B = 9 }; typedef enum E@ T@_0;', 'e', 'E@'),
}
DERIV = {
    'p': lambda t: ('p', t), '2': lambda t: ('a', t, 2), '3': lambda t: ('a', t, 3), 'k': lambda t: ('q', 'const', t),
    'r': lambda t: ('p', ('f', t, ())), 'g': lambda t: ('p', ('f', B('void'), (t,))), 'V': lambda t: ('q', 'volatile', t),
    'A': lambda t: ('at', t),
}
POS = ('member', 'array', 'ptr', 'arg', 'ret', 'fnarg', 'none')
WIDTHS = ['%sint%d_t' % (s, n) for s in ('', 'u') for n in (8, 16, 32, 64)]


def at(x, s):
    if isinstance(x, str):
        return x.replace('@', s)
    if isinstance(x, tuple):
        return tuple(at(y, s) for y in x)
    return x


def outer(t, tds):
    while t[0] == 't' and t[1] in tds:
        t = tds[t[1]]
    return t[0]


def build(base, chain):
    """-> source lines, {typedef: type}, final term (names used), ok"""
    if base in INLINE:
        src, kind, py = INLINE[base]
        lines, tds, t = [src], {'T@_0': ('rec', kind, py)}, ('t', 'T@_0')
        n = 1
    else:
        lines, tds, t = ([PRE[base]] if base in PRE else []), {}, BASE[base]
        n = 0
    for op in chain:
        if op == 't':
            name = 'T@_%d' % n
            n += 1
            lines.append('typedef %s;' % cgen.decl(t, name))
            tds[name] = t
            t = ('t', name)
        elif op == 'R':         # the same typedef again (C11)
            if t[0] != 't' or tds[t[1]][0] == 'rec':
                return None
            lines.append('typedef %s;' % cgen.decl(tds[t[1]], t[1]))
        else:
            r = t
            while r[0] in ('t', 'q', 'at'):
                if r[0] != 't':
                    r = r[-1]
                else:
                    r = tds[r[1]]
                    if r[0] == 'rec':
                        break
            void = r == B('void')
            opaque = r == ('s', 'O@') or (r[0] == 'rec' and base == 'opaque')
            if op in '23g' and (void or opaque):
                return None
            if op == 'r' and (r[0] == 'a' or opaque):
                return None
            if op in 'kV' and (t[0] == 'q' or r[0] == 'a'):
                return None
            if op == 'A' and (outer(t, tds) in ('q', 'at') or r[0] == 'a' or void or opaque):
                return None
            t = DERIV[op](t)
    r = t
    while r[0] in ('t', 'q', 'at'):
        r = r[-1] if r[0] != 't' else tds[r[1]]
        if r[0] == 'rec':
            break
    complete = not (r == B('void') or r == ('s', 'O@') or (r[0] == 'rec' and base == 'opaque'))
    return lines, tds, t, complete, r[0] == 'a'


class Env(cgen.Env):
    def __init__(self, ns, target, tds):
        super().__init__(ns, target, tds)


def match(c, t, env):
    """cgen.match over terms in which a typedef may stand for an inline record"""
    return cgen.match(c, t, env)


class C04(engine.Check):
    id = 'C04'
    technique = 'explicit-state enumeration of typedef chains, every state replayed on the real translator and compared with the expanded type'
    level_note = 'exhaustive within the stated alphabets and chain lengths'
    batch = 40
    rule = ('state = chain of derivations and typedef names over a base type or an inline record/enum definition '
            '(BFS by length) used in a declaration position; oracle: the type term with all names expanded, sizes '
            'from gcc/clang')

    assumptions = ['names that the generated helper code itself uses (POINTER_T, Structure, ...) are not user typedef names']

    def cases(self):
        seen = set()

        def mk(tg, base, chain, pos):
            k = '%s/%s/%s.%s' % (tg, pos, base, chain)
            if k in seen:
                return []
            r = build(base, chain)
            if r is None:
                return []
            if pos in ('member', 'array', 'arg', 'ret', 'fnarg') and not r[3]:
                return []
            if pos == 'ret' and r[4]:
                return []
            seen.add(k)
            return [engine.Case(k, (tg, base, chain, pos))]
        ops = 'tp2krgRA' if not self.thorough else 'tp2krgVRA'
        for n in (1, 2, 3):
            for b in list(BASE) + list(INLINE):
                for ch in itertools.product(ops, repeat=n):
                    ch = ''.join(ch)
                    if 't' in ch or b in INLINE:
                        for pos in POS if (n < 3 or self.thorough) else ('member', 'none', 'fnarg'):
                            yield from mk('host', b, ch, pos)
        for b in INLINE:
            for pos in POS:
                yield from mk('host', b, '', pos)
        for n in (4, 5):
            for b in (('i', 'S', 'anon-s', 'v') if not self.thorough else ('i', 'S', 'E', 'v', 'anon-s', 'anon-e', 'fwd-s', 'opaque')):
                for ch in itertools.product('tp2' if n == 5 else 'tp2r', repeat=n):
                    ch = ''.join(ch)
                    if 't' in ch or b in INLINE:
                        for pos in ('member', 'none'):
                            yield from mk('host', b, ch, pos)
        for tg in ('i386-linux', 'x86_64-windows', 'arm') + (('aarch64', 'm68k', 'x32', 'avr') if self.thorough else ()):
            for n in (1, 2) + ((3,) if self.thorough else ()):
                for b in list(BASE) + list(INLINE):
                    for ch in itertools.product('tp2k' if not self.thorough else 'tp2rk', repeat=n):
                        ch = ''.join(ch)
                        if 't' in ch or b in INLINE:
                            for pos in ('member', 'none'):
                                yield from mk(tg, b, ch, pos)
        # special names, with every underlying type
        names = list(WIDTHS) + ['size_t', 'wchar_t', 'ssize_t', 'uint', 'u8', 'c_int', 'c_uint8', 'byte',
                                'int_fast8_t', '__int8_t', '_t', 'T', 'None_t', 'string_t', 'int128_t', 'intptr_t', 'int_least16_t', 'int_fast16_t', 'uint_fast32_t', 'uint_least64_t', 'intmax_t',
                                'char16_t', 'char32_t', 'ptrdiff_t', 'bool', 'long_t', 'uchar', 'c_long', 'c_void_p', 'float32_t']
        for tg in ('host', 'i386-linux', 'x86_64-windows') + (('avr', 'arm') if self.thorough else ()):
            for nm in names:
                if nm == 'size_t' and 'windows' in tg:
                    continue            # a builtin typedef there
                for b in ('signed char', 'unsigned char', 'char', 'short', 'unsigned short', 'int', 'unsigned int', 'long',
                          'unsigned long', 'long long', 'unsigned long long', 'double', '_Bool', 'float', 'long double'):
                    for use in ('direct', 'chain', 'two'):
                        yield engine.Case('%s/name/%s=%s/%s' % (tg, nm, b, use), (tg, 'name', nm, b, use))

    def group(self, case):
        p = case.payload
        return (p[0], p[2:] if p[1] == 'name' else 'A' in p[2])

    def run_name(self, case):
        tg, _, nm, b, use = case.payload
        src = {'direct': 'typedef %s %s; struct H { char c; %s m; %s *p; %s a[2]; };' % (b, nm, nm, nm, nm),
               'chain': 'typedef %s base_q; typedef base_q %s; typedef %s last_q; struct H { char c; last_q m; %s *p; base_q a[2]; };' % (b, nm, nm, nm),
               'two': 'typedef %s %s; typedef %s *%s_p; typedef %s %s_a[2]; struct H { char c; %s m; %s_p p; %s_a a; };' % (
                   b, nm, nm, nm, nm, nm, nm, nm, nm)}[use] + '\n'
        target = oracle.target(tg)
        t = B(b)
        try:
            ns = impl.load(impl.gen(src, target.opts))
            env = cgen.Env(ns, target)
            want = {nm: t}
            if use == 'chain':
                want.update(base_q=t, last_q=t)
            if use == 'two':
                want.update({nm + '_p': ('p', t), nm + '_a': ('a', t, 2)})
            for k, v in want.items():
                if k not in ns:
                    return ('name missing', src)
                if k not in ns['__all__']:
                    return ('name not exported', src)
                r = cgen.match(ns[k], v, env)
                if r:
                    return ('%s: %s' % (k, r), src)
            f = dict((x[0], x[1]) for x in ns['struct_H']._fields_)
            for m, v in (('m', t), ('p', ('p', t)), ('a', ('a', t, 2))):
                r = cgen.match(f[m], v, env)
                if r:
                    return ('use %s: %s' % (m, r), src)
            q = oracle.consts(src, ['sizeof(struct H)', '__builtin_offsetof(struct H, a)'], tg)
            if [ctypes.sizeof(ns['struct_H']), ns['struct_H'].a.offset] != q:
                return ('layout', src)
        except Exception as e:
            return ('fails:' + impl.exc_sig(e), src + impl.tb(e))
        return None

    def run_batch(self, cases):
        if cases[0].payload[1] == 'name':
            return [self.run_name(c) for c in cases]
        tg = cases[0].payload[0]
        target = oracle.target(tg)
        src, items, q = [], [], []
        for i, c in enumerate(cases):
            _, base, chain, pos = c.payload
            s = str(i)
            lines, tds, t, complete, _arr = build(base, chain)
            lines = [at(x, s) for x in lines]
            tds = {at(k, s): at(v, s) for k, v in tds.items()}
            t = at(t, s)
            if pos == 'member':
                lines.append('struct H%s { char c0; %s; char c1; };' % (s, cgen.decl(t, 'm')))
            elif pos == 'array':
                lines.append('struct H%s { char c0; %s; char c1; };' % (s, cgen.decl(('a', t, 2), 'm')))
            elif pos == 'ptr':
                lines.append('struct H%s { char c0; %s; char c1; };' % (s, cgen.decl(('p', t), 'm')))
            elif pos == 'arg':
                lines.append('struct H%s { int (*m)(%s, char); };' % (s, cgen.decl(t, 'par')))
            elif pos == 'ret':
                lines.append('struct H%s { %s; };' % (s, cgen.decl(('p', ('f', t, (B('int'),))), 'm')))
            elif pos == 'fnarg':
                lines.append('int fn%s(%s);' % (s, cgen.decl(t, 'par')))
            if pos in ('member', 'array', 'ptr'):
                q += ['sizeof(struct H%s)' % s, '__builtin_offsetof(struct H%s, m)' % s]
            src.append(' '.join(lines))
            items.append((tds, t, pos))
        text = '\n'.join(src) + '\n'
        # gcc does not align atomic elements of arrays
        vals = iter(oracle.consts(text, q, 'x86_64-linux' if tg == 'host' and 'A' in cases[0].payload[2] else tg))
        try:
            out = impl.gen(text, target.opts)
        except Exception as e:
            raise self.BatchFailed(('translate:' + impl.exc_sig(e), impl.tb(e) + '\n' + text[-1500:]))
        try:
            ns = impl.load(out)
        except Exception as e:
            raise self.BatchFailed(('load:' + impl.exc_sig(e), impl.tb(e) + '\n' + impl.strip_text(out)[-3000:]))
        exported = set(ns['__all__'])
        res = []
        for i, (tds, t, pos) in enumerate(items):
            lay = (next(vals), next(vals)) if pos in ('member', 'array', 'ptr') else None
            try:
                bad = self.compare(ns, exported, i, tds, t, pos, lay, target)
            except Exception as e:
                bad = 'use:' + impl.exc_sig(e)
            if bad:
                bad = re.sub(r'\b(struct_|union_)?([STUEOHV])%d(?=_|\b)' % i, r'\1\2@', bad)
            res.append(None if bad is None else (bad, src[i] + '\n' + '\n'.join(
                l for l in impl.strip_text(out).splitlines()
                if re.search(r'[STUEOHV]%d(?!\d)|fn%d\b' % (i, i), l))[:1500]))
        return res

    @staticmethod
    def compare(ns, exported, i, tds, t, pos, lay, target):
        # inline definitions: the name itself gives the class
        expand = {}
        py = {}
        for name, v in tds.items():
            if v[0] == 'rec':
                kind, pyname = v[1], v[2]
                c = ns.get(name, engine)
                if c is engine:
                    return '%s missing' % name
                if kind == 'e':
                    expand[name] = ('e', '?')
                else:
                    if not isinstance(c, type) or not issubclass(c, ctypes.Structure if kind == 's' else ctypes.Union):
                        return '%s is no record' % name
                    if ns.get(pyname) is not c:
                        return '%s is not %s' % (name, pyname)
                    got = [f[0] for f in getattr(c, '_fields_', ()) if not f[0].startswith('PADDING_')]
                    exp = {'s': ['sc', 'ss'], 'u': ['uc', 'ui']}[kind]
                    if got not in (exp, exp + ['n'], []) or (got == [] and 'opaque' not in str(v)):
                        if not (got == [] and ctypes.sizeof(c) == 0):
                            return '%s members %s' % (name, got)
                    expand[name] = (kind, '\0' + name)
                    py[{'s': 'struct_', 'u': 'union_'}[kind] + '\0' + name] = name
            else:
                expand[name] = v
        env = cgen.Env(ns, target, expand, py)
        for name, v in tds.items():
            if name not in ns:
                return '%s missing' % name
            if name not in exported:
                return '%s not exported' % name
            r = cgen.match(ns[name], expand[name], env)
            if r:
                return '%s: %s' % (name, r)
        if pos == 'none':
            return None
        if pos == 'fnarg':
            fn = ns.get('fn%d' % i)
            if fn is None and 'fn%d' % i not in exported:
                return 'function missing'
            return None
        cls = ns.get('struct_H%d' % i)
        if cls is None:
            return 'user missing'
        f = dict((x[0], x[1]) for x in cls._fields_)
        if 'm' not in f:
            return 'member missing'
        want = {'member': t, 'array': ('a', t, 2), 'ptr': ('p', t), 'arg': ('p', ('f', B('int'), (t, B('char')))),
                'ret': ('p', ('f', t, (B('int'),)))}[pos]
        r = cgen.match(f['m'], want, env)
        if r:
            return 'use: ' + r
        if lay and (ctypes.sizeof(cls), cls.m.offset) != lay:
            return 'layout %s not %s' % ((ctypes.sizeof(cls), cls.m.offset), lay)
        return None


CHECK = C04

"""C09: the generated module loads, complete and self-contained.

Four families of states, all replayed on the real translator:
  graph  dependency graphs of records: nodes are definitions in source order,
         every ordered pair is labelled with an edge kind; every labelling
         within the bound is a state (a step adds one labelled edge)
  feat   sets of features of a source, each translated alone (the module must
         bring every helper it uses)
  name   every identifier of a hazard list in every position of a declaration
  nest   definitions inside definitions, up to a depth
"""
import ctypes
import itertools
import keyword
import os
import re
import subprocess
import sys
import types
import unicodedata

from ctypeslib.library import Library

from .. import cgen, engine, impl, oracle

FORWARD = '-pqfFtPc'          # edges to a record defined later
BACK = '-pvaVqfFtPAc'         # edges to an earlier one
SELF = '-pqfFtPc'
NAMES = sorted(set(keyword.kwlist + keyword.softkwlist) - {'while', 'if', 'else', 'for', 'break', 'continue', 'return'}) + [
    'print', 'list', 'str', 'bytes', 'repr', 'type', 'len', 'object', 'sum', 'filter', 'getattr', 'setattr', 'isinstance', 'globals', 'self', 'dict', 'range', 'sorted', 'zip',
    'ctypes', 'Structure', 'Union', 'AsDictMixin', 'c_int128', 'c_uint128', 'c_int', 'c_long_double_t', 'void', 'POINTER_T', 'sys', 'os', 'struct_x', 'union_x', 'POINTER', 'CDLL', 'sizeof_', 'c_char_p',
    '_libraries', 'FunctionFactoryStub', 'ctypes_in_dll', 'string_cast', 'char_pointer_cast', '_', '__', '_x', '__x', '__x__', '___', 'x_', '_fields_', '_pack_', '_anonymous_',
    '_type_', '_length_', 'as_dict', 'get_type', 'bind', 'mro', 'value', 'contents', 'from_buffer', 'in_dll', '_0', '_1', 'PADDING_0', 'PADDING_1', 'asList',
    'a1', 'A', 'caf\u00e9', 'x__enumvalues', 'T', 'CodegenConfig', 'x_struct', 'nonlocal_', 'NULL_', 'EOF_', 'l', 'O', 'raw', 'size', 'init_function', 'a$', '$b', 'a$b', '$$', 'x__y', '__a$',
    # what Python reads as other characters: micro sign, ligature, bold x, e with a combining accent, feminine ordinal, full width, long s
    'x\u00b5', '\u00b5', '__\u00b5', '\ufb01x', '\U0001d431', 'e\u0301', '\u00aa', '\uff41\uff10', 'a\u017f', '\u00b5$']
KINDS = {
    'tag': ('struct %s { int a; }; struct mc_user { struct %s m; struct %s *p; };', ('struct_%s',)),
    'utag': ('union %s { int a; }; struct mc_user { union %s m; };', ('union_%s',)),
    'field': ('struct mc_s { int mc_a; char %s; int mc_b; };', ('struct_mc_s',)),
    'ufield': ('union mc_s { int mc_a; char %s; int mc_b; };', ('union_mc_s',)),
    'sfield': ('struct mc_i { int z; }; struct mc_s { struct mc_i %s; struct mc_s *mc_n; };', ('struct_mc_s',)),
    'bits': ('struct mc_s { int mc_a : 3; unsigned %s : 5; int mc_b : 8; };', ('struct_mc_s',)),
    'typedef': ('typedef int %s; struct mc_s { %s m; };', ('%s',)),
    'stypedef': ('typedef struct { int a; } %s; struct mc_s { %s m; %s *p; };', ('%s', 'struct_mc_s')),
    'ftypedef': ('typedef int (*%s)(int); %s mc_f(%s);', ('%s', 'mc_f')),
    'func': ('int %s(int a);', ('%s',)),
    'param': ('int mc_f(int %s, char *mc_b);', ('mc_f',)),
    'var': ('int %s = 5;', ('%s',)),
    'avar': ('int %s[3] = {1, 2, 3};', ('%s',)),
    'svar': ('struct mc_s { int a; } %s; struct mc_u { struct mc_s m; };', ('%s', 'struct_mc_u')),
    'enum': ('enum %s { mc_A = 3 }; struct mc_s { enum %s m; };', ('%s', 'mc_A')),
    'etypedef': ('typedef enum mc_e { mc_A = 3 } %s; struct mc_s { %s m; };', ('%s', 'mc_A', 'mc_e', '%s__enumvalues')),
    'etypedef2': ('typedef enum %s { mc_A = 3 } mc_t; struct mc_s { mc_t m; enum %s n; };', ('%s', 'mc_A', 'mc_t', 'mc_t__enumvalues')),
    'utypedef': ('typedef enum { mc_A = 3 } %s; struct mc_s { %s m; };', ('%s', 'mc_A')),
    'lfunc': ('int %s(int a) { return a + 41; }', ('%s',)),
    'lvar': ('extern int %s; int %s = 43;', ('%s',)),
    'const': ('enum mc_e { mc_A, %s, mc_B };', ('%s', 'mc_A', 'mc_B', 'mc_e')),
    'macro': ('#define %s 7\nint mc_x;', ('%s', 'mc_x')),
    'smacro': ('#define %s "s"\nint mc_x;', ('%s', 'mc_x')),
    'fmacro': ('#define %s(x) x\nint mc_x;', ('mc_x',)),
}
FEATURES = (
    ('st', 'struct st { int a; char b; };', ('struct_st',)),
    ('un', 'union un { int a; char b[5]; };', ('union_un',)),
    ('pt', 'struct pt; struct qt { struct pt *p; int *i; };', ('struct_qt',)),
    ('nm', 'char *nm(const char *s);', ('nm',)),
    ('fp', 'typedef int (*fp)(char *, struct fq *);', ('fp',)),
    ('vf', 'void vf(void); int vg();', ('vf', 'vg')),
    ('ld', 'long double ld; long double lf(long double);', ('ld', 'lf')),
    ('i1', 'struct i1 { __int128 a; };', ('struct_i1',)),
    ('en', 'enum en { en_a, en_b = 5 };', ('en', 'en_a', 'en_b')),
    ('ma', '#define ma 5\n#define mb "s"', ('ma', 'mb')),
    ('sv', 'char *sv = "abc"; char sw[] = "d";', ('sv', 'sw')),
    ('pv', 'int *pv; void *pw; struct pu { int x; } *px;', ('pv', 'pw', 'px')),
    ('ex', 'extern int ex; extern char *ey;', ('ex', 'ey')),
    ('wc', 'typedef __WCHAR_TYPE__ wchar_t; typedef __SIZE_TYPE__ size_t; wchar_t wc; wchar_t *wd = L"x"; size_t we;', ('wc', 'wd', 'we')),
    ('bf', 'struct bf { int a : 3; unsigned b : 7; };', ('struct_bf',)),
    ('an', 'struct an { union { int x; float y; }; struct { char z; } n; };', ('struct_an',)),
    ('td', 'typedef struct { int a; } td; td tv; td tw[2];', ('td', 'tv', 'tw')),
    ('rv', 'struct rr { int a; }; struct rr rv(struct rr, struct rr *);', ('rv',)),
    ('vo', 'void *vo(void *, void **);', ('vo',)),
    ('si', 'typedef __UINT8_TYPE__ uint8_t; typedef __INT64_TYPE__ int64_t; typedef __UINTPTR_TYPE__ uintptr_t; struct si { uint8_t a; int64_t b; uintptr_t c; };', ('struct_si',)),
    ('op', 'typedef struct op_s *op; op of(op);', ('op', 'of')),
    ('va', 'int va(const char *, ...); struct vs { int n; char t[]; };', ('va', 'struct_vs')),
    ('em', 'struct em { }; struct en_ { struct em e; int z; };', ('struct_em', 'struct_en_')),
    ('cx', '_Complex double cx = 1.0; struct cs { _Complex float a; char b; }; _Complex double *cf(_Complex int *);', ('cx', 'struct_cs', 'cf')),
    ('ve', 'typedef float ve __attribute__((vector_size(16))); struct vr { ve a; char b; }; ve vx; ve *vy(ve *);', ('ve', 'struct_vr', 'vx', 'vy')),
    ('at', 'struct aa { char a[3]; }; struct ab { _Atomic(struct aa) a; _Atomic int b; _Atomic(char *) c; }; _Atomic int ac = 5; int ad(_Atomic int *);', ('struct_ab', 'ac', 'ad')),
    ('sa', '_Static_assert(sizeof(char) == 1, "x"); ; struct sa { _Alignas(8) char a; _Static_assert(1, "y"); int b; };', ('struct_sa',)),
    ('il', 'static inline int il(int a) { return a + 1; } _Noreturn void im(void); __attribute__((noreturn, cold)) void in(int);', ('im',)),
    ('as', 'int as(void) __asm__("other"); __asm__(".globl foo"); extern int at_ __asm__("renamed");', ('as',)),
    ('kr', 'int kr(a, b) int a; char *b; { return a; } int ks();', ('kr', 'ks')),
    ('ff', 'int (*ff(int))(char *); void fg(int (*)(void), int (*[2])(char)); int (*(*fh)(int (*)(char)))[3];', ('ff', 'fg', 'fh')),
    ('to', '__typeof__(int *) to; struct tp { __typeof__(sizeof(int)) a; __typeof__((char)1) b[2]; }; __extension__ typedef long long tq;', ('to', 'struct_tp', 'tq')),
    ('pr', '#pragma pack(push, 1)\nstruct pr { char a; int b; };\n#pragma pack(pop)\n#pragma once\nstruct ps { char a; int b; };', ('struct_pr', 'struct_ps')),
    ('bo', '_Bool bo; float bp; double bq = 1.5; struct br { _Bool x; };', ('bo', 'bp', 'bq', 'struct_br')),
)
# a source with macros of the name
MACROS = ('#define %s %s\n@', '@\n#define %s %s', '#define %s(x) %s(x)\n@', '@\n#define %s(x) x', '@\n#define %s (%s)', '@\n#define %s %s.mc_x', '#define mc_o %s\n@', '#define %s %s\n@\n#define mc_o %s',
          '@\n#define %s 77', '@\n#define %s "m"', '@\n#define %s', '@\n#define %s (1 + 2)', '@\n#define %s 1.5', '@\n#define %s int', '#define %s %s\n@\n#undef %s\n#define %s 78')
FTARGETS = ('host', 'i386-linux', 'x86_64-windows', 'm68k')


def normal(name):
    """a name as Python reads it"""
    return unicodedata.normalize('NFKC', name) if name.isidentifier() else name


class C09(engine.Check):
    id = 'C09'
    libs = itertools.count()
    technique = 'explicit-state enumeration of dependency graphs, feature sets, names and nestings, every state replayed on the real translator'
    level_note = 'exhaustive within the stated graph sizes and labels'
    batch = 40
    rule = ('graph: all labelled dependency graphs of 2 records over 8 to 12 edge kinds and of 3 (thorough 4) records over a smaller '
            'alphabet, with openers that use records before their definition; feat: all feature sets up to a size on every '
            'target; name: hazard identifiers in every declaration position; nest: all nestings to a depth')
    assumptions = ['names like __x__, which C reserves and Python interprets, are not declared', 'host layout rules: every graph member is 8 bytes wide, so sizes are sums',
                   'several C names of one Python name (struct tag and variable) are not combined']

    def cases(self):
        th = self.thorough
        seen = set()

        def emit(*p):
            k = '/'.join(map(str, p))
            if k in seen:
                return []
            seen.add(k)
            return [engine.Case(k, p)]
        # graphs of two
        for kinds in ('ss', 'su', 'us', 'uu', 'Ts', 'Tu', 'TT', 'sT'):
            fwd = FORWARD if kinds[1] != 'T' else '-'
            selves = [SELF if k != 'T' else '-' for k in kinds]
            if not th:
                selves = ['-pf' if len(s) > 1 else s for s in selves]
            for e01 in fwd:
                for e10 in BACK:
                    if kinds[0] == 'T' and e10 in 'tPc':
                        continue
                    for s0 in selves[0]:
                        for s1 in selves[1]:
                            for op in ('0', 'f', 'd', 'v', 't') if th or (s0 == s1 == '-') else ('0',):
                                if 'T' in kinds and op != '0':
                                    continue
                                yield from emit('graph', kinds, ''.join((s0, e01, e10, s1)), op)
        # graphs of three
        fwd, back = ('-pft', '-pvaf') if th else ('-pt', '-pva')
        for kinds in ('sss', 'sus', 'uss', 'ssu', 'suu') if th else ('sss', 'sus'):
            for f in itertools.product(fwd, repeat=3):
                for b in itertools.product(back, repeat=3):
                    for s in (('---', 'ppp', '-p-') if th else ('---',)):
                        # row major matrix
                        m = [s[0], f[0], f[1], b[0], s[1], f[2], b[1], b[2], s[2]]
                        for op in '0f' if kinds == 'sss' else '0':
                            yield from emit('graph', kinds, ''.join(m), op)
        # graphs of four
        for f in itertools.product('-p', repeat=6):
            for b in itertools.product('-pv' if th else '-v', repeat=6):
                fi, bi = iter(f), iter(b)
                m = ''.join('-' if i == j else next(fi) if i < j else next(bi) for i in range(4) for j in range(4))
                yield from emit('graph', 'ssss', m, '0')
        # features
        for n in (1, 2, 3) if th else (1, 2):
            for sub in itertools.combinations(range(len(FEATURES)), n):
                for t in FTARGETS:
                    if n == 3 and t not in ('host', 'i386-linux'):
                        continue
                    if t not in ('host',) and 'i1' in [FEATURES[i][0] for i in sub] and t in ('i386-linux', 'm68k'):
                        continue
                    yield from emit('feat', t, '+'.join(FEATURES[i][0] for i in sub))
                    if n == 2:
                        yield from emit('feat', t, '+'.join(FEATURES[i][0] for i in reversed(sub)))
        yield from emit('feat', 'host', '+'.join(f[0] for f in FEATURES))
        yield from emit('feat', 'host', '+'.join(f[0] for f in reversed(FEATURES)))
        yield from emit('feat', 'host', '')
        # names
        for n in NAMES:
            for k in KINDS:
                if k in ('macro', 'smacro', 'fmacro') and not n.isidentifier():
                    continue
                if k == 'lfunc' and n[:2] == n[-2:] == '__':
                    # ctypes does not look them up
                    continue
                yield from emit('name', k, n)
        # declarations with the name of a macro
        for k in KINDS:
            if k not in ('macro', 'smacro', 'fmacro'):
                for m in MACROS:
                    yield from emit('name', k, 'mc_n', m)
        # nesting: definitions inside definitions
        for depth in (1, 2, 3, 4) if th else (1, 2, 3):
            for kinds in itertools.product('su', repeat=depth + 1):
                for how in itertools.product('mpaxn', repeat=depth):
                    yield from emit('nest', ''.join(kinds), ''.join(how))

    def stats(self, case):
        p = case.payload
        return (1, sum(c != '-' for c in p[2]) + 1, 1)

    def group(self, case):
        p = case.payload
        return case.key if p[0] in ('feat', 'name') else p[0]

    # ------------------------------------------------------------------
    def graph(self, i, kinds, mat, op):
        n = len(kinds)
        nm = ['N%d_%d' % (k, i) for k in range(n)]
        kw = {'s': 'struct ', 'u': 'union '}
        term = [('t', nm[k]) if kinds[k] == 'T' else (kinds[k], nm[k]) for k in range(n)]
        out, td, members = [], {}, []
        if op == 'd':
            out += [kw[kinds[k]] + nm[k] + ';' for k in range(n)]
        elif op == 'f':
            out.append('int F_%d(%s);' % (i, ', '.join(kw[kinds[k]] + nm[k] + ' *' for k in range(n)))
                       if False else ''.join(kw[kinds[k]] + nm[k] + ';' for k in range(n)) + 'int F_%d(%s);' % (
                i, ', '.join(kw[kinds[k]] + nm[k] + ' *' for k in reversed(range(n)))))
        elif op == 'v':
            out += ['extern %s%s *V%d_%d;' % (kw[kinds[k]], nm[k], k, i) for k in reversed(range(n))]
        elif op == 't':
            out += ['typedef %s%s X%d_%d;' % (kw[kinds[k]], nm[k], k, i) for k in reversed(range(n))]
        for k in range(n):
            if any(mat[j * n + k] in 'tc' for j in range(n)):
                out.append('typedef %s%s *P%s;' % (kw[kinds[k]], nm[k], nm[k]))
                td['P' + nm[k]] = ('p', term[k])
                out.append('typedef int (*C%s)(P%s, long);' % (nm[k], nm[k]))
                td['C' + nm[k]] = ('p', ('f', ('b', 'int'), (('t', 'P' + nm[k]), ('b', 'long'))))
        sizes = {}
        for a in range(n):
            fl = [('id', ('b', 'long'), 8)]
            for b in range(n):
                e = mat[a * n + b]
                t = term[b]
                f = 'm%d' % b
                add = {'p': (('p', t), 8), 'q': (('a', ('p', t), 2), 16), 'P': (('p', ('p', t)), 8),
                       'f': (('p', ('f', ('b', 'int'), (('p', t), ('b', 'int')))), 8),
                       'F': (('p', ('f', ('p', t), (('b', 'int'), ('p', ('p', t))))), 8),
                       't': (('t', 'P' + nm[b]), 8), 'c': (('t', 'C' + nm[b]), 8)}.get(e)
                if e in 'vaVA':
                    add = {'v': (t, sizes[b]), 'a': (('a', t, 2), 2 * sizes[b]), 'V': (('t', 'V' + nm[b]), sizes[b]),
                           'A': (('p', ('a', t, 3)), 8)}[e]
                if add:
                    fl.append((f, add[0], add[1]))
            members.append(fl)
            sizes[a] = max(x[2] for x in fl) if kinds[a] == 'u' else sum(x[2] for x in fl)
            body = '{ %s }' % ' '.join(cgen.decl(t, f) + ';' for f, t, _ in fl)
            if kinds[a] == 'T':
                out.append('typedef struct %s %s;' % (body, nm[a]))
                td[nm[a]] = ('s', nm[a])
            else:
                out.append(kw[kinds[a]] + nm[a] + ' ' + body + ';')
            td['V' + nm[a]] = term[a] if kinds[a] != 'T' else ('s', nm[a])
            if any(mat[b * n + a] == 'V' for b in range(n)):
                out.append('typedef %s;' % cgen.decl(term[a], 'V' + nm[a]))
        return '\n'.join(out), (nm, kinds, members, sizes, td, op)

    def check_graph(self, ns, i, model):
        nm, kinds, members, sizes, td, op = model
        names = {'struct_' + nm[k]: nm[k] for k in range(len(nm)) if kinds[k] == 'T'}
        env = cgen.Env(ns, oracle.Target('host'), td, names)
        for k, name in enumerate(nm):
            py = name if kinds[k] == 'T' else {'s': 'struct_', 'u': 'union_'}[kinds[k]] + name
            c = ns.get(py)
            if c is None:
                return 'record missing'
            if py not in ns['__all__']:
                return 'record not exported'
            want = members[k]
            got = [(x[0], x[1]) for x in getattr(c, '_fields_', ()) if not x[0].startswith('PADDING')]
            if [g[0] for g in got] != [w[0] for w in want]:
                return 'members'
            if ctypes.sizeof(c) != sizes[k]:
                return 'size'
            for (_, g), (_, w, _s) in zip(got, want):
                r = cgen.match(g, w, env)
                if r:
                    return 'member: ' + re.sub(r'N(\d)_\d+', r'N\1', r)
            c()
        for k in range(len(nm)):
            x = {'v': 'V%d_%d', 't': 'X%d_%d'}.get(op)
            if x and x % (k, i) not in ns['__all__']:
                return 'opener missing'
            if op == 't' and ns[x % (k, i)] is not ns[{'s': 'struct_', 'u': 'union_'}[kinds[k]] + nm[k]]:
                return 'typedef is another class'
        if op == 'f' and 'F_%d' % i not in ns['__all__']:
            return 'opener missing'
        return None

    # ------------------------------------------------------------------
    def nest(self, i, kinds, how):
        """how: m member, p pointer member, a array member, x definition
        without a member (of a tag), n unnamed record (member)"""
        kw = {'s': 'struct', 'u': 'union'}

        def build(level):
            tag = 'L%d_%d' % (level, i)
            inner, mem = 'long z%d;' % level, [('z%d' % level, ('b', 'long'), 8)]
            if level < len(how):
                h = how[level]
                unnamed = h == 'n'
                body, im, size = build(level + 1)
                k = kinds[level + 1]
                t = '' if unnamed else 'L%d_%d' % (level + 1, i)
                d = {'m': 'x%d', 'p': '*x%d', 'a': 'x%d[2]', 'x': '', 'n': 'x%d'}[h]
                inner += ' %s %s { %s } %s;' % (kw[k], t, body, d % level if d else '')
                if h == 'x':
                    pass
                else:
                    mem.append(('x%d' % level, (h, k, t, im, size), {'m': size, 'p': 8, 'a': 2 * size, 'n': size}[h]))
                allrec.append((k, t, im, size))
            size = max(m[2] for m in mem) if kinds[level] == 'u' else sum(m[2] for m in mem)
            return inner, mem, size
        allrec = []
        body, mem, size = build(0)
        allrec.append((kinds[0], 'L0_%d' % i, mem, size))
        user = ' '.join('%s %s u%s;' % (kw[k], t, t) for k, t, _, _ in allrec if t)
        return '%s L0_%d { %s };\nstruct LU_%d { %s };' % (kw[kinds[0]], i, body, i, user), allrec

    def check_nest(self, ns, recs):
        def members(c, mem):
            got = [(x[0], x[1]) for x in c._fields_ if not x[0].startswith('PADDING')]
            if [g[0] for g in got] != [m[0] for m in mem]:
                return 'members'
            for (_, g), (_, t, s) in zip(got, mem):
                if ctypes.sizeof(g) != s:
                    return 'member size'
                if t[0] == 'b':
                    continue
                h, k, tag, im, size = t
                r = g if h in 'mn' else g._type_
                if (h == 'a') != hasattr(g, '_length_'):
                    return 'array'
                if tag and r is not ns.get({'s': 'struct_', 'u': 'union_'}[k] + tag):
                    return 'member is another class'
                if ctypes.sizeof(r) != size:
                    return 'inner size'
                x = members(r, im)
                if x:
                    return x
            return None
        for k, tag, mem, size in recs:
            if not tag:
                continue
            py = {'s': 'struct_', 'u': 'union_'}[k] + tag
            if py not in ns or py not in ns['__all__']:
                return 'record missing'
            if ctypes.sizeof(ns[py]) != size:
                return 'size'
            r = members(ns[py], mem)
            if r:
                return r
        return None

    # ------------------------------------------------------------------
    def run_batch(self, cases):
        kind = cases[0].payload[0]
        opts, parts, models = [], [], []
        kinds = 'cdefstu'
        for i, c in enumerate(cases):
            p = c.payload
            if kind == 'graph':
                s, m = self.graph(i, *p[1:])
            elif kind == 'nest':
                s, m = self.nest(i, *p[1:])
            elif kind == 'feat':
                fs = [dict((f[0], f) for f in FEATURES)[x] for x in p[2].split('+') if x]
                s, m = '\n'.join(f[1] for f in fs), [x for f in fs for x in f[2]]
                opts = oracle.TARGETS[p[1]]
                kinds = 'cdefstum'
            else:
                t, e = KINDS[p[1]]
                if len(p) > 3:
                    t = p[3].replace('@', t)
                s, m = t.replace('%s', p[2]), [x.replace('%s', p[2]) for x in e]
                kinds = 'cdefstum'
            parts.append(s)
            models.append(m)
        src = '\n'.join(parts) + '\n'
        attrs = {}
        if kind == 'name' and cases[0].payload[1] in ('lfunc', 'lvar'):
            lib = os.path.join(impl.scratch(), 'libnames%d.so' % next(self.libs))
            if subprocess.run(['gcc', '-w', '-shared', '-fPIC', '-nostdlib', '-x', 'c', '-', '-o', lib], input=src.encode(), stderr=subprocess.DEVNULL).returncode:
                return [None]
            attrs = {'searched_dlls': [Library(lib, 'nm')]}
        try:
            out = impl.gen(src, opts, kinds=kinds, **attrs)
        except impl.InvalidTranslationUnitException as e:
            if kind == 'name':
                return [None]       # not an identifier a C compiler takes
            raise RuntimeError('invalid source: %s\n%s' % (e, src[:1500]))
        except Exception as e:
            raise self.BatchFailed(('translate:' + impl.exc_sig(e), src[:700] + impl.tb(e)))
        try:
            ns = impl.load(out)
        except Exception as e:
            raise self.BatchFailed(('load:' + re.sub(r'N\d_\d+', 'N', impl.exc_sig(e)), src[:700] + '\n' + impl.strip_text(out)[-900:] + impl.tb(e)[-300:]))
        undefined = [n for n in ns['__all__'] if n not in ns]
        if undefined:
            raise self.BatchFailed(('exported but not defined', '%s\n%s' % (undefined[:5], src[:1000])))
        res = []
        for i, (c, m) in enumerate(zip(cases, models)):
            try:
                if kind == 'graph':
                    bad = self.check_graph(ns, i, m)
                elif kind == 'nest':
                    bad = self.check_nest(ns, m)
                else:
                    bad = [n for n in m if normal(n) not in ns['__all__']]
                    bad = 'not exported: %s' % ', '.join(bad).replace(c.payload[2] if kind == 'name' else '\0', 'NAME') if bad else None
                    if not bad and kind == 'name':
                        bad = self.check_name(ns, c.payload[1], c.payload[2])
                    if not bad and kind == 'feat':
                        bad = self.use(ns)
            except Exception as e:
                bad = 'use:' + impl.exc_sig(e)
            res.append(None if not bad else (bad, parts[i] + '\n' + impl.strip_text(out)[-1500:] if len(cases) == 1 else parts[i]))
        return res

    @staticmethod
    def check_name(ns, kind, raw):
        name = normal(raw)
        m = types.ModuleType('mc_generated')
        vars(m).update(ns)
        sys.modules['mc_generated'] = m
        star = {}
        exec('from mc_generated import *', star)
        if any(star.get(n) is not ns[n] for n in ns['__all__']):
            return 'star import'
        s4 = {'tag': 'struct_%s', 'utag': 'union_%s', 'typedef': '%s', 'stypedef': '%s', 'enum': '%s'}.get(kind)
        if s4 and ctypes.sizeof(ns[s4 % name]) != 4:
            return 'wrong object'
        if kind in ('tag', 'utag') and (ns['struct_mc_user']._fields_[0][1] is not ns[s4 % name] or ctypes.sizeof(ns['struct_mc_user']) < 4):
            return 'member type'
        if kind in ('typedef', 'enum', 'stypedef') and ctypes.sizeof(ns['struct_mc_s']._fields_[0][1]) != 4:
            return 'member type'
        if kind in ('var', 'macro', 'smacro') and ns[name] != {'var': 5, 'macro': 7, 'smacro': 's'}[kind]:
            return 'value'
        if kind == 'avar' and ns[name] != [1, 2, 3]:
            return 'value'
        if kind == 'const' and ns[name] != 1:
            return 'value'
        if kind in ('field', 'ufield', 'sfield', 'bits'):
            c = ns['union_mc_s' if kind[0] == 'u' else 'struct_mc_s']
            if [f[0] for f in c._fields_ if f[0] == name] != [name]:
                return 'member'
            o = c()
            if kind != 'sfield':
                setattr(o, name, 3 if kind == 'bits' else b'x')
                if getattr(o, name) != (3 if kind == 'bits' else b'x'):
                    return 'member value'
            type(o).as_dict(o)
        if kind == 'lfunc' and ns[name](1) != 42:
            return 'function of the library'
        if kind == 'lvar' and ns[name].value != 43:
            return 'variable of the library'
        if name.isidentifier() and not keyword.iskeyword(name):
            # as the user writes it
            if name in ns['__all__'] and eval('m.' + raw, {'m': m}) is not ns[name]:
                return 'attribute of the module'
            if kind in ('field', 'ufield', 'sfield', 'bits') and name[:2] != '__':
                eval('o.' + raw, {'o': o})
        if kind == 'svar':
            v = ns[name]
            if ctypes.sizeof(v) != 4:
                return 'record variable'
        if kind == 'func' and not hasattr(ns[name], 'argtypes'):
            return 'function'
        if kind == 'ftypedef' and not issubclass(ns[name], ctypes._CFuncPtr):
            return 'function type'
        return None

    @staticmethod
    def use(ns):
        for n in ns['__all__']:
            v = ns[n]
            if isinstance(v, type) and issubclass(v, (ctypes.Structure, ctypes.Union)):
                ctypes.sizeof(v)
                o = v()
                type(o).as_dict(o)
                bytes(o)
        return None


CHECK = C09

"""C10: selection, over every selection within bounds of several sources.

State: (source, kinds, symbols, expressions). For every state the exported
names are compared with a reachability model of the source and the selected
declarations with the module of the unrestricted translation.
"""
import itertools
import re

from .. import canon, engine, impl
from . import c09

# source: (text, {name: (kind, needs)}); a typedef and an enum constant are
# needed through their users only when they are generated for them, so they
# are never required, only allowed
SOURCES = {
    'mix': ('''
#define LIMIT 10
#define NAME "nm"
#define CALL(x) x
enum color { RED, GREEN = 5 };
enum { ANON_A = 3, ANON_B };
typedef enum color color_t;
struct leaf { int a; };
struct mid { struct leaf l; struct mid *next; enum color c; };
union uni { struct mid m; char raw[64]; };
typedef struct mid mid_t;
typedef struct { union uni *u; } holder;
typedef int (*callback)(holder *, struct opaque *);
struct top { callback cb; holder h[2]; };
struct lonely { char z; };
typedef int integer;
int f_int(int a);
struct leaf f_leaf(struct leaf *p);
color_t f_color(callback cb, integer i);
int v_int = 4;
char *v_str = "text";
struct lonely v_lonely;
holder *v_holder;
''', {
        'LIMIT': ('m', ()), 'NAME': ('m', ()),
        'color': ('e', ('RED', 'GREEN')), 'RED': ('E', ()), 'GREEN': ('E', ()), 'c__Ea_ANON_A': ('e', ('ANON_A', 'ANON_B')), 'ANON_A': ('E', ()), 'ANON_B': ('E', ()),
        'color_t': ('t', ('color', 'color_t__enumvalues')), 'color_t__enumvalues': ('E', ()),
        'struct_leaf': ('s', ()), 'struct_mid': ('s', ('struct_leaf', 'color')), 'union_uni': ('u', ('struct_mid',)),
        'mid_t': ('t', ('struct_mid',)), 'struct_holder': ('s', ('union_uni',)), 'holder': ('t', ('struct_holder',)),
        'callback': ('t', ('holder', 'struct_holder', 'struct_opaque')), 'struct_opaque': ('S', ()),
        'struct_top': ('s', ('callback', 'holder', 'struct_holder')), 'struct_lonely': ('s', ()), 'integer': ('t', ()),
        'f_int': ('f', ()), 'f_leaf': ('f', ('struct_leaf',)), 'f_color': ('f', ('color_t', 'color', 'callback', 'integer')),
        'v_int': ('d', ()), 'v_str': ('d', ()), 'v_lonely': ('d', ('struct_lonely',)), 'v_holder': ('d', ('holder', 'struct_holder')),
    }),
    'back': ('''
struct z9; union y8;
typedef struct z9 *z9p;
struct a1 { z9p z; union y8 *y; };
struct b2 { struct a1 a[2]; int (*get)(struct b2 *, z9p); };
union y8 { struct b2 b; long q; };
struct z9 { union y8 y; struct c3 { int deep; } c; };
struct c3 g_c3(z9p a, union y8 *b);
extern struct z9 *g_z9;
typedef struct z9 z9t;
typedef z9t z9tt;
z9tt *h_tt(z9tt *);
enum e_small { es_a = 1 } ;
struct d4 { enum e_small e : 3; z9tt *t; };
''', {
        'struct_z9': ('s', ('union_y8', 'struct_c3')), 'union_y8': ('u', ('struct_b2',)), 'z9p': ('t', ('struct_z9',)),
        'struct_a1': ('s', ('z9p', 'union_y8', 'struct_z9')), 'struct_b2': ('s', ('struct_a1', 'z9p', 'struct_z9')),
        'struct_c3': ('s', ()), 'g_c3': ('f', ('struct_c3', 'z9p', 'union_y8', 'struct_z9')), 'g_z9': ('d', ('struct_z9',)),
        'z9t': ('t', ('struct_z9',)), 'z9tt': ('t', ('z9t', 'struct_z9')), 'h_tt': ('f', ('z9tt', 'z9t', 'struct_z9')),
        'e_small': ('e', ('es_a',)), 'es_a': ('E', ()), 'struct_d4': ('s', ('e_small', 'z9tt', 'struct_z9')),
    }),
    'alike': ('''
#define ab_m 1
#define ab_n ab_m
struct ab { int x; }; struct abc { struct ab i; }; union ab_u { struct abc k; };
typedef struct ab ab; typedef struct abc abc; typedef union ab_u xab;
int ab_f(ab *); int f_ab(void); int fab(abc *);
enum ab_e { ab_e1 = 2 }; int ab_v = 3; int AB = 4; int a_b = 5;
''', {
        'ab_m': ('m', ()), 'ab_n': ('m', ()), 'struct_ab': ('s', ()), 'struct_abc': ('s', ('struct_ab',)), 'union_ab_u': ('u', ('struct_abc',)),
        'ab': ('t', ('struct_ab',)), 'abc': ('t', ('struct_abc',)), 'xab': ('t', ('union_ab_u',)), 'ab_f': ('f', ('ab', 'struct_ab')),
        'f_ab': ('f', ()), 'fab': ('f', ('abc', 'struct_abc')), 'ab_e': ('e', ('ab_e1',)), 'ab_e1': ('E', ()), 'ab_v': ('d', ()), 'AB': ('d', ()), 'a_b': ('d', ()),
    }),
    'macros': ('''
#define mt mt
#define mf(x) mf(x)
#define me(x) x
#define MX 3
#define mv mv
#define mz mz
typedef int mt; struct ms { mt a; struct ms *ms; }; struct ms *mf(mt); enum me { mz, my = 4 }; int mv = 3; typedef struct ms mst; mst mw;
#define my my
#define ms ms
#define struct_ms ms
#define mst struct ms
#define mw (mw)
''', {
        'MX': ('m', ()), 'mt': ('t', ()), 'struct_ms': ('s', ('mt',)), 'mf': ('f', ('struct_ms', 'mt')), 'me': ('e', ('mz', 'my')), 'mz': ('E', ()), 'my': ('E', ()),
        'mv': ('d', ()), 'mst': ('t', ('struct_ms',)), 'mw': ('d', ('mst', 'struct_ms')),
    }),
    'vars': ('''
struct r1 { int a; }; struct r2 { struct r1 i; }; struct r3 { struct r2 *p; }; union u4 { struct r3 k; };
struct r5 { char c; }; typedef struct r5 t5; typedef t5 *p5; enum e6 { e6_a = 2, e6_b }; typedef enum e6 t6;
typedef int (*fp7)(struct r2 *); struct r8 { int x; }; typedef struct r8 a8[3];
struct r1 va[2]; struct r2 vb; struct r3 *vc; union u4 vd[2][3]; t5 ve; p5 vf; t6 vg = e6_b; enum e6 vh; fp7 vi;
int (*vj)(struct r8 *, t5); a8 vk; struct r8 *vl[2]; const struct r1 vm = {3}; extern struct r2 vn; t5 **vo; union u4 *vp; static t6 vq[2];
''', {
        'struct_r1': ('s', ()), 'struct_r2': ('s', ('struct_r1',)), 'struct_r3': ('s', ('struct_r2',)), 'union_u4': ('u', ('struct_r3',)),
        'struct_r5': ('s', ()), 't5': ('t', ('struct_r5',)), 'p5': ('t', ('t5',)), 'e6': ('e', ('e6_a', 'e6_b')), 'e6_a': ('E', ()), 'e6_b': ('E', ()),
        't6': ('t', ('e6', 't6__enumvalues')), 't6__enumvalues': ('E', ()), 'fp7': ('t', ('struct_r2',)), 'struct_r8': ('s', ()), 'a8': ('t', ('struct_r8',)),
        'va': ('d', ('struct_r1',)), 'vb': ('d', ('struct_r2',)), 'vc': ('d', ('struct_r3',)), 'vd': ('d', ('union_u4',)), 've': ('d', ('t5',)),
        'vf': ('d', ('p5',)), 'vg': ('d', ('t6',)), 'vh': ('d', ('e6',)), 'vi': ('d', ('fp7',)), 'vj': ('d', ('struct_r8', 't5')), 'vk': ('d', ('a8',)),
        'vl': ('d', ('struct_r8',)), 'vm': ('d', ('struct_r1',)), 'vn': ('d', ('struct_r2',)), 'vo': ('d', ('t5',)), 'vp': ('d', ('union_u4',)), 'vq': ('d', ('t6',)),
    }),
}
ALL = 'cdefstum'
REGEX = {
    'mix': ('f_', '^f_', 'f_int', '.*', '^$', 'z', 'struct_', 'struct_m', '_', 'e', '^(holder|callback)$', 'h.l', '[A-Z]+', 'NAME|LIMIT', 'v_(int|str)', 'color', '_t$', 'nomatch', 'top', '(?i)limit', 'mid(?!_t)', r'\bLIMIT\b', 'a{2}'),
    'back': ('z9', '^z9', 'y8$', 'b2', '[ab]', 'g_.*', 'd4', 'c3', '^z9t+$', 'h_', 'e_', 'struct_(a|b)'),
    'vars': ('v', '^v[a-h]$', 'r', '5', '6$', 'u4', 't', '[abc]$', 'fp7|vi', '.8'),
    'macros': ('m', '^m.$', 'm[tz]', 's$', 'mf|mv', '^me$', '^m[xy]'),
    'alike': ('ab', '^ab$', '^ab', 'ab$', 'a.b', 'AB', '^ab_', 'abc?', 'f', '^.ab$', '^ab_[mn]'),
}


class C10(engine.Check):
    id = 'C10'
    technique = 'explicit-state enumeration of selections (kinds, symbols, expressions) and of dependency graphs with every subset selected, replayed on the real translator'
    level_note = 'exhaustive within the stated sources and selection sizes'
    batch = 1
    rule = ('all kind sets, all symbol sets up to 2 (3), all expression lists up to 2, and their combinations, of three '
            'sources; every dependency graph of 2 and 3 records with every subset of records selected')
    assumptions = ['an enumeration constant is selected through its enumeration',
                   'when both symbols and expressions are given, a declaration matching only one of them may be generated or not',
                   'declarations needed through a pointer may be generated']

    def cases(self):
        th = self.thorough
        seen = set()

        def emit(src, kinds, syms=(), exprs=()):
            k = '%s/%s/%s/%s' % (src, kinds, ','.join(syms), ' & '.join(exprs))
            if k in seen:
                return []
            seen.add(k)
            return [engine.Case(k, (src, kinds, tuple(syms), tuple(exprs)))]
        for src, (text, model) in SOURCES.items():
            names = list(model) + ['no_such_name']
            for n in range(0, 8):
                for ks in itertools.combinations('defmstu', n):
                    yield from emit(src, ''.join(ks))
                    if n == 2:
                        yield from emit(src, ''.join(reversed(ks)))
            yield from emit(src, 'c')
            yield from emit(src, ALL)
            yield from emit(src, 'cs')
            yield from emit(src, 'a')
            for n in range(1, 4 if th and len(names) < 20 else 3):
                for ss in itertools.combinations(names, n):
                    for k in (ALL,) + (('cdefstu', 'tsu', 'f', 'd') if n == 1 or th else ()):
                        yield from emit(src, k, ss)
                    if n == 2 and (th or src == 'back'):
                        yield from emit(src, ALL, ss[::-1])
            rx = REGEX[src]
            for r in rx:
                for k in (ALL, 'cdefstu') + tuple('defmstu'):
                    yield from emit(src, k, (), (r,))
            for a, b in itertools.permutations(rx, 2):
                yield from emit(src, ALL, (), (a, b))
            for r in rx:
                for s in names if th else names[::3]:
                    yield from emit(src, ALL, (s,), (r,))
        # graphs
        for f in itertools.product('-pft' if th else '-pt', repeat=1):
            for b in itertools.product('-pvafV', repeat=1):
                for s in itertools.product('-p', repeat=2):
                    for op in '0fdvt':
                        m = s[0] + f[0] + b[0] + s[1]
                        for kk in ('ss', 'su', 'us'):
                            for sub in ((0,), (1,), (0, 1)):
                                yield engine.Case('graph/%s/%s/%s/%s' % (kk, m, op, sub), ('graph', kk, m, op, sub))
        fwd, back = ('-pt', '-pvaf') if th else ('-p', '-pv')
        for f in itertools.product(fwd, repeat=3):
            for b in itertools.product(back, repeat=3):
                m = '-' + f[0] + f[1] + b[0] + '-' + f[2] + b[1] + b[2] + '-'
                for sub in ((0,), (1,), (2,), (0, 1), (0, 2), (1, 2), (0, 1, 2)):
                    yield engine.Case('graph/sss/%s/0/%s' % (m, sub), ('graph', 'sss', m, '0', sub))

    def stats(self, case):
        return (1, 1, 1)

    def full(self, src):
        cache = self.__dict__.setdefault('_full', {})
        if src not in cache:
            ns = impl.load(impl.gen(SOURCES[src][0], kinds=ALL))
            cache[src] = canon.module(ns)
        return cache[src]

    @staticmethod
    def closure(model, names):
        out, todo = set(), list(names)
        while todo:
            n = todo.pop()
            if n in out:
                continue
            out.add(n)
            todo += model[n][1]
        return out

    def run_one(self, case):
        p = case.payload
        try:
            return self.graph(p) if p[0] == 'graph' else self.source(p)
        except AssertionError as e:
            return (str(e).split('\n')[0][:100], str(e))

    def source(self, p):
        src, kinds, syms, exprs = p
        text, model = SOURCES[src]
        try:
            full = self.full(src)
        except Exception as e:
            return ('translate:full:' + impl.exc_sig(e), impl.tb(e))
        try:
            out = impl.gen(text, kinds=kinds, symbols=list(syms), expressions=[re.compile(x) for x in exprs])
        except Exception as e:
            return ('translate:' + impl.exc_sig(e), impl.tb(e))
        try:
            ns = impl.load(out)
        except Exception as e:
            return ('load:' + impl.exc_sig(e), impl.tb(e) + impl.strip_text(out)[-1500:])
        ks = set(kinds.replace('c', 's'))
        cand = [n for n, (k, _) in model.items() if k in ks]
        bysym = [n for n in cand if n in syms]
        byexp = [n for n in cand if any(re.search(x, n) for x in exprs)]
        if syms and exprs:
            must, may = set(bysym) & set(byexp), set(bysym) | set(byexp)
        else:
            must = may = set(bysym if syms else byexp if exprs else cand)
        allow = self.closure(model, may)
        if 's' in ks:
            allow.add('struct_opaque')      # incomplete: optional
        got = set(ns['__all__'])
        detail = '\n' + '\n'.join(impl.strip_text(out).splitlines()[-40:])
        miss = sorted(must - got)
        assert not miss, 'selected but not generated: %s%s' % (miss[:4], detail)
        extra = sorted(n for n in got - allow)
        assert not extra, 'neither selected nor needed: %s%s' % (extra[:4], detail)
        if not (syms or exprs) and 'e' in ks:
            miss = [n for n, (k, _) in model.items() if k == 'E' and n not in got and '__' not in n]
            assert not miss, 'enumeration constants lost: %s%s' % (miss, detail)
        mine = canon.module(ns)
        d = canon.diff({n: full.get(n) for n in must}, {n: mine.get(n) for n in must})
        assert not d, 'differs from the unrestricted translation: %s%s' % (d, detail)
        return None

    def graph(self, p):
        _, kinds, mat, op, sub = p
        text, model = c09.C09.graph(None, 7, kinds, mat, op)
        nm = model[0]
        py = [{'s': 'struct_', 'u': 'union_'}[k] + n for k, n in zip(kinds, nm)]
        n = len(nm)
        try:
            full = canon.module(impl.load(impl.gen(text)))
            out = impl.gen(text, symbols=[py[i] for i in sub])
        except Exception as e:
            return ('translate:' + impl.exc_sig(e), text + impl.tb(e))
        try:
            ns = impl.load(out)
        except Exception as e:
            return ('load:' + impl.exc_sig(e), text + impl.tb(e) + impl.strip_text(out)[-1500:])
        reach, todo = set(), list(sub)
        while todo:
            i = todo.pop()
            if i not in reach:
                reach.add(i)
                todo += [j for j in range(n) if mat[i * n + j] != '-']
        names = {py[i] for i in reach} | {x % nm[i] for i in reach for x in ('P%s', 'V%s', 'C%s')}
        got = set(ns['__all__'])
        assert all(py[i] in got for i in sub), 'selected but not generated\n' + text
        extra = sorted(got - names)
        assert not extra, 'neither selected nor needed\n%s %s' % (extra, text)
        mine = canon.module(ns)
        d = canon.diff({py[i]: full.get(py[i]) for i in sub}, {py[i]: mine.get(py[i]) for i in sub})
        assert not d, 'differs from the unrestricted translation\n%s\n%s\n%s' % (d, text, impl.strip_text(out)[-1500:])
        return None


CHECK = C10

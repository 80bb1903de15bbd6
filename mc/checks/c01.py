"""C01: layouts of records without bit-fields, exhaustively over small
member sequences, nesting trees, attributes and targets."""
import itertools

from .. import cgen, engine, impl, oracle
from ..records import Rec, expr_of, verify

B = lambda s: ('b', s)
ALPHA = {
    'c': B('char'), 's': B('short'), 'i': B('int'), 'd': B('double'), 'L': B('long double'),
    'l': B('long'), 'q': B('long long'), 'p': ('p', B('int')), 'v': ('p', B('void')), 'b': B('_Bool'),
    'h': B('unsigned char'), 'f': B('float'), '3': ('a', B('char'), 3), '2': ('a', B('int'), 2),
    'm': ('a', ('a', B('short'), 3), 2), 'N': ('s', 'N1'), 'U': ('u', 'U1'), 'K': ('s', 'K1'),
    'A': ('s', 'A1'), 'F': ('p', ('f', B('int'), (B('int'),))), 'e': ('e', 'E1'),
    'n': ('a', ('s', 'N1'), 2), 'S': None, 'z': ('a', B('int'), 0), 'P': ('a', ('p', B('char')), 2),
    'V': ('q', 'volatile', B('short')), 'C': ('q', 'const', B('int')), 'W': ('a', ('u', 'U1'), 2),
    'Z': ('w', '_Complex double', B('double'), 2), 'G': ('w', '_Complex float', B('float'), 2),
    'X': ('w', 'V16', B('float'), 4), 'Y': ('w', 'V8', B('short'), 4), 'T': ('at', B('int')), 'Q': ('at', ('s', 'N1')),
    'J': ('a', ('w', '_Complex float', B('float'), 2), 3), 'R': ('a', ('at', B('short')), 3), 'O': ('a', ('w', 'V16', B('float'), 4), 2),
}
PRELUDE = '''
struct N1 { char nc; short ns; };
union U1 { int ui; char uc[6]; };
struct K1 { char kc; int ki; } __attribute__((packed));
struct A1 { char ac; } __attribute__((aligned(16)));
enum E1 { E1_A, E1_B = 5 };
typedef float V16 __attribute__((vector_size(4 * sizeof(float))));
typedef short V8 __attribute__((vector_size(8)));
'''
FULL = 'csidLlqpvbhf32mNUKAFenSzPVCWZGXYTQJRO'
MID = 'cisdp3NUKAXT'
SMALL = 'csid'
ATTRS = [('', '', None), ('P', '__attribute__((packed))', None), ('A', '__attribute__((aligned(32)))', None),
         ('B', '__attribute__((packed, aligned(4)))', None), ('2', '', 2), ('4', '', 4)]
MEMB_ATTR = {'': '', 'a': '__attribute__((aligned(8)))', 'k': '__attribute__((packed))',
             'x': '__attribute__((aligned(16)))'}
QTARGETS = ['i386-linux', 'x86_64-windows', 'arm', 'm68k', 'x32', 'aarch64', 'i686-windows']
TTARGETS = QTARGETS + ['x86_64-linux', 'mips', 'ppc64', 'riscv32', 'avr', 'msp430']


def flat(kind, word, attr=ATTRS[0], mattrs=None):
    ms = []
    for i, ch in enumerate(word):
        t = ALPHA[ch]
        if t is None:
            t = ('p', (kind, 'S@'))
        ms.append(('m%d' % i, t, MEMB_ATTR[mattrs[i]] if mattrs else ''))
    return Rec(kind, 'S@', ms, attr[1], attr[2])


def words(alpha, lo, hi):
    for n in range(lo, hi + 1):
        for w in itertools.product(alpha, repeat=n):
            yield ''.join(w)


NAMES = ['from', 'class', 'None', 'in', 'lambda', 'self', 'x1', '_x', '__x', '_', 'X', 'Union', 'Structure', 'ctypes',
         'struct_S', 'contents', 'value', 'size', 'offset', 'name', 'type', 'PADDING', 'padding_0', 'int32_t', 'c_int',
         'POINTER', 'a_very_long_member_name_that_goes_on_and_on_for_quite_a_while_to_stress_line_wrapping']


def _anon_typedef(r):
    tagged = Rec(r.kind, None, r.members, r.attr, r.pragma)
    nm = 'TD' + r.tag
    # no tag to refer to: members that point to the record itself use void*
    tagged.members = [(n, ('p', ('b', 'void')) if t == ('p', (r.kind, r.tag)) else t, a) if not isinstance(t, Rec)
                      else (n, t, a) for n, t, a in r.members]
    r.members = tagged.members
    return 'typedef %s %s;' % (tagged.text(), nm), nm, nm


FORMS = {
    'plain': lambda r: (r.definition(), expr_of(r), r.pyname()),
    'typedef': lambda r: ('typedef %s TD%s;' % (r.text(), r.tag), 'TD' + r.tag, 'TD' + r.tag),
    'typedef-tag': lambda r: ('typedef %s TD%s;' % (r.text(), r.tag), expr_of(r), r.pyname()),
    'typedef-anon': _anon_typedef,
    'typedef-before': lambda r: ('typedef %s TD%s; %s' % (expr_of(r), r.tag, r.definition()), expr_of(r), 'TD' + r.tag),
    'typedef-ptr': lambda r: ('typedef %s *TD%s; %s' % (expr_of(r), r.tag, r.definition()), expr_of(r), r.pyname()),
    'variable': lambda r: ('%s var%s;' % (r.text(), r.tag), expr_of(r), r.pyname()),
    'forward': lambda r: ('%s; %s' % (expr_of(r), r.definition()), expr_of(r), r.pyname()),
    'forward2': lambda r: ('%s; %s; %s %s;' % (expr_of(r), expr_of(r), r.definition(), expr_of(r)), expr_of(r),
                           r.pyname()),
    'ptr-first': lambda r: ('struct Q%s { %s *p; int k; }; %s' % (r.tag, expr_of(r), r.definition()), expr_of(r),
                            r.pyname()),
    'func-first': lambda r: ('%s; int fn%s(%s *p); %s' % (expr_of(r), r.tag, expr_of(r), r.definition()), expr_of(r),
                             r.pyname()),
    'in-other': lambda r: ('struct Q%s { char c; %s m; char d; };' % (r.tag, r.text()), expr_of(r), r.pyname()),
    'in-other-arr': lambda r: ('struct Q%s { char c; %s m[3]; char d; };' % (r.tag, r.text()), expr_of(r), r.pyname()),
    'in-other-ptr': lambda r: ('struct Q%s { char c; %s *m; char d; };' % (r.tag, r.text()), expr_of(r), r.pyname()),
    'ret': lambda r: ('%s; %s fn%s(void); %s' % (expr_of(r), expr_of(r), r.tag, r.definition()), expr_of(r), r.pyname()),
    'used-after': lambda r: ('%s %s *pv%s; int fn%s(%s a);' % (r.definition(), expr_of(r), r.tag, r.tag, expr_of(r)),
                             expr_of(r), r.pyname()),
}


def numbered(kind, seq):
    ms = []
    for i, (k, n) in enumerate(seq):
        nm = 'y%d' % i if n is None else '_%d' % n
        inner = [(nm, B('char'), ''), ('z%d' % i, B('int'), '')]
        if k in 'pf':
            ms.append((nm, B('short'), ''))
        elif k in 'ao':
            ms.append((None, Rec('s' if k == 'a' else 'u', None, inner), ''))
        else:
            # one level deeper
            ms.append((None, Rec('u', None, [('w%d' % i, B('char'), ''), (None, Rec('s' if k == 'A' else 'u', None, inner), '')]), ''))
    return Rec(kind, 'S@', ms)


# ---- nesting trees: a tree is a tuple of items; item = leaf char or
# (shape, tree) with shape in a=anon struct, o=anon union, s/u=named inline, r=array of inline struct,
# t/w = tagged inline struct/union with a name, q = 2-d array of inline union
LEAVES = 'cd'


def trees(nodes, depth, shapes):
    """all member lists with exactly `nodes` nodes (an inner node counts 1)"""
    if nodes == 0:
        yield ()
        return
    # first item leaf
    for rest in trees(nodes - 1, depth, shapes):
        for lf in LEAVES:
            yield (lf,) + rest
    if depth > 0:
        for k in range(1, nodes):
            for inner in trees(k, depth - 1, shapes):
                if not inner:
                    continue
                for rest in trees(nodes - 1 - k, depth, shapes):
                    for sh in shapes:
                        yield ((sh, inner),) + rest


def tree_rec(kind, tree, attr=''):
    counter = itertools.count()

    def members(tr):
        out = []
        for it in tr:
            n = 'm%d' % next(counter)
            if isinstance(it, str):
                out.append((n, ALPHA[it], ''))
                continue
            sh, inner = it
            ik = 'u' if sh in 'ouwq' else 's'
            tag = 'T@_%s' % n if sh in 'tw' else None
            r = Rec(ik, tag, members(inner))
            if sh in 'ao':
                out.append((None, r, ''))
            elif sh == 'r':
                out.append((n, ('arr', r, (2,)), ''))
            elif sh == 'q':
                out.append((n, ('arr', r, (2, 3)), ''))
            else:
                out.append((n, r, ''))
        return out
    return Rec(kind, 'S@', members(tree), attr)


def tree_key(tr):
    return ''.join(it if isinstance(it, str) else '%s(%s)' % (it[0], tree_key(it[1])) for it in tr)


class C01(engine.Check):
    id = 'C01'
    technique = 'bounded exhaustive enumeration of record definitions, each replayed on the real translator'
    batch = 40
    rule = ('state = record definition built by appending a member/nesting item/attribute (BFS by length); '
            'transition = that append; every state is translated by the real code and compared (size, member names '
            'and order, offsets, sizes, element types) with gcc (host) or the clang constant evaluator (targets)')
    assumptions = ('the host compiler and the clang constant evaluator lay records out correctly',)

    def cases(self):
        T = self.thorough
        mk = lambda fam, tgt, key, rec: engine.Case('%s/%s/%s' % (fam, tgt, key), (tgt, rec))
        for k in 'su':
            yield mk('flat', 'host', k + ':', ('flat', k, '', 0))
            for w in words(FULL, 1, 2):
                yield mk('flat', 'host', k + ':' + w, ('flat', k, w, 0))
            for w in words(FULL if T else MID, 3, 3):
                yield mk('flat', 'host', k + ':' + w, ('flat', k, w, 0))
            for w in words(SMALL if not T else 'csidpK', 4, 5 if k == 's' or T else 4):
                yield mk('flat', 'host', k + ':' + w, ('flat', k, w, 0))
            for ai in range(1, len(ATTRS)):
                for w in words(FULL if ai == 1 or T else MID, 1, 2):
                    yield mk('attr' + ATTRS[ai][0], 'host', k + ':' + w, ('flat', k, w, ai))
                for w in words('csdNA' if not T else MID, 3, 3):
                    yield mk('attr' + ATTRS[ai][0], 'host', k + ':' + w, ('flat', k, w, ai))
        if T:
            for w in words('csid', 6, 6):
                yield mk('flat', 'host', 's:' + w, ('flat', 's', w, 0))
            for w in words('csid', 4, 5):
                yield mk('attrP', 'host', 's:' + w, ('flat', 's', w, 1))
        # per-member attributes
        for n in (1, 2, 3):
            for w in words('cid' if n < 3 or T else 'ci', n, n):
                for ma in itertools.product(MEMB_ATTR, repeat=n):
                    if not any(ma):
                        continue
                    for k in 'su' if n < 3 else 's':
                        yield mk('mattr', 'host', '%s:%s+%s' % (k, w, ','.join(ma)), ('mattr', k, w, ma))
        # flexible and zero-length tails
        for w in words('csidNA', 1, 2 if not T else 3):
            for tail in ('char', 'int', 'double', 'struct N1', 'int *'):
                for n in (None, 0):
                    yield mk('flex', 'host', '%s+%s[%s]' % (w, tail, '' if n is None else n), ('flex', w, tail, n))
        # nesting
        shapes = 'aosurtwq'
        for k in 'su':
            for n in range(2, 5 if not T else 6):
                for tr in trees(n, 2 if n > 3 else 3, shapes if n < 5 else 'aosu'):
                    if all(isinstance(x, str) for x in tr):
                        continue
                    yield mk('tree', 'host', k + ':' + tree_key(tr), ('tree', k, tr))
        # targets
        for tg in (TTARGETS if T else QTARGETS):
            for k in 'su':
                for w in words(FULL, 1, 1):
                    yield mk('flat', tg, k + ':' + w, ('flat', k, w, 0))
                for w in words(FULL if T else 'csidlqLp3NAFmZXT', 2, 2):
                    yield mk('flat', tg, k + ':' + w, ('flat', k, w, 0))
            for w in words('csidlqpL' if T else 'cidqp', 3, 3):
                yield mk('flat', tg, 's:' + w, ('flat', 's', w, 0))
            for w in words('cqdp', 2, 2):
                for ai in range(1, len(ATTRS)):
                    yield mk('attr' + ATTRS[ai][0], tg, 's:' + w, ('flat', 's', w, ai))
            for tr in itertools.chain(trees(2, 2, 'aosur'), trees(3, 2, 'aosur')):
                if not all(isinstance(x, str) for x in tr):
                    yield mk('tree', tg, 's:' + tree_key(tr), ('tree', 's', tr))

        # sizes: array lengths, alignments, gaps, member counts, depth chains
        lens = [1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 1000,
                1024, 4095, 4096, 65535, 65536, 100000]
        for tg in ('host', 'i386-linux'):
            for n in lens:
                for el in 'csidpNK':
                    for tail in ('', 'c', 'd'):
                        ms = [('m0', ('a', ALPHA[el], n), '')] + [('m1', ALPHA[t], '') for t in tail]
                        yield mk('arrlen', tg, '%s[%d]%s' % (el, n, tail), ('rec', Rec('s', 'S@', ms)))
                        if tail:
                            yield mk('arrlen', tg, 'u:%s[%d]%s' % (el, n, tail), ('rec', Rec('u', 'S@', ms)))
                            yield mk('arrlen', tg, '%s%s[%d]' % (tail, el, n),
                                     ('rec', Rec('s', 'S@', [('m1', ms[1][1], ''), ('m0', ms[0][1], '')])))
            for al in (1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 4096):
                for w in words('cid', 1, 2):
                    for where in ('rec', 'm0', 'm1'):
                        if where == 'm1' and len(w) < 2:
                            continue
                        for k in 'su':
                            at = '__attribute__((aligned(%d)))' % al
                            r = flat(k, w)
                            if where == 'rec':
                                r.attr = at
                            else:
                                r.members = [(n, t, at if n == where else '') for n, t, _ in r.members]
                            yield mk('align', tg, '%s:%s/%s=%d' % (k, w, where, al), ('rec', r))
                for pk in (1, 2, 4, 8, 16):
                    for w in words('csqd', 2, 2):
                        if al <= 16:
                            r = flat('s', w)
                            r.pragma = pk
                            r.members[1] = ('m1', r.members[1][1], '__attribute__((aligned(%d)))' % al)
                            yield mk('packalign', tg, '%s/pack%d/al%d' % (w, pk, al), ('rec', r))
            for n in list(range(6, 41)) + [64, 100]:
                for pat in ('c', 'i', 'cd', 'cid', 'Nc', 'cp', 'sci', 'dc'):
                    yield mk('many', tg, '%s*%d' % (pat, n), ('flat', 's', (pat * n)[:n], 0))
                    yield mk('many', tg, 'u:%s*%d' % (pat, n), ('flat', 'u', (pat * n)[:n], 0))
                    yield mk('many', tg, 'P:%s*%d' % (pat, n), ('flat', 's', (pat * n)[:n], 1))
            for n in range(3, 9):
                for sh in itertools.product('aosr' if n < 5 else 'ao', repeat=n) if n < 7 else [
                        tuple(x * n)[:n] for x in ('a', 'o', 's', 'r', 'ao', 'as', 'ou')]:
                    for where in ('first', 'last'):
                        tr = ('c',)
                        for x in sh:
                            tr = ((x, tr), 'd') if where == 'first' else ('c', (x, tr))
                        yield mk('deep', tg, '%s:%s' % (''.join(sh), where), ('tree', 's', tr))
            for dims in [d for n in (2, 3, 4) for d in itertools.product((1, 2, 3, 5), repeat=n)]:
                t = B('short')
                for d in reversed(dims):
                    t = ('a', t, d)
                yield mk('dims', tg, 'c' + str(dims), ('rec', Rec('s', 'S@', [('m0', B('char'), ''), ('m1', t, '')])))
        # names
        for nm in NAMES:
            for other in ('', 'x'):
                for w in ('c', 'ci', 'Nc'):
                    ms = [(nm if i == 0 else 'y%d' % i, ALPHA[ch], '') for i, ch in enumerate(w)]
                    for k in 'su':
                        if other:
                            ms2 = [('x', B('char'), '')] + ms
                        else:
                            ms2 = ms
                        yield mk('names', 'host', '%s:%s%s+%s' % (k, other, w, nm), ('rec', Rec(k, 'S@', ms2)))
            for k in 'su':
                yield mk('tagnames', 'host', '%s:%s' % (k, nm), ('rec', Rec(k, 'S@' + nm, flat(k, 'ci').members)))
                yield mk('tagnames', 'host', '%s:%s_' % (k, nm), ('rec', Rec(k, nm + '_@', flat(k, 'ci').members)))
                for sh in (('s', 'named'), ('u', 'named')):
                    inner = Rec(sh[0], None, [('i0', B('char'), ''), ('i1', B('int'), '')])
                    yield mk('nestnames', 'host', '%s:%s%s' % (k, sh[0], nm),
                             ('rec', Rec(k, 'S@', [(nm, inner, ''), ('z', B('char'), '')])))
                    inner = Rec(sh[0], None, [(nm, B('char'), ''), ('i1', B('int'), '')])
                    yield mk('nestnames', 'host', '%s:%s{%s}' % (k, sh[0], nm),
                             ('rec', Rec(k, 'S@', [('z0', B('char'), ''), (None, inner, ''), ('z', B('char'), '')])))
        # members with names like those of padding
        for n in (1, 2, 3, 4) if T else (1, 2, 3):
            for l in itertools.product('csi', repeat=n):
                for nms in itertools.product((None, 0, 1, 2), repeat=n):
                    used = [x for x in nms if x is not None]
                    if used and len(set(used)) == len(used):
                        for k, attr in (('s', ''), ('u', ''), ('s', '__attribute__((aligned(16)))'), ('u', '__attribute__((aligned(16)))')):
                            yield mk('padnames', 'host', '%s:%s%s:%s' % (k, ''.join(l), attr and '16', ' '.join(map(str, nms))), ('rec', Rec(
                                k, 'S@', [('m%d' % i if x is None else 'PADDING_%d' % x, ALPHA[ch], '') for i, (ch, x) in enumerate(zip(l, nms))], attr)))
        # members with names like those of unnamed members
        items = [('p', None)] + [(k, n) for k in 'faoAO' for n in (0, 1, 2)] + [('a', None), ('o', None)]
        for k in 'su':
            for n in (1, 2, 3, 4) if T else (1, 2, 3):
                for seq in itertools.product(items, repeat=n):
                    used = [x for _, x in seq if x is not None]
                    if len(set(used)) != len(used) or n == 4 and k == 'u':
                        continue
                    yield mk('numbered', 'host', '%s:%s' % (k, ' '.join('%s%s' % (a, '' if b is None else b) for a, b in seq)), ('rec', numbered(k, seq)))
        # records with the names that are made for unnamed ones
        for tr in itertools.chain(*[trees(n, 2, 'aosurq') for n in ((2, 3, 4) if T else (2, 3))]):
            if all(isinstance(x, str) for x in tr):
                continue
            for suffix in ('0', '1', 'm0', 'm1', 'm2', '0_0', 'm0_m1', 'm1_m2', '0_m1', 'm0_0', '1_0', '0_', 'm1_0', '1_m2', '0_m2'):
                for k in 'su':
                    for body in ('c', 'i') if T else ('c',):
                        for kind in 'su' if T or len(tr) < 3 else 's':
                            a = tree_rec(kind, tr)
                            b = Rec(k, 'S@_' + suffix, [('z', ('a', ALPHA[body], 77), '')])
                            b2 = Rec(k, 'S@_' + suffix, [('z', ALPHA[body], ''), ('m1', Rec('s', None, [('w', ('a', ALPHA[body], 55), '')]), ''), (None, Rec('u', None, [('q', ('a', ALPHA[body], 33), '')]), '')])
                            for order, ms in (('ab', (a, b)), ('ba', (b, a)), ('aB', (a, b2)), ('Ba', (b2, a))):
                                yield mk('clash', 'host', '%s:%s/%s%s %s%s' % (kind, tree_key(tr), k, suffix, body, order),
                                         ('rec', Rec('s', 'X@', [('y%d' % i, m, '') for i, m in enumerate(ms)])))
        # the ways a definition can appear
        for form in FORMS:
            for k in 'su':
                for w in ('c', 'ci', 'cd', 'dc', 'NcU', 'cSc', 'SF', 'Lc', 'c3n', 'icd'):
                    yield mk('form', 'host', '%s/%s:%s' % (form, k, w), ('flat', k, w, 0, form))
                for tr in (('c', ('a', ('c', 'd'))), ('c', ('o', ('c', 'd')), 'c'), (('s', ('d', 'c')), 'c'),
                           (('t', ('d', 'c')), 'c'), ('c', ('a', (('o', ('c', 'd')), 'c')))):
                    yield mk('form', 'host', '%s/%s:%s' % (form, k, tree_key(tr)), ('tree', k, tr, form))

    def group(self, case):
        return case.payload[0]

    @staticmethod
    def build(p):
        if p[0] == 'rec':
            return p[1]
        if p[0] == 'flat':
            return flat(p[1], p[2], ATTRS[p[3]])
        if p[0] == 'mattr':
            return flat(p[1], p[2], ATTRS[0], p[3])
        if p[0] == 'flex':
            r = flat('s', p[1])
            r.members.append(('tail', ('a', {'char': B('char'), 'int': B('int'), 'double': B('double'),
                                             'struct N1': ('s', 'N1'), 'int *': ('p', B('int'))}[p[2]], p[3]), ''))
            return r
        if p[0] == 'tree':
            return tree_rec(p[1], p[2])
        raise ValueError(p)

    def run_batch(self, cases):
        tgt = cases[0].payload[0]
        target = oracle.target(tgt)
        recs, src, queries, spans = [], [PRELUDE], [], []
        for i, c in enumerate(cases):
            r = subst(self.build(c.payload[1]), str(i))
            form = FORMS.get(c.payload[1][4] if c.payload[1][0] == 'flat' and len(c.payload[1]) > 4 else
                             c.payload[1][3] if c.payload[1][0] == 'tree' and len(c.payload[1]) > 3 else 'plain')
            text, texpr, pyname = form(r)
            recs.append((r, pyname))
            src.append(text)
            q = r.queries(texpr)
            spans.append((len(queries), len(queries) + len(q)))
            queries += q
        text = '\n'.join(src) + '\n'
        vals = oracle.consts(text, queries, tgt)
        try:
            out = impl.gen(text, target.opts)
        except Exception as e:
            raise self.BatchFailed(('translate:' + impl.exc_sig(e), impl.tb(e) + '\n' + text[-1500:]))
        try:
            ns = impl.load(out)
        except Exception as e:
            raise self.BatchFailed(('load:' + impl.exc_sig(e), impl.tb(e) + '\n' + impl.strip_text(out)[-3000:]))
        env = cgen.Env(ns, target)
        res = []
        for i, (r, pyname) in enumerate(recs):
            cls = ns.get(pyname)
            bad = 'class missing' if cls is None else verify(cls, r, vals[slice(*spans[i])], env)
            res.append(None if bad is None else (bad.replace('S%d' % i, 'S@').replace('T%d_' % i, 'T@_'),
                                                 r.definition()))
        return res

    def stats(self, case):
        p = case.payload[1]
        return (1, 1, 1)


def subst_t(t, s):
    if isinstance(t, Rec):
        return subst(t, s)
    if isinstance(t, tuple):
        return tuple(subst_t(x, s) for x in t)
    if isinstance(t, str):
        return t.replace('@', s)
    return t


def subst(r, s):
    return Rec(r.kind, r.tag.replace('@', s) if r.tag else None,
               [(n, subst_t(t, s), a) for n, t, a in r.members], r.attr, r.pragma)


CHECK = C01
